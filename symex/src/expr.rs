//! Hash-consed bit-vector terms with local simplification and unsigned interval facts.
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Const(u128),
    Var(u32),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Concat(E, E), // hi, lo
    Extract(E, u16), // from bit lo, width = node width
    ZExt(E),
    SExt(E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Ite(E, E, E),
    Ctpop(E),
}

#[derive(Clone)]
pub struct Node {
    pub n: N,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
    pub vars: u32, // var-set id
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u16), E, std::hash::BuildHasherDefault<Fx>>,
    pub sets: Vec<Rc<Vec<u32>>>,
    set_map: HashMap<Rc<Vec<u32>>, u32>,
    union_memo: HashMap<(u32, u32), u32>,
    memo_val: Vec<u128>,
    memo_ep: Vec<u32>,
    epoch: u32,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}

pub const FALSE: E = 1;
pub const TRUE: E = 2;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: HashMap::default(),
            sets: vec![Rc::new(vec![])],
            set_map: HashMap::new(),
            union_memo: HashMap::new(),
            memo_val: vec![],
            memo_ep: vec![],
            epoch: 0,
        };
        a.set_map.insert(a.sets[0].clone(), 0);
        a.nodes.push(Node { n: N::Const(0), w: 0, lo: 0, hi: 0, vars: 0 }); // id 0: "no expression"
        let f = a.c(0, 1);
        let t = a.c(1, 1);
        assert!(f == FALSE && t == TRUE);
        a
    }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn konst(&self, e: E) -> Option<u128> {
        if let N::Const(k) = self.nodes[e as usize].n { Some(k) } else { None }
    }
    fn n(&self, e: E) -> N { self.nodes[e as usize].n }
    pub fn range(&self, e: E) -> (u128, u128) { let x = &self.nodes[e as usize]; (x.lo, x.hi) }
    pub fn vars_of(&self, e: E) -> &Rc<Vec<u32>> { &self.sets[self.nodes[e as usize].vars as usize] }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = (a.min(b), a.max(b));
        if let Some(r) = self.union_memo.get(&k) { return *r; }
        let (x, y) = (self.sets[a as usize].clone(), self.sets[b as usize].clone());
        let mut v: Vec<u32> = x.iter().chain(y.iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let id = if let Some(i) = self.set_map.get(&v) { *i } else {
            let rc = Rc::new(v);
            self.sets.push(rc.clone());
            let i = (self.sets.len() - 1) as u32;
            self.set_map.insert(rc, i);
            i
        };
        self.union_memo.insert(k, id);
        id
    }
    fn kids(n: &N) -> [E; 3] {
        use N::*;
        match *n {
            Const(_) | Var(_) => [0, 0, 0],
            Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | URem(a, b) | SDiv(a, b) | SRem(a, b) | And(a, b) | Or(a, b)
            | Xor(a, b) | Shl(a, b) | LShr(a, b) | AShr(a, b) | Concat(a, b) | Eq(a, b) | Ult(a, b) | Ule(a, b) | Slt(a, b) | Sle(a, b) => [a, b, 0],
            Extract(a, _) | ZExt(a) | SExt(a) | Ctpop(a) => [a, 0, 0],
            Ite(a, b, c) => [a, b, c],
        }
    }
    pub fn kids_of(&self, e: E) -> [E; 3] { Self::kids(&self.n(e)) }
    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.map.get(&(n, w as u16)) { return *e; }
        let k = Self::kids(&n);
        let mut vs = 0;
        for x in k { if x != 0 { vs = self.union(vs, self.nodes[x as usize].vars); } }
        let (lo, hi) = self.interval(&n, w);
        if lo == hi && !matches!(n, N::Const(_)) {
            let e = self.c(lo, w);
            self.map.insert((n, w as u16), e);
            return e;
        }
        self.nodes.push(Node { n, w: w as u16, lo, hi, vars: vs });
        let e = (self.nodes.len() - 1) as E;
        self.map.insert((n, w as u16), e);
        e
    }
    pub fn c(&mut self, k: u128, w: u32) -> E {
        let k = k & mask(w);
        let n = N::Const(k);
        if let Some(e) = self.map.get(&(n, w as u16)) { return *e; }
        self.nodes.push(Node { n, w: w as u16, lo: k, hi: k, vars: 0 });
        let e = (self.nodes.len() - 1) as E;
        self.map.insert((n, w as u16), e);
        e
    }
    /// Variable `i` of width w. `lo..=hi` are facts asserted where the variable is made.
    pub fn var(&mut self, i: u32, w: u32, lo: u128, hi: u128) -> E {
        // different ranges make different nodes for the same (i, w): encode them in the set key
        let key = (N::Var(i), w as u16);
        if let Some(e) = self.map.get(&key) {
            let nd = &self.nodes[*e as usize];
            if nd.lo == lo && nd.hi == hi { return *e; }
        }
        let v = vec![i];
        let vs = if let Some(s) = self.set_map.get(&v) { *s } else {
            let rc = Rc::new(v);
            self.sets.push(rc.clone());
            let id = (self.sets.len() - 1) as u32;
            self.set_map.insert(rc, id);
            id
        };
        self.nodes.push(Node { n: N::Var(i), w: w as u16, lo, hi, vars: vs });
        let e = (self.nodes.len() - 1) as E;
        self.map.insert(key, e);
        e
    }
    fn interval(&self, n: &N, w: u32) -> (u128, u128) {
        use N::*;
        let m = mask(w);
        let r = |e: E| self.range(e);
        let full = (0, m);
        match *n {
            Const(k) => (k, k),
            Var(_) => full,
            Add(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                match ah.checked_add(bh) { Some(h) if h <= m => (al + bl, h), _ => {
                    // both wrap?
                    full
                } }
            }
            Sub(a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); if al >= bh { (al - bh, ah - bl) } else { full } }
            Mul(a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => full } }
            UDiv(a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); if bl > 0 { (al / bh, ah / bl) } else { full } }
            URem(a, b) => { let (_, ah) = r(a); let (bl, bh) = r(b); if bl > 0 { (0, ah.min(bh - 1)) } else { full } }
            And(a, b) => (0, r(a).1.min(r(b).1)),
            Or(a, b) | Xor(a, b) => {
                let h = r(a).1 | r(b).1;
                let bits = 128 - h.leading_zeros();
                (if let Or(..) = n { r(a).0.max(r(b).0) } else { 0 }, mask(bits).min(m))
            }
            Shl(a, b) => {
                if let Some(k) = self.konst(b) { let (al, ah) = r(a); if k < 128 && ah.leading_zeros() as u128 >= k && (ah << k) <= m { return (al << k, ah << k); } }
                full
            }
            LShr(a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); (if bh < w as u128 { al >> bh } else { 0 }, if bl < w as u128 { ah >> bl } else { 0 }) }
            ZExt(a) => r(a),
            Ctpop(_) => (0, (w as u128).min(m)),
            Concat(a, b) => { let lw = self.w(b); let (al, ah) = r(a); let (bl, bh) = r(b); if al == ah { ((al << lw) | bl, (ah << lw) | bh) } else { (al << lw, (ah << lw) | mask(lw)) } }
            Extract(a, lo) => {
                let (al, ah) = r(a);
                if (ah >> lo) <= m { if lo == 0 { (al, ah) } else { (al >> lo, ah >> lo) } } else { full }
            }
            Ite(_, a, b) => (r(a).0.min(r(b).0), r(a).1.max(r(b).1)),
            Eq(a, b) => {
                let (al, ah) = r(a); let (bl, bh) = r(b);
                if ah < bl || bh < al { (0, 0) } else if al == ah && bl == bh && al == bl { (1, 1) } else { (0, 1) }
            }
            Ult(a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); if ah < bl { (1, 1) } else if al >= bh { (0, 0) } else { (0, 1) } }
            Ule(a, b) => { let (al, ah) = r(a); let (bl, bh) = r(b); if ah <= bl { (1, 1) } else if al > bh { (0, 0) } else { (0, 1) } }
            Slt(a, b) | Sle(a, b) => {
                let wa = self.w(a);
                let sm = 1u128 << (wa - 1);
                let (al, ah) = r(a); let (bl, bh) = r(b);
                let cls = |l: u128, h: u128| if h < sm { Some((l as i128, h as i128)) } else if l >= sm { Some((sext(l, wa), sext(h, wa))) } else { None };
                if let (Some((al, ah)), Some((bl, bh))) = (cls(al, ah), cls(bl, bh)) {
                    if let Slt(..) = n { if ah < bl { return (1, 1); } if al >= bh { return (0, 0); } }
                    else { if ah <= bl { return (1, 1); } if al > bh { return (0, 0); } }
                }
                (0, 1)
            }
            SExt(a) => { let wa = self.w(a); let (al, ah) = r(a); if ah < (1u128 << (wa - 1)) { (al, ah) } else { full } }
            SDiv(a, b) => { let wa = self.w(a); let s = 1u128 << (wa - 1); let (al, ah) = r(a); let (bl, bh) = r(b); if ah < s && bh < s && bl > 0 { (al / bh, ah / bl) } else { full } }
            SRem(a, b) => { let wa = self.w(a); let s = 1u128 << (wa - 1); let (_, ah) = r(a); let (bl, bh) = r(b); if ah < s && bh < s && bl > 0 { (0, ah.min(bh - 1)) } else { full } }
            AShr(a, b) => { let s = 1u128 << (w - 1); let (al, ah) = r(a); if let Some(k) = self.konst(b) { if ah < s && k < w as u128 { return (al >> k, ah >> k); } } full }
        }
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_add(y), w),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            (Some(_), None) => return self.add(b, a),
            (None, Some(y)) => {
                if let N::Add(p, q) = self.n(a) { if let Some(z) = self.konst(q) { let k = self.c(y.wrapping_add(z), w); return self.add(p, k); } }
                return self.mk(N::Add(a, b), w);
            }
            _ => {}
        }
        // (x + c) + y -> (x + y) + c
        if let N::Add(p, q) = self.n(a) { if self.konst(q).is_some() { let s = self.add(p, b); return self.add(s, q); } }
        if let N::Add(p, q) = self.n(b) { if self.konst(q).is_some() { let s = self.add(a, p); return self.add(s, q); } }
        // x - y + y
        if let N::Sub(p, q) = self.n(a) { if q == b { return p; } }
        if let N::Sub(p, q) = self.n(b) { if q == a { return p; } }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::Add(a, b), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_sub(y), w),
            (None, Some(y)) => { let k = self.c(y.wrapping_neg(), w);
                // keep interval-friendly form when no underflow is possible
                if y == 0 { return a; }
                if let N::Add(..) = self.n(a) { return self.add(a, k); }
                if self.range(a).0 >= y { return self.mk(N::Sub(a, b), w); }
                return self.add(a, k); }
            _ => {}
        }
        if let N::Add(p, q) = self.n(a) { if p == b { return q; } if q == b { return p; } }
        self.mk(N::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (_, Some(0)) => return b,
            (_, Some(1)) => return a,
            (None, Some(y)) => {
                if y.is_power_of_two() { let k = self.c(y.trailing_zeros() as u128, w); return self.shl(a, k); }
                if let N::Mul(p, q) = self.n(a) { if let Some(z) = self.konst(q) { let k = self.c(y.wrapping_mul(z), w); return self.mul(p, k); } }
                return self.mk(N::Mul(a, b), w);
            }
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x / y, w),
            (_, Some(1)) => return a,
            (_, Some(y)) if y.is_power_of_two() => { let k = self.c(y.trailing_zeros() as u128, w); return self.lshr(a, k); }
            _ => {}
        }
        if self.range(a).1 < self.range(b).0 { return self.c(0, w); }
        // (x * k) / k with no overflow
        if let (N::Mul(p, q), Some(y)) = (self.n(a), self.konst(b)) {
            if let Some(z) = self.konst(q) {
                if let Some(h) = self.range(p).1.checked_mul(z) { if h <= mask(w) && z % y == 0 { let k = self.c(z / y, w); return self.mul(p, k); } }
            }
        }
        self.mk(N::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x % y, w),
            (_, Some(1)) => return self.c(0, w),
            (_, Some(y)) if y.is_power_of_two() => { let k = self.c(y - 1, w); return self.and(a, k); }
            _ => {}
        }
        if self.range(a).1 < self.range(b).0 { return a; }
        self.mk(N::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { if y != 0 { return self.c(sext(x, w).wrapping_div(sext(y, w)) as u128, w); } }
        let s = 1u128 << (w - 1);
        if self.range(a).1 < s && self.range(b).1 < s { return self.udiv(a, b); }
        self.mk(N::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { if y != 0 { return self.c(sext(x, w).wrapping_rem(sext(y, w)) as u128, w); } }
        let s = 1u128 << (w - 1);
        if self.range(a).1 < s && self.range(b).1 < s { return self.urem(a, b); }
        self.mk(N::SRem(a, b), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(y)) => {
                if y == 0 { return b; }
                if y == mask(w) { return a; }
                // low mask: zext(extract)
                if (y + 1).is_power_of_two() {
                    let k = y.trailing_ones();
                    if self.range(a).1 <= y { return a; }
                    let x = self.extract(a, 0, k);
                    return self.zext(x, w);
                }
                // high mask (clears low bits)
                let tz = y.trailing_zeros();
                if y == mask(w) & !mask(tz) {
                    let h = self.extract(a, tz, w - tz);
                    let z = self.c(0, tz);
                    return self.concat(h, z);
                }
                if let N::And(p, q) = self.n(a) { if let Some(z) = self.konst(q) { let k = self.c(y & z, w); return self.and(p, k); } }
                // contiguous mask in the middle
                let sh = y >> tz;
                if (sh + 1).is_power_of_two() {
                    let k = sh.trailing_ones();
                    let x = self.extract(a, tz, k);
                    let z = self.c(0, tz);
                    let c = self.concat(x, z);
                    return self.zext(c, w);
                }
                return self.mk(N::And(a, b), w);
            }
            _ => {}
        }
        if w == 1 {
            let na = self.not(a);
            if na == b { return FALSE; }
            if let N::And(p, q) = self.n(b) { if p == a || q == a { return b; } if p == na || q == na { return FALSE; } }
            let nb = self.not(b);
            if let N::And(p, q) = self.n(a) { if p == b || q == b { return a; } if p == nb || q == nb { return FALSE; } }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::And(a, b), w)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(y)) => { if y == 0 { return a; } if y == mask(w) { return b; } }
            _ => {}
        }
        if w == 1 {
            let na = self.not(a);
            let nb = self.not(b);
            let x = self.and(na, nb);
            return self.not(x);
        }
        // disjoint parts: zext(lo) | concat(hi, 0)  etc.
        if let Some(e) = self.merge_or(a, b) { return e; }
        if let Some(e) = self.merge_or(b, a) { return e; }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::Or(a, b), w)
    }
    /// a has zero low k bits, b fits in k bits
    fn merge_or(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let bh = self.range(b).1;
        let k = 128 - bh.leading_zeros();
        let tz = self.trailing_zeros(a);
        if tz >= k && tz > 0 && tz < w {
            let hi = self.extract(a, tz, w - tz);
            let lo = self.extract(b, 0, tz);
            return Some(self.concat(hi, lo));
        }
        None
    }
    fn trailing_zeros(&self, e: E) -> u32 {
        match self.n(e) {
            N::Const(0) => self.w(e),
            N::Const(k) => k.trailing_zeros(),
            N::Concat(h, l) => { let t = self.trailing_zeros(l); if t == self.w(l) { t + self.trailing_zeros(h) } else { t } }
            N::ZExt(a) => { let t = self.trailing_zeros(a); if t == self.w(a) { self.w(e) } else { t } }
            N::Shl(a, k) => match self.konst(k) { Some(k) => ((k as u32).saturating_add(self.trailing_zeros(a))).min(self.w(e)), None => 0 },
            N::Add(a, b) | N::Or(a, b) => self.trailing_zeros(a).min(self.trailing_zeros(b)),
            N::Mul(a, b) => (self.trailing_zeros(a) + self.trailing_zeros(b)).min(self.w(e)),
            _ => 0,
        }
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                if let N::Xor(p, q) = self.n(a) { if let Some(z) = self.konst(q) { let k = self.c(y ^ z, w); return self.xor(p, k); } }
                if w == 1 {
                    // not
                    match self.n(a) {
                        N::Ult(x, y) => return self.ule(y, x),
                        N::Ule(x, y) => return self.ult(y, x),
                        N::Slt(x, y) if self.konst(y) != Some(0) => return self.sle(y, x),
                        N::Sle(x, y) => return self.slt(y, x),
                        _ => {}
                    }
                }
                return self.mk(N::Xor(a, b), w);
            }
            _ => {}
        }
        if w == 1 {
            // a xor b == not (a == b)
            let e = self.eq(a, b);
            return self.not(e);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::Xor(a, b), w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.xor(a, m)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.c(0, w); }
            if let Some(x) = self.konst(a) { return self.c(x << k, w); }
            let k = k as u32;
            let x = self.extract(a, 0, w - k);
            let z = self.c(0, k);
            return self.concat(x, z);
        }
        self.mk(N::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.c(0, w); }
            let k = k as u32;
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        self.mk(N::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k == 0 { return a; }
            let k = k.min(w as u128 - 1) as u32;
            if let Some(x) = self.konst(a) { return self.c((sext(x, w) >> k) as u128, w); }
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        if self.range(a).1 < (1u128 << (w - 1)) { return self.lshr(a, b); }
        self.mk(N::AShr(a, b), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        if wh == 0 { return l; }
        if wl == 0 { return h; }
        let w = wh + wl;
        match (self.konst(h), self.konst(l)) {
            (Some(x), Some(y)) => return self.c((x << wl) | y, w),
            (Some(0), None) => return self.zext(l, w),
            _ => {}
        }
        if let (N::Extract(a, la), N::Extract(b, lb)) = (self.n(h), self.n(l)) {
            if a == b && la as u32 == lb as u32 + wl { return self.extract(a, lb as u32, w); }
        }
        if let (N::ZExt(z), N::Extract(b, lb)) = (self.n(h), self.n(l)) {
            if let N::Extract(a, la) = self.n(z) { if a == b && la as u32 == lb as u32 + wl { let x = self.extract(a, lb as u32, self.w(z) + wl); return self.zext(x, w); } }
        }
        // concat(h, concat(x, y)) where h and x merge
        if let N::Concat(x, y) = self.n(l) {
            if let (N::Extract(a, la), N::Extract(b, lb)) = (self.n(h), self.n(x)) {
                if a == b && la as u32 == lb as u32 + self.w(x) { let m = self.concat(h, x); return self.concat(m, y); }
            }
            if self.konst(h).is_some() && self.konst(x).is_some() { let m = self.concat(h, x); return self.concat(m, y); }
        }
        // extract(a, k..) ++ a-low part when l is the whole narrow variable: extract(zext)
        if let N::Concat(x, y) = self.n(h) {
            // right-assoc normal form
            let r = self.concat(y, l);
            return self.concat(x, r);
        }
        self.mk(N::Concat(h, l), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa && w > 0);
        if w == wa { return a; }
        match self.n(a) {
            N::Const(k) => return self.c(k >> lo, w),
            N::Extract(b, l2) => return self.extract(b, lo + l2 as u32, w),
            N::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl { return self.extract(h, lo - wl, w); }
                if lo + w <= wl { return self.extract(l, lo, w); }
                let x = self.extract(h, 0, lo + w - wl);
                let y = self.extract(l, lo, wl - lo);
                return self.concat(x, y);
            }
            N::ZExt(b) => {
                let wb = self.w(b);
                if lo >= wb { return self.c(0, w); }
                if lo + w <= wb { return self.extract(b, lo, w); }
                let x = self.extract(b, lo, wb - lo);
                return self.zext(x, w);
            }
            N::SExt(b) => {
                let wb = self.w(b);
                if lo + w <= wb { return self.extract(b, lo, w); }
                if lo == 0 { return self.sext(b, w); }
            }
            N::Ite(c, x, y) if self.konst(x).is_some() || self.konst(y).is_some() => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.ite(c, p, q);
            }
            N::And(x, y) | N::Or(x, y) | N::Xor(x, y) => {
                if self.konst(y).is_some() || lo == 0 {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    return match self.n(a) { N::And(..) => self.and(p, q), N::Or(..) => self.or(p, q), _ => self.xor(p, q) };
                }
            }
            _ => {}
        }
        if lo as u128 >= 128 - self.range(a).1.leading_zeros() as u128 { return self.c(0, w); }
        self.mk(N::Extract(a, lo as u16), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        if wa > w { return self.extract(a, 0, w); }
        match self.n(a) {
            N::Const(k) => self.c(k, w),
            N::ZExt(b) => self.zext(b, w),
            _ => self.mk(N::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        match self.n(a) {
            N::Const(k) => return self.c(sext(k, wa) as u128, w),
            N::SExt(b) => return self.sext(b, w),
            N::ZExt(_) => return self.zext(a, w),
            _ => {}
        }
        if self.range(a).1 < (1u128 << (wa - 1)) { return self.zext(a, w); }
        if wa == 1 { let t = self.c(mask(w), w); let f = self.c(0, w); return self.ite(a, t, f); }
        self.mk(N::SExt(a), w)
    }
    pub fn ctpop(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.konst(a) { return self.c(k.count_ones() as u128, w); }
        if let N::ZExt(x) = self.n(a) { if self.w(x) >= 8 { let p = self.ctpop(x); return self.zext(p, w); } }
        self.mk(N::Ctpop(a), w)
    }
    fn pow2_or_zero(&mut self, x: E) -> E {
        let w = self.w(x);
        let one = self.c(1, w);
        let y = self.sub(x, one);
        let a = self.and(x, y);
        let z = self.c(0, w);
        self.eq(a, z)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return TRUE; }
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.konst(b) {
            if let Some(x) = self.konst(a) { return if x == k { TRUE } else { FALSE }; }
            if w == 1 { return if k == 1 { a } else { self.not(a) }; }
            match self.n(a) {
                N::ZExt(x) => { let wx = self.w(x); if k > mask(wx) { return FALSE; } let kk = self.c(k, wx); return self.eq(x, kk); }
                N::SExt(x) => { let wx = self.w(x); let kk = self.c(k, wx); if sext(k & mask(wx), wx) as u128 & mask(w) != k { return FALSE; } return self.eq(x, kk); }
                N::Concat(h, l) => {
                    let wl = self.w(l); let wh = self.w(h);
                    let kh = self.c(k >> wl, wh); let kl = self.c(k, wl);
                    let p = self.eq(h, kh); if p == FALSE { return FALSE; }
                    let q = self.eq(l, kl);
                    return self.and(p, q);
                }
                N::Ite(c, x, y) => {
                    if self.konst(x).is_some() || self.konst(y).is_some() {
                        let p = self.eq(x, b); let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
                N::Ctpop(x) if k == 1 => { let p = self.pow2_or_zero(x); let z = self.c(0, w); let q = self.eq(x, z); let nq = self.not(q); return self.and(p, nq); }
                N::Ctpop(x) if k == 0 => return self.eq(x, b),
                N::UDiv(x, y) if k == 0 => return self.ult(x, y),
                N::Add(x, y) => if let Some(z) = self.konst(y) { let kk = self.c(k.wrapping_sub(z), w); return self.eq(x, kk); },
                N::Xor(x, y) => if let Some(z) = self.konst(y) { let kk = self.c(k ^ z, w); return self.eq(x, kk); },
                N::Sub(x, y) => { if k == 0 { return self.eq(x, y); } if let Some(z) = self.konst(x) { let kk = self.c(z.wrapping_sub(k), w); return self.eq(y, kk); } if let Some(z) = self.konst(y) { let kk = self.c(z.wrapping_add(k), w); return self.eq(x, kk); } }
                N::Mul(x, y) => if let Some(z) = self.konst(y) {
                    if let Some(h) = self.range(x).1.checked_mul(z) { if h <= mask(w) && z != 0 {
                        if k % z != 0 { return FALSE; }
                        let kk = self.c(k / z, w); return self.eq(x, kk);
                    } }
                },
                _ => {}
            }
            return self.mk(N::Eq(a, b), 1);
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
            let (wx, wy) = (self.w(x), self.w(y));
            let m = wx.max(wy);
            let p = self.zext(x, m); let q = self.zext(y, m);
            return self.eq(p, q);
        }
        if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a), self.n(b)) {
            if self.w(l1) == self.w(l2) { let p = self.eq(h1, h2); let q = self.eq(l1, l2); return self.and(p, q); }
        }
        if let (N::Add(p, q), N::Add(r, s)) = (self.n(a), self.n(b)) {
            if p == r { return self.eq(q, s); } if p == s { return self.eq(q, r); } if q == r { return self.eq(p, s); } if q == s { return self.eq(p, r); }
        }
        if let N::Ite(c, x, y) = self.n(a) { if x == b { let q = self.eq(y, b); return self.or(c, q); } if y == b { let q = self.eq(x, b); let nc = self.not(c); return self.or(nc, q); } }
        if let N::Ite(c, x, y) = self.n(b) { if x == a { let q = self.eq(y, a); return self.or(c, q); } if y == a { let q = self.eq(x, a); let nc = self.not(c); return self.or(nc, q); } }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::Eq(a, b), 1)
    }
    fn strip_zext(&mut self, a: E, b: E) -> Option<(E, E)> {
        // same-width operands narrowed when both fit
        match (self.n(a), self.n(b)) {
            (N::ZExt(x), N::ZExt(y)) => { let m = self.w(x).max(self.w(y)); Some((self.zext(x, m), self.zext(y, m))) }
            (N::ZExt(x), N::Const(k)) => { let wx = self.w(x); if k <= mask(wx) { let c = self.c(k, wx); Some((x, c)) } else { None } }
            (N::Const(k), N::ZExt(x)) => { let wx = self.w(x); if k <= mask(wx) { let c = self.c(k, wx); Some((c, x)) } else { None } }
            _ => None,
        }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return FALSE; }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return if x < y { TRUE } else { FALSE }; }
        if let Some((x, y)) = self.strip_zext(a, b) { return self.ult(x, y); }
        let w = self.w(a);
        if let Some(1) = self.konst(b) { let z = self.c(0, w); return self.eq(a, z); }
        if let (N::Ctpop(x), Some(2)) = (self.n(a), self.konst(b)) { return self.pow2_or_zero(x); }
        if let (N::Ctpop(x), Some(1)) = (self.n(b), self.konst(a)) { let p = self.pow2_or_zero(x); return self.not(p); }
        if let Some(0) = self.konst(a) { let z = self.c(0, w); let e = self.eq(b, z); return self.not(e); }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        if let N::Ite(c, x, y) = self.n(a) { if self.konst(x).is_some() && self.konst(y).is_some() { let p = self.ult(x, b); let q = self.ult(y, b); return self.ite(c, p, q); } }
        if let N::Ite(c, x, y) = self.n(b) { if self.konst(x).is_some() && self.konst(y).is_some() { let p = self.ult(a, x); let q = self.ult(a, y); return self.ite(c, p, q); } }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return TRUE; }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return if x <= y { TRUE } else { FALSE }; }
        if let Some((x, y)) = self.strip_zext(a, b) { return self.ule(x, y); }
        let w = self.w(a);
        if let Some(0) = self.konst(b) { let z = self.c(0, w); return self.eq(a, z); }
        if let Some(1) = self.konst(a) { let z = self.c(0, w); let e = self.eq(b, z); return self.not(e); }
        if w == 1 { let na = self.not(a); return self.or(na, b); }
        if let N::Ite(c, x, y) = self.n(a) { if self.konst(x).is_some() && self.konst(y).is_some() { let p = self.ule(x, b); let q = self.ule(y, b); return self.ite(c, p, q); } }
        if let N::Ite(c, x, y) = self.n(b) { if self.konst(x).is_some() && self.konst(y).is_some() { let p = self.ule(a, x); let q = self.ule(a, y); return self.ite(c, p, q); } }
        self.mk(N::Ule(a, b), 1)
    }
    fn both_nonneg(&self, a: E, b: E) -> bool {
        let s = 1u128 << (self.w(a) - 1);
        self.range(a).1 < s && self.range(b).1 < s
    }
    /// an if-then-else whose leaves are constants
    fn const_arms(&self, e: E) -> bool {
        match self.n(e) { N::Ite(_, x, y) => (self.konst(x).is_some() || self.const_arms(x)) && (self.konst(y).is_some() || self.const_arms(y)), _ => false }
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return FALSE; }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return if sext(x, w) < sext(y, w) { TRUE } else { FALSE }; }
        if w > 1 && self.both_nonneg(a, b) { return self.ult(a, b); }
        if w > 1 {
            if self.konst(b) == Some(0) {
                match self.n(a) {
                    N::And(x, y) => { let (p, q) = (self.slt(x, b), self.slt(y, b)); return self.and(p, q); }
                    N::Or(x, y) => { let (p, q) = (self.slt(x, b), self.slt(y, b)); return self.or(p, q); }
                    N::Xor(x, y) => { let (p, q) = (self.slt(x, b), self.slt(y, b)); return self.xor(p, q); }
                    _ => {}
                }
            }
            if self.konst(a) == Some(mask(w)) { let z = self.c(0, w); let q = self.slt(b, z); return self.not(q); }
            if let N::Ite(c, x, y) = self.n(a) { if self.konst(b).is_some() && self.const_arms(a) { let p = self.slt(x, b); let q = self.slt(y, b); return self.ite(c, p, q); } }
            if let N::Ite(c, x, y) = self.n(b) { if self.konst(a).is_some() && self.const_arms(b) { let p = self.slt(a, x); let q = self.slt(a, y); return self.ite(c, p, q); } }
        }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return TRUE; }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return if sext(x, w) <= sext(y, w) { TRUE } else { FALSE }; }
        if w > 1 && self.both_nonneg(a, b) { return self.ule(a, b); }
        if w > 1 {
            if self.konst(b) == Some(mask(w)) { let z = self.c(0, w); return self.slt(a, z); }
            if self.konst(a) == Some(0) { let q = self.slt(b, a); return self.not(q); }
            if let N::Ite(c, x, y) = self.n(a) { if self.konst(b).is_some() && self.const_arms(a) { let p = self.sle(x, b); let q = self.sle(y, b); return self.ite(c, p, q); } }
            if let N::Ite(c, x, y) = self.n(b) { if self.konst(a).is_some() && self.const_arms(b) { let p = self.sle(a, x); let q = self.sle(a, y); return self.ite(c, p, q); } }
        }
        self.mk(N::Sle(a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == TRUE || a == b { return a; }
        if c == FALSE { return b; }
        let w = self.w(a);
        if w == 1 {
            if a == TRUE && b == FALSE { return c; }
            if a == FALSE && b == TRUE { return self.not(c); }
            if a == TRUE { return self.or(c, b); }
            if b == FALSE { return self.and(c, a); }
            if a == FALSE { let nc = self.not(c); return self.and(nc, b); }
            if b == TRUE { let nc = self.not(c); return self.or(nc, a); }
        }
        if let N::Xor(x, k) = self.n(c) { if self.konst(k) == Some(1) { return self.ite(x, b, a); } }
        if let N::Ite(c2, x, _) = self.n(a) { if c2 == c { return self.ite(c, x, b); } }
        if let N::Ite(c2, _, y) = self.n(b) { if c2 == c { return self.ite(c, a, y); } }
        if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) { if self.w(x) == self.w(y) { let i = self.ite(c, x, y); return self.zext(i, w); } }
        self.mk(N::Ite(c, a, b), w)
    }

    /// Value of `e` under the assignment (missing variables: their lower bound).
    /// number of low bits known to be zero
    pub fn tz(&self, e: E) -> u32 {
        let nd = &self.nodes[e as usize];
        let w = nd.w as u32;
        match nd.n {
            N::Const(k) => if k == 0 { w } else { k.trailing_zeros() },
            N::Shl(a, k) => match self.konst(k) { Some(k) => (self.tz(a) + (k as u32).min(w)).min(w), None => self.tz(a) },
            N::Mul(a, b) => (self.tz(a) + self.tz(b)).min(w),
            N::Add(a, b) | N::Sub(a, b) | N::Or(a, b) | N::Xor(a, b) => self.tz(a).min(self.tz(b)),
            N::And(a, b) => self.tz(a).max(self.tz(b)),
            N::ZExt(a) | N::SExt(a) => { let t = self.tz(a); if t == self.w(a) { w } else { t } }
            N::Concat(h, l) => { let t = self.tz(l); if t == self.w(l) { t + self.tz(h) } else { t } }
            N::Ite(_, a, b) => self.tz(a).min(self.tz(b)),
            _ => 0,
        }
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let nd = &self.nodes[e as usize];
        match nd.n {
            N::Const(k) => format!("{k}"),
            N::Var(i) => format!("v{i}:{}", nd.w),
            n => {
                let s = format!("{n:?}");
                let op = s.split('(').next().unwrap();
                if d == 0 { return format!("({op}{} ..)", nd.w); }
                let k: Vec<String> = Self::kids(&n).iter().filter(|k| **k != 0).map(|k| self.show(*k, d - 1)).collect();
                let x = if let N::Extract(_, lo) = n { format!("@{lo}") } else { String::new() };
                format!("({op}{}{x} {})", nd.w, k.join(" "))
            }
        }
    }
    pub fn eval_model(&mut self, e: E, m: &[u128]) -> u128 { self.eval(e, m) }

    pub fn eval(&mut self, e: E, m: &[u128]) -> u128 {
        self.epoch += 1;
        self.memo_val.resize(self.nodes.len(), 0);
        self.memo_ep.resize(self.nodes.len(), 0);
        self.eval_in(e, m)
    }
    fn eval_in(&mut self, root: E, m: &[u128]) -> u128 {
        // explicit stack: terms can be deep
        let ep = self.epoch;
        let mut st: Vec<E> = vec![root];
        while let Some(&e) = st.last() {
            if self.memo_ep[e as usize] == ep { st.pop(); continue; }
            let nd = &self.nodes[e as usize];
            let k = Self::kids(&nd.n);
            let mut ready = true;
            if let N::Ite(c, x, y) = nd.n {
                if self.memo_ep[c as usize] != ep { st.push(c); continue; }
                let t = if self.memo_val[c as usize] == 1 { x } else { y };
                if self.memo_ep[t as usize] != ep { st.push(t); continue; }
            } else {
                for x in k { if x != 0 && self.memo_ep[x as usize] != ep { st.push(x); ready = false; } }
            }
            if !ready { continue; }
            let v = |x: E| self.memo_val[x as usize];
            let w = nd.w as u32;
            let mk = mask(w);
            let sh = |x: E| self.nodes[x as usize].w as u32;
            let r = match nd.n {
                N::Const(k) => k,
                N::Var(i) => m.get(i as usize).copied().unwrap_or(nd.lo),
                N::Add(a, b) => v(a).wrapping_add(v(b)) & mk,
                N::Sub(a, b) => v(a).wrapping_sub(v(b)) & mk,
                N::Mul(a, b) => v(a).wrapping_mul(v(b)) & mk,
                N::UDiv(a, b) => if v(b) == 0 { mk } else { v(a) / v(b) },
                N::URem(a, b) => if v(b) == 0 { v(a) } else { v(a) % v(b) },
                N::SDiv(a, b) => { let (x, y) = (sext(v(a), w), sext(v(b), w)); (if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) }) as u128 & mk }
                N::SRem(a, b) => { let (x, y) = (sext(v(a), w), sext(v(b), w)); (if y == 0 { x } else { x.wrapping_rem(y) }) as u128 & mk }
                N::And(a, b) => v(a) & v(b),
                N::Or(a, b) => v(a) | v(b),
                N::Xor(a, b) => v(a) ^ v(b),
                N::Shl(a, b) => if v(b) >= w as u128 { 0 } else { (v(a) << v(b)) & mk },
                N::LShr(a, b) => if v(b) >= w as u128 { 0 } else { v(a) >> v(b) },
                N::AShr(a, b) => { let k = v(b).min(w as u128 - 1) as u32; (sext(v(a), w) >> k) as u128 & mk }
                N::Concat(a, b) => (v(a) << sh(b)) | v(b),
                N::Extract(a, lo) => (v(a) >> lo) & mk,
                N::ZExt(a) => v(a),
                N::SExt(a) => sext(v(a), sh(a)) as u128 & mk,
                N::Eq(a, b) => (v(a) == v(b)) as u128,
                N::Ult(a, b) => (v(a) < v(b)) as u128,
                N::Ule(a, b) => (v(a) <= v(b)) as u128,
                N::Slt(a, b) => (sext(v(a), sh(a)) < sext(v(b), sh(b))) as u128,
                N::Sle(a, b) => (sext(v(a), sh(a)) <= sext(v(b), sh(b))) as u128,
                N::Ite(c, a, b) => if v(c) == 1 { v(a) } else { v(b) },
                N::Ctpop(a) => v(a).count_ones() as u128,
            };
            self.memo_val[e as usize] = r;
            self.memo_ep[e as usize] = ep;
            st.pop();
        }
        self.memo_val[root as usize]
    }
}
