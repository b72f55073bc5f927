//! z3 through its C API: satisfiability of a conjunction of terms, with slicing and caching.
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_uint, c_void};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> i32;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
}

extern "C" fn on_err(_c: P, e: c_uint) {
    if e != 0 { eprintln!("z3 error code {e}"); }
}

#[derive(Clone, Copy, Debug)]
pub struct VarInfo { pub w: u32, pub lo: u128, pub hi: u128 }

pub enum Res { Sat(Vec<u128>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub max_time: f64,
    pub int_solved: u64,
    pub cut_solved: u64,
}

/// Linear-integer encoding of the same terms: exact (wrap-around is an explicit quotient), used for
/// multiplications and divisions by constants, where bit-blasting stalls.
struct IntEnc {
    s: P,
    cur_timeout: u32,
    ast: HashMap<E, Option<P>>,
    aux: HashMap<E, Vec<P>>,
    divs: HashMap<(E, u128), (P, P, Vec<P>)>,
    isort: P,
    fresh: u32,
}

pub struct Solver {
    ctx: P,
    s: P,
    ie: IntEnc,
    cur_timeout: u32,
    dbg: bool,
    ast: Vec<P>,
    vars: HashMap<(u32, u16), P>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u128)>>>,
    pub stats: Stats,
    pub timeout_ms: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const c_char);
            let s = Z3_mk_solver_for_logic(ctx, l);
            Z3_solver_inc_ref(ctx, s);
            let l = Z3_mk_string_symbol(ctx, b"QF_LIA\0".as_ptr() as *const c_char);
            let is = Z3_mk_solver_for_logic(ctx, l);
            Z3_solver_inc_ref(ctx, is);
            let ie = IntEnc { s: is, cur_timeout: 0, ast: HashMap::new(), aux: HashMap::new(), divs: HashMap::new(), isort: Z3_mk_int_sort(ctx), fresh: 0 };
            let mut me = Solver { ctx, s, ie, cur_timeout: 0, dbg: std::env::var_os("SYMEX_DBG").is_some(), ast: vec![], vars: HashMap::new(), cache: HashMap::new(), stats: Stats::default(), timeout_ms };
            me.set_timeout(timeout_ms);
            me
        }
    }
    fn set_timeout(&mut self, ms: u32) {
        if self.cur_timeout == ms { return; }
        unsafe {
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = Z3_mk_string_symbol(self.ctx, b"timeout\0".as_ptr() as *const c_char);
            Z3_params_set_uint(self.ctx, p, k, ms);
            Z3_solver_set_params(self.ctx, self.s, p);
        }
        self.cur_timeout = ms;
    }
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        let a = self.ast[e as usize];
        if ar.w(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.ctx, 1);
                let one = Z3_mk_numeral(self.ctx, b"1\0".as_ptr() as *const c_char, s);
                let z = Z3_mk_numeral(self.ctx, b"0\0".as_ptr() as *const c_char, s);
                Z3_mk_ite(self.ctx, a, one, z)
            }
        } else { a }
    }
    fn unbv(&self, w: u32, a: P) -> P {
        if w == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.ctx, 1);
                let one = Z3_mk_numeral(self.ctx, b"1\0".as_ptr() as *const c_char, s);
                Z3_mk_eq(self.ctx, a, one)
            }
        } else { a }
    }
    fn tr(&mut self, ar: &Arena, root: E) -> P {
        if self.ast.len() < ar.nodes.len() { self.ast.resize(ar.nodes.len(), std::ptr::null_mut()); }
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if !self.ast[e as usize].is_null() { st.pop(); continue; }
            let mut ready = true;
            for k in ar.kids_of(e) { if k != 0 && self.ast[k as usize].is_null() { st.push(k); ready = false; } }
            if !ready { continue; }
            let nd = &ar.nodes[e as usize];
            let w = nd.w as u32;
            let c = self.ctx;
            let b1 = w == 1;
            let a = |s: &Self, x: E| s.ast[x as usize];
            let r = unsafe {
                match nd.n {
                    N::Const(k) => if b1 { if k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else {
                        let s = format!("{k}\0");
                        let so = Z3_mk_bv_sort(c, w);
                        Z3_mk_numeral(c, s.as_ptr() as *const c_char, so)
                    },
                    N::Var(i) => {
                        if let Some(p) = self.vars.get(&(i, nd.w)) { *p } else {
                            let s = format!("v{i}_{w}\0");
                            let sy = Z3_mk_string_symbol(c, s.as_ptr() as *const c_char);
                            let so = if b1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                            let p = Z3_mk_const(c, sy, so);
                            self.vars.insert((i, nd.w), p);
                            p
                        }
                    }
                    N::And(x, y) if b1 => { let v = [a(self, x), a(self, y)]; Z3_mk_and(c, 2, v.as_ptr()) }
                    N::Or(x, y) if b1 => { let v = [a(self, x), a(self, y)]; Z3_mk_or(c, 2, v.as_ptr()) }
                    N::Xor(x, y) if b1 => if ar.konst(y) == Some(1) { Z3_mk_not(c, a(self, x)) } else { Z3_mk_xor(c, a(self, x), a(self, y)) },
                    N::Add(x, y) if b1 => Z3_mk_xor(c, a(self, x), a(self, y)),
                    N::Sub(x, y) if b1 => Z3_mk_xor(c, a(self, x), a(self, y)),
                    N::Mul(x, y) if b1 => { let v = [a(self, x), a(self, y)]; Z3_mk_and(c, 2, v.as_ptr()) }
                    N::Eq(x, y) => Z3_mk_eq(c, a(self, x), a(self, y)),
                    N::Ite(q, x, y) => Z3_mk_ite(c, a(self, q), a(self, x), a(self, y)),
                    N::Ult(x, y) => { let (p, q) = (self.bv(ar, x), self.bv(ar, y)); Z3_mk_bvult(c, p, q) }
                    N::Ule(x, y) => { let (p, q) = (self.bv(ar, x), self.bv(ar, y)); Z3_mk_bvule(c, p, q) }
                    N::Slt(x, y) => { let (p, q) = (self.bv(ar, x), self.bv(ar, y)); Z3_mk_bvslt(c, p, q) }
                    N::Sle(x, y) => { let (p, q) = (self.bv(ar, x), self.bv(ar, y)); Z3_mk_bvsle(c, p, q) }
                    N::Extract(x, lo) => { let p = self.bv(ar, x); let r = Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, p); self.unbv(w, r) }
                    N::ZExt(x) => { let p = self.bv(ar, x); Z3_mk_zero_ext(c, w - ar.w(x), p) }
                    N::SExt(x) => { let p = self.bv(ar, x); Z3_mk_sign_ext(c, w - ar.w(x), p) }
                    N::Ctpop(x) => {
                        let p = self.bv(ar, x);
                        let mut r: P = std::ptr::null_mut();
                        for i in 0..w {
                            let b = Z3_mk_extract(c, i, i, p);
                            let z = Z3_mk_zero_ext(c, w - 1, b);
                            r = if i == 0 { z } else { Z3_mk_bvadd(c, r, z) };
                        }
                        r
                    }
                    N::Concat(x, y) => { let (p, q) = (self.bv(ar, x), self.bv(ar, y)); Z3_mk_concat(c, p, q) }
                    n => {
                        let k = ar.kids_of(e);
                        let (p, q) = (self.bv(ar, k[0]), self.bv(ar, k[1]));
                        let r = match n {
                            N::Add(..) => Z3_mk_bvadd(c, p, q),
                            N::Sub(..) => Z3_mk_bvsub(c, p, q),
                            N::Mul(..) => Z3_mk_bvmul(c, p, q),
                            N::UDiv(..) => Z3_mk_bvudiv(c, p, q),
                            N::URem(..) => Z3_mk_bvurem(c, p, q),
                            N::SDiv(..) => Z3_mk_bvsdiv(c, p, q),
                            N::SRem(..) => Z3_mk_bvsrem(c, p, q),
                            N::And(..) => Z3_mk_bvand(c, p, q),
                            N::Or(..) => Z3_mk_bvor(c, p, q),
                            N::Xor(..) => Z3_mk_bvxor(c, p, q),
                            N::Shl(..) => Z3_mk_bvshl(c, p, q),
                            N::LShr(..) => Z3_mk_bvlshr(c, p, q),
                            N::AShr(..) => Z3_mk_bvashr(c, p, q),
                            _ => unreachable!(),
                        };
                        self.unbv(w, r)
                    }
                }
            };
            let _ = Z3_mk_bvnot as usize;
            self.ast[e as usize] = r;
            st.pop();
        }
        self.ast[root as usize]
    }

    /// Is cons && extra satisfiable? `cons` is known satisfiable by `model`.
    pub fn check(&mut self, ar: &mut Arena, cons: &[E], extra: E, vars: &[VarInfo], model: &[u128]) -> Res {
        if extra == TRUE { return Res::Sat(model.to_vec()); }
        if extra == FALSE { return Res::Unsat; }
        // independence slice
        let mut set: std::collections::HashSet<u32> = ar.vars_of(extra).iter().copied().collect();
        let mut used = vec![false; cons.len()];
        let mut key = vec![extra];
        loop {
            let mut ch = false;
            for (i, c) in cons.iter().enumerate() {
                if used[i] { continue; }
                let vs = ar.vars_of(*c);
                if vs.iter().any(|v| set.contains(v)) {
                    used[i] = true;
                    ch = true;
                    key.push(*c);
                    for v in vs.iter() { set.insert(*v); }
                }
            }
            if !ch { break; }
        }
        key[1..].sort_unstable();
        if key.len() == 1 && set.len() == 1 {
            // one variable nothing is known about yet
            let nd = ar.nodes[extra as usize].n;
            let quick = match nd {
                N::Var(i) => Some((i, 1)),
                N::Eq(a, b) => match (ar.nodes[a as usize].n, ar.konst(b)) { (N::Var(i), Some(k)) => Some((i, k)), _ => None },
                N::Xor(a, b) if ar.konst(b) == Some(1) => match ar.nodes[a as usize].n {
                    N::Var(i) => Some((i, 0)),
                    N::Eq(x, y) => match (ar.nodes[x as usize].n, ar.konst(y)) { (N::Var(i), Some(k)) => Some((i, if k == vars[i as usize].lo { k + 1 } else { vars[i as usize].lo })), _ => None },
                    _ => None,
                },
                _ => None,
            };
            if let Some((i, k)) = quick {
                let v = vars[i as usize];
                if k >= v.lo && k <= v.hi { self.stats.cached += 1; let mut m = model.to_vec(); m[i as usize] = k; return Res::Sat(m); }
            }
        }
        // ranges are part of a variable's identity here
        for v in { let mut s: Vec<u32> = set.iter().copied().collect(); s.sort_unstable(); s } {
            let i = vars[v as usize];
            let e = ar.var(v, i.w, i.lo, i.hi);
            key.push(e);
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => { let mut mm = model.to_vec(); for (v, x) in m { mm[*v as usize] = *x; } Res::Sat(mm) }
            };
        }
        let t0 = std::time::Instant::now();
        let n = key.len() - set.len();
        let mut svars: Vec<u32> = set.iter().copied().collect();
        svars.sort_unstable();
        let hard = self.is_hard(ar, &key[..n]);
        let full = self.timeout_ms;
        // (integer encoding?, time) in the order tried
        let plan: &[(bool, u32)] = if hard { &[(true, full.min(3000)), (false, full.min(3000)), (true, full), (false, full)] } else { &[(false, full.min(2000)), (true, full.min(5000)), (false, full)] };
        let mut out: Option<Option<Vec<u128>>> = None;
        if self.refuted_near_the_root(ar, extra, 200) || self.refuted_near_the_root(ar, extra, 2000) { out = Some(None); self.stats.cut_solved += 1; }
        for (int, ms) in plan {
            if out.is_some() { break; }
            let r = if *int { self.run_int(ar, &key[..n], &svars, vars, model, *ms) } else { self.run_bv(ar, &key[..n], &svars, vars, model, *ms) };
            if r.is_some() { out = r; if *int { self.stats.int_solved += 1; } break; }
        }
        if self.dbg && t0.elapsed().as_secs_f64() > 0.5 {
            eprintln!("slow {:.2}s {}", t0.elapsed().as_secs_f64(), match &out { None => "unknown", Some(None) => "unsat", _ => "sat" });
            for e in &key[..n] { eprintln!("   {}", ar.show(*e, 12)); }
        }
        let res = match out {
            Some(Some(mm)) => {
                self.stats.sat += 1;
                let small = svars.iter().map(|v| (*v, mm[*v as usize])).collect();
                self.cache.insert(key, Some(small));
                Res::Sat(mm)
            }
            Some(None) => { self.stats.unsat += 1; self.cache.insert(key, None); Res::Unsat }
            None => { self.stats.unknown += 1; Res::Unknown }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time { self.stats.max_time = dt; }
        res
    }

    fn run_bv(&mut self, ar: &mut Arena, key: &[E], set: &[u32], vars: &[VarInfo], model: &[u128], ms: u32) -> Option<Option<Vec<u128>>> {
        unsafe { Z3_solver_reset(self.ctx, self.s) };
        self.set_timeout(ms);
        for e in key.to_vec() {
            let a = self.tr(ar, e);
            unsafe { Z3_solver_assert(self.ctx, self.s, a) };
        }
        for v in set {
            let i = vars[*v as usize];
            let e = ar.var(*v, i.w, i.lo, i.hi);
            if i.lo > 0 {
                let k = ar.c(i.lo, i.w);
                let (a, b) = (self.tr(ar, k), self.tr(ar, e));
                unsafe { let q = Z3_mk_bvule(self.ctx, a, b); Z3_solver_assert(self.ctx, self.s, q) };
            }
            if i.w > 1 && i.hi < crate::ir::mask(i.w) {
                let k = ar.c(i.hi, i.w);
                let (a, b) = (self.tr(ar, e), self.tr(ar, k));
                unsafe { let q = Z3_mk_bvule(self.ctx, a, b); Z3_solver_assert(self.ctx, self.s, q) };
            }
        }
        let r = unsafe { Z3_solver_check(self.ctx, self.s) };
        if r == -1 { return Some(None); }
        if r != 1 { return None; }
        let mut mm = model.to_vec();
        unsafe {
            let m = Z3_solver_get_model(self.ctx, self.s);
            Z3_model_inc_ref(self.ctx, m);
            for v in set {
                let i = vars[*v as usize];
                let e = ar.var(*v, i.w, i.lo, i.hi);
                let a = self.tr(ar, e);
                let mut out: P = std::ptr::null_mut();
                Z3_model_eval(self.ctx, m, a, true, &mut out);
                let x = if i.w == 1 { (Z3_get_bool_value(self.ctx, out) == 1) as u128 } else {
                    let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, out));
                    s.to_str().unwrap().parse::<u128>().unwrap()
                };
                if mm.len() <= *v as usize { mm.resize(*v as usize + 1, 0); }
                mm[*v as usize] = x;
            }
            Z3_model_dec_ref(self.ctx, m);
        }
        Some(Some(mm))
    }

    /// Large terms (hashes) often do not matter to a condition on them: everything further than
    /// some nodes from the root may be anything within its range. Unsatisfiable then, unsatisfiable.
    fn refuted_near_the_root(&mut self, ar: &mut Arena, root: E, size: usize) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut order = std::collections::VecDeque::from([root]);
        seen.insert(root);
        let mut near = vec![];
        let mut far = vec![];
        while let Some(e) = order.pop_front() {
            if near.len() < size { near.push(e); for k in ar.kids_of(e) { if k != 0 && seen.insert(k) { order.push_back(k); } } }
            else if ar.konst(e).is_some() { near.push(e); }
            else { far.push(e); }
        }
        // anything but variables has to be cut off for this to help
        if far.iter().all(|e| matches!(ar.nodes[*e as usize].n, N::Var(_))) { return false; }
        if self.ast.len() < ar.nodes.len() { self.ast.resize(ar.nodes.len(), std::ptr::null_mut()); }
        let saved: Vec<(E, P)> = near.iter().chain(&far).map(|e| (*e, self.ast[*e as usize])).collect();
        for e in &near { self.ast[*e as usize] = std::ptr::null_mut(); }
        unsafe { Z3_solver_reset(self.ctx, self.s) };
        self.set_timeout(self.timeout_ms.min(1000));
        for e in &far {
            let w = ar.w(*e);
            let s = format!("f{e}_{w}\0");
            let (lo, hi) = ar.range(*e);
            unsafe {
                let sy = Z3_mk_string_symbol(self.ctx, s.as_ptr() as *const c_char);
                let so = if w == 1 { Z3_mk_bool_sort(self.ctx) } else { Z3_mk_bv_sort(self.ctx, w) };
                let p = Z3_mk_const(self.ctx, sy, so);
                self.ast[*e as usize] = p;
                if w > 1 {
                    let num = |s: &Self, k: u128| { let t = format!("{k}\0"); Z3_mk_numeral(s.ctx, t.as_ptr() as *const c_char, so) };
                    if lo > 0 { let q = Z3_mk_bvule(self.ctx, num(self, lo), p); Z3_solver_assert(self.ctx, self.s, q); }
                    if hi < crate::ir::mask(w) { let q = Z3_mk_bvule(self.ctx, p, num(self, hi)); Z3_solver_assert(self.ctx, self.s, q); }
                }
            }
        }
        let a = self.tr(ar, root);
        unsafe { Z3_solver_assert(self.ctx, self.s, a) };
        let r = unsafe { Z3_solver_check(self.ctx, self.s) };
        for (e, p) in saved { self.ast[e as usize] = p; }
        r == -1
    }

    fn is_hard(&self, ar: &Arena, key: &[E]) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = key.to_vec();
        while let Some(e) = st.pop() {
            if e == 0 || !seen.insert(e) { continue; }
            let nd = &ar.nodes[e as usize];
            match nd.n {
                N::Mul(..) | N::UDiv(..) | N::URem(..) if nd.w >= 24 => return true,
                N::Add(..) | N::Sub(..) if nd.w > 64 => return true,
                _ => {}
            }
            for k in ar.kids_of(e) { st.push(k); }
        }
        false
    }

    fn int_k(&self, k: i128, neg_big: bool) -> P {
        let s = if neg_big { format!("{}\0", k as u128) } else { format!("{k}\0") };
        unsafe { Z3_mk_numeral(self.ctx, s.as_ptr() as *const c_char, self.ie.isort) }
    }
    fn int_u(&self, k: u128) -> P { self.int_k(k as i128, true) }
    fn int_pow2(&self, b: u32) -> P {
        if b < 128 { return self.int_u(1u128 << b); }
        let s = b"340282366920938463463374607431768211456\0";
        unsafe { Z3_mk_numeral(self.ctx, s.as_ptr() as *const c_char, self.ie.isort) }
    }
    fn int_fresh(&mut self) -> P {
        self.ie.fresh += 1;
        let s = format!("q!{}\0", self.ie.fresh);
        unsafe { let sy = Z3_mk_string_symbol(self.ctx, s.as_ptr() as *const c_char); Z3_mk_const(self.ctx, sy, self.ie.isort) }
    }
    fn i_add(&self, a: P, b: P) -> P { let v = [a, b]; unsafe { Z3_mk_add(self.ctx, 2, v.as_ptr()) } }
    fn i_sub(&self, a: P, b: P) -> P { let v = [a, b]; unsafe { Z3_mk_sub(self.ctx, 2, v.as_ptr()) } }
    fn i_mul(&self, a: P, b: P) -> P { let v = [a, b]; unsafe { Z3_mk_mul(self.ctx, 2, v.as_ptr()) } }
    fn i_le(&self, a: P, b: P) -> P { unsafe { Z3_mk_le(self.ctx, a, b) } }
    fn i_lt(&self, a: P, b: P) -> P { unsafe { Z3_mk_lt(self.ctx, a, b) } }
    fn i_eq(&self, a: P, b: P) -> P { unsafe { Z3_mk_eq(self.ctx, a, b) } }

    /// quotient and remainder of x by the constant c
    fn int_div(&mut self, ar: &Arena, x: E, xa: P, c: u128, aux: &mut Vec<P>) -> (P, P) {
        if let Some((q, r, a)) = self.ie.divs.get(&(x, c)) { aux.extend(a.iter().copied()); return (*q, *r); }
        let (_, hi) = ar.range(x);
        let z = self.int_u(0);
        let (q, r, a) = if hi < c { (z, xa, vec![]) } else {
            let q = self.int_fresh();
            let r = self.int_fresh();
            let k = self.int_u(c);
            let m = self.i_mul(q, k);
            let s = self.i_add(m, r);
            let qh = self.int_u(hi / c);
            (q, r, vec![self.i_eq(xa, s), self.i_le(z, r), self.i_lt(r, k), self.i_le(z, q), self.i_le(q, qh)])
        };
        aux.extend(a.iter().copied());
        self.ie.divs.insert((x, c), (q, r, a));
        (q, r)
    }
    /// v reduced modulo 2^w, given the possible wrap counts lo..=hi
    fn int_wrap(&mut self, v: P, w: u32, klo: i128, khi: i128, aux: &mut Vec<P>) -> P {
        if klo == 0 && khi == 0 { return v; }
        let k = self.int_fresh();
        let p = self.int_pow2(w);
        let m = self.i_mul(k, p);
        let r = self.i_sub(v, m);
        let z = self.int_u(0);
        let (a, b) = (self.int_k(klo, false), self.int_k(khi, false));
        aux.push(self.i_le(a, k));
        aux.push(self.i_le(k, b));
        // name the result, so that the definition stays linear and small
        let n = self.int_fresh();
        aux.push(self.i_eq(n, r));
        aux.push(self.i_le(z, n));
        aux.push(self.i_lt(n, p));
        n
    }
    fn int_signed(&self, ar: &Arena, e: E, a: P) -> P {
        let w = ar.w(e);
        let (lo, hi) = ar.range(e);
        let half = 1u128 << (w - 1);
        if hi < half { return a; }
        let m = self.i_sub(a, self.int_pow2(w));
        if lo >= half { return m; }
        unsafe { Z3_mk_ite(self.ctx, self.i_lt(a, self.int_u(half)), a, m) }
    }

    fn int_tr(&mut self, ar: &Arena, root: E) -> Option<P> {
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if let Some(r) = self.ie.ast.get(&e) { if r.is_none() { self.ie.ast.insert(root, None); return None; } st.pop(); continue; }
            let mut ready = true;
            for k in ar.kids_of(e) { if k != 0 && !self.ie.ast.contains_key(&k) { st.push(k); ready = false; } }
            if !ready { continue; }
            if ar.kids_of(e).iter().any(|k| *k != 0 && self.ie.ast[k].is_none()) { self.ie.ast.insert(e, None); continue; }
            let mut aux = vec![];
            let r = self.int_node(ar, e, &mut aux);
            if r.is_none() && self.dbg { eprintln!("int: cannot encode {}", ar.show(e, 3)); }
            self.ie.ast.insert(e, r);
            if !aux.is_empty() { self.ie.aux.insert(e, aux); }
        }
        self.ie.ast[&root]
    }
    fn int_node(&mut self, ar: &Arena, e: E, aux: &mut Vec<P>) -> Option<P> {
        let nd = ar.nodes[e as usize].clone();
        let w = nd.w as u32;
        let c = self.ctx;
        let a = |s: &Self, x: E| s.ie.ast[&x].unwrap();
        let m = crate::ir::mask(w);
        unsafe {
            Some(match nd.n {
                N::Const(k) => if w == 1 { if k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.int_u(k) },
                N::Var(i) => {
                    let s = format!("i{i}_{w}\0");
                    let sy = Z3_mk_string_symbol(c, s.as_ptr() as *const c_char);
                    if w == 1 { let so = Z3_mk_bool_sort(c); Z3_mk_const(c, sy, so) } else { Z3_mk_const(c, sy, self.ie.isort) }
                }
                N::And(x, y) if w == 1 => { let v = [a(self, x), a(self, y)]; Z3_mk_and(c, 2, v.as_ptr()) }
                N::Or(x, y) if w == 1 => { let v = [a(self, x), a(self, y)]; Z3_mk_or(c, 2, v.as_ptr()) }
                N::Xor(x, y) | N::Add(x, y) | N::Sub(x, y) if w == 1 => Z3_mk_xor(c, a(self, x), a(self, y)),
                N::Eq(x, y) => Z3_mk_eq(c, a(self, x), a(self, y)),
                N::Ite(q, x, y) => Z3_mk_ite(c, a(self, q), a(self, x), a(self, y)),
                N::Ult(x, y) | N::Ule(x, y) | N::Slt(x, y) | N::Sle(x, y) if ar.w(x) == 1 => { let _ = (x, y); return None }
                N::Ult(x, y) => self.i_lt(a(self, x), a(self, y)),
                N::Ule(x, y) => self.i_le(a(self, x), a(self, y)),
                N::Slt(x, y) => { let (p, q) = (self.int_signed(ar, x, a(self, x)), self.int_signed(ar, y, a(self, y))); self.i_lt(p, q) }
                N::Sle(x, y) => { let (p, q) = (self.int_signed(ar, x, a(self, x)), self.int_signed(ar, y, a(self, y))); self.i_le(p, q) }
                _ if w == 1 => match nd.n {
                    N::Extract(x, lo) => {
                        let xa = a(self, x);
                        let xw = ar.w(x);
                        if lo as u32 == xw - 1 {
                            let h = self.int_u(1u128 << (xw - 1));
                            self.i_le(h, xa)
                        } else if lo == 0 {
                            let (_, r) = self.int_div(ar, x, xa, 2, aux);
                            let one = self.int_u(1);
                            self.i_eq(r, one)
                        } else { return None }
                    }
                    _ => return None,
                },
                N::Add(x, y) => {
                    // x + c with a large c is a subtraction
                    if let Some(k) = ar.konst(y) {
                        if k > m / 2 {
                            let d = (m - k) + 1;
                            let v = self.i_sub(a(self, x), self.int_u(d));
                            let (lo, hi) = ar.range(x);
                            return Some(self.int_wrap(v, w, if lo >= d { 0 } else { -1 }, if hi >= d { 0 } else { -1 }, aux));
                        }
                    }
                    let v = self.i_add(a(self, x), a(self, y));
                    let (hx, hy) = (ar.range(x).1, ar.range(y).1);
                    let (lx, ly) = (ar.range(x).0, ar.range(y).0);
                    let ov = |p: u128, q: u128| (p.checked_add(q).map_or(true, |s| s > m)) as i128;
                    self.int_wrap(v, w, ov(lx, ly), ov(hx, hy), aux)
                }
                N::Sub(x, y) => {
                    let v = self.i_sub(a(self, x), a(self, y));
                    let (lx, hx) = ar.range(x);
                    let (ly, hy) = ar.range(y);
                    self.int_wrap(v, w, if lx >= hy { 0 } else { -1 }, if hx >= ly { 0 } else { -1 }, aux)
                }
                N::Mul(x, y) => {
                    let (x, k) = if let Some(k) = ar.konst(y) { (x, k) } else if let Some(k) = ar.konst(x) { (y, k) } else { return None };
                    let (_, hi) = ar.range(x);
                    if k > m / 2 && w > 1 {
                        let d = (m - k) + 1; // x * -d
                        if hi.checked_mul(d).map_or(true, |p| p > (1u128 << 120)) { return None; }
                        let v = self.i_mul(a(self, x), self.int_u(d));
                        let z = self.int_u(0);
                        let v = self.i_sub(z, v);
                        let lo = -(((hi * d) >> w) as i128) - 1;
                        return Some(self.int_wrap(v, w, lo, 0, aux));
                    }
                    let v = self.i_mul(a(self, x), self.int_u(k));
                    match hi.checked_mul(k) {
                        Some(p) => { let kh = if w >= 128 { 0 } else { (p >> w) as i128 }; self.int_wrap(v, w, 0, kh, aux) }
                        None => {
                            // floor(hi*k / 2^w) <= k
                            if k > 1u128 << 120 { return None; }
                            self.int_wrap(v, w, 0, k as i128, aux)
                        }
                    }
                }
                N::UDiv(x, y) => { let k = ar.konst(y)?; if k == 0 { return None; } let xa = a(self, x); self.int_div(ar, x, xa, k, aux).0 }
                N::URem(x, y) => { let k = ar.konst(y)?; if k == 0 { return None; } let xa = a(self, x); self.int_div(ar, x, xa, k, aux).1 }
                N::SDiv(x, y) | N::SRem(x, y) => {
                    let k = ar.konst(y)?;
                    if k == 0 || k > m / 2 { return None; }
                    let xa = a(self, x);
                    if ar.range(x).1 <= m / 2 {
                        let (q, r) = self.int_div(ar, x, xa, k, aux);
                        return Some(if matches!(nd.n, N::SDiv(..)) { q } else { r });
                    }
                    // towards zero: s = q*k + r, |r| < k, r of the sign of s
                    let sx = self.int_signed(ar, x, xa);
                    let (q, r) = (self.int_fresh(), self.int_fresh());
                    let z = self.int_u(0);
                    let t = self.i_add(self.i_mul(q, self.int_u(k)), r);
                    aux.push(self.i_eq(sx, t));
                    let neg = self.i_lt(sx, z);
                    let pos = [self.i_le(z, r), self.i_lt(r, self.int_u(k))];
                    let min = [self.i_le(r, z), self.i_lt(self.i_sub(z, self.int_u(k)), r)];
                    aux.push(Z3_mk_ite(c, neg, Z3_mk_and(c, 2, min.as_ptr()), Z3_mk_and(c, 2, pos.as_ptr())));
                    let v = if matches!(nd.n, N::SDiv(..)) { q } else { r };
Z3_mk_ite(c, self.i_lt(v, z), self.i_add(v, self.int_pow2(w)), v)
                }
                N::Shl(x, y) => {
                    let k = ar.konst(y)?;
                    if k >= w as u128 { return None; }
                    let v = self.i_mul(a(self, x), self.int_pow2(k as u32));
                    let (_, hi) = ar.range(x);
                    let kh = if k == 0 { 0 } else { (hi >> (w - k as u32)) as i128 };
                    self.int_wrap(v, w, 0, kh, aux)
                }
                N::LShr(x, y) => { let k = ar.konst(y)?; if k >= w as u128 { return None; } let xa = a(self, x); self.int_div(ar, x, xa, 1u128 << k, aux).0 }
                N::AShr(x, y) => {
                    let k = ar.konst(y)?;
                    if k >= w as u128 { return None; }
                    let xa = a(self, x);
                    let (_, hi) = ar.range(x);
                    let q = self.int_div(ar, x, xa, 1u128 << k, aux).0;
                    let half = 1u128 << (w - 1);
                    if hi < half { q } else {
                        let ext = m - (m >> k as u32);
                        let neg = self.i_le(self.int_u(half), xa);
                        let q2 = self.i_add(q, self.int_u(ext));
                        Z3_mk_ite(c, neg, q2, q)
                    }
                }
                N::Concat(h, l) => {
                    let num = |s: &Self, x: E| if ar.w(x) == 1 { Z3_mk_ite(c, a(s, x), s.int_u(1), s.int_u(0)) } else { a(s, x) };
                    let v = self.i_mul(num(self, h), self.int_pow2(ar.w(l)));
                    if ar.konst(l) == Some(0) { v } else { self.i_add(v, num(self, l)) }
                }
                N::Extract(x, lo) => {
                    let xa = a(self, x);
                    let xw = ar.w(x);
                    let lo = lo as u32;
                    // cut the top first, so that the low parts of one term share their quotients
                    let top = lo + w;
                    let low = if top >= xw { None } else { Some(self.int_div(ar, x, xa, 1u128 << top, aux).1) };
                    match (low, lo) {
                        (None, 0) => xa,
                        (None, _) => self.int_div(ar, x, xa, 1u128 << lo, aux).0,
                        (Some(r), 0) => r,
                        (Some(_), _) => {
                            // q = x div 2^lo ; q mod 2^w
                            let q = self.int_div(ar, x, xa, 1u128 << lo, aux).0;
                            let hiq = self.int_div(ar, x, xa, 1u128 << top, aux).0;
                            let t = self.i_mul(hiq, self.int_pow2(w));
                            let n = self.int_fresh();
                            let d = self.i_sub(q, t);
                            aux.push(self.i_eq(n, d));
                            aux.push(self.i_le(self.int_u(0), n));
                            aux.push(self.i_lt(n, self.int_pow2(w)));
                            n
                        }
                    }
                }
                N::ZExt(x) => if ar.w(x) == 1 { Z3_mk_ite(c, a(self, x), self.int_u(1), self.int_u(0)) } else { a(self, x) },
                N::SExt(x) => {
                    if ar.w(x) == 1 { Z3_mk_ite(c, a(self, x), self.int_u(m), self.int_u(0)) } else {
                        let xa = a(self, x);
                        let (lo, hi) = ar.range(x);
                        let xw = ar.w(x);
                        let half = 1u128 << (xw - 1);
                        let ext = m - crate::ir::mask(xw);
                        if hi < half { xa } else {
                            let n = self.i_add(xa, self.int_u(ext));
                            if lo >= half { n } else { Z3_mk_ite(c, self.i_lt(xa, self.int_u(half)), xa, n) }
                        }
                    }
                }
                N::And(x, y) => {
                    let k = ar.konst(y)?;
                    if k == 0 { return None; }
                    let lo = k.trailing_zeros();
                    let kk = k >> lo;
                    if kk & kk.wrapping_add(1) != 0 { return None; }
                    let n = 128 - kk.leading_zeros();
                    let xa = a(self, x);
                    let top = lo + n;
                    let r = if top >= w { xa } else { self.int_div(ar, x, xa, 1u128 << top, aux).1 };
                    if lo == 0 { r } else {
                        let l = self.int_div(ar, x, xa, 1u128 << lo, aux).1;
                        self.i_sub(r, l)
                    }
                }
                N::Or(x, y) => {
                    let (tx, ty) = (ar.tz(x), ar.tz(y));
                    let fits = |h: u128, t: u32| t >= 128 || h < (1u128 << t);
                    if fits(ar.range(y).1, tx) || fits(ar.range(x).1, ty) { self.i_add(a(self, x), a(self, y)) } else { return None }
                }
                N::Xor(x, y) => { if ar.konst(y)? != m { return None; } let f = self.int_u(m); self.i_sub(f, a(self, x)) }
                _ => return None,
            })
        }
    }

    fn run_int(&mut self, ar: &mut Arena, key: &[E], set: &[u32], vars: &[VarInfo], model: &[u128], ms: u32) -> Option<Option<Vec<u128>>> {
        let mut asts = vec![];
        // a constraint without an integer form is left out: unsat stays unsat, and a model is
        // checked against the bit-vector terms below
        let mut dropped = false;
        for (i, e) in key.iter().enumerate() {
            match self.int_tr(ar, *e) { Some(a) => asts.push(a), None if i == 0 => return None, None => dropped = true }
        }
        unsafe {
            Z3_solver_reset(self.ctx, self.ie.s);
            if self.ie.cur_timeout != ms {
                let p = Z3_mk_params(self.ctx);
                Z3_params_inc_ref(self.ctx, p);
                let k = Z3_mk_string_symbol(self.ctx, b"timeout\0".as_ptr() as *const c_char);
                Z3_params_set_uint(self.ctx, p, k, ms);
                Z3_solver_set_params(self.ctx, self.ie.s, p);
                self.ie.cur_timeout = ms;
            }
            let mut seen = std::collections::HashSet::new();
            let mut done: std::collections::HashSet<P> = Default::default();
            let mut st: Vec<E> = key.to_vec();
            while let Some(e) = st.pop() {
                if e == 0 || !seen.insert(e) { continue; }
                if let Some(x) = self.ie.aux.get(&e) { for a in x { if done.insert(*a) { Z3_solver_assert(self.ctx, self.ie.s, *a); } } }
                for k in ar.kids_of(e) { st.push(k); }
            }
            for v in set {
                let i = vars[*v as usize];
                if i.w == 1 { continue; }
                let e = ar.var(*v, i.w, i.lo, i.hi);
                let a = self.int_tr(ar, e)?;
                let (lo, hi) = (self.int_u(i.lo), self.int_u(i.hi));
                Z3_solver_assert(self.ctx, self.ie.s, self.i_le(lo, a));
                Z3_solver_assert(self.ctx, self.ie.s, self.i_le(a, hi));
            }
            for a in asts { Z3_solver_assert(self.ctx, self.ie.s, a); }
            let r = Z3_solver_check(self.ctx, self.ie.s);
            if r == -1 { return Some(None); }
            if r != 1 { return None; }
            let mut mm = model.to_vec();
            let m = Z3_solver_get_model(self.ctx, self.ie.s);
            Z3_model_inc_ref(self.ctx, m);
            for v in set {
                let i = vars[*v as usize];
                let e = ar.var(*v, i.w, i.lo, i.hi);
                let a = self.int_tr(ar, e)?;
                let mut out: P = std::ptr::null_mut();
                Z3_model_eval(self.ctx, m, a, true, &mut out);
                let x = if i.w == 1 { (Z3_get_bool_value(self.ctx, out) == 1) as u128 } else {
                    let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, out));
                    match s.to_str().unwrap().parse::<u128>() { Ok(x) => x, Err(_) => { Z3_model_dec_ref(self.ctx, m); return None; } }
                };
                if mm.len() <= *v as usize { mm.resize(*v as usize + 1, 0); }
                mm[*v as usize] = x;
            }
            Z3_model_dec_ref(self.ctx, m);
            // the model must satisfy the bit-vector terms themselves
            for e in key {
                if ar.eval_model(*e, &mm) != 1 { if dropped { return None; } panic!("integer encoding: model does not satisfy the bit-vector query"); }
            }
            Some(Some(mm))
        }
    }
}
