//! Paged, copy-on-write memory objects holding concrete and symbolic bytes.
use crate::expr::*;
use crate::ir::V;
use std::rc::Rc;

pub const PG: u64 = 4096;
pub const LOW: u64 = 0x10000;
pub const FUNC_ID: u64 = 8;

#[derive(Clone)]
pub struct Page {
    pub b: Box<[u8]>,
    pub s: Option<Box<[E]>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Global, Heap, Stack, File, Map { file: u32, off: u64 }, Anon }

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub kind: Kind,
    pub ro: bool,
    pub pages: Vec<Option<Rc<Page>>>,
}

impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj {
        let n = ((size + PG - 1) / PG) as usize;
        Obj { size, kind, ro: false, pages: vec![None; n] }
    }
    fn page_len(&self, _p: usize) -> usize {
        if self.pages.len() == 1 && self.kind != Kind::File { (self.size.max(1)) as usize } else { PG as usize }
    }
    pub fn page_mut(&mut self, p: usize) -> &mut Page {
        let l = self.page_len(p);
        let slot = &mut self.pages[p];
        if slot.is_none() { *slot = Some(Rc::new(Page { b: vec![0; l].into_boxed_slice(), s: None })); }
        let rc = slot.as_mut().unwrap();
        // a file page or a grown object may need a longer page than it was made with
        if rc.b.len() < l {
            let pg = Rc::make_mut(rc);
            let mut v = pg.b.to_vec();
            v.resize(l, 0);
            pg.b = v.into_boxed_slice();
            if let Some(s) = &pg.s { let mut v = s.to_vec(); v.resize(l, 0); pg.s = Some(v.into_boxed_slice()); }
        }
        Rc::make_mut(rc)
    }
    #[inline]
    pub fn byte(&self, o: u64) -> (u8, E) {
        match &self.pages[(o / PG) as usize] {
            None => (0, 0),
            Some(p) => {
                let i = (o % PG) as usize;
                if i >= p.b.len() { return (0, 0); }
                (p.b[i], p.s.as_ref().map_or(0, |s| s[i]))
            }
        }
    }
    pub fn set_byte(&mut self, o: u64, b: u8, e: E) {
        let i = (o % PG) as usize;
        if b == 0 && e == 0 && self.pages[(o / PG) as usize].is_none() { return; }
        let pg = self.page_mut((o / PG) as usize);
        pg.b[i] = b;
        if e != 0 {
            let l = pg.b.len();
            pg.s.get_or_insert_with(|| vec![0; l].into_boxed_slice())[i] = e;
        } else if let Some(s) = &mut pg.s { s[i] = 0; }
    }
    pub fn read(&self, ar: &mut Arena, o: u64, n: u64) -> V {
        let pi = (o / PG) as usize;
        let i = (o % PG) as usize;
        if i as u64 + n <= PG {
            match &self.pages[pi] {
                None => return V::C(0),
                Some(p) if i + n as usize <= p.b.len() => {
                    if p.s.as_ref().map_or(true, |s| s[i..i + n as usize].iter().all(|x| *x == 0)) {
                        let mut buf = [0u8; 16];
                        buf[..n as usize].copy_from_slice(&p.b[i..i + n as usize]);
                        return V::C(u128::from_le_bytes(buf));
                    }
                }
                _ => {}
            }
        }
        let mut acc: E = 0;
        let mut conc: u128 = 0;
        let mut any = false;
        for k in 0..n {
            let (b, e) = self.byte(o + k);
            if e != 0 { any = true; }
            conc |= (b as u128) << (8 * k);
            let x = if e != 0 { e } else { ar.c(b as u128, 8) };
            acc = if k == 0 { x } else { ar.concat(x, acc) };
        }
        if !any { return V::C(conc); }
        match ar.konst(acc) { Some(k) => V::C(k), None => V::S(acc) }
    }
    pub fn write(&mut self, ar: &mut Arena, o: u64, n: u64, v: &V) {
        match v {
            V::C(x) => {
                let i = (o % PG) as usize;
                let buf = x.to_le_bytes();
                if i as u64 + n <= PG {
                    let pg = self.page_mut((o / PG) as usize);
                    pg.b[i..i + n as usize].copy_from_slice(&buf[..n as usize]);
                    if let Some(s) = &mut pg.s { for q in &mut s[i..i + n as usize] { *q = 0; } }
                } else {
                    for k in 0..n { self.set_byte(o + k, buf[k as usize], 0); }
                }
            }
            V::S(e) => {
                let w = ar.w(*e);
                let e = if w < (n * 8) as u32 { ar.zext(*e, (n * 8) as u32) } else { *e };
                for k in 0..n {
                    let x = ar.extract(e, (8 * k) as u32, 8);
                    match ar.konst(x) { Some(c) => self.set_byte(o + k, c as u8, 0), None => self.set_byte(o + k, 0, x) }
                }
            }
            V::A(_) => panic!("aggregate write"),
        }
    }
    /// Copy n bytes from src (a different or equal snapshot) without looking at them.
    pub fn copy_from(&mut self, dst: u64, src: &Obj, so: u64, n: u64) {
        let mut k = 0;
        while k < n {
            let (d, s) = (dst + k, so + k);
            let chunk = (PG - d % PG).min(PG - s % PG).min(n - k);
            let (di, si) = ((d % PG) as usize, (s % PG) as usize);
            let sp = src.pages[(s / PG) as usize].clone();
            match sp {
                None => {
                    if self.pages[(d / PG) as usize].is_some() {
                        let pg = self.page_mut((d / PG) as usize);
                        for q in &mut pg.b[di..di + chunk as usize] { *q = 0; }
                        if let Some(s) = &mut pg.s { for q in &mut s[di..di + chunk as usize] { *q = 0; } }
                    }
                }
                Some(sp) => {
                    let pg = self.page_mut((d / PG) as usize);
                    let have = sp.b.len().saturating_sub(si).min(chunk as usize);
                    pg.b[di..di + have].copy_from_slice(&sp.b[si..si + have]);
                    for q in &mut pg.b[di + have..di + chunk as usize] { *q = 0; }
                    let any = sp.s.as_ref().map_or(false, |s| s[si..si + have].iter().any(|x| *x != 0));
                    if any {
                        let l = pg.b.len();
                        let ps = pg.s.get_or_insert_with(|| vec![0; l].into_boxed_slice());
                        ps[di..di + have].copy_from_slice(&sp.s.as_ref().unwrap()[si..si + have]);
                        for q in &mut ps[di + have..di + chunk as usize] { *q = 0; }
                    } else if let Some(s) = &mut pg.s { for q in &mut s[di..di + chunk as usize] { *q = 0; } }
                }
            }
            k += chunk;
        }
    }
    pub fn grow(&mut self, size: u64) {
        let n = ((size + PG - 1) / PG) as usize;
        self.pages.resize(n, None);
        self.size = size;
    }
}

#[derive(Clone)]
pub struct Mem {
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
}

impl Mem {
    pub fn new() -> Mem { Mem { objs: vec![None; 16], free: vec![] } }
    pub fn base(id: u32) -> u64 { ((id as u64) << 32) + LOW }
    pub fn alloc(&mut self, size: u64, kind: Kind) -> u32 {
        let id = if self.free.len() > 64 { self.free.remove(0) } else { self.objs.push(None); (self.objs.len() - 1) as u32 };
        self.objs[id as usize] = Some(Rc::new(Obj::new(size, kind)));
        id
    }
    pub fn release(&mut self, id: u32) {
        self.objs[id as usize] = None;
        self.free.push(id);
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> { self.objs.get(id as usize).and_then(|o| o.as_ref()) }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> &mut Obj { Rc::make_mut(self.objs[id as usize].as_mut().unwrap()) }
    /// (object, offset) of an address; the offset may be out of bounds
    #[inline]
    pub fn find(&self, addr: u64) -> Option<(u32, u64)> {
        let id = (addr >> 32) as u32;
        if (id as usize) < self.objs.len() && self.objs[id as usize].is_some() {
            let off = (addr & 0xffff_ffff).wrapping_sub(LOW);
            Some((id, off))
        } else { None }
    }
}
