//! The symbolic executor: states, forking decisions, instruction semantics.
use crate::env::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

pub struct Code {
    pub m: Module,
    pub fn_index: HashMap<Arc<str>, u32>,
    pub ext_names: Vec<Arc<str>>, // index - funcs.len()
    pub ext: Vec<Ext>,
    pub fn_is_panic: Vec<bool>,
    pub fn_hook: Vec<Option<Ext>>,
    pub global_index: HashMap<Arc<str>, u32>,
    pub max_dbg: u32,
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub ret_dst: u32,
    pub normal: Option<u32>,
    pub mark: Mark,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mark { None, Crash, ThreadRoot }

#[derive(Clone, PartialEq, Debug)]
pub enum TStat { Run, Futex(u64), Join(usize), Done }

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub tls: BTreeMap<u32, u64>,
    pub stat: TStat,
    pub ret: u64,
    /// between sv_thread(n) and sv_thread(0), where it may be preempted
    pub region: bool,
}

pub struct DecNode { pub bit: bool, pub val: u128, pub loc: u32, pub prev: Option<Rc<DecNode>>, pub n: u32 }

impl Drop for DecNode {
    fn drop(&mut self) {
        let mut cur = self.prev.take();
        while let Some(rc) = cur {
            match Rc::try_unwrap(rc) { Ok(mut n) => cur = n.prev.take(), Err(_) => break }
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub cons: Vec<E>,
    pub known: HashMap<E, bool>,
    pub fixed: HashSet<u32>,
    pub model: Vec<u128>,
    pub vars: Vec<VarInfo>,
    pub var_names: Vec<Rc<str>>,
    pub dec: Option<Rc<DecNode>>,
    pub replay: Option<Rc<Vec<(bool, u128, u32)>>>,
    pub conc_memo: HashMap<E, u128>,
    pub obj_memo: HashMap<E, u32>,
    pub replay_pos: usize,
    pub obs: Vec<(Rc<str>, V)>,
    pub pending: Vec<E>,
    pub fs: Fs,
    pub steps: u64,
    pub panic_ok: bool,
    pub crash: Option<CrashCtl>,
    pub fault: FaultCtl,
    pub preempt: u32,
    pub sched_on: bool,
    pub keys: u64,
    pub events: Vec<String>,
    pub errno_addr: u64,
}

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Assumed,
    Panic(String),
    Violation { msg: String, model: Vec<u128> },
    Error(String),
    Yield, // reschedule
}

#[derive(Clone, Debug)]
pub struct Finding { pub kind: String, pub msg: String, pub values: Vec<(String, u128)>, pub stack: Vec<String>, pub events: Vec<String> }

#[derive(Default, Clone)]
pub struct Report {
    pub paths: u64,
    pub assumed: u64,
    pub instrs: u64,
    pub forks: u64,
    pub errors: BTreeMap<String, u64>,
    pub findings: Vec<Finding>,
    pub finding_counts: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, [u64; 3]>, // reached, discharged by solver, discharged by term simplification
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(String, u128)>, Vec<(String, u128)>)>,
    pub lines: HashSet<u32>,
    pub funcs: HashSet<u32>,
    pub expected_panics: u64,
    pub max_cons: usize,
    pub incomplete: bool,
    pub crash_points: u64,
    pub sched_points: u64,
}

pub struct Exec<'m> {
    pub code: &'m Code,
    pub ar: Arena,
    pub sol: Solver,
    pub work: Vec<State>,
    pub fp_tab: HashMap<E, (E, u128, Rc<Vec<u128>>)>,
    pub rep: Report,
    pub cov: Vec<bool>,
    pub fcov: Vec<bool>,
    pub opts: Opts,
    pub ret_mask: u128,
}

#[derive(Clone)]
pub struct Opts {
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_findings: usize,
    pub max_samples: usize,
    pub verbose: bool,
    pub concrete: Option<Vec<u128>>,
    pub params: Vec<u64>,
    pub stub_format: bool,
    pub trace: bool,
    pub preempt: u32,
}

type X<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> X<T> { Err(Stop::Error(s.into())) }

impl<'m> Exec<'m> {
    pub fn new(code: &'m Code, opts: Opts, timeout_ms: u32) -> Self {
        Exec {
            code,
            ar: Arena::new(),
            sol: Solver::new(timeout_ms),
            work: vec![],
            fp_tab: HashMap::new(),
            rep: Report::default(),
            cov: vec![false; code.max_dbg as usize + 1],
            fcov: vec![false; code.m.funcs.len()],
            opts,
            ret_mask: u128::MAX,
        }
    }

    pub fn init_state(&mut self, entry: &str) -> Result<State, String> {
        let code = self.code;
        let f = *code.fn_index.get(entry).ok_or(format!("no entry {entry}"))?;
        if f as usize >= code.m.funcs.len() { return Err(format!("{entry} has no body")); }
        let mut mem = Mem::new();
        for g in &code.m.globals {
            let id = mem.alloc(g.ty.size(), Kind::Global);
            mem.get_mut(id).ro = false;
        }
        for (i, g) in code.m.globals.iter().enumerate() {
            let id = 16 + i as u32;
            if let Some(k) = &g.init {
                let mut o = mem.get_mut(id).clone();
                self.write_const(&mut o, 0, &g.ty, k)?;
                o.ro = g.constant;
                mem.objs[id as usize] = Some(Rc::new(o));
            }
        }
        let e = mem.alloc(16, Kind::Global);
        let errno_addr = Mem::base(e);
        let func = &code.m.funcs[f as usize];
        let mut st = State {
            mem,
            threads: vec![Thread { frames: vec![], tls: BTreeMap::new(), stat: TStat::Run, ret: 0, region: false }],
            cur: 0,
            cons: vec![],
            known: HashMap::new(),
            fixed: HashSet::new(),
            model: vec![],
            vars: vec![],
            var_names: vec![],
            dec: None,
            replay: None,
            conc_memo: HashMap::new(),
            obj_memo: HashMap::new(),
            replay_pos: 0,
            obs: vec![],
            pending: vec![],
            fs: Fs::default(),
            steps: 0,
            panic_ok: false,
            crash: None,
            fault: FaultCtl::default(),
            preempt: 0,
            sched_on: false,
            keys: 0,
            events: vec![],
            errno_addr,
        };
        st.fs.init();
        self.push_frame(&mut st, f, vec![], u32::MAX, None, Mark::None);
        let _ = func;
        Ok(st)
    }

    fn const_addr(&self, n: &str) -> Option<u64> {
        if let Some(i) = self.code.global_index.get(n) { return Some(Mem::base(*i)); }
        if let Some(i) = self.code.fn_index.get(n) { return Some(func_addr(*i)); }
        None
    }

    fn write_const(&mut self, o: &mut Obj, off: u64, ty: &Ty, k: &K) -> Result<(), String> {
        match k {
            K::Undef(_) | K::Zero(_) => {}
            K::Bytes(b) => for (i, x) in b.iter().enumerate() { o.set_byte(off + i as u64, *x, 0); },
            K::Agg(v) => {
                for (i, (t, kk)) in v.iter().enumerate() {
                    self.write_const(o, off + ty.field_off(i), t, kk)?;
                }
            }
            _ => {
                let v = const_val(self.code, k, ty)?;
                if ty.size() > 0 { o.write(&mut self.ar, off, ty.size(), &v); }
            }
        }
        Ok(())
    }

    pub fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<V>, ret_dst: u32, normal: Option<u32>, mark: Mark) {
        let func = &self.code.m.funcs[f as usize];
        self.fcov[f as usize] = true;
        let mut regs = vec![V::C(0); func.nregs as usize];
        let mut allocas = vec![];
        for ((i, (r, _)), a) in func.params.iter().enumerate().zip(args) {
            if let Some(sz) = func.param_byval[i] {
                if let V::C(p) = &a {
                    let id = st.mem.alloc(sz, Kind::Stack);
                    if let Some((so, off)) = st.mem.find(*p as u64) {
                        let src = st.mem.get(so).unwrap().clone();
                        if off + sz <= src.size { st.mem.get_mut(id).copy_from(0, &src, off, sz); }
                    }
                    allocas.push(id);
                    regs[*r as usize] = V::C(Mem::base(id) as u128);
                    continue;
                }
            }
            regs[*r as usize] = a;
        }
        st.threads[st.cur].frames.push(Frame { func: f, block: 0, ip: 0, regs, allocas, ret_dst, normal, mark });
    }

    // ---- decisions -------------------------------------------------------------------------

    fn loc(&self, st: &State) -> u32 {
        match st.threads[st.cur].frames.last() { Some(f) => f.func.wrapping_mul(31).wrapping_add(f.block).wrapping_mul(131).wrapping_add(f.ip), None => 0 }
    }

    pub fn add_con(&mut self, st: &mut State, c: E) {
        if c == TRUE { return; }
        // split conjunctions
        if let N::And(a, b) = self.ar.nodes[c as usize].n {
            self.add_con(st, a);
            self.add_con(st, b);
            st.known.insert(c, true);
            return;
        }
        if st.known.get(&c) == Some(&true) { return; }
        if let N::Eq(a, b) = self.ar.nodes[c as usize].n {
            if let (N::Var(i), Some(k)) = (self.ar.nodes[a as usize].n, self.ar.konst(b)) { st.fixed.insert(i); st.model[i as usize] = k; }
        }
        if let N::Var(i) = self.ar.nodes[c as usize].n { st.fixed.insert(i); st.model[i as usize] = 1; }
        let nc = self.ar.not(c);
        if let N::Var(i) = self.ar.nodes[nc as usize].n { st.fixed.insert(i); st.model[i as usize] = 0; }
        st.known.insert(c, true);
        st.known.insert(nc, false);
        st.cons.push(c);
    }

    fn push_dec(&mut self, st: &mut State, bit: bool, val: u128) {
        let n = st.dec.as_ref().map_or(0, |d| d.n) + 1;
        let loc = self.loc(st);
        st.dec = Some(Rc::new(DecNode { bit, val, loc, prev: st.dec.take(), n }));
    }

    fn pop_replay(&mut self, st: &mut State) -> X<Option<(bool, u128)>> {
        if let Some(rp) = st.replay.clone() {
            let (b, v, loc) = rp[st.replay_pos];
            if loc != self.loc(st) { return err("replay divergence"); }
            st.replay_pos += 1;
            self.push_dec(st, b, v);
            if st.replay_pos == rp.len() { st.replay = None; }
            return Ok(Some((b, v)));
        }
        Ok(None)
    }

    /// After a replayed prefix: a model of everything so far.
    fn fresh_model(&mut self, st: &mut State) -> X<()> {
        let mut model = st.model.clone();
        let all = st.cons.clone();
        for q in &all {
            if self.ar.eval(*q, &model) == 1 { continue; }
            match self.sol.check(&mut self.ar, &all, *q, &st.vars, &model) {
                Res::Sat(m) => model = m,
                Res::Unsat => return err("replayed prefix is infeasible"),
                Res::Unknown => return err("solver gave no answer on a replayed prefix"),
            }
        }
        st.model = model;
        Ok(())
    }

    /// A value of `e` in the current model (recorded, so that a replay picks the same one).
    fn pick(&mut self, st: &mut State, e: E) -> X<u128> {
        if let Some((_, v)) = self.pop_replay(st)? {
            if st.replay.is_none() { self.fresh_model(st)?; }
            return Ok(v);
        }
        let v = self.ar.eval(e, &st.model);
        self.push_dec(st, true, v);
        Ok(v)
    }

    /// Which way does the 1-bit term `c` go in this state? Forks when both ways are feasible.
    pub fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if c == TRUE { return Ok(true); }
        if c == FALSE { return Ok(false); }
        if let Some(b) = st.known.get(&c) { return Ok(*b); }
        let nc = self.ar.not(c);
        if let Some(b) = st.known.get(&nc) { return Ok(!*b); }
        if self.ar.vars_of(c).iter().all(|v| st.fixed.contains(v)) {
            let cur = self.ar.eval(c, &st.model) == 1;
            st.known.insert(c, cur);
            return Ok(cur);
        }
        if let Some((b, implied)) = self.pop_replay(st)? {
            let x = if b { c } else { nc };
            // a replay must know exactly what the first run knew, or it would stop asking
            if implied == 1 { st.known.insert(c, b); st.known.insert(nc, !b); } else { self.add_con(st, x); }
            if st.replay.is_none() { self.fresh_model(st)?; }
            return Ok(b);
        }
        let cur = self.ar.eval(c, &st.model) == 1;
        let (same, other) = if cur { (c, nc) } else { (nc, c) };
        match self.sol.check(&mut self.ar, &st.cons, other, &st.vars, &st.model) {
            Res::Unsat => {
                st.known.insert(c, cur);
                st.known.insert(nc, !cur);
                self.push_dec(st, cur, 1);
                Ok(cur)
            }
            Res::Sat(m) => {
                let mut o = st.clone();
                self.push_dec(&mut o, !cur, 0);
                self.add_con(&mut o, other);
                o.model = m;
                self.work.push(o);
                self.rep.forks += 1;
                self.push_dec(st, cur, 0);
                self.add_con(st, same);
                Ok(cur)
            }
            Res::Unknown => err("solver gave no answer on a branch"),
        }
    }

    /// A concrete value for a term, one state for every feasible value.
    pub fn concretize(&mut self, st: &mut State, e: E, w: u32) -> X<u128> {
        if let Some(k) = self.ar.konst(e) { return Ok(k); }
        if let Some(v) = st.conc_memo.get(&e) { return Ok(*v); }
        if self.ar.vars_of(e).iter().all(|v| st.fixed.contains(v)) { return Ok(self.ar.eval(e, &st.model)); }
        for _ in 0..100000 {
            // as a resumed fork would find it
            if self.ar.vars_of(e).iter().all(|v| st.fixed.contains(v)) { return Ok(self.ar.eval(e, &st.model)); }
            let v = self.pick(st, e)?;
            let k = self.ar.c(v, w);
            let c = self.ar.eq(e, k);
            if self.decide(st, c)? { st.conc_memo.insert(e, v); return Ok(v); }
        }
        err("concretize: too many values")
    }

    pub fn conc(&mut self, st: &mut State, v: &V, w: u32) -> X<u128> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => self.concretize(st, *e, w),
            V::A(_) => err("aggregate where an integer is needed"),
        }
    }

    pub fn to_e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.ar.c(*x, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as term"),
        }
    }
    pub fn from_e(&self, e: E) -> V {
        match self.ar.konst(e) { Some(k) => V::C(k), None => V::S(e) }
    }

    // ---- memory ----------------------------------------------------------------------------

    fn oob(&self, st: &State, addr: u64, n: u64, what: &str) -> Stop {
        let d = match st.mem.find(addr) {
            Some((id, off)) => { let o = st.mem.get(id).unwrap(); format!("offset {} of a {:?} object of {} bytes", off as i64, o.kind, o.size) }
            None => format!("address {addr:#x} is not mapped"),
        };
        Stop::Panic(format!("memory fault: {what} of {n} bytes at {d}"))
    }

    /// Resolve a concrete address for an access; follows file mappings.
    pub fn resolve(&self, st: &State, addr: u64, n: u64, write: bool) -> X<(u32, u64)> {
        match st.mem.find(addr) {
            Some((id, off)) => {
                let o = st.mem.get(id).unwrap();
                if off > o.size || o.size - off < n { return Err(self.oob(st, addr, n, if write { "write" } else { "read" })); }
                if write && o.ro { return Err(Stop::Panic(format!("memory fault: write of {n} bytes to read-only memory"))); }
                if let Kind::Map { file, off: fo } = o.kind {
                    let f = st.mem.get(file).unwrap();
                    let end = (f.size + PG - 1) / PG * PG;
                    if fo + off + n > end { return Err(Stop::Panic(format!("memory fault (SIGBUS): access at file offset {} past the end {} of the file", fo + off, f.size))); }
                    return Ok((file, fo + off));
                }
                Ok((id, off))
            }
            None => Err(self.oob(st, addr, n, if write { "write" } else { "read" })),
        }
    }

    pub fn load_n(&mut self, st: &mut State, addr: &V, n: u64) -> X<V> {
        if n == 0 { return Ok(V::C(0)); }
        match addr {
            V::C(a) => {
                let (id, off) = self.resolve(st, *a as u64, n, false)?;
                Ok(st.mem.objs[id as usize].as_ref().unwrap().read(&mut self.ar, off, n))
            }
            V::S(e) => self.load_sym(st, *e, n),
            V::A(_) => err("aggregate address"),
        }
    }

    /// Object a symbolic address points into (after forking away everything else), as (id, base, size).
    fn sym_object(&mut self, st: &mut State, e: E, n: u64) -> X<(u32, u64, u64)> {
        if let Some(id) = st.obj_memo.get(&e).copied() {
            if let Some(o) = st.mem.get(id) { if n <= o.size {
                let (size, base) = (o.size, Mem::base(id));
                let b = self.ar.c(base as u128, 64);
                let off = self.ar.sub(e, b);
                let lim = self.ar.c((size - n) as u128, 64);
                let inb = self.ar.ule(off, lim);
                if self.decide(st, inb)? { return Ok((id, base, size)); }
            } }
        }
        for _ in 0..1000 {
            let a0 = self.pick(st, e)? as u64;
            let id = match st.mem.find(a0) { Some(x) => x.0, None => return Err(self.oob(st, a0, n, "access through a computed address")) };
            let size = st.mem.get(id).unwrap().size;
            if n > size { return Err(self.oob(st, a0, n, "access through a computed address")); }
            let base = Mem::base(id);
            let b = self.ar.c(base as u128, 64);
            let off = self.ar.sub(e, b);
            let lim = self.ar.c((size - n) as u128, 64);
            let inb = self.ar.ule(off, lim);
            if inb == FALSE || st.known.get(&inb) == Some(&false) { return Err(self.oob(st, a0, n, "access through a computed address")); }
            if self.decide(st, inb)? { st.obj_memo.insert(e, id); return Ok((id, base, size)); }
        }
        err("symbolic address: too many objects")
    }

    fn term_tz(&self, e: E) -> u32 {
        match self.ar.nodes[e as usize].n {
            N::Const(0) => 64,
            N::Const(k) => k.trailing_zeros().min(64),
            N::Add(a, b) => self.term_tz(a).min(self.term_tz(b)),
            N::Concat(h, l) => { let t = self.term_tz(l); if t >= self.ar.w(l) { self.ar.w(l) + self.term_tz(h) } else { t } }
            N::ZExt(a) => self.term_tz(a),
            N::Mul(a, b) => self.term_tz(a) + self.term_tz(b),
            _ => 0,
        }
    }

    fn load_sym(&mut self, st: &mut State, e: E, n: u64) -> X<V> {
        if self.ar.vars_of(e).iter().all(|v| st.fixed.contains(v)) {
            let a = self.ar.eval(e, &st.model);
            return self.load_n(st, &V::C(a), n);
        }
        if let N::Ite(c, x, y) = self.ar.nodes[e as usize].n {
            if self.ar.konst(x).is_some() || self.ar.konst(y).is_some() {
                let p = if self.decide(st, c)? { x } else { y };
                let v = self.from_e(p);
                return self.load_n(st, &v, n);
            }
        }
        let (id, base, size) = self.sym_object(st, e, n)?;
        let b = self.ar.c(base as u128, 64);
        let off = self.ar.sub(e, b);
        let (lo, hi) = self.ar.range(off);
        let lo = (lo as u64).min(size);
        let hi = (hi as u64).min(size - n);
        let tz = self.term_tz(off).min(12);
        let stride = 1u64 << tz;
        let lo = (lo + stride - 1) / stride * stride;
        let (fid, foff) = match st.mem.get(id).unwrap().kind.clone() { Kind::Map { file, off } => (file, off), _ => (id, 0) };
        let obj = st.mem.get(fid).unwrap().clone();
        if foff + hi + n > (obj.pages.len() as u64 * PG) { return err("symbolic access may pass the end of a file"); }
        let w = (n * 8) as u32;
        let count = if hi >= lo { (hi - lo) / stride + 1 } else { 0 };
        let mut cands: Vec<(u64, V)> = vec![];
        if count <= 300 {
            let mut o = lo;
            while o <= hi { let v = obj.read(&mut self.ar, foff + o, n); cands.push((o, v)); o += stride; }
        } else {
            // sparse object: only what is not zero
            let mut o = lo;
            while o <= hi {
                let p = ((foff + o) / PG) as usize;
                let p2 = ((foff + o + n - 1) / PG) as usize;
                if obj.pages[p].is_none() && obj.pages[p2].is_none() {
                    let next = (p as u64 + 1) * PG - foff;
                    let next = (next + stride - 1) / stride * stride;
                    o = next.max(o + stride);
                    continue;
                }
                let v = obj.read(&mut self.ar, foff + o, n);
                if v != V::C(0) { cands.push((o, v)); }
                o += stride;
            }
            if cands.len() > 600 {
                let a = self.concretize(st, e, 64)?;
                return self.load_n(st, &V::C(a), n);
            }
        }
        // group equal values
        let mut acc: E = if count <= 300 { match cands.last() { Some((_, v)) => { let v = v.clone(); self.to_e(&v, w) } None => self.ar.c(0, w) } } else { self.ar.c(0, w) };
        for (o, v) in cands.iter().rev() {
            let k = self.ar.c(*o as u128, 64);
            let c = self.ar.eq(off, k);
            let x = self.to_e(v, w);
            acc = self.ar.ite(c, x, acc);
        }
        Ok(self.from_e(acc))
    }

    pub fn store_n(&mut self, st: &mut State, addr: &V, n: u64, v: &V) -> X<()> {
        if n == 0 { return Ok(()); }
        let a = match addr {
            V::C(a) => *a as u64,
            V::S(e) => {
                let e = *e;
                self.concretize(st, e, 64)? as u64
            }
            V::A(_) => return err("aggregate address"),
        };
        let (id, off) = self.resolve(st, a, n, true)?;
        if st.crash.is_some() && st.mem.get(id).unwrap().kind == Kind::File { self.crash_point(st, "store")?; }
        Rc::make_mut(st.mem.objs[id as usize].as_mut().unwrap()).write(&mut self.ar, off, n, v);
        Ok(())
    }

    fn load_ty(&mut self, st: &mut State, ty: &Ty, addr: &V) -> X<V> {
        match ty {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as u64;
                let v = self.load_n(st, addr, n)?;
                if w % 8 != 0 { Ok(self.trunc(&v, *w)) } else { Ok(v) }
            }
            Ty::Ptr => self.load_n(st, addr, 8),
            Ty::Float(w) => self.load_n(st, addr, *w as u64 / 8),
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                if t.bits() % 8 != 0 {
                    // packed: as an integer of that many bits
                    let b = self.load_ty(st, &Ty::Int(*n as u32 * t.bits()), addr)?;
                    return Ok(self.unflatten(ty, b));
                }
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n { let a = self.addr_add(addr, (i as u64 * t.size()) as i64); v.push(self.load_ty(st, t, &a)?); }
                Ok(V::A(v))
            }
            Ty::Struct(_, fs) => {
                let mut v = vec![];
                for (i, t) in fs.iter().enumerate() { let a = self.addr_add(addr, ty.field_off(i) as i64); v.push(self.load_ty(st, t, &a)?); }
                Ok(V::A(v))
            }
            _ => err(format!("load of {ty:?}")),
        }
    }
    fn store_ty(&mut self, st: &mut State, ty: &Ty, addr: &V, v: &V) -> X<()> {
        match ty {
            Ty::Int(w) => { let n = ((*w + 7) / 8) as u64; self.store_n(st, addr, n, v) }
            Ty::Ptr => self.store_n(st, addr, 8, v),
            Ty::Float(w) => self.store_n(st, addr, *w as u64 / 8, v),
            Ty::Vec(n, _) | Ty::Arr(n, _) => {
                let t = ty.elem(0);
                if t.bits() % 8 != 0 {
                    let (b, w) = self.flatten_bits(ty, v)?;
                    return self.store_ty(st, &Ty::Int(w), addr, &b);
                }
                if let V::A(vs) = v { for i in 0..*n { let a = self.addr_add(addr, (i as u64 * t.size()) as i64); self.store_ty(st, t, &a, &vs[i])?; } Ok(()) } else if *v == V::C(0) { for i in 0..*n { let a = self.addr_add(addr, (i as u64 * t.size()) as i64); self.store_ty(st, t, &a, &V::C(0))?; } Ok(()) } else { err("vector store") }
            }
            Ty::Struct(_, fs) => {
                if let V::A(vs) = v {
                    for (i, t) in fs.iter().enumerate() { let a = self.addr_add(addr, ty.field_off(i) as i64); self.store_ty(st, t, &a, &vs[i])?; }
                    Ok(())
                } else { err("struct store") }
            }
            _ => err(format!("store of {ty:?}")),
        }
    }
    pub fn addr_add(&mut self, a: &V, k: i64) -> V {
        match a {
            V::C(x) => V::C((*x as u64).wrapping_add(k as u64) as u128),
            V::S(e) => { let c = self.ar.c(k as u64 as u128, 64); let r = self.ar.add(*e, c); self.from_e(r) }
            V::A(_) => a.clone(),
        }
    }

    pub fn alloc(&mut self, st: &mut State, size: u64, kind: Kind) -> u64 {
        let id = st.mem.alloc(size, kind);
        Mem::base(id)
    }

    /// memcpy/memmove
    pub fn copy(&mut self, st: &mut State, dst: &V, src: &V, n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        let d = self.conc(st, dst, 64)? as u64;
        if let V::S(e) = src {
            let e = *e;
            if n <= 64 && !self.ar.vars_of(e).iter().all(|v| st.fixed.contains(v)) {
                let mut parts = vec![];
                let mut k = 0;
                while k < n {
                    let c = if n - k >= 8 { 8 } else { 1 };
                    let a = self.addr_add(src, k as i64);
                    parts.push((k, c, self.load_n(st, &a, c)?));
                    k += c;
                }
                let (id, _) = self.resolve(st, d, n, true)?;
                if st.crash.is_some() && st.mem.get(id).unwrap().kind == Kind::File { return err("crash point in a symbolic copy"); }
                for (k, c, v) in parts { self.store_n(st, &V::C((d + k) as u128), c, &v)?; }
                return Ok(());
            }
        }
        let s = self.conc(st, src, 64)? as u64;
        let (did, doff) = self.resolve(st, d, n, true)?;
        let (sid, soff) = self.resolve(st, s, n, false)?;
        if st.crash.is_some() && st.mem.get(did).unwrap().kind == Kind::File { self.crash_copy(st, did, doff, sid, soff, n)?; }
        let so = st.mem.get(sid).unwrap().clone();
        Rc::make_mut(st.mem.objs[did as usize].as_mut().unwrap()).copy_from(doff, &so, soff, n);
        Ok(())
    }
    pub fn fill(&mut self, st: &mut State, dst: &V, b: &V, n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        let d = self.conc(st, dst, 64)? as u64;
        let (id, off) = self.resolve(st, d, n, true)?;
        if st.crash.is_some() && st.mem.get(id).unwrap().kind == Kind::File { self.crash_point(st, "memset")?; }
        let o = Rc::make_mut(st.mem.objs[id as usize].as_mut().unwrap());
        match b {
            V::C(x) => {
                let x = *x as u8;
                for k in 0..n { o.set_byte(off + k, x, 0); }
            }
            V::S(e) => for k in 0..n { o.set_byte(off + k, 0, *e); },
            V::A(_) => return err("memset"),
        }
        Ok(())
    }
    pub fn read_bytes_conc(&mut self, st: &mut State, addr: u64, n: u64) -> X<Vec<u8>> {
        let mut v = vec![];
        for k in 0..n {
            match self.load_n(st, &V::C((addr + k) as u128), 1)? {
                V::C(x) => v.push(x as u8),
                V::S(e) => v.push(self.concretize(st, e, 8)? as u8),
                _ => return err("bytes"),
            }
        }
        Ok(v)
    }
    pub fn read_cstr(&mut self, st: &mut State, addr: u64) -> X<String> {
        let mut v = vec![];
        let mut a = addr;
        loop {
            let b = self.read_bytes_conc(st, a, 1)?[0];
            if b == 0 { break; }
            v.push(b);
            a += 1;
            if v.len() > 4096 { return err("string too long"); }
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    // ---- scalar operations -------------------------------------------------------------------

    pub fn trunc(&mut self, v: &V, w: u32) -> V {
        match v {
            V::C(x) => V::C(x & mask(w)),
            V::S(e) => { let r = if self.ar.w(*e) == w { *e } else { self.ar.extract(*e, 0, w) }; self.from_e(r) }
            V::A(a) => V::A(a.iter().map(|x| self.trunc(x, w)).collect()),
        }
    }

    fn bin(&mut self, st: &mut State, op: Bin, w: u32, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u128 { 0 } else { x << y },
                Bin::LShr => if y >= w as u128 { 0 } else { x >> y },
                Bin::AShr => (sext(x, w) >> (y.min(w as u128 - 1) as u32)) as u128,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 { return Err(Stop::Panic("division by zero (undefined behaviour)".into())); }
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => sext(x, w).wrapping_div(sext(y, w)) as u128,
                        _ => sext(x, w).wrapping_rem(sext(y, w)) as u128,
                    }
                }
            };
            return Ok(V::C(r & m));
        }
        if let (V::A(x), V::A(y)) = (a, b) {
            let mut r = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y) { r.push(self.bin(st, op, w, p, q)?); }
            return Ok(V::A(r));
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let ar = &mut self.ar;
        let r = match op {
            Bin::Add => ar.add(x, y),
            Bin::Sub => ar.sub(x, y),
            Bin::Mul => ar.mul(x, y),
            Bin::And => ar.and(x, y),
            Bin::Or => ar.or(x, y),
            Bin::Xor => ar.xor(x, y),
            Bin::Shl => ar.shl(x, y),
            Bin::LShr => ar.lshr(x, y),
            Bin::AShr => ar.ashr(x, y),
            Bin::UDiv => ar.udiv(x, y),
            Bin::URem => ar.urem(x, y),
            Bin::SDiv => ar.sdiv(x, y),
            Bin::SRem => ar.srem(x, y),
        };
        Ok(self.from_e(r))
    }

    /// Floating point is applied value by value: a number converted from a term of small range
    /// keeps a table (one entry per value of that term), everything else is made concrete first.
    pub fn fp(&mut self, st: &mut State, op: FOp, iw: u32, ow: u32, a: &V, b: Option<&V>) -> X<V> {
        let zero = V::C(0);
        let b = b.unwrap_or(&zero);
        if let (V::C(x), V::C(y)) = (a, b) { return Ok(V::C(fp_eval(op, iw, ow, *x, *y))); }
        let tab = match (a, b) {
            (V::S(e), V::C(y)) => self.fp_table(*e, op).map(|(x, lo, t)| (x, lo, t.iter().map(|k| fp_eval(op, iw, ow, *k, *y)).collect::<Vec<_>>())),
            (V::C(x), V::S(e)) => self.fp_table(*e, op).map(|(v, lo, t)| (v, lo, t.iter().map(|k| fp_eval(op, iw, ow, *x, *k)).collect::<Vec<_>>())),
            _ => None,
        };
        if let Some((x, lo, t)) = tab {
            let w = self.ar.w(x);
            let mut r = self.ar.c(t[t.len() - 1], ow);
            for i in (0..t.len() - 1).rev() {
                if t[i] == t[i + 1] { continue; }
                let k = self.ar.c(lo + i as u128, w);
                let c = self.ar.ule(x, k);
                let v = self.ar.c(t[i], ow);
                r = self.ar.ite(c, v, r);
            }
            if self.ar.konst(r).is_none() { self.fp_tab.insert(r, (x, lo, Rc::new(t))); }
            return Ok(self.from_e(r));
        }
        let x = self.conc(st, a, iw)?;
        let y = self.conc(st, b, iw)?;
        Ok(V::C(fp_eval(op, iw, ow, x, y)))
    }
    fn fp_table(&mut self, e: E, op: FOp) -> Option<(E, u128, Rc<Vec<u128>>)> {
        if let Some(t) = self.fp_tab.get(&e) { return Some(t.clone()); }
        if !matches!(op, FOp::FromU | FOp::FromS) { return None; }
        let (lo, hi) = self.ar.range(e);
        if hi - lo > 140 { return None; }
        Some((e, lo, Rc::new((lo..=hi).collect())))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return V::C(r as u128);
        }
        if let (V::A(x), V::A(y)) = (a, b) {
            return V::A(x.iter().zip(y).map(|(p2, q)| self.icmp(p, w, p2, q)).collect());
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => { let e = ar.eq(x, y); ar.not(e) }
            Pred::Ugt => ar.ult(y, x),
            Pred::Uge => ar.ule(y, x),
            Pred::Ult => ar.ult(x, y),
            Pred::Ule => ar.ule(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sge => ar.sle(y, x),
            Pred::Slt => ar.slt(x, y),
            Pred::Sle => ar.sle(x, y),
        };
        self.from_e(r)
    }

    fn cast(&mut self, op: CastOp, fw: u32, tw: u32, a: &V) -> V {
        match a {
            V::C(x) => match op {
                CastOp::Trunc => V::C(x & mask(tw)),
                CastOp::ZExt | CastOp::Same => V::C(*x),
                CastOp::SExt => V::C(sext(*x, fw) as u128 & mask(tw)),
            },
            V::S(e) => {
                let r = match op {
                    CastOp::Trunc => self.ar.extract(*e, 0, tw),
                    CastOp::ZExt => self.ar.zext(*e, tw),
                    CastOp::SExt => self.ar.sext(*e, tw),
                    CastOp::Same => *e,
                };
                self.from_e(r)
            }
            V::A(v) => V::A(v.iter().map(|x| self.cast(op, fw, tw, x)).collect()),
        }
    }

    fn flatten_bits(&mut self, ty: &Ty, v: &V) -> X<(V, u32)> {
        match (ty, v) {
            (Ty::Vec(_, t), V::A(vs)) => {
                let w = t.bits();
                let tot = w * vs.len() as u32;
                if vs.iter().all(|x| matches!(x, V::C(_))) {
                    if tot > 128 { return err("bitcast wider than 128"); }
                    let mut r = 0u128;
                    for (i, x) in vs.iter().enumerate() { if let V::C(k) = x { r |= k << (i as u32 * w); } }
                    return Ok((V::C(r), tot));
                }
                let mut acc = self.to_e(&vs[0], w);
                for x in &vs[1..] { let e = self.to_e(x, w); acc = self.ar.concat(e, acc); }
                Ok((self.from_e(acc), tot))
            }
            (Ty::Vec(n, t), _) => Ok((v.clone(), *n as u32 * t.bits())),
            _ => Ok((v.clone(), ty.bits())),
        }
    }
    fn unflatten(&mut self, ty: &Ty, v: V) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut r = vec![];
                for i in 0..*n {
                    r.push(match &v {
                        V::C(x) => V::C((x >> (i as u32 * w)) & mask(w)),
                        V::S(e) => { let k = self.ar.extract(*e, i as u32 * w, w); self.from_e(k) }
                        V::A(_) => V::C(0),
                    });
                }
                V::A(r)
            }
            _ => v,
        }
    }

    fn truth(&mut self, st: &mut State, v: &V) -> X<bool> {
        match v {
            V::C(x) => Ok(*x & 1 == 1),
            V::S(e) => { let e = *e; self.decide(st, e) }
            V::A(_) => err("aggregate condition"),
        }
    }

    fn select(&mut self, st: &mut State, c: &V, ty: &Ty, a: V, b: V) -> X<V> {
        match c {
            V::C(x) => Ok(if x & 1 == 1 { a } else { b }),
            V::S(e) => {
                if a == b { return Ok(a); }
                let e = *e;
                if let Some(k) = st.known.get(&e) { return Ok(if *k { a } else { b }); }
                match (ty, &a, &b) {
                    (Ty::Int(w), _, _) if !matches!(a, V::A(_)) && !matches!(b, V::A(_)) => {
                        let (x, y) = (self.to_e(&a, *w), self.to_e(&b, *w));
                        let r = self.ar.ite(e, x, y);
                        Ok(self.from_e(r))
                    }
                    _ => Ok(if self.decide(st, e)? { a } else { b }),
                }
            }
            V::A(cs) => {
                if let (Ty::Vec(_, t), V::A(x), V::A(y)) = (ty, a, b) {
                    let mut r = vec![];
                    for ((c, p), q) in cs.iter().zip(x).zip(y) { r.push(self.select(st, c, t, p, q)?); }
                    Ok(V::A(r))
                } else { err("vector select") }
            }
        }
    }

    // ---- main loop ---------------------------------------------------------------------------

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.threads[st.cur].frames.iter().rev().take(40).map(|f| self.code.m.funcs[f.func as usize].name.to_string()).collect()
    }
    fn cur_lines(&self, st: &State) -> Vec<String> {
        // source line of the innermost frames, through inlining
        let mut out = vec![];
        for f in st.threads[st.cur].frames.iter().rev().take(12) {
            let func = &self.code.m.funcs[f.func as usize];
            if let Some(b) = func.blocks.get(f.block as usize) {
                let mut d = b.insts.get(f.ip as usize).map_or(0, |i| i.dbg);
                let mut guard = 0;
                while d != 0 && guard < 12 {
                    guard += 1;
                    if let Some((line, sc, ia)) = self.code.m.dilocs.get(&d) {
                        let (mut s, mut file) = (*sc, 0);
                        let mut name = String::new();
                        for _ in 0..20 { if let Some((p, fl, n, sub)) = self.code.m.discopes.get(&s) { if file == 0 { file = *fl; } if *sub { name = n.clone(); break; } s = *p; } else { break; } }
                        out.push(format!("{}:{} {}", self.code.m.difiles.get(&file).map_or("", |x| x), line, name));
                        d = *ia;
                    } else { break; }
                }
            }
        }
        out
    }

    pub fn values(&self, st: &State, model: &[u128]) -> Vec<(String, u128)> {
        st.vars.iter().enumerate().map(|(i, v)| (st.var_names[i].to_string(), model.get(i).copied().unwrap_or(v.lo))).collect()
    }

    fn finding(&mut self, st: &State, kind: &str, msg: String, model: &[u128]) {
        let key = format!("{kind}: {msg}");
        let c = self.rep.finding_counts.entry(key).or_insert(0);
        *c += 1;
        if *c as usize <= self.opts.max_findings {
            let mut stack = self.cur_lines(st);
            stack.extend(self.stack(st));
            self.rep.findings.push(Finding { kind: kind.into(), msg, values: self.values(st, model), stack, events: st.events.clone() });
        }
    }

    /// Run one state until it ends.
    pub fn run(&mut self, mut st: State) {
        loop {
            if st.steps > self.opts.max_steps {
                *self.rep.errors.entry("step limit".into()).or_insert(0) += 1;
                return;
            }
            let r = self.slice(&mut st);
            match r {
                Ok(()) => {}
                Err(Stop::Yield) => {}
                Err(stop) => {
                    self.rep.max_cons = self.rep.max_cons.max(st.cons.len());
                    match stop {
                        Stop::Done => {
                            self.rep.paths += 1;
                            if self.rep.samples.len() < self.opts.max_samples {
                                let vals = self.values(&st, &st.model);
                                let m = st.model.clone();
                                let obs = st.obs.clone().into_iter().map(|(n, v)| (n.to_string(), match v { V::C(x) => x, V::S(e) => self.ar.eval(e, &m), V::A(_) => 0 })).collect();
                                self.rep.samples.push((vals, obs));
                            }
                        }
                        Stop::Assumed => self.rep.assumed += 1,
                        Stop::Panic(msg) => {
                            self.rep.paths += 1;
                            if st.panic_ok { self.rep.expected_panics += 1; } else { let m = st.model.clone(); self.finding(&st, "panic", msg, &m); }
                        }
                        Stop::Violation { msg, model } => { self.rep.paths += 1; self.finding(&st, "assert", msg, &model); }
                        Stop::Error(msg) => {
                            if self.opts.verbose { eprintln!("error: {msg}\n  {}", self.cur_lines(&st).join("\n  ")); }
                            let loc = self.cur_lines(&st).first().cloned().unwrap_or_default();
                            *self.rep.errors.entry(format!("{msg} @ {loc}")).or_insert(0) += 1;
                        }
                        Stop::Yield => {}
                    }
                    return;
                }
            }
        }
    }

    fn val(&self, f: &Frame, o: &O) -> V {
        match o {
            O::R(r) => f.regs[*r as usize].clone(),
            O::V(v) => v.clone(),
            O::C(_) => panic!("unlowered constant"),
        }
    }

    pub fn goto_pub(&mut self, st: &mut State, b: u32) { self.goto(st, b) }
    pub fn write_const_pub(&mut self, o: &mut Obj, off: u64, ty: &Ty, k: &K) -> Result<(), String> { self.write_const(o, off, ty, k) }
    fn goto(&mut self, st: &mut State, b: u32) {
        let code = self.code;
        let cur = st.cur;
        let f = st.threads[cur].frames.last_mut().unwrap();
        let func = &code.m.funcs[f.func as usize];
        let from = f.block;
        let blk = &func.blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, v) = &blk.phis[0];
                let o = &v.iter().find(|(p, _)| *p == from).unwrap_or_else(|| panic!("phi: {} block {} ({b}) from {} ({from}): {:?}", func.name, blk.name, func.blocks[from as usize].name, v.iter().map(|x| x.0).collect::<Vec<_>>())).1;
                let x = match o { O::R(r) => f.regs[*r as usize].clone(), O::V(v) => v.clone(), O::C(_) => unreachable!() };
                f.regs[*d as usize] = x;
            } else {
                let mut tmp: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
                for (d, v) in &blk.phis {
                    let o = &v.iter().find(|(p, _)| *p == from).unwrap_or_else(|| panic!("phi: {} block {} ({b}) from {} ({from}): {:?}", func.name, blk.name, func.blocks[from as usize].name, v.iter().map(|x| x.0).collect::<Vec<_>>())).1;
                    let x = match o { O::R(r) => f.regs[*r as usize].clone(), O::V(v) => v.clone(), O::C(_) => unreachable!() };
                    tmp.push((*d, x));
                }
                for (d, x) in tmp { f.regs[d as usize] = x; }
            }
        }
        f.block = b;
        f.ip = 0;
    }

    pub fn set_reg(&self, st: &mut State, dst: u32, v: V) {
        if dst != u32::MAX {
            let c = st.cur;
            st.threads[c].frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }
    pub fn advance(&self, st: &mut State) {
        let c = st.cur;
        st.threads[c].frames.last_mut().unwrap().ip += 1;
    }

    pub fn ret(&mut self, st: &mut State, v: V) -> X<()> {
        let c = st.cur;
        let f = st.threads[c].frames.pop().unwrap();
        for a in f.allocas { st.mem.release(a); }
        if f.mark == Mark::Crash { st.crash = None; }
        if st.threads[c].frames.is_empty() {
            if c == 0 { return Err(Stop::Done); }
            st.threads[c].stat = TStat::Done;
            st.threads[c].ret = if let V::C(x) = v { x as u64 } else { 0 };
            self.wake_joiners(st);
            return self.resched(st);
        }
        let v = if f.mark == Mark::Crash { V::C(0) } else { v };
        self.set_reg(st, f.ret_dst, v);
        match f.normal {
            Some(b) => self.goto(st, b),
            None => self.advance(st),
        }
        Ok(())
    }

    fn slice(&mut self, st: &mut State) -> X<()> {
        let code = self.code;
        for _ in 0..10_000 {
            st.steps += 1;
            self.rep.instrs += 1;
            let cur = st.cur;
            let f = st.threads[cur].frames.last().unwrap();
            let func = &code.m.funcs[f.func as usize];
            let inst = &func.blocks[f.block as usize].insts[f.ip as usize];
            self.cov[inst.dbg as usize] = true;
            match &inst.op {
                Op::Bin(op, ty, a, b) => {
                    let (x, y) = (self.val(f, a), self.val(f, b));
                    let w = match ty { Ty::Vec(_, t) => t.bits(), t => t.bits() };
                    if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                        if let V::S(e) = y {
                            let z = self.ar.c(0, w);
                            let c = self.ar.eq(e, z);
                            if self.decide(st, c)? { return Err(Stop::Panic("division by zero (undefined behaviour)".into())); }
                        }
                    }
                    let r = self.bin(st, *op, w, &x, &y)?;
                    self.set_reg(st, inst.dst, r);
                    self.advance(st);
                }
                Op::WideDiv(d, h, l) => {
                    let (d, h, l) = (self.val(f, d), self.val(f, h), self.val(f, l));
                    let (d, h, l) = (self.to_e(&d, 64), self.to_e(&h, 64), self.to_e(&l, 64));
                    // the quotient must fit, or the processor traps
                    let ok = self.ar.ult(h, d);
                    if !self.decide(st, ok)? { return Err(Stop::Panic("wide division overflow".into())); }
                    let n = self.ar.concat(h, l);
                    let dz = self.ar.zext(d, 128);
                    let q = self.ar.udiv(n, dz);
                    let r = self.ar.urem(n, dz);
                    let (q, r) = (self.ar.extract(q, 0, 64), self.ar.extract(r, 0, 64));
                    let v = V::A(vec![self.from_e(r), self.from_e(q)]);
                    self.set_reg(st, inst.dst, v);
                    self.advance(st);
                }
                Op::Fp(op, iw, a, b, ow) => {
                    let x = self.val(f, a);
                    let y = b.as_ref().map(|b| self.val(f, b));
                    let r = self.fp(st, *op, *iw, *ow, &x, y.as_ref())?;
                    self.set_reg(st, inst.dst, r);
                    self.advance(st);
                }
                Op::ICmp(p, ty, a, b) => {
                    let (x, y) = (self.val(f, a), self.val(f, b));
                    let w = match ty { Ty::Vec(_, t) => t.bits(), t => t.bits() };
                    let r = self.icmp(*p, w, &x, &y);
                    self.set_reg(st, inst.dst, r);
                    self.advance(st);
                }
                Op::Select(_, c, ty, a, b) => {
                    let (cv, x, y) = (self.val(f, c), self.val(f, a), self.val(f, b));
                    let r = self.select(st, &cv, ty, x, y)?;
                    self.set_reg(st, inst.dst, r);
                    self.advance(st);
                }
                Op::Cast(op, fty, a, tty) => {
                    let x = self.val(f, a);
                    let fw = match fty { Ty::Vec(_, t) => t.bits(), t => t.bits() };
                    let tw = match tty { Ty::Vec(_, t) => t.bits(), t => t.bits() };
                    let r = self.cast(*op, fw, tw, &x);
                    self.set_reg(st, inst.dst, r);
                    self.advance(st);
                }
                Op::BitCast(fty, a, tty) => {
                    let x = self.val(f, a);
                    let r = if fty == tty { x } else {
                        let (b, _) = self.flatten_bits(fty, &x)?;
                        self.unflatten(tty, b)
                    };
                    self.set_reg(st, inst.dst, r);
                    self.advance(st);
                }
                Op::Load(ty, a, at) => {
                    let p = self.val(f, a);
                    if *at { self.sync_point(st)?; }
                    let r = self.load_ty(st, ty, &p)?;
                    self.set_reg(st, inst.dst, r);
                    self.advance(st);
                }
                Op::Store(ty, v, a, at) => {
                    let p = self.val(f, a);
                    let x = self.val(f, v);
                    if *at { self.sync_point(st)?; }
                    self.store_ty(st, ty, &p, &x)?;
                    self.advance(st);
                }
                Op::Alloca(size, _al, dy) => {
                    let n = match dy {
                        None => 1,
                        Some((t, o)) => { let v = self.val(f, o); let w = t.bits(); self.conc(st, &v, w)? as u64 }
                    };
                    let id = st.mem.alloc(size * n, Kind::Stack);
                    let fr = st.threads[cur].frames.last_mut().unwrap();
                    fr.allocas.push(id);
                    fr.regs[inst.dst as usize] = V::C(Mem::base(id) as u128);
                    fr.ip += 1;
                }
                Op::Gep(base, off, dynm) => {
                    let mut r = self.val(f, base);
                    if !dynm.is_empty() {
                        let vals: Vec<(u32, V, i64)> = dynm.iter().map(|(t, o, s)| (t.bits(), self.val(f, o), *s)).collect();
                        for (w, v, s) in vals {
                            match (&r, &v) {
                                (V::C(b), V::C(x)) => { let i = sext(*x, w) as i64; r = V::C((*b as u64).wrapping_add(i.wrapping_mul(s) as u64) as u128); }
                                _ => {
                                    let b = self.to_e(&r, 64);
                                    let x = self.to_e(&v, w);
                                    let x = self.ar.sext(x, 64);
                                    let k = self.ar.c(s as u64 as u128, 64);
                                    let m = self.ar.mul(x, k);
                                    let q = self.ar.add(b, m);
                                    r = self.from_e(q);
                                }
                            }
                        }
                    }
                    if *off != 0 { r = self.addr_add(&r, *off); }
                    self.set_reg(st, inst.dst, r);
                    self.advance(st);
                }
                Op::Extract(a, ix) => {
                    let mut v = match a { O::R(r) => &f.regs[*r as usize], O::V(v) => v, _ => unreachable!() };
                    for i in ix { match v { V::A(x) => v = &x[*i], _ => return err("extractvalue") } }
                    let v = v.clone();
                    self.set_reg(st, inst.dst, v);
                    self.advance(st);
                }
                Op::Insert(ty, a, b, ix) => {
                    let mut v = self.val(f, a);
                    let x = self.val(f, b);
                    if !matches!(v, V::A(_)) { v = zero_of(ty); }
                    { let mut q = &mut v; for i in ix { match q { V::A(y) => q = &mut y[*i], _ => return err("insertvalue") } } *q = x; }
                    self.set_reg(st, inst.dst, v);
                    self.advance(st);
                }
                Op::ExtractEl(a, i) => {
                    let v = self.val(f, a);
                    let i = self.val(f, i);
                    let i = self.conc(st, &i, 64)? as usize;
                    let r = match v { V::A(x) if i < x.len() => x[i].clone(), _ => return err("extractelement") };
                    self.set_reg(st, inst.dst, r);
                    self.advance(st);
                }
                Op::InsertEl(ty, a, b, i) => {
                    let mut v = self.val(f, a);
                    let x = self.val(f, b);
                    let i = self.val(f, i);
                    let i = self.conc(st, &i, 64)? as usize;
                    if !matches!(v, V::A(_)) { v = zero_of(ty); }
                    match &mut v { V::A(y) if i < y.len() => y[i] = x, _ => return err("insertelement") }
                    self.set_reg(st, inst.dst, v);
                    self.advance(st);
                }
                Op::Shuffle(a, b, m, n) => {
                    let get = |o: &O| -> Vec<V> { match self.val(f, o) { V::A(x) => x, _ => vec![V::C(0); *n] } };
                    let (x, y) = (get(a), get(b));
                    let r = m.iter().map(|k| if (*k as usize) < *n { x[*k as usize].clone() } else { y[*k as usize - *n].clone() }).collect();
                    self.set_reg(st, inst.dst, V::A(r));
                    self.advance(st);
                }
                Op::Call { callee, args, ret, normal } => {
                    let cv = self.val(f, callee);
                    let fi = match cv {
                        V::C(p) => match addr_func(p as u64) { Some(i) => i, None => return Err(Stop::Panic(format!("call through a bad pointer {p:#x}"))) },
                        V::S(e) => { let p = self.concretize(st, e, 64)?; match addr_func(p as u64) { Some(i) => i, None => return err("symbolic call target") } }
                        _ => return err("callee"),
                    };
                    let f = st.threads[cur].frames.last().unwrap();
                    let mut av: Vec<V> = Vec::with_capacity(args.len());
                    for (_, o) in args { av.push(self.val(f, o)); }
                    let nf = code.m.funcs.len();
                    self.ret_mask = if let Ty::Int(w) = ret { mask(*w) } else { u128::MAX };
                    if (fi as usize) < nf {
                        if code.fn_is_panic[fi as usize] { return Err(self.panic_stop(st, fi, &av)); }
                        if let Some(h) = code.fn_hook[fi as usize].as_ref().filter(|h| **h != Ext::FmtStub || self.opts.stub_format) {
                            let h = *h;
                            self.external(st, h, &av, args, inst.dst, *normal)?;
                            continue;
                        }
                        if st.threads[cur].frames.len() > 2000 { return Err(Stop::Panic("stack overflow".into())); }
                        self.push_frame(st, fi, av, inst.dst, *normal, Mark::None);
                    } else {
                        let x = code.ext[fi as usize - nf];
                        if x == Ext::Unknown { return err(format!("call to unmodelled function {}", code.ext_names[fi as usize - nf])); }
                        self.external(st, x, &av, args, inst.dst, *normal)?;
                    }
                }
                Op::Br(b) => { let b = *b; self.goto(st, b); }
                Op::CondBr(c, t, e) => {
                    let v = self.val(f, c);
                    let b = self.truth(st, &v)?;
                    self.goto(st, if b { *t } else { *e });
                }
                Op::Switch(ty, v, d, cases) => {
                    let x = self.val(f, v);
                    let w = ty.bits();
                    match x {
                        V::C(k) => {
                            let t = cases.iter().find(|(c, _)| *c == k).map_or(*d, |c| c.1);
                            self.goto(st, t);
                        }
                        V::S(e) => {
                            let mut target = *d;
                            for (k, t) in cases {
                                let kc = self.ar.c(*k, w);
                                let c = self.ar.eq(e, kc);
                                if self.decide(st, c)? { target = *t; break; }
                            }
                            self.goto(st, target);
                        }
                        _ => return err("switch"),
                    }
                }
                Op::Ret(v) => {
                    let x = match v { None => V::C(0), Some((_, o)) => self.val(f, o) };
                    self.ret(st, x)?;
                }
                Op::Unreachable => return Err(Stop::Panic("reached unreachable code".into())),
                Op::Resume => return Err(Stop::Panic("unwinding".into())),
                Op::Rmw(op, ty, a, v) => {
                    let p = self.val(f, a);
                    let x = self.val(f, v);
                    let w = ty.bits();
                    self.sync_point(st)?;
                    let old = self.load_ty(st, ty, &p)?;
                    let new = match op {
                        Rmw::Xchg => x,
                        Rmw::Add => self.bin(st, Bin::Add, w, &old, &x)?,
                        Rmw::Sub => self.bin(st, Bin::Sub, w, &old, &x)?,
                        Rmw::And => self.bin(st, Bin::And, w, &old, &x)?,
                        Rmw::Or => self.bin(st, Bin::Or, w, &old, &x)?,
                        Rmw::Xor => self.bin(st, Bin::Xor, w, &old, &x)?,
                        Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => {
                            let p = match op { Rmw::UMax => Pred::Ugt, Rmw::UMin => Pred::Ult, Rmw::Max => Pred::Sgt, _ => Pred::Slt };
                            let c = self.icmp(p, w, &old, &x);
                            self.select(st, &c, ty, old.clone(), x)?
                        }
                        _ => return err("atomicrmw operation"),
                    };
                    self.store_ty(st, ty, &p, &new)?;
                    self.set_reg(st, inst.dst, old);
                    self.advance(st);
                }
                Op::CmpXchg(ty, a, c, n) => {
                    let p = self.val(f, a);
                    let cv = self.val(f, c);
                    let nv = self.val(f, n);
                    self.sync_point(st)?;
                    let old = self.load_ty(st, ty, &p)?;
                    let e = self.icmp(Pred::Eq, ty.bits(), &old, &cv);
                    let ok = self.truth(st, &e)?;
                    if ok { self.store_ty(st, ty, &p, &nv)?; }
                    self.set_reg(st, inst.dst, V::A(vec![old, V::C(ok as u128)]));
                    self.advance(st);
                }
                Op::Fence => self.advance(st),
                Op::Freeze(a) => { let x = self.val(f, a); self.set_reg(st, inst.dst, x); self.advance(st); }
                Op::LandingPad => return err("landing pad"),
                Op::Unsupported(s) => return err(format!("unsupported instruction: {s}")),
            }
            if !st.pending.is_empty() { st.pending.clear(); }
        }
        Ok(())
    }

    fn panic_stop(&mut self, st: &mut State, fi: u32, args: &[V]) -> Stop {
        let name = self.code.m.funcs[fi as usize].name.clone();
        let mut loc = String::new();
        for a in args.iter().rev() {
            if let V::C(p) = a {
                let p = *p as u64;
                if p == 0 { continue; }
                let g = |s: &Self, st: &State, a: u64, n: u64| -> Option<u64> {
                    let (id, off) = s.resolve(st, a, n, false).ok()?;
                    let o = st.mem.get(id)?.clone();
                    let mut r = 0u64;
                    for k in 0..n { r |= (o.byte(off + k).0 as u64) << (8 * k); }
                    Some(r)
                };
                let fp = g(self, st, p, 8);
                let ln = g(self, st, p + 8, 8);
                let line = g(self, st, p + 16, 4);
                if let (Some(fp), Some(ln), Some(line)) = (fp, ln, line) {
                    if ln > 0 && ln < 300 {
                        if let Ok(b) = self.read_bytes_conc(st, fp, ln.min(250)) {
                            let s = String::from_utf8_lossy(&b).trim_end_matches('\0').to_string();
                            if s.contains(".rs") { loc = format!("{s}:{line}"); break; }
                        }
                    }
                }
            }
        }
        Stop::Panic(format!("{} at {loc}", short_name(&name)))
    }
}

pub fn short_name(n: &str) -> String {
    // the last path segment of a v0 name, good enough for messages
    let mut out = String::new();
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            if let Ok(l) = n[st..i].parse::<usize>() {
                let mut s = i;
                if s < b.len() && b[s] == b'_' { s += 1; }
                if l > 0 && s + l <= b.len() { let seg = &n[s..s + l]; if !out.is_empty() { out.push_str("::"); } out.push_str(seg); i = s + l; continue; }
            }
        } else { i += 1; }
    }
    if out.is_empty() { n.to_string() } else { out }
}

pub fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Vec(n, t) | Ty::Arr(n, t) => V::A(vec![zero_of(t); *n]),
        Ty::Struct(_, fs) => V::A(fs.iter().map(zero_of).collect()),
        _ => V::C(0),
    }
}

pub fn func_addr(i: u32) -> u64 { (FUNC_ID << 32) + LOW + i as u64 * 64 }
pub fn addr_func(a: u64) -> Option<u32> {
    let b = (FUNC_ID << 32) + LOW;
    if a >= b && a < ((FUNC_ID + 1) << 32) && (a - b) % 64 == 0 { Some(((a - b) / 64) as u32) } else { None }
}

pub fn const_val(code: &Code, k: &K, ty: &Ty) -> Result<V, String> {
    Ok(match k {
        K::Int(x) => V::C(*x),
        K::Undef(t) | K::Zero(t) => { let _ = ty; zero_of(t) }
        K::Global(n) => {
            if let Some(i) = code.global_index.get(n) { V::C(Mem::base(*i) as u128) }
            else if let Some(i) = code.fn_index.get(n) { V::C(func_addr(*i) as u128) }
            else { return Err(format!("unknown symbol {n}")); }
        }
        K::Add(b, off) => match const_val(code, b, &Ty::Ptr)? { V::C(x) => V::C((x as u64).wrapping_add(*off as u64) as u128), _ => return Err("const add".into()) },
        K::SubTrunc(a, b, w) => match (const_val(code, a, &Ty::Int(64))?, const_val(code, b, &Ty::Int(64))?) { (V::C(x), V::C(y)) => V::C(x.wrapping_sub(y) & mask(*w)), _ => return Err("const sub".into()) },
        K::Agg(v) => { let mut r = vec![]; for (t, k) in v { r.push(const_val(code, k, t)?); } V::A(r) }
        K::Bytes(b) => V::A(b.iter().map(|x| V::C(*x as u128)).collect()),
        K::Bad(s) => return Err(s.clone()),
    })
}

pub fn load_code(m: Module) -> Result<Code, String> {
    let mut fn_index: HashMap<Arc<str>, u32> = HashMap::new();
    for (i, f) in m.funcs.iter().enumerate() { fn_index.insert(f.name.clone(), i as u32); }
    let nf = m.funcs.len() as u32;
    let mut ext_names = vec![];
    let mut ext = vec![];
    for d in &m.decls {
        if fn_index.contains_key(d) { continue; }
        fn_index.insert(d.clone(), nf + ext_names.len() as u32);
        ext_names.push(d.clone());
        ext.push(ext_of(d));
    }
    let mut global_index = HashMap::new();
    for (i, g) in m.globals.iter().enumerate() { global_index.insert(g.name.clone(), 16 + i as u32); }
    let fn_is_panic = m.funcs.iter().map(|f| is_panic_fn(&f.name)).collect();
    let fn_hook = m.funcs.iter().map(|f| hook_of(&f.name)).collect();
    let mut code = Code { m, fn_index, ext_names, ext, fn_is_panic, fn_hook, global_index, max_dbg: 0 };
    // aliases
    for (n, k) in code.m.aliases.clone() {
        if let K::Global(t) = k {
            if let Some(i) = code.fn_index.get(&t).copied() { code.fn_index.insert(n, i); }
            else if let Some(i) = code.global_index.get(&t).copied() { code.global_index.insert(n, i); }
        }
    }
    // lower constants
    let mut funcs = std::mem::take(&mut code.m.funcs);
    let mut max_dbg = 0;
    for f in &mut funcs {
        for b in &mut f.blocks {
            for (_, v) in &mut b.phis { for (_, o) in v { lower(&code, o, &Ty::Ptr)?; } }
            for i in &mut b.insts {
                max_dbg = max_dbg.max(i.dbg);
                if let Err(e) = lower_op(&code, &mut i.op) { i.op = Op::Unsupported(e); }
            }
        }
    }
    code.m.funcs = funcs;
    code.max_dbg = max_dbg;
    Ok(code)
}

fn lower(code: &Code, o: &mut O, ty: &Ty) -> Result<(), String> {
    if let O::C(k) = o { *o = O::V(match const_val(code, k, ty) { Ok(v) => v, Err(e) if e.starts_with("unknown symbol") => return Err(e), Err(e) => return Err(e) }); }
    Ok(())
}

fn lower_op(code: &Code, op: &mut Op) -> Result<(), String> {
    let p = Ty::Ptr;
    match op {
        Op::Bin(_, t, a, b) | Op::ICmp(_, t, a, b) => { let t = t.clone(); lower(code, a, &t)?; lower(code, b, &t) }
        Op::Select(ct, c, t, a, b) => { let (ct, t) = (ct.clone(), t.clone()); lower(code, c, &ct)?; lower(code, a, &t)?; lower(code, b, &t) }
        Op::Cast(_, t, a, _) | Op::BitCast(t, a, _) => { let t = t.clone(); lower(code, a, &t) }
        Op::Load(_, a, _) => lower(code, a, &p),
        Op::Store(t, v, a, _) => { let t = t.clone(); lower(code, v, &t)?; lower(code, a, &p) }
        Op::Alloca(_, _, Some((t, o))) => { let t = t.clone(); lower(code, o, &t) }
        Op::Gep(b, _, d) => { lower(code, b, &p)?; for (t, o, _) in d { let t = t.clone(); lower(code, o, &t)?; } Ok(()) }
        Op::Extract(a, _) => lower(code, a, &p),
        Op::Insert(_, a, b, _) => { lower(code, a, &p)?; lower(code, b, &p) }
        Op::ExtractEl(a, b) => { lower(code, a, &p)?; lower(code, b, &p) }
        Op::InsertEl(_, a, b, c) => { lower(code, a, &p)?; lower(code, b, &p)?; lower(code, c, &p) }
        Op::Shuffle(a, b, _, _) => { lower(code, a, &p)?; lower(code, b, &p) }
        Op::Call { callee, args, .. } => { lower(code, callee, &p)?; for (t, o) in args { let t = t.clone(); lower(code, o, &t)?; } Ok(()) }
        Op::CondBr(c, _, _) => lower(code, c, &p),
        Op::Switch(t, v, _, _) => { let t = t.clone(); lower(code, v, &t) }
        Op::Ret(Some((t, v))) => { let t = t.clone(); lower(code, v, &t) }
        Op::Rmw(_, t, a, v) => { let t = t.clone(); lower(code, a, &p)?; lower(code, v, &t) }
        Op::CmpXchg(t, a, c, n) => { let t = t.clone(); lower(code, a, &p)?; lower(code, c, &t)?; lower(code, n, &t) }
        Op::Freeze(a) => lower(code, a, &p),
        Op::WideDiv(a, b, c) => { let t = Ty::Int(64); lower(code, a, &t)?; lower(code, b, &t)?; lower(code, c, &t) }
        Op::Fp(_, w, a, b, _) => { let t = Ty::Int(*w); lower(code, a, &t)?; if let Some(b) = b { lower(code, b, &t)?; } Ok(()) }
        _ => Ok(()),
    }
}

fn is_panic_fn(n: &str) -> bool {
    if n.contains("4core9panicking") || n.contains("4core6option13unwrap_failed") || n.contains("4core6option13expect_failed") || n.contains("4core6result13unwrap_failed")
        || n.contains("5alloc5alloc18handle_alloc_error") || n.contains("7raw_vec12handle_error") || n.contains("7raw_vec17capacity_overflow")
        || n.contains("4core4cell22panic_already_borrowed") || n.contains("4core4cell30panic_already_mutably_borrowed")
        || n.contains("rust_begin_unwind") || n.contains("15begin_panic") || n.contains("20rust_panic_with_hook")
        || n.ends_with("10rust_panic") { return true; }
    false
}
