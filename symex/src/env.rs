//! The environment model: LLVM intrinsics, libc, files, mappings, faults, crashes, threads, and
//! the sv_* primitives harnesses use.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    Unknown, Nop, Ret0, RetM1,
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc,
    Memcpy, Memset, Bcmp, Memcmp, Strlen, Memchr,
    Minmax(u8), Ovf(u8), SatAdd, SatSub, SSat(u8), Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fsh(bool), Abs, Cmp3(bool),
    TlsAddr, Trap, AddCarry, SubBorrow, LoadRel, IsConst, Expect, PtrMask, Pmovmskb, VecReduce(u8),
    Errno, StrErr, Getenv, Sysconf, Syscall, Gettid, ClockGettime, Getrandom, Abort, Exit,
    Open, Close, Read, Write, Pread, Pwrite, Lseek, Fstat, Stat, Statx, Mkdir, Ftruncate, Fsync, Unlink, Rename, Mmap, Munmap, Msync, Mprotect, Rmdir,
    SchedYield, PthreadCreate, PthreadJoin, PthreadSelf,
    SvSym, SvAssume, SvAssert, SvCover, SvObserve, SvPanicOk, SvFault, SvFaultsHit, SvCrashRun, SvCrashed, SvParam, SvSched, SvThread, KeyCreate, SvIsSym, SvConc, SvEvent, SvFileSize, SvKill,
    FmtStub, Fp(FOp), FpSat(FOp, u32),
}

pub fn ext_of(n: &str) -> Ext {
    use Ext::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let is = |p: &str| r.starts_with(p);
        return if is("memcpy") || is("memmove") { Memcpy }
        else if is("memset") { Memset }
        else if is("umin.") { Minmax(0) } else if is("umax.") { Minmax(1) } else if is("smin.") { Minmax(2) } else if is("smax.") { Minmax(3) }
        else if is("uadd.with") { Ovf(0) } else if is("usub.with") { Ovf(1) } else if is("umul.with") { Ovf(2) }
        else if is("sadd.with") { Ovf(3) } else if is("ssub.with") { Ovf(4) } else if is("smul.with") { Ovf(5) }
        else if is("uadd.sat") { SatAdd } else if is("usub.sat") { SatSub } else if is("sadd.sat") { SSat(0) } else if is("ssub.sat") { SSat(1) }
        else if is("ctpop") { Ctpop } else if is("ctlz") { Ctlz } else if is("cttz") { Cttz }
        else if is("bswap") { Bswap } else if is("bitreverse") { Bitrev }
        else if is("fshl") { Fsh(true) } else if is("fshr") { Fsh(false) }
        else if is("abs.") { Abs } else if is("ucmp") { Cmp3(false) } else if is("scmp") { Cmp3(true) }
        else if is("threadlocal.address") { TlsAddr }
        else if is("trap") || is("ubsantrap") { Trap }
        else if is("x86.addcarry.64") { AddCarry } else if is("x86.subborrow.64") { SubBorrow }
        else if is("load.relative") { LoadRel }
        else if is("is.constant") { IsConst }
        else if is("expect") { Expect }
        else if is("ptrmask") { PtrMask }
        else if is("x86.sse2.pmovmskb") { Pmovmskb }
        else if is("vector.reduce.or") { VecReduce(0) } else if is("vector.reduce.and") { VecReduce(1) } else if is("vector.reduce.add") { VecReduce(2) }
        else if is("ceil.f") { Fp(FOp::Ceil) } else if is("floor.f") { Fp(FOp::Floor) } else if is("trunc.f") { Fp(FOp::Trunc) } else if is("fabs.f") { Fp(FOp::Abs) }
        else if is("fptoui.sat.i") || is("fptosi.sat.i") {
            let w = r[12..].split('.').next().and_then(|w| w.parse().ok()).unwrap_or(64);
            FpSat(if is("fptoui") { FOp::ToU } else { FOp::ToS }, w)
        }
        else if is("lifetime") || is("assume") || is("experimental.noalias") || is("dbg") || is("x86.sse2.pause") || is("prefetch") || is("donothing") || is("sideeffect") || is("va_") || is("invariant") { Nop }
        else { Unknown };
    }
    match n {
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "free" => Free, "posix_memalign" => PosixMemalign, "aligned_alloc" => AlignedAlloc,
        "memcpy" | "memmove" => Memcpy, "memset" => Memset, "bcmp" => Bcmp, "memcmp" => Memcmp, "strlen" => Strlen, "memchr" => Memchr,
        "__errno_location" => Errno, "__xpg_strerror_r" => StrErr,
        "getenv" | "dlsym" | "gnu_get_libc_version" | "secure_getenv" => Getenv,
        "sysconf" => Sysconf, "syscall" => Syscall, "gettid" | "getpid" => Gettid, "clock_gettime" => ClockGettime, "getrandom" => Getrandom,
        "abort" => Abort, "exit" | "_exit" => Exit,
        "open64" | "open" => Open, "close" => Close, "read" => Read, "write" => Write, "pread64" => Pread, "pwrite64" => Pwrite, "lseek64" => Lseek,
        "fstat64" | "fstat" => Fstat, "stat64" | "stat" | "lstat64" => Stat, "statx" => Statx, "mkdir" => Mkdir, "ftruncate64" | "ftruncate" => Ftruncate,
        "fsync" | "fdatasync" => Fsync, "unlink" => Unlink, "rename" => Rename, "rmdir" => Rmdir,
        "mmap" | "mmap64" => Mmap, "munmap" => Munmap, "msync" => Msync, "mprotect" => Mprotect,
        "madvise" | "flock" | "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_attr_getstack" | "pthread_detach" | "pthread_setname_np" | "pthread_getattr_np" | "pthread_attr_getguardsize" | "sigaltstack" | "prctl" | "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "sigaction" => Ret0,
        "pthread_getspecific" => Ret0,
        "sched_yield" => SchedYield, "pthread_key_create" => KeyCreate, "sv_thread" => SvThread, "pthread_create" => PthreadCreate, "pthread_join" => PthreadJoin, "pthread_self" => PthreadSelf,
        "sv_sym" => SvSym, "sv_assume" => SvAssume, "sv_assert" => SvAssert, "sv_cover" => SvCover, "sv_observe" => SvObserve, "sv_panic_ok" => SvPanicOk,
        "sv_fault" => SvFault, "sv_faults_hit" => SvFaultsHit, "sv_crash_run" => SvCrashRun, "sv_crashed" => SvCrashed, "sv_param" => SvParam, "sv_sched" => SvSched,
        "sv_is_symbolic" => SvIsSym, "sv_concretize" => SvConc, "sv_event" => SvEvent, "sv_file_size" => SvFileSize,
        _ => Unknown,
    }
}

/// Functions with a body that are replaced by a model.
pub fn hook_of(n: &str) -> Option<Ext> {
    if n.contains("5alloc3fmt6format12format_inner") { return Some(Ext::FmtStub); }
    if n.starts_with("sv_") { let e = ext_of(n); if e != Ext::Unknown { return Some(e); } }
    None
}

#[derive(Clone, Default)]
pub struct Fs {
    pub dirs: BTreeSet<String>,
    pub files: BTreeMap<String, u32>, // path -> file object
    pub fds: BTreeMap<u64, Fd>,
    pub next_fd: u64,
    pub clock: u64,
}
#[derive(Clone)]
pub struct Fd { pub obj: u32, pub pos: u64, pub path: String, pub dir: bool, pub writable: bool }

impl Fs {
    pub fn init(&mut self) {
        self.next_fd = 3;
        for d in ["/", "/tmp", "/sv"] { self.dirs.insert(d.into()); }
    }
}

#[derive(Clone, Default)]
pub struct FaultCtl { pub mask: u64, pub budget: u64, pub hit: u64, pub n: u64 }
pub const F_FTRUNCATE: u64 = 1;
pub const F_MMAP: u64 = 2;
pub const F_MSYNC: u64 = 4;
pub const F_MPROTECT: u64 = 8;
pub const F_OPEN: u64 = 16;

#[derive(Clone)]
pub struct CrashCtl { pub var: E, pub count: u64, pub depth: usize, pub dst: u32, pub normal: Option<u32>, pub limit: u64 }

type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> { Err(Stop::Error(s.into())) }

impl<'m> Exec<'m> {
    fn fin(&mut self, st: &mut State, dst: u32, normal: Option<u32>, v: V) -> X<()> {
        // -1 of whatever width the function returns
        let v = if let V::C(k) = v { V::C(k & self.ret_mask) } else { v };
        self.set_reg(st, dst, v);
        match normal {
            None => self.advance(st),
            Some(b) => self.goto_pub(st, b),
        }
        Ok(())
    }

    pub fn new_var(&mut self, st: &mut State, name: &str, w: u32, lo: u128, hi: u128) -> E {
        let i = st.vars.len() as u32;
        st.vars.push(VarInfo { w, lo, hi });
        st.var_names.push(name.into());
        let mut init = lo;
        if let Some(c) = &self.opts.concrete { if let Some(x) = c.get(i as usize) { init = (*x).clamp(lo, hi); } }
        st.model.push(init);
        let e = self.ar.var(i, w, lo, hi);
        if self.opts.concrete.is_some() {
            let k = self.ar.c(init, w);
            let c = self.ar.eq(e, k);
            self.add_con(st, c);
        }
        e
    }

    /// A nondeterministic environment choice in 0..n, made once per instruction execution.
    fn env_choice(&mut self, st: &mut State, name: &str, n: u64) -> X<u64> {
        if n <= 1 { return Ok(0); }
        let e = if let Some(e) = st.pending.first() { *e } else {
            let w = 64 - (n - 1).leading_zeros();
            let e = self.new_var(st, name, w, 0, (n - 1) as u128);
            st.pending.push(e);
            e
        };
        let w = self.ar.w(e);
        Ok(self.concretize(st, e, w)? as u64)
    }

    fn set_errno(&mut self, st: &mut State, e: u32) -> X<()> {
        let a = st.errno_addr;
        self.store_n(st, &V::C(a as u128), 4, &V::C(e as u128))
    }
    fn fail(&mut self, st: &mut State, dst: u32, normal: Option<u32>, e: u32) -> X<()> {
        self.set_errno(st, e)?;
        self.fin(st, dst, normal, V::C(mask(64)))
    }
    fn fault(&mut self, st: &mut State, bit: u64, name: &str) -> X<bool> {
        if st.fault.mask & bit == 0 || st.fault.budget == 0 { return Ok(false); }
        let r = self.env_choice(st, &format!("fault:{name}"), 2)? == 1;
        st.fault.n += 1;
        if r {
            st.fault.budget -= 1;
            st.fault.hit += 1;
            st.events.push(format!("{name} fails"));
        }
        Ok(r)
    }

    fn do_crash(&mut self, st: &mut State) -> X<()> {
        let c = st.crash.clone().unwrap();
        st.events.push(format!("crash before persistent write #{}", c.count));
        let cur = st.cur;
        while st.threads[cur].frames.len() > c.depth { let f = st.threads[cur].frames.pop().unwrap(); for a in f.allocas { st.mem.release(a); } }
        st.threads.truncate(1);
        st.crash = None;
        st.fs.fds.clear();
        // all mappings of the dead process are gone
        for id in 0..st.mem.objs.len() {
            let dead = matches!(st.mem.objs[id].as_ref().map(|o| &o.kind), Some(Kind::Map { .. }));
            if dead { st.mem.objs[id] = None; }
        }
        st.pending.clear();
        self.set_reg(st, c.dst, V::C(1));
        match c.normal { None => self.advance(st), Some(b) => self.goto_pub(st, b) }
        Err(Stop::Yield)
    }
    pub fn crash_point(&mut self, st: &mut State, _what: &str) -> X<()> {
        let c = st.crash.clone().unwrap();
        if c.count >= c.limit { return err("more crash points than the bound"); }
        let w = self.ar.w(c.var);
        let k = self.ar.c(c.count as u128, w);
        let q = self.ar.eq(c.var, k);
        if self.decide(st, q)? { return self.do_crash(st); }
        st.crash.as_mut().unwrap().count += 1;
        self.rep.crash_points += 1;
        Ok(())
    }
    /// memcpy into a mapped file: the crash may leave any prefix of it.
    pub fn crash_copy(&mut self, st: &mut State, did: u32, doff: u64, sid: u32, soff: u64, n: u64) -> X<()> {
        let c = st.crash.clone().unwrap();
        if c.count >= c.limit { return err("more crash points than the bound"); }
        let w = self.ar.w(c.var);
        let k = self.ar.c(c.count as u128, w);
        let q = self.ar.eq(c.var, k);
        if self.decide(st, q)? {
            // how many bytes made it
            let p = if let Some(e) = st.pending.first() { *e } else {
                let e = self.new_var(st, "torn", 64, 0, n as u128);
                st.pending.push(e);
                e
            };
            if n <= 64 {
                let src = st.mem.get(sid).unwrap().clone();
                let mut parts = vec![];
                for i in 0..n {
                    let new = { let (b, e) = src.byte(soff + i); if e != 0 { e } else { self.ar.c(b as u128, 8) } };
                    let old = { let (b, e) = st.mem.get(did).unwrap().byte(doff + i); if e != 0 { e } else { self.ar.c(b as u128, 8) } };
                    let ik = self.ar.c(i as u128, 64);
                    let lt = self.ar.ult(ik, p);
                    parts.push(self.ar.ite(lt, new, old));
                }
                for (i, e) in parts.into_iter().enumerate() {
                    let v = self.from_e(e);
                    let o = Rc::make_mut(st.mem.objs[did as usize].as_mut().unwrap());
                    o.write(&mut self.ar, doff + i as u64, 1, &v);
                }
            } else {
                let m = self.concretize_some(st, p, n)?;
                let src = st.mem.get(sid).unwrap().clone();
                Rc::make_mut(st.mem.objs[did as usize].as_mut().unwrap()).copy_from(doff, &src, soff, m);
            }
            return self.do_crash(st);
        }
        st.crash.as_mut().unwrap().count += 1;
        self.rep.crash_points += 1;
        Ok(())
    }
    fn concretize_some(&mut self, st: &mut State, p: E, n: u64) -> X<u64> {
        // long copies: none, one byte, half, all but one, all
        for m in [0, 1, n / 2, n - 1] {
            let k = self.ar.c(m as u128, 64);
            let q = self.ar.eq(p, k);
            if self.decide(st, q)? { return Ok(m); }
        }
        let k = self.ar.c(n as u128, 64);
        let q = self.ar.eq(p, k);
        if self.decide(st, q)? { Ok(n) } else { Err(Stop::Assumed) }
    }

    // ---- threads -----------------------------------------------------------------------------

    pub fn sync_point(&mut self, st: &mut State) -> X<()> {
        if !st.sched_on || st.threads.len() < 2 { return Ok(()); }
        let cur = st.cur;
        if st.threads[cur].ret == RESUMED { st.threads[cur].ret = 0; return Ok(()); }
        if !st.threads[cur].region { return Ok(()); }
        if st.preempt == 0 { return Ok(()); }
        let others: Vec<usize> = (0..st.threads.len()).filter(|i| *i != cur && st.threads[*i].stat == TStat::Run).collect();
        if others.is_empty() { return Ok(()); }
        let k = self.env_choice(st, "schedule", others.len() as u64 + 1)? as usize;
        self.rep.sched_points += 1;
        if k == 0 { return Ok(()); }
        st.preempt -= 1;
        st.threads[cur].ret = RESUMED;
        st.cur = others[k - 1];
        st.pending.clear();
        st.events.push(format!("switch to thread {}", st.cur));
        Err(Stop::Yield)
    }
    pub fn resched(&mut self, st: &mut State) -> X<()> {
        let run: Vec<usize> = (0..st.threads.len()).filter(|i| st.threads[*i].stat == TStat::Run).collect();
        if run.is_empty() {
            return Err(Stop::Panic("deadlock: no thread can run".into()));
        }
        // the choice among several is made by the preemption points; take the next one round robin
        let cur = st.cur;
        let next = *run.iter().find(|i| **i > cur).unwrap_or(&run[0]);
        st.cur = next;
        st.pending.clear();
        Err(Stop::Yield)
    }
    pub fn wake_joiners(&mut self, st: &mut State) {
        for i in 0..st.threads.len() {
            if let TStat::Join(t) = st.threads[i].stat { if st.threads[t].stat == TStat::Done { st.threads[i].stat = TStat::Run; } }
        }
    }

    // ---- externals ---------------------------------------------------------------------------

    fn map_v(&mut self, v: &V, w: u32, f: &mut dyn FnMut(&mut Self, E) -> E) -> V {
        match v {
            V::A(x) => V::A(x.iter().map(|q| self.map_v(q, w, f)).collect()),
            _ => { let e = self.to_e(v, w); let r = f(self, e); self.from_e(r) }
        }
    }
    fn map2(&mut self, a: &V, b: &V, w: u32, f: &mut dyn FnMut(&mut Self, E, E) -> E) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => V::A(x.iter().zip(y).map(|(p, q)| self.map2(p, q, w, f)).collect()),
            _ => { let x = self.to_e(a, w); let y = self.to_e(b, w); let r = f(self, x, y); self.from_e(r) }
        }
    }

    pub fn external(&mut self, st: &mut State, x: Ext, a: &[V], args: &[(Ty, O)], dst: u32, normal: Option<u32>) -> X<()> {
        use Ext::*;
        let w0 = args.first().map_or(64, |(t, _)| match t { Ty::Vec(_, t) => t.bits(), t => t.bits() });
        macro_rules! fin { ($v:expr) => {{ let v = $v; return self.fin(st, dst, normal, v); }}; }
        macro_rules! n { ($i:expr) => { self.conc(st, &a[$i], 64)? as u64 }; }
        if self.opts.trace { eprintln!("[{}] {x:?} {a:x?}", st.cur); }
        match x {
            Unknown => err("unknown external"),
            Nop | Ret0 => fin!(V::C(0)),
            RetM1 => fin!(V::C(mask(64))),
            Malloc => { let s = n!(0); let p = self.alloc(st, s, Kind::Heap); fin!(V::C(p as u128)) }
            Calloc => { let s = n!(0) * n!(1); let p = self.alloc(st, s, Kind::Heap); fin!(V::C(p as u128)) }
            PosixMemalign => {
                let s = n!(2);
                let p = self.alloc(st, s, Kind::Heap);
                self.store_n(st, &a[0], 8, &V::C(p as u128))?;
                fin!(V::C(0))
            }
            AlignedAlloc => { let s = n!(1); let p = self.alloc(st, s, Kind::Heap); fin!(V::C(p as u128)) }
            Realloc => {
                let p = n!(0);
                let s = n!(1);
                let q = self.alloc(st, s, Kind::Heap);
                if p != 0 {
                    let (id, off) = st.mem.find(p).ok_or(Stop::Panic("realloc of an unallocated pointer".into()))?;
                    if off != 0 { return Err(Stop::Panic("realloc of an interior pointer".into())); }
                    let o = st.mem.get(id).unwrap().clone();
                    let n = o.size.min(s);
                    let (qid, _) = st.mem.find(q).unwrap();
                    if n > 0 { st.mem.get_mut(qid).copy_from(0, &o, 0, n); }
                    st.mem.release(id);
                }
                fin!(V::C(q as u128))
            }
            Free => {
                let p = n!(0);
                if p != 0 {
                    match st.mem.find(p) {
                        Some((id, 0)) if st.mem.get(id).unwrap().kind == Kind::Heap => st.mem.release(id),
                        _ => return Err(Stop::Panic(format!("memory fault: free of {p:#x}, which is not an allocation (double free?)"))),
                    }
                }
                fin!(V::C(0))
            }
            Memcpy => { let n = n!(2); self.copy(st, &a[0], &a[1], n)?; fin!(a[0].clone()) }
            Memset => { let n = n!(2); let b = self.trunc(&a[1], 8); self.fill(st, &a[0], &b, n)?; fin!(a[0].clone()) }
            Bcmp | Memcmp => {
                let n = n!(2);
                let mut eqs = TRUE;
                // fast path
                let mut res: Option<V> = None;
                if let (V::C(p), V::C(q)) = (&a[0], &a[1]) {
                    let (p, q) = (*p as u64, *q as u64);
                    let mut diff = 0i32;
                    let mut sym = false;
                    if n > 0 {
                        let (i1, o1) = self.resolve(st, p, n, false)?;
                        let (i2, o2) = self.resolve(st, q, n, false)?;
                        let (x, y) = (st.mem.get(i1).unwrap().clone(), st.mem.get(i2).unwrap().clone());
                        for k in 0..n {
                            let (b1, e1) = x.byte(o1 + k);
                            let (b2, e2) = y.byte(o2 + k);
                            if e1 != 0 || e2 != 0 { if e1 != e2 { sym = true; break; } else { continue; } }
                            if b1 != b2 { diff = b1 as i32 - b2 as i32; break; }
                        }
                    }
                    if !sym { res = Some(V::C(diff as u32 as u128)); }
                }
                if let Some(v) = res { fin!(v) }
                let mut bytes = vec![];
                for k in 0..n {
                    let (p, q) = (self.addr_add(&a[0], k as i64), self.addr_add(&a[1], k as i64));
                    let (u, v) = (self.load_n(st, &p, 1)?, self.load_n(st, &q, 1)?);
                    bytes.push((self.to_e(&u, 8), self.to_e(&v, 8)));
                }
                if x == Bcmp {
                    for (u, v) in bytes { let e = self.ar.eq(u, v); eqs = self.ar.and(eqs, e); }
                    let (z, o) = (self.ar.c(0, 32), self.ar.c(1, 32));
                    let r = self.ar.ite(eqs, z, o);
                    fin!(self.from_e(r))
                }
                let mut r = self.ar.c(0, 32);
                for (u, v) in bytes.into_iter().rev() {
                    let e = self.ar.eq(u, v);
                    let (uz, vz) = (self.ar.zext(u, 32), self.ar.zext(v, 32));
                    let d = self.ar.sub(uz, vz);
                    r = self.ar.ite(e, r, d);
                }
                fin!(self.from_e(r))
            }
            Strlen => { let p = n!(0); let s = self.read_cstr(st, p)?; fin!(V::C(s.len() as u128)) }
            Memchr => {
                let p = n!(0); let c = n!(1) as u8; let len = n!(2);
                let b = self.read_bytes_conc(st, p, len)?;
                let r = b.iter().position(|x| *x == c).map_or(0, |i| p + i as u64);
                fin!(V::C(r as u128))
            }
            Minmax(k) => {
                let r = self.map2(&a[0], &a[1], w0, &mut |s, p, q| {
                    let c = match k { 0 => s.ar.ule(p, q), 1 => s.ar.ule(q, p), 2 => s.ar.sle(p, q), _ => s.ar.sle(q, p) };
                    s.ar.ite(c, p, q)
                });
                fin!(r)
            }
            Ovf(k) => {
                let p = self.to_e(&a[0], w0);
                let q = self.to_e(&a[1], w0);
                let w = w0;
                let (r, o) = match k {
                    0 => { let r = self.ar.add(p, q); let o = { let (_, ph) = self.ar.range(p); let (_, qh) = self.ar.range(q); if ph.checked_add(qh).map_or(false, |h| h <= mask(w)) { FALSE } else { self.ar.ult(r, p) } }; (r, o) }
                    1 => { let r = self.ar.sub(p, q); let o = self.ar.ult(p, q); (r, o) }
                    2 => {
                        let r = self.ar.mul(p, q);
                        let (_, ph) = self.ar.range(p);
                        let (_, qh) = self.ar.range(q);
                        let o = if ph.checked_mul(qh).map_or(false, |h| h <= mask(w)) { FALSE } else if w * 2 <= 128 {
                            if let Some(k) = self.ar.konst(q) { if k == 0 { FALSE } else { let lim = self.ar.c(mask(w) / k, w); self.ar.ult(lim, p) } }
                            else if let Some(k) = self.ar.konst(p) { if k == 0 { FALSE } else { let lim = self.ar.c(mask(w) / k, w); self.ar.ult(lim, q) } }
                            else {
                            let (pz, qz) = (self.ar.zext(p, 2 * w), self.ar.zext(q, 2 * w));
                            let m = self.ar.mul(pz, qz);
                            let h = self.ar.extract(m, w, w);
                            let z = self.ar.c(0, w);
                            let e = self.ar.eq(h, z);
                            self.ar.not(e) }
                        } else if let (Some(x), Some(y)) = (self.ar.konst(p), self.ar.konst(q)) { if x.checked_mul(y).is_none() { TRUE } else { FALSE } }
                        else if let Some(k) = self.ar.konst(q) { if k == 0 { FALSE } else { let lim = self.ar.c(mask(w) / k, w); self.ar.ult(lim, p) } }
                        else { return err("128-bit symbolic multiplication overflow"); };
                        (r, o)
                    }
                    3 | 4 => {
                        if w >= 128 {
                            let r = if k == 3 { self.ar.add(p, q) } else { self.ar.sub(p, q) };
                            let z = self.ar.c(0, w);
                            let (sp, sq, sr) = (self.ar.slt(p, z), self.ar.slt(q, z), self.ar.slt(r, z));
                            let same = self.ar.eq(sp, sq);
                            let cond = if k == 3 { same } else { self.ar.not(same) };
                            let ch = self.ar.xor(sp, sr);
                            let o = self.ar.and(cond, ch);
                            let v = V::A(vec![self.from_e(r), self.from_e(o)]);
                            fin!(v)
                        }
                        let (pz, qz) = (self.ar.sext(p, w + 1), self.ar.sext(q, w + 1));
                        let m = if k == 3 { self.ar.add(pz, qz) } else { self.ar.sub(pz, qz) };
                        let r = self.ar.extract(m, 0, w);
                        let rr = self.ar.sext(r, w + 1);
                        let e = self.ar.eq(rr, m);
                        (r, self.ar.not(e))
                    }
                    _ => {
                        if 2 * w > 128 {
                            let r = self.ar.mul(p, q);
                            let half = mask(w) >> 1;
                            let (_, ph) = self.ar.range(p);
                            let (_, qh) = self.ar.range(q);
                            let o = if ph <= half && qh <= half && ph.checked_mul(qh).map_or(false, |h| h <= half) { FALSE } else {
                                let (x, k) = match (self.ar.konst(p), self.ar.konst(q)) { (_, Some(k)) => (p, k), (Some(k), _) => (q, k), _ => return err("signed multiplication overflow") };
                                let ks = ((k << (128 - w)) as i128) >> (128 - w);
                                let (mx, mn) = (half as i128, -(half as i128) - 1);
                                if ks == 0 { FALSE } else {
                                    // x * ks stays in [mn, mx]
                                    let (lo, hi) = if ks > 0 { (mn / ks, mx / ks) } else if ks == -1 { (mn + 1, mx) } else { (mx / ks, mn / ks) };
                                    let l = self.ar.c(lo as u128 & mask(w), w);
                                    let h = self.ar.c(hi as u128 & mask(w), w);
                                    let a1 = self.ar.slt(x, l);
                                    let a2 = self.ar.slt(h, x);
                                    self.ar.or(a1, a2)
                                }
                            };
                            let v = V::A(vec![self.from_e(r), self.from_e(o)]);
                            fin!(v)
                        }
                        let (pz, qz) = (self.ar.sext(p, 2 * w), self.ar.sext(q, 2 * w));
                        let m = self.ar.mul(pz, qz);
                        let r = self.ar.extract(m, 0, w);
                        let rr = self.ar.sext(r, 2 * w);
                        let e = self.ar.eq(rr, m);
                        (r, self.ar.not(e))
                    }
                };
                let v = V::A(vec![self.from_e(r), self.from_e(o)]);
                fin!(v)
            }
            SatAdd => { let r = self.map2(&a[0], &a[1], w0, &mut |s, p, q| { let r = s.ar.add(p, q); let o = s.ar.ult(r, p); let m = s.ar.c(mask(w0), w0); s.ar.ite(o, m, r) }); fin!(r) }
            SatSub => { let r = self.map2(&a[0], &a[1], w0, &mut |s, p, q| { let r = s.ar.sub(p, q); let o = s.ar.ult(p, q); let z = s.ar.c(0, w0); s.ar.ite(o, z, r) }); fin!(r) }
            SSat(k) => {
                let r = self.map2(&a[0], &a[1], w0, &mut |s, p, q| {
                    let r = if k == 0 { s.ar.add(p, q) } else { s.ar.sub(p, q) };
                    let z = s.ar.c(0, w0);
                    let (sp, sq, sr) = (s.ar.slt(p, z), s.ar.slt(q, z), s.ar.slt(r, z));
                    let same = s.ar.eq(sp, sq);
                    let cond = if k == 0 { same } else { s.ar.not(same) };
                    let ch = s.ar.xor(sp, sr);
                    let o = s.ar.and(cond, ch);
                    let (mn, mx) = (s.ar.c(1u128 << (w0 - 1), w0), s.ar.c(mask(w0) >> 1, w0));
                    let lim = s.ar.ite(sp, mn, mx);
                    s.ar.ite(o, lim, r)
                });
                fin!(r)
            }
            Fp(op) => { if matches!(a[0], V::A(_)) { return err("vector floating point"); } let r = self.fp(st, op, w0, w0, &a[0], None)?; fin!(r) }
            FpSat(op, ow) => { if matches!(a[0], V::A(_)) { return err("vector floating point"); } let r = self.fp(st, op, w0, ow, &a[0], None)?; fin!(r) }
            Ctpop => { let r = self.map_v(&a[0], w0, &mut |s, e| s.ar.ctpop(e)); fin!(r) }
            Cttz if !matches!(a[0], V::A(_)) => {
                let e = self.to_e(&a[0], w0);
                if let Some(k) = self.ar.konst(e) { fin!(V::C(if k == 0 { w0 } else { k.trailing_zeros() } as u128)); }
                // split on the number: what follows (shifts, group probing) wants it concrete
                for i in 0..w0 {
                    let b = self.ar.extract(e, i, 1);
                    if self.decide(st, b)? { fin!(V::C(i as u128)); }
                }
                fin!(V::C(w0 as u128))
            }
            Ctlz | Cttz => {
                let r = self.map_v(&a[0], w0, &mut |s, e| {
                    if let Some(k) = s.ar.konst(e) {
                        let v = if x == Ctlz { if k == 0 { w0 } else { k.leading_zeros() - (128 - w0) } } else if k == 0 { w0 } else { k.trailing_zeros() };
                        return s.ar.c(v as u128, w0);
                    }
                    let mut r = s.ar.c(if x == Ctlz { w0 } else { w0 } as u128, w0);
                    for i in 0..w0 {
                        if x == Ctlz {
                            // thresholds, from the lowest up
                            let t = s.ar.c(1u128 << i, w0);
                            let ge = s.ar.ule(t, e);
                            let k = s.ar.c((w0 - 1 - i) as u128, w0);
                            r = s.ar.ite(ge, k, r);
                        } else {
                            let bit = w0 - 1 - i;
                            let b = s.ar.extract(e, bit, 1);
                            let k = s.ar.c(bit as u128, w0);
                            r = s.ar.ite(b, k, r);
                        }
                    }
                    r
                });
                fin!(r)
            }
            Bswap => {
                let r = self.map_v(&a[0], w0, &mut |s, e| { let mut acc = 0; for i in 0..w0 / 8 { let b = s.ar.extract(e, 8 * i, 8); acc = if i == 0 { b } else { s.ar.concat(acc, b) }; } acc });
                fin!(r)
            }
            Bitrev => {
                let r = self.map_v(&a[0], w0, &mut |s, e| { let mut acc = 0; for i in 0..w0 { let b = s.ar.extract(e, i, 1); acc = if i == 0 { b } else { s.ar.concat(acc, b) }; } acc });
                fin!(r)
            }
            Fsh(left) => {
                let k = self.conc(st, &a[2], w0)? % w0 as u128;
                let (p, q) = (self.to_e(&a[0], w0), self.to_e(&a[1], w0));
                let k = k as u32;
                let r = if k == 0 { if left { p } else { q } } else {
                    let k = if left { k } else { w0 - k };
                    // (p << k) | (q >> (w-k))
                    let hi = self.ar.extract(p, 0, w0 - k);
                    let lo = self.ar.extract(q, w0 - k, k);
                    self.ar.concat(hi, lo)
                };
                fin!(self.from_e(r))
            }
            Abs => {
                let r = self.map_v(&a[0], w0, &mut |s, e| { let z = s.ar.c(0, w0); let c = s.ar.slt(e, z); let n = s.ar.sub(z, e); s.ar.ite(c, n, e) });
                fin!(r)
            }
            Cmp3(signed) => {
                // result type i8 as a rule; the mangled name carries it, all uses here are i8
                let (p, q) = (self.to_e(&a[0], w0), self.to_e(&a[1], w0));
                let lt = if signed { self.ar.slt(p, q) } else { self.ar.ult(p, q) };
                let eq = self.ar.eq(p, q);
                let (m, z, o) = (self.ar.c(255, 8), self.ar.c(0, 8), self.ar.c(1, 8));
                let r = self.ar.ite(eq, z, o);
                let r = self.ar.ite(lt, m, r);
                fin!(self.from_e(r))
            }
            TlsAddr => {
                let p = n!(0);
                if st.cur == 0 { fin!(V::C(p as u128)) }
                let (id, off) = st.mem.find(p).ok_or(Stop::Error("tls".into()))?;
                let cur = st.cur;
                let base = if let Some(b) = st.threads[cur].tls.get(&id) { *b } else {
                    let size = st.mem.get(id).unwrap().size;
                    let nb = self.alloc(st, size, Kind::Global);
                    // initial image: the global as it was initialised
                    let g = &self.code.m.globals[id as usize - 16];
                    let mut o = st.mem.get((nb >> 32) as u32).unwrap().as_ref().clone();
                    if let Some(k) = &g.init { self.write_const_pub(&mut o, 0, &g.ty, k).map_err(Stop::Error)?; }
                    st.mem.objs[(nb >> 32) as usize] = Some(Rc::new(o));
                    st.threads[cur].tls.insert(id, nb);
                    nb
                };
                fin!(V::C((base + off) as u128))
            }
            Trap | Abort => Err(Stop::Panic("abort".into())),
            Exit => Err(Stop::Panic("exit".into())),
            AddCarry | SubBorrow => {
                // {i8, i64} (i8 c, i64 a, i64 b)
                let c = self.to_e(&a[0], 8);
                let z8 = self.ar.c(0, 8);
                let cz = self.ar.eq(c, z8);
                let cin = self.ar.not(cz);
                let p = self.to_e(&a[1], 64);
                let q = self.to_e(&a[2], 64);
                let (p2, q2, c2) = (self.ar.zext(p, 65), self.ar.zext(q, 65), self.ar.zext(cin, 65));
                let r = if x == AddCarry { let t = self.ar.add(p2, q2); self.ar.add(t, c2) } else { let t = self.ar.sub(p2, q2); self.ar.sub(t, c2) };
                let lo = self.ar.extract(r, 0, 64);
                let hi = self.ar.extract(r, 64, 1);
                let hi8 = self.ar.zext(hi, 8);
                let v = V::A(vec![self.from_e(hi8), self.from_e(lo)]);
                fin!(v)
            }
            LoadRel => {
                let p = n!(0); let o = n!(1);
                let v = self.load_n(st, &V::C(p.wrapping_add(o) as u128), 4)?;
                let d = self.conc(st, &v, 32)?;
                fin!(V::C(p.wrapping_add(sext(d, 32) as u64) as u128))
            }
            IsConst => fin!(V::C(0)),
            Expect => fin!(a[0].clone()),
            PtrMask => { let r = self.map2(&a[0], &a[1], 64, &mut |s, p, q| s.ar.and(p, q)); fin!(r) }
            Pmovmskb => {
                if let V::A(v) = &a[0] {
                    let mut acc = 0;
                    for (i, b) in v.iter().enumerate() { let e = self.to_e(b, 8); let bit = self.ar.extract(e, 7, 1); acc = if i == 0 { bit } else { self.ar.concat(bit, acc) }; }
                    let r = self.ar.zext(acc, 32);
                    fin!(self.from_e(r))
                }
                err("pmovmskb")
            }
            VecReduce(k) => {
                if let V::A(v) = &a[0] {
                    let mut acc = self.to_e(&v[0], w0);
                    for b in &v[1..] { let e = self.to_e(b, w0); acc = match k { 0 => self.ar.or(acc, e), 1 => self.ar.and(acc, e), _ => self.ar.add(acc, e) }; }
                    fin!(self.from_e(acc))
                }
                err("vector.reduce")
            }
            Errno => { let p = st.errno_addr; fin!(V::C(p as u128)) }
            StrErr => {
                // (errnum, buf, len)
                let p = n!(1);
                for (i, b) in b"os error\0".iter().enumerate() { self.store_n(st, &V::C((p + i as u64) as u128), 1, &V::C(*b as u128))?; }
                fin!(V::C(0))
            }
            Getenv => fin!(V::C(0)),
            Sysconf => { let k = n!(0); fin!(V::C(match k { 30 => 4096, 83 | 84 => 8, 70 => 1024, _ => mask(64) })) }
            Gettid => { let c = st.cur; fin!(V::C(1000 + c as u128)) }
            ClockGettime => {
                st.fs.clock += 1;
                let c = st.fs.clock;
                self.store_n(st, &a[1], 8, &V::C(1_700_000_000 + c as u128))?;
                let p = self.addr_add(&a[1], 8);
                self.store_n(st, &p, 8, &V::C(0))?;
                fin!(V::C(0))
            }
            Getrandom => { let n = n!(1); self.fill(st, &a[0], &V::C(0x5a), n)?; fin!(V::C(n as u128)) }
            Syscall => {
                let k = n!(0);
                match k {
                    202 => {
                        let addr = n!(1);
                        let op = n!(2) & 0x7f;
                        match op {
                            0 | 9 => {
                                let v = self.load_n(st, &V::C(addr as u128), 4)?;
                                let v = self.conc(st, &v, 32)?;
                                let want = n!(3) & 0xffff_ffff;
                                if v as u64 != want { return self.fail(st, dst, normal, 11); }
                                let c = st.cur;
                                self.fin(st, dst, normal, V::C(0))?;
                                st.threads[c].stat = TStat::Futex(addr);
                                self.resched(st)
                            }
                            1 | 10 => {
                                let max = n!(3) & 0xffff_ffff;
                                let mut woken = 0;
                                for i in 0..st.threads.len() {
                                    if woken >= max { break; }
                                    if st.threads[i].stat == TStat::Futex(addr) { st.threads[i].stat = TStat::Run; woken += 1; }
                                }
                                fin!(V::C(woken as u128))
                            }
                            _ => err(format!("futex operation {op}")),
                        }
                    }
                    318 => { let n = n!(2); self.fill(st, &a[1], &V::C(0x5a), n)?; fin!(V::C(n as u128)) }
                    186 => fin!(V::C(1000)),
                    _ => err(format!("system call {k}")),
                }
            }
            Open => {
                let p = n!(0);
                let path = self.read_cstr(st, p)?;
                let flags = n!(1);
                let creat = flags & 0o100 != 0;
                let excl = flags & 0o200 != 0;
                let truncf = flags & 0o1000 != 0;
                if self.fault(st, F_OPEN, "open")? { return self.fail(st, dst, normal, 5); }
                if st.fs.dirs.contains(&path) {
                    let fd = st.fs.next_fd; st.fs.next_fd += 1;
                    st.fs.fds.insert(fd, Fd { obj: 0, pos: 0, path, dir: true, writable: false });
                    fin!(V::C(fd as u128))
                }
                let obj = match st.fs.files.get(&path) {
                    Some(o) => { if creat && excl { return self.fail(st, dst, normal, 17); } *o }
                    None => {
                        if !creat { return self.fail(st, dst, normal, 2); }
                        let dir = match path.rfind('/') { Some(0) => "/".to_string(), Some(i) => path[..i].to_string(), None => "/".into() };
                        if !st.fs.dirs.contains(&dir) { return self.fail(st, dst, normal, 2); }
                        if st.crash.is_some() { self.crash_point(st, "create")?; }
                        let o = st.mem.alloc(0, Kind::File);
                        st.fs.files.insert(path.clone(), o);
                        o
                    }
                };
                if truncf { let o = st.mem.get_mut(obj); o.pages.clear(); o.size = 0; }
                let fd = st.fs.next_fd;
                st.fs.next_fd += 1;
                st.fs.fds.insert(fd, Fd { obj, pos: 0, path, dir: false, writable: flags & 3 != 0 });
                fin!(V::C(fd as u128))
            }
            Close => { let fd = n!(0); st.fs.fds.remove(&(fd & 0xffff_ffff)); fin!(V::C(0)) }
            Read | Pread => {
                let fd = n!(0) & 0xffff_ffff;
                let len = n!(2);
                let f = match st.fs.fds.get(&fd) { Some(f) => f.clone(), None => return self.fail(st, dst, normal, 9) };
                let pos = if x == Pread { n!(3) } else { f.pos };
                let o = st.mem.get(f.obj).unwrap().clone();
                let n = len.min(o.size.saturating_sub(pos));
                if n > 0 {
                    let d = n!(1);
                    let (id, off) = self.resolve(st, d, n, true)?;
                    st.mem.get_mut(id).copy_from(off, &o, pos, n);
                }
                if x == Read { st.fs.fds.get_mut(&fd).unwrap().pos += n; }
                fin!(V::C(n as u128))
            }
            Write | Pwrite => {
                let fd = n!(0) & 0xffff_ffff;
                let len = n!(2);
                if fd <= 2 { fin!(V::C(len as u128)) }
                let f = match st.fs.fds.get(&fd) { Some(f) => f.clone(), None => return self.fail(st, dst, normal, 9) };
                let pos = if x == Pwrite { n!(3) } else { f.pos };
                let sz = st.mem.get(f.obj).unwrap().size;
                if pos + len > sz { st.mem.get_mut(f.obj).grow(pos + len); }
                if len > 0 {
                    let s = n!(1);
                    let (sid, so) = self.resolve(st, s, len, false)?;
                    let src = st.mem.get(sid).unwrap().clone();
                    st.mem.get_mut(f.obj).copy_from(pos, &src, so, len);
                }
                if x == Write { st.fs.fds.get_mut(&fd).unwrap().pos += len; }
                fin!(V::C(len as u128))
            }
            Lseek => {
                let fd = n!(0) & 0xffff_ffff;
                let off = n!(1) as i64;
                let wh = n!(2) & 0xffff_ffff;
                let f = match st.fs.fds.get(&fd) { Some(f) => f.clone(), None => return self.fail(st, dst, normal, 9) };
                let base = match wh { 0 => 0, 1 => f.pos as i64, _ => st.mem.get(f.obj).unwrap().size as i64 };
                st.fs.fds.get_mut(&fd).unwrap().pos = (base + off) as u64;
                fin!(V::C((base + off) as u64 as u128))
            }
            Fstat | Stat => {
                let (size, dir) = if x == Fstat {
                    let fd = n!(0) & 0xffff_ffff;
                    match st.fs.fds.get(&fd) { Some(f) => if f.dir { (0, true) } else { (st.mem.get(f.obj).unwrap().size, false) }, None => return self.fail(st, dst, normal, 9) }
                } else {
                    let p = n!(0);
                    let path = self.read_cstr(st, p)?;
                    if st.fs.dirs.contains(&path) { (0, true) } else if let Some(o) = st.fs.files.get(&path) { (st.mem.get(*o).unwrap().size, false) } else { return self.fail(st, dst, normal, 2); }
                };
                let b = n!(1);
                self.fill(st, &V::C(b as u128), &V::C(0), 144)?;
                let mode: u128 = if dir { 0o040755 } else { 0o100644 };
                self.store_n(st, &V::C((b + 24) as u128), 4, &V::C(mode))?;
                self.store_n(st, &V::C((b + 48) as u128), 8, &V::C(size as u128))?;
                fin!(V::C(0))
            }
            Statx => {
                let fd = n!(0) & 0xffff_ffff;
                let p = n!(1);
                if p == 0 { return self.fail(st, dst, normal, 14); }
                let path = self.read_cstr(st, p)?;
                let (size, dir) = if path.is_empty() {
                    match st.fs.fds.get(&fd) { Some(f) => if f.dir { (0, true) } else { (st.mem.get(f.obj).unwrap().size, false) }, None => return self.fail(st, dst, normal, 9) }
                } else if st.fs.dirs.contains(&path) { (0, true) } else if let Some(o) = st.fs.files.get(&path) { (st.mem.get(*o).unwrap().size, false) } else { return self.fail(st, dst, normal, 2); };
                let b = n!(4);
                self.fill(st, &V::C(b as u128), &V::C(0), 256)?;
                let mode: u128 = if dir { 0o040755 } else { 0o100644 };
                self.store_n(st, &V::C(b as u128), 4, &V::C(0xfff))?;
                self.store_n(st, &V::C((b + 28) as u128), 2, &V::C(mode))?;
                self.store_n(st, &V::C((b + 40) as u128), 8, &V::C(size as u128))?;
                fin!(V::C(0))
            }
            Mkdir => {
                let p = n!(0);
                let path = self.read_cstr(st, p)?;
                if st.fs.dirs.contains(&path) || st.fs.files.contains_key(&path) { return self.fail(st, dst, normal, 17); }
                st.fs.dirs.insert(path);
                fin!(V::C(0))
            }
            Unlink => {
                let p = n!(0);
                let path = self.read_cstr(st, p)?;
                if st.fs.files.remove(&path).is_none() { return self.fail(st, dst, normal, 2); }
                fin!(V::C(0))
            }
            Rename => {
                let (p, q) = (n!(0), n!(1));
                let (p, q) = (self.read_cstr(st, p)?, self.read_cstr(st, q)?);
                match st.fs.files.remove(&p) { Some(o) => { st.fs.files.insert(q, o); fin!(V::C(0)) } None => return self.fail(st, dst, normal, 2) }
            }
            Rmdir => fin!(V::C(0)),
            Ftruncate => {
                let fd = n!(0) & 0xffff_ffff;
                let len = n!(1);
                let f = match st.fs.fds.get(&fd) { Some(f) => f.clone(), None => return self.fail(st, dst, normal, 9) };
                if !f.writable { return self.fail(st, dst, normal, 22); }
                if self.fault(st, F_FTRUNCATE, "ftruncate")? { return self.fail(st, dst, normal, 28); }
                if st.crash.is_some() { self.crash_point(st, "ftruncate")?; }
                let o = st.mem.get_mut(f.obj);
                let old = o.size;
                if len < old {
                    // bytes past the new end are gone; the tail of the last page reads as zero
                    let end = (len + PG - 1) / PG * PG;
                    let mut k = len;
                    while k < end.min(o.pages.len() as u64 * PG) { o.set_byte(k, 0, 0); k += 1; }
                }
                o.grow(len);
                fin!(V::C(0))
            }
            Fsync => fin!(V::C(0)),
            Mmap => {
                let len = n!(1);
                let prot = n!(2);
                let flags = n!(3);
                let fd = n!(4) & 0xffff_ffff;
                let off = n!(5);
                if len == 0 { return self.fail(st, dst, normal, 22); }
                if self.fault(st, F_MMAP, "mmap")? { return self.fail(st, dst, normal, 12); }
                let p = if flags & 0x20 != 0 { self.alloc(st, len, Kind::Anon) } else {
                    let f = match st.fs.fds.get(&fd) { Some(f) => f.clone(), None => return self.fail(st, dst, normal, 9) };
                    let id = st.mem.alloc(len, Kind::Map { file: f.obj, off });
                    st.mem.get_mut(id).pages.clear();
                    Mem::base(id)
                };
                let id = (p >> 32) as u32;
                st.mem.get_mut(id).ro = prot & 2 == 0;
                fin!(V::C(p as u128))
            }
            Munmap => {
                let p = n!(0);
                match st.mem.find(p) {
                    Some((id, 0)) if matches!(st.mem.get(id).unwrap().kind, Kind::Map { .. } | Kind::Anon) => st.mem.release(id),
                    _ => return Err(Stop::Panic("munmap of something that is not a mapping".into())),
                }
                fin!(V::C(0))
            }
            Msync => {
                if self.fault(st, F_MSYNC, "msync")? { return self.fail(st, dst, normal, 5); }
                if st.crash.is_some() { self.crash_point(st, "msync")?; }
                fin!(V::C(0))
            }
            Mprotect => {
                let p = n!(0);
                let prot = n!(2);
                if self.fault(st, F_MPROTECT, "mprotect")? { return self.fail(st, dst, normal, 12); }
                match st.mem.find(p) { Some((id, 0)) => st.mem.get_mut(id).ro = prot & 2 == 0, _ => return self.fail(st, dst, normal, 12) }
                fin!(V::C(0))
            }
            SchedYield => {
                let c = st.cur;
                if st.threads.len() > 1 && st.threads[c].ret != RESUMED {
                    let others: Vec<usize> = (0..st.threads.len()).filter(|i| *i != c && st.threads[*i].stat == TStat::Run).collect();
                    if let Some(o) = others.first() { st.threads[c].ret = RESUMED; st.cur = *o; return Err(Stop::Yield); }
                }
                st.threads[c].ret = 0;
                fin!(V::C(0))
            }
            PthreadCreate => {
                let fp = n!(2);
                let t = st.threads.len();
                let fi = addr_func(fp).ok_or(Stop::Error("thread entry".into()))?;
                self.store_n(st, &a[0], 8, &V::C(t as u128))?;
                st.threads.push(Thread { frames: vec![], tls: BTreeMap::new(), stat: TStat::Run, ret: 0, region: false });
                self.fin(st, dst, normal, V::C(0))?;
                let cur = st.cur;
                st.cur = t;
                self.push_frame(st, fi, vec![a[3].clone()], u32::MAX, None, Mark::ThreadRoot);
                st.cur = cur;
                Ok(())
            }
            PthreadJoin => {
                let t = n!(0) as usize;
                if t >= st.threads.len() { return err("join"); }
                self.wake_joiners(st);
                if st.threads[t].stat == TStat::Done { fin!(V::C(0)) }
                let c = st.cur;
                st.threads[c].stat = TStat::Join(t);
                self.resched(st)
            }
            PthreadSelf => { let c = st.cur; fin!(V::C(c as u128)) }

            SvSym => {
                // (name ptr, name len, bits, lo, hi) -> u64
                let (p, l) = (n!(0), n!(1));
                let nm = self.read_bytes_conc(st, p, l)?;
                let nm = String::from_utf8_lossy(&nm).into_owned();
                let bits = n!(2) as u32;
                let (lo, hi) = (n!(3), n!(4));
                if lo > hi { return err("sv_sym: empty range"); }
                let need = (64 - hi.leading_zeros()).max(1);
                let w = if bits == 0 { need } else { bits };
                let e = self.new_var(st, &nm, w, lo as u128, hi as u128);
                let r = self.ar.zext(e, 64);
                fin!(self.from_e(r))
            }
            SvAssume => {
                let c = self.trunc(&a[0], 1);
                match c {
                    V::C(1) => {}
                    V::C(_) => return Err(Stop::Assumed),
                    V::S(e) => {
                        if let Some(b) = st.known.get(&e) { if !*b { return Err(Stop::Assumed); } }
                        else if st.replay.is_some() || self.ar.eval(e, &st.model) == 1 { self.add_con(st, e); }
                        else {
                            match self.sol.check(&mut self.ar, &st.cons, e, &st.vars, &st.model) {
                                Res::Sat(m) => { self.add_con(st, e); st.model = m; }
                                Res::Unsat => return Err(Stop::Assumed),
                                Res::Unknown => return err("solver gave no answer on an assumption"),
                            }
                        }
                    }
                    V::A(_) => return err("assume"),
                }
                fin!(V::C(0))
            }
            SvAssert => {
                let (p, l) = (n!(1), n!(2));
                let m = self.read_bytes_conc(st, p, l)?;
                let m = String::from_utf8_lossy(&m).into_owned();
                let c = self.trunc(&a[0], 1);
                let ent = self.rep.asserts.entry(m.clone()).or_insert([0; 3]);
                if st.replay.is_none() { ent[0] += 1; }
                match c {
                    V::C(1) => if st.replay.is_none() { ent[2] += 1 },
                    V::C(_) => { let model = st.model.clone(); return Err(Stop::Violation { msg: m, model }); }
                    V::S(e) => {
                        if st.replay.is_some() { self.add_con(st, e); fin!(V::C(0)) }
                        let nc = self.ar.not(e);
                        if self.ar.eval(e, &st.model) == 0 { let model = st.model.clone(); return Err(Stop::Violation { msg: m, model }); }
                        match self.sol.check(&mut self.ar, &st.cons, nc, &st.vars, &st.model) {
                            Res::Unsat => { self.rep.asserts.get_mut(&m).unwrap()[1] += 1; }
                            Res::Sat(model) => return Err(Stop::Violation { msg: m, model }),
                            Res::Unknown => return err(format!("solver gave no answer on the assertion '{m}'")),
                        }
                        self.add_con(st, e);
                    }
                    V::A(_) => return err("assert"),
                }
                fin!(V::C(0))
            }
            SvCover => {
                let (p, l) = (n!(0), n!(1));
                let m = self.read_bytes_conc(st, p, l)?;
                *self.rep.covers.entry(String::from_utf8_lossy(&m).into_owned()).or_insert(0) += 1;
                fin!(V::C(0))
            }
            SvObserve => {
                let (p, l) = (n!(0), n!(1));
                let m = self.read_bytes_conc(st, p, l)?;
                st.obs.push((String::from_utf8_lossy(&m).as_ref().into(), a[2].clone()));
                fin!(V::C(0))
            }
            SvEvent => {
                let (p, l) = (n!(0), n!(1));
                let m = self.read_bytes_conc(st, p, l)?;
                st.events.push(String::from_utf8_lossy(&m).into_owned());
                fin!(V::C(0))
            }
            SvPanicOk => { st.panic_ok = n!(0) & 1 == 1; fin!(V::C(0)) }
            SvFault => { st.fault.mask = n!(0); st.fault.budget = n!(1); fin!(V::C(0)) }
            SvFaultsHit => { let h = st.fault.hit; fin!(V::C(h as u128)) }
            SvParam => { let i = n!(0) as usize; let v = self.opts.params.get(i).copied().unwrap_or(n!(1)); fin!(V::C(v as u128)) }
            SvIsSym => fin!(V::C(1)),
            SvConc => { let v = n!(0); fin!(V::C(v as u128)) }
            SvThread => { let c = st.cur; st.threads[c].region = n!(0) != 0; fin!(V::C(0)) }
            KeyCreate => { st.keys += 1; let k = st.keys; self.store_n(st, &a[0], 4, &V::C(k as u128))?; fin!(V::C(0)) }
            SvSched => { st.sched_on = n!(0) != 0; st.preempt = n!(0) as u32; fin!(V::C(0)) }
            SvFileSize => {
                let (p, l) = (n!(0), n!(1));
                let m = self.read_bytes_conc(st, p, l)?;
                let path = String::from_utf8_lossy(&m).into_owned();
                let r = st.fs.files.get(&path).and_then(|o| st.mem.get(*o)).map_or(mask(64), |o| o.size as u128);
                fin!(V::C(r))
            }
            SvCrashRun => {
                // (fn, arg, limit) -> 0 finished, 1 crashed
                let fp = n!(0);
                let limit = n!(2);
                let fi = addr_func(fp).ok_or(Stop::Error("crash entry".into()))?;
                let var = self.new_var(st, "crash_at", 32, 0, limit as u128);
                let cur = st.cur;
                st.crash = Some(CrashCtl { var, count: 0, depth: st.threads[cur].frames.len(), dst, normal, limit });
                self.push_frame(st, fi, vec![a[1].clone()], dst, normal, Mark::Crash);
                Ok(())
            }
            SvCrashed | SvKill => fin!(V::C(0)),
            FmtStub => {
                // fn format_inner(out: *mut String, args): an empty string
                let p = a[0].clone();
                self.store_n(st, &p, 8, &V::C(0))?;
                let p1 = self.addr_add(&p, 8);
                self.store_n(st, &p1, 8, &V::C(1))?;
                let p2 = self.addr_add(&p, 16);
                self.store_n(st, &p2, 8, &V::C(0))?;
                fin!(V::C(0))
            }
        }
    }
}

pub const RESUMED: u64 = u64::MAX - 7;
