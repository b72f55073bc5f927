mod imp {
    use std::cell::Cell;
    use std::sync::Mutex;
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

    static VALUES: Mutex<Option<Vec<(String, u64)>>> = Mutex::new(None);
    static POS: AtomicUsize = AtomicUsize::new(0);
    static PANIC_OK: AtomicBool = AtomicBool::new(false);
    static DIR: Mutex<String> = Mutex::new(String::new());
    thread_local! { static IN_RT: Cell<bool> = const { Cell::new(false) }; }

    /// SV_VALUES: name=value, one per line, in the order the harness asks for them.
    /// Environment choices of the engine (fault:x) are in there too, in place.
    pub fn init() {
        let v = std::env::var("SV_VALUES").unwrap_or_default();
        let v = v.lines().filter_map(|l| l.rsplit_once('=').map(|(a, b)| (a.to_string(), b.parse().unwrap()))).collect();
        *VALUES.lock().unwrap() = Some(v);
        let d = std::env::var("SV_DIR").unwrap_or_default();
        *DIR.lock().unwrap() = d;
        std::panic::set_hook(Box::new(|i| {
            if PANIC_OK.load(SeqCst) { println!("SV-END panic-expected"); std::process::exit(0); }
            println!("SV-END panic {}", i.to_string().replace('\n', " "));
            std::process::exit(102);
        }));
    }
    /// the next value, if it has this name
    pub fn next_if(name: &str) -> Option<u64> {
        let g = VALUES.lock().unwrap();
        let v = g.as_ref()?;
        let p = POS.load(SeqCst);
        if p < v.len() && v[p].0 == name { POS.fetch_add(1, SeqCst); Some(v[p].1) } else { None }
    }
    pub fn range(name: &str, lo: u64, _hi: u64) -> u64 {
        let nx = { let g = VALUES.lock().unwrap(); let p = POS.load(SeqCst); g.as_ref().and_then(|v| v.get(p).cloned()) };
        match nx {
            Some((n, v)) if n == name => { POS.fetch_add(1, SeqCst); v }
            // past the recorded values: the path ended there, any value will do
            None => lo,
            Some((n, _)) => { println!("SV-END diverged wanted {name} got {n}"); std::process::exit(104); }
        }
    }
    pub fn assume(c: bool) { if !c { println!("SV-END assumed"); std::process::exit(103); } }
    pub fn check(c: bool, msg: &'static str) { if !c { println!("SV-END assert {msg}"); std::process::exit(101); } }
    pub fn cover(msg: &'static str) { println!("SV-COVER {msg}"); }
    pub fn observe(msg: &str, v: u64) { println!("SV-OBS {msg}={v}"); }
    pub fn event(_msg: &str) {}
    pub fn panic_ok(on: bool) { PANIC_OK.store(on, SeqCst); }
    pub fn param(i: u64, default: u64) -> u64 {
        let p = std::env::var("SV_PARAMS").unwrap_or_default();
        p.split(',').nth(i as usize).and_then(|x| x.parse().ok()).unwrap_or(default)
    }
    pub fn sched(_n: u64) {}
    pub fn thread(n: u64) { super::os::thread(n) }
    pub fn concretize(x: u64) -> u64 { x }
    pub fn dir() -> &'static str { Box::leak(DIR.lock().unwrap().clone().into_boxed_str()) }

    pub static FMASK: AtomicU64 = AtomicU64::new(0);
    pub static FBUDGET: AtomicU64 = AtomicU64::new(0);
    pub static FHIT: AtomicU64 = AtomicU64::new(0);
    pub fn fault(mask: u64, budget: u64) { FMASK.store(mask, SeqCst); FBUDGET.store(budget, SeqCst); }
    pub fn faults_hit() -> u64 { FHIT.load(SeqCst) }
    /// does this system call fail, according to the solver
    pub fn inject(bit: u64, name: &str) -> bool {
        if FMASK.load(SeqCst) & bit == 0 || FBUDGET.load(SeqCst) == 0 { return false; }
        if next_if(name) == Some(1) { FBUDGET.fetch_sub(1, SeqCst); FHIT.fetch_add(1, SeqCst); true } else { false }
    }
    pub fn crash_run<F: FnOnce()>(f: F, _limit: u64) -> bool { while next_if("crash_at").or_else(|| next_if("torn")).is_some() {} super::os::crash_run(f) }
    /// memory that outlives a crash of the code under test
    pub fn shared() -> &'static [AtomicU64; 8] {
        static P: AtomicUsize = AtomicUsize::new(0);
        if P.load(SeqCst) == 0 { P.store(super::os::shared_page(), SeqCst); }
        unsafe { &*(P.load(SeqCst) as *const [AtomicU64; 8]) }
    }
}
pub fn native_main(entries: &[(&str, extern "C" fn())]) {
    imp::init();
    let e = std::env::args().nth(1).expect("entry");
    let f = entries.iter().find(|x| x.0 == e).expect("no such entry").1;
    f();
    println!("SV-END ok");
}
/// The system calls the storage code makes, with the failures the solver chose, and the crash of a
/// child process at a chosen change of the files.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
pub mod os {
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
        fn sigaction(sig: i32, new: *const Act, old: *mut Act) -> i32;
        fn fork() -> i32;
        fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        fn _exit(c: i32) -> !;
    }
    #[repr(C)]
    struct Act { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
    const MMAP: i64 = 9;
    const MPROTECT: i64 = 10;
    const MUNMAP: i64 = 11;
    const MSYNC: i64 = 26;
    const FTRUNCATE: i64 = 77;
    const OPEN: i64 = 2;
    unsafe fn fail(e: i32) -> i64 { *__errno_location() = e; -1 }

    /// events so far, and the one to crash at (0: none), and how much of it happens
    static ON: AtomicU64 = AtomicU64::new(0);
    static EVENT: AtomicU64 = AtomicU64::new(0);
    static AT: AtomicU64 = AtomicU64::new(u64::MAX);
    static TEAR: AtomicU64 = AtomicU64::new(0);
    static NMAPS: AtomicUsize = AtomicUsize::new(0);
    static MAPS: [(AtomicUsize, AtomicUsize); 64] = [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; 64];
    static STEP: AtomicUsize = AtomicUsize::new(usize::MAX);
    static PAGE_ADDR: AtomicUsize = AtomicUsize::new(0);
    static OLD: [AtomicU64; 1024] = [const { AtomicU64::new(0) }; 1024];

    fn die() -> ! { unsafe { syscall(39); syscall(62, syscall(39), 9i64); _exit(9) } }
    fn event() { if ON.load(SeqCst) == 1 && EVENT.fetch_add(1, SeqCst) == AT.load(SeqCst) { die() } }

    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
        if super::imp::inject(1, "fault:ftruncate") { return fail(28) as i32; }
        event();
        syscall(FTRUNCATE, fd as i64, len) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap64(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> isize {
        if super::imp::inject(2, "fault:mmap") { return fail(12) as isize; }
        let track = ON.load(SeqCst) == 1 && fd >= 0 && prot & 2 != 0 && flags & 1 != 0;
        let p = syscall(MMAP, a, len, if track { (prot & !2) as i64 } else { prot as i64 }, flags as i64, fd as i64, off) as isize;
        if track && p > 0 {
            let k = NMAPS.fetch_add(1, SeqCst);
            MAPS[k].0.store(p as usize, SeqCst);
            MAPS[k].1.store((len + 4095) & !4095, SeqCst);
        }
        p
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> isize { mmap64(a, len, prot, flags, fd, off) }
    #[no_mangle]
    pub unsafe extern "C" fn munmap(a: usize, len: usize) -> i32 {
        for m in &MAPS { if m.0.load(SeqCst) == a { m.1.store(0, SeqCst); } }
        syscall(MUNMAP, a, len) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn msync(a: usize, len: usize, fl: i32) -> i32 {
        if super::imp::inject(4, "fault:msync") { return fail(5) as i32; }
        event();
        syscall(MSYNC, a, len, fl as i64) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn mprotect(a: usize, len: usize, prot: i32) -> i32 {
        if super::imp::inject(8, "fault:mprotect") { return fail(12) as i32; }
        syscall(MPROTECT, a, len, prot as i64) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
        if super::imp::inject(16, "fault:open") { return fail(5) as i32; }
        if flags & 0o100 != 0 { event(); }
        syscall(OPEN, p, flags as i64, mode as i64) as i32
    }

    fn tracked(a: usize) -> Option<(usize, usize)> {
        MAPS.iter().map(|m| (m.0.load(SeqCst), m.1.load(SeqCst))).find(|(b, n)| a >= *b && a < b + n)
    }
    const EFL: usize = 40 + 17 * 8; // uc_mcontext.gregs[REG_EFL]
    unsafe extern "C" fn on_segv(_s: i32, info: *const u8, uc: *mut u8) {
        let a = *(info.add(16) as *const usize);
        let Some((b, n)) = tracked(a) else {
            // not ours: die of it
            let dfl = Act { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
            sigaction(11, &dfl, std::ptr::null_mut());
            return;
        };
        if EVENT.load(SeqCst) == AT.load(SeqCst) && TEAR.load(SeqCst) == 0 { die(); }
        let pg = a & !4095;
        PAGE_ADDR.store(pg, SeqCst);
        for i in 0..512 { OLD[i].store(*((pg + 8 * i) as *const u64), SeqCst); }
        syscall(MPROTECT, b, n, 3i64);
        STEP.store(b, SeqCst);
        *(uc.add(EFL) as *mut u64) |= 0x100;
    }
    unsafe extern "C" fn on_trap(_s: i32, _info: *const u8, uc: *mut u8) {
        *(uc.add(EFL) as *mut u64) &= !0x100;
        let Some((b, n)) = tracked(STEP.load(SeqCst)) else { return };
        if EVENT.fetch_add(1, SeqCst) == AT.load(SeqCst) {
            // only the first bytes of what the instruction wrote
            let mut left = TEAR.load(SeqCst);
            let pg = PAGE_ADDR.load(SeqCst);
            let mut first = None;
            for i in 0..4096usize {
                let old = (OLD[i / 8].load(SeqCst) >> (8 * (i % 8))) as u8;
                let p = (pg + i) as *mut u8;
                if *p != old && first.is_none() { first = Some(i); }
                if let Some(f) = first { if i >= f && left == 0 { *p = old; } else { left -= 1; } }
            }
            die();
        }
        syscall(MPROTECT, b, n, 1i64);
    }
    pub fn shared_page() -> usize { unsafe { syscall(MMAP, 0usize, 4096usize, 3i64, 0x21i64, -1i64, 0i64) as usize } }

    /// runs f in a child, which dies at event SV_CRASH; whether it did
    pub fn crash_run<F: FnOnce()>(f: F) -> bool {
        let num = |n: &str| std::env::var(n).ok().and_then(|x| x.parse::<u64>().ok());
        if let Some(k) = num("SV_CRASH") { AT.store(k, SeqCst); }
        TEAR.store(num("SV_TEAR").unwrap_or(0), SeqCst);
        unsafe {
            let pid = fork();
            if pid == 0 {
                let act = Act { handler: on_segv as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
                sigaction(11, &act, std::ptr::null_mut());
                let act = Act { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
                sigaction(5, &act, std::ptr::null_mut());
                ON.store(1, SeqCst);
                f();
                ON.store(0, SeqCst);
                println!("SV-EVENTS {}", EVENT.load(SeqCst));
                _exit(0);
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            if st & 0x7f == 9 { return true; }
            if st & 0x7f != 0 { println!("SV-END the process died of signal {}", st & 0x7f); std::process::exit(102); }
            if st >> 8 != 0 { std::process::exit(st >> 8); }
            false
        }
    }

    // ---- two threads, switched where SV_PREEMPT says: "thread:point thread:point ..." ----
    /// the thread that may run; 0: no interleaving asked for
    static TURN: AtomicU64 = AtomicU64::new(0);
    static STARTED: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
    static DONE: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
    static STEPS: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
    static AFTER: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
    /// where a switch is possible: 0 before a synchronising instruction, 1 also after it, 2 anywhere
    static WHERE: AtomicU64 = AtomicU64::new(0);
    static POINT: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
    static PLAN: [AtomicU64; 8] = [const { AtomicU64::new(u64::MAX) }; 8];
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local! { static ME: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }

    fn pause() { let ts = [0i64, 200_000]; unsafe { syscall(35, ts.as_ptr(), 0usize); } }
    fn wait_for_turn(me: u64) {
        let other = 3 - me as usize;
        let (mut n, mut seen) = (0, 0);
        // the other one may be waiting for something this one holds: then it makes no more steps
        while TURN.load(SeqCst) != me && n < if STARTED[other].load(SeqCst) == 1 { 100 } else { 2000 } {
            pause();
            let s = STEPS[other].load(SeqCst);
            if s != seen { seen = s; n = 0; } else { n += 1; }
        }
        TURN.store(me, SeqCst);
    }
    pub fn thread(n: u64) {
        if n == 0 {
            unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq"); }
            let me = ME.get();
            if me == 0 { return; }
            DONE[me as usize].store(1, SeqCst);
            TURN.store(3 - me, SeqCst);
            println!("SV-POINTS {me} {}", POINT[me as usize].load(SeqCst));
            return;
        }
        let Ok(plan) = std::env::var("SV_PREEMPT") else { return };
        if n == 2 {
            WHERE.store(std::env::var("SV_POINTS").ok().and_then(|s| s.parse().ok()).unwrap_or(0), SeqCst);
            for (i, x) in plan.split_whitespace().enumerate() {
                let (t, k) = x.split_once(':').unwrap();
                PLAN[i].store(t.parse::<u64>().unwrap() << 32 | k.parse::<u64>().unwrap(), SeqCst);
            }
            TURN.store(2, SeqCst);
        }
        ME.set(n);
        STARTED[n as usize].store(1, SeqCst);
        let act = Act { handler: on_step as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        unsafe { sigaction(5, &act, std::ptr::null_mut()); }
        if n == 1 { while TURN.load(SeqCst) != 1 { pause(); } }
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 256", "popfq"); }
    }
    /// before every instruction: is it one by which threads communicate, and do we switch here
    unsafe extern "C" fn on_step(_s: i32, _info: *const u8, uc: *mut u8) {
        let me = ME.get();
        STEPS[me as usize].fetch_add(1, SeqCst);
        let rip = *(uc.add(40 + 16 * 8) as *const usize) as *const u8;
        let mut p = rip;
        let mut sync = false;
        loop {
            match *p {
                0xf0 => { sync = true; break; }
                0x66 | 0x2e | 0x3e | 0xf2 | 0xf3 | 0x40..=0x4f => p = p.add(1),
                0x86 | 0x87 => { sync = *p.add(1) >> 6 != 3; break; }
                0x0f => { sync = *p.add(1) == 5; break; }
                _ => break,
            }
        }
        let after = AFTER[me as usize].swap(sync as u64, SeqCst) == 1;
        match WHERE.load(SeqCst) { 0 if !sync => return, 1 if !sync && !after => return, _ => {} }
        let k = POINT[me as usize].fetch_add(1, SeqCst);
        let i = NEXT.load(SeqCst);
        if i >= 8 || PLAN[i].load(SeqCst) != me << 32 | k || DONE[3 - me as usize].load(SeqCst) == 1 { return; }
        NEXT.store(i + 1, SeqCst);
        let e = *__errno_location();
        TURN.store(3 - me, SeqCst);
        wait_for_turn(me);
        *__errno_location() = e;
    }
}
