#[macro_use]
#[path = "../../rt.rs"]
pub mod rt;
use fraos::Database;
use rt::*;

/// what the database should hold
type Model = Vec<Vec<u8>>;

fn path() -> String { let mut p = String::from(dir()); p.push_str("/db"); p }
fn open(file: bool) -> Option<Database> { if file { Database::file(path()).ok() } else { Database::memory().ok() } }
fn record(len: usize) -> Vec<u8> { let mut v = Vec::with_capacity(len); for _ in 0..len { v.push(u8_("byte")); } v }

fn same(r: &Result<Option<Vec<u8>>, fraos::FraosError>, want: Option<&[u8]>) -> bool {
    match (r, want) {
        (Ok(None), None) => true,
        (Ok(Some(v)), Some(w)) => v.as_slice() == w,
        _ => false,
    }
}
/// every way of reading agrees with the model
fn verify(db: &Database, m: &Model) {
    check(db.len() == m.len(), "the number of records is that of the records appended");
    check(db.is_empty() == m.is_empty(), "it is empty exactly before the first append");
    for i in 0..m.len() { check(same(&db.get_by_seqno(i), Some(&m[i])), "a record reads back as it was appended"); }
    check(same(&db.get_by_seqno(m.len()), None), "there is no record past the last");
    check(same(&db.last(), m.last().map(|v| v.as_slice())), "the last record is the one appended last");
    let from = if m.is_empty() { 0 } else { m.len() - 1 };
    for start in [0, from, m.len()] {
        let mut it = match db.iter_from_seqno(start) { Some(i) => i, None => { check(false, "iteration starts anywhere"); return; } };
        for r in &m[start..] {
            match it.next() { Some(Ok(v)) => check(v == *r, "iteration yields the records in order"), _ => check(false, "iteration yields every record") }
        }
        check(it.next().is_none(), "iteration ends after the last record");
    }
}
/// one operation: what it appends, and that it is acknowledged with the right number
fn step(db: &Database, m: &mut Model, sizes: u64) {
    match pick("operation", 5) {
        0 => {
            let r = record(1 + pick("size", sizes) as usize);
            match db.put_seqno(&r) { Ok(n) => check(n == m.len(), "a put is acknowledged with its number"), Err(_) => check(false, "a put succeeds") }
            m.push(r);
            cover("put");
        }
        1 => {
            let a = record(1 + pick("size", sizes) as usize);
            let b = record(1 + pick("size", sizes) as usize);
            match db.append_get_seqno(&[&a, &b]) { Ok(n) => check(n == Some(m.len()), "a batch is acknowledged with the number of its first record"), Err(_) => check(false, "a batch succeeds") }
            m.push(a);
            m.push(b);
            cover("batch");
        }
        2 => { check(matches!(db.append_get_seqno(&[]), Ok(None)), "an empty batch changes nothing"); check(db.append(&[]).is_ok(), "an empty batch changes nothing"); cover("empty batch"); }
        3 => {
            let a = record(1);
            check(db.append(&[&a, &[]]).is_err(), "an empty record is refused");
            check(db.put(&[]).is_err(), "an empty record is refused");
            cover("refused");
        }
        _ => {
            let r = record(1 + pick("size", sizes) as usize);
            check(db.put(&r).is_ok(), "a put succeeds");
            m.push(r);
        }
    }
}
fn history(file: bool) {
    let db = match open(file) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let mut m = Model::new();
    verify(&db, &m);
    for _ in 0..param(0, 3) {
        step(&db, &mut m, param(1, 2));
        verify(&db, &m);
    }
}
/// a record of `len` bytes, the first and the last symbolic
fn big(len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    v[0] = u8_("byte");
    v[len - 1] = u8_("byte");
    v
}
const MAP: usize = 4096 * 128;
/// sizes around those at which the files grow by another mapping
fn big_size(k: u64) -> usize { match k { 0 => 1, 1 => MAP - 1, 2 => MAP, 3 => MAP + 1, 4 => MAP / 2, _ => 4096 } }
fn growth(reopen: bool) {
    let mut db = match open(true) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let mut m = Model::new();
    for _ in 0..param(0, 3) {
        if reopen && pick("reopen", 2) == 1 {
            drop(db);
            db = match open(true) { Some(d) => d, None => { check(false, "it reopens"); return; } };
            verify(&db, &m);
            cover("reopened");
        }
        let a = big(big_size(pick("size", param(1, 5))));
        if pick("batch", 2) == 1 {
            let b = big(big_size(pick("size", 2)));
            check(db.append_get_seqno(&[&a, &b]).ok() == Some(Some(m.len())), "a batch is acknowledged with the number of its first record");
            m.push(a);
            m.push(b);
            cover("batch");
        } else {
            check(db.put(&a).is_ok(), "a put succeeds");
            m.push(a);
            cover("put");
        }
        verify(&db, &m);
    }
}
/// so many index entries that the index itself needs another mapping
fn long_index() {
    let db = match open(true) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let total = MAP / 16 + 2;
    let before = match pick("batches", 3) { 0 => total - 3, 1 => total - 2, _ => total - 4 };
    let one = [0u8; 1];
    let many: Vec<&[u8]> = vec![&one; before];
    check(db.append_get_seqno(&many).ok() == Some(Some(0)), "a batch succeeds");
    let mut m = Model::new();
    for _ in 0..3 {
        let r = record(1 + pick("size", 2) as usize);
        check(db.put_seqno(&r).ok() == Some(before + m.len()), "a put is acknowledged with its number");
        m.push(r);
        for (i, r) in m.iter().enumerate() { check(same(&db.get_by_seqno(before + i), Some(r)), "a record reads back as it was appended"); }
        check(same(&db.get_by_seqno(before - 1), Some(&one)) && same(&db.get_by_seqno(0), Some(&one)), "a record reads back as it was appended");
        check(same(&db.get_by_seqno(before + m.len()), None), "there is no record past the last");
        check(db.len() == before + m.len(), "the number of records is that of the records appended");
    }
    drop(db);
    let db = match open(true) { Some(d) => d, None => { check(false, "it reopens"); return; } };
    for (i, r) in m.iter().enumerate() { check(same(&db.get_by_seqno(before + i), Some(r)), "a record reads back as it was appended"); }
    check(db.len() == before + m.len(), "the number of records is that of the records appended");
    cover("done");
}
/// so many mappings that they are merged into one
fn many_maps() {
    let db = match open(true) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let first = record(2);
    check(db.put(&first).is_ok(), "a put succeeds");
    let zeros = vec![0u8; MAP];
    let mut n = 1;
    for _ in 0..2049 { check(db.put(&zeros).is_ok(), "a put succeeds"); n += 1; }
    for _ in 0..4 {
        let r = record(2);
        check(db.put(&r).is_ok(), "a put succeeds");
        check(db.put(&zeros).is_ok(), "a put succeeds");
        n += 2;
        check(db.len() == n, "the number of records is that of the records appended");
        check(same(&db.get_by_seqno(0), Some(&first)) && same(&db.get_by_seqno(n - 2), Some(&r)) && same(&db.get_by_seqno(n), None), "a record reads back as it was appended");
        match db.get_by_seqno(n - 1) { Ok(Some(v)) => check(v.len() == MAP && v[0] == 0 && v[MAP - 1] == 0, "a record reads back as it was appended"), _ => check(false, "a record reads back as it was appended") }
    }
    cover("done");
}

/// closing and reopening in every way, with appends in between
fn lifecycle() {
    let mut db = match open(true) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let mut m = Model::new();
    for _ in 0..param(0, 4) {
        match pick("step", 5) {
            0 => { step(&db, &mut m, 2); }
            1 => {
                drop(db);
                db = match open(true) { Some(d) => d, None => { check(false, "it reopens"); return; } };
                cover("closed and reopened");
            }
            2 => {
                // the process ends without closing
                std::mem::forget(db);
                db = match open(true) { Some(d) => d, None => { check(false, "it reopens without having been closed"); return; } };
                cover("abandoned and reopened");
            }
            3 => {
                match Database::file_readonly(path()) {
                    Ok(r) => { verify(&r, &m); cover("read by another"); }
                    // files without content cannot be opened read-only before the first append
                    Err(_) => check(false, "it opens read-only next to its writer"),
                }
            }
            _ => {
                drop(db);
                match Database::file_readonly(path()) { Ok(r) => verify(&r, &m), Err(_) => check(false, "it opens read-only") }
                db = match open(true) { Some(d) => d, None => { check(false, "it reopens"); return; } };
                cover("closed and read");
            }
        }
        verify(&db, &m);
    }
}

/// the process ends at any point of a run of appends; what was acknowledged is there
fn crash(with_reopen: bool) {
    let cell = shared();
    let n = param(0, 2) as usize;
    let mut all: Vec<Vec<Vec<u8>>> = Vec::new();
    for _ in 0..n {
        let mut b = vec![record(1 + pick("size", 2) as usize)];
        if pick("batch", 2) == 1 { b.push(record(1)); }
        all.push(b);
    }
    let mut before = Model::new();
    if with_reopen {
        let db = match open(true) { Some(d) => d, None => { check(false, "it opens"); return; } };
        let r = record(2);
        check(db.put(&r).is_ok(), "a put succeeds");
        before.push(r);
        if pick("closed", 2) == 1 { drop(db); } else { std::mem::forget(db); }
    }
    let end = pick("close at the end", 2) == 1;
    let crashed = {
        let all = &all;
        crash_run(move || {
            if let Ok(db) = Database::file(path()) {
                for b in all {
                    let refs: Vec<&[u8]> = b.iter().map(|r| r.as_slice()).collect();
                    if db.append(&refs).is_err() { break; }
                    cell[0].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
                if end { drop(db); } else { std::mem::forget(db); }
            }
        }, 60)
    };
    let acked = cell[0].load(std::sync::atomic::Ordering::SeqCst) as usize;
    if crashed { cover("crashed"); } else { cover("not crashed"); check(acked == n, "every append is acknowledged"); }
    let mut m = before;
    for b in &all[..acked] { for r in b { m.push(r.clone()); } }
    let db = match open(true) { Some(d) => d, None => { check(false, "it reopens after a crash"); return; } };
    check(db.len() >= m.len(), "no acknowledged record is lost");
    // the batch that was being appended may be there in part, from its beginning
    let rest = db.len() - m.len().min(db.len());
    let inflight: &[Vec<u8>] = if acked < n { &all[acked] } else { &[] };
    check(rest <= inflight.len(), "nothing appears that was not appended");
    if rest > 0 { cover("unacknowledged record survived"); }
    for r in &inflight[..rest.min(inflight.len())] { m.push(r.clone()); }
    verify(&db, &m);
    // and it goes on
    let r = record(2);
    check(db.put_seqno(&r).ok() == Some(m.len()), "it takes further records after a crash");
    m.push(r);
    verify(&db, &m);
    if pick("close again", 2) == 1 { drop(db); } else { std::mem::forget(db); }
    match open(true) { Some(db) => verify(&db, &m), None => check(false, "it reopens after a crash") }
}

/// a failing system call makes an append fail; nothing acknowledged is harmed by it
fn faults(file: bool) {
    let db = match open(file) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let mut m = Model::new();
    for _ in 0..param(0, 3) {
        fault(15, 1);
        let mut b = vec![if pick("big", 2) == 1 { big(big_size(2)) } else { record(1) }];
        if pick("batch", 2) == 1 { b.push(record(1)); }
        let refs: Vec<&[u8]> = b.iter().map(|r| r.as_slice()).collect();
        let r = db.append_get_seqno(&refs);
        fault(0, 0);
        match r {
            Ok(k) => { check(k == Some(m.len()), "an append is acknowledged with its number"); for r in b { m.push(r); } cover("appended"); }
            Err(_) => { check(faults_hit() > 0, "an append fails only when the system fails"); cover("failed"); }
        }
        verify(&db, &m);
    }
    if file {
        if pick("closed", 2) == 1 { drop(db); } else { std::mem::forget(db); }
        match open(true) { Some(db) => verify(&db, &m), None => check(false, "it reopens") }
        cover("reopened");
    }
}

/// any record number at all
fn any_number(file: bool) {
    let db = match open(file) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let mut m = Model::new();
    for _ in 0..pick("records", 4) { let r = record(1 + pick("size", 2) as usize); check(db.put(&r).is_ok(), "a put succeeds"); m.push(r); }
    let k = u64_("number") as usize;
    let got = db.get_by_seqno(k);
    if k < m.len() {
        check(same(&got, Some(&m[k])), "a record reads back as it was appended");
        cover("within");
    } else {
        check(same(&got, None), "there is no record past the last");
        match db.iter_from_seqno(k) { Some(mut i) => check(i.next().is_none(), "iteration from past the last record is empty"), None => {} }
        cover("past");
    }
}

/// the mapping that replaces many others cannot be made
fn merge_fault() {
    let db = match open(true) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let zeros = vec![0u8; MAP];
    let mut n = 0;
    while n < 2048 { check(db.put(&zeros).is_ok(), "a put succeeds"); n += 1; }
    for _ in 0..4 {
        let r = record(2);
        fault(15, 1);
        match db.put_seqno(&r) {
            Ok(k) => {
                check(k == n, "an append is acknowledged with its number");
                n += 1;
                check(same(&db.get_by_seqno(n - 1), Some(&r)), "a record reads back as it was appended");
            }
            Err(_) => { check(faults_hit() > 0, "an append fails only when the system fails"); cover("failed"); }
        }
        fault(0, 0);
        check(db.len() == n && same(&db.get_by_seqno(n), None), "the number of records is that of the records appended");
        check(db.put(&zeros).is_ok(), "a put succeeds");
        n += 1;
        match db.get_by_seqno(n - 1) { Ok(Some(v)) => check(v.len() == MAP && v[0] == 0 && v[MAP - 1] == 0, "a record reads back as it was appended"), _ => check(false, "a record reads back as it was appended") }
    }
    cover("done");
}

/// copies of the handle come and go
fn clones() {
    let mut dbs: Vec<Database> = Vec::new();
    dbs.push(match open(true) { Some(d) => d, None => { check(false, "it opens"); return; } });
    let mut m = Model::new();
    for _ in 0..param(0, 4) {
        match pick("step", 3) {
            0 => {
                let w = pick("through", dbs.len() as u64) as usize;
                let r = if pick("big", 2) == 1 { big(9000) } else { record(1) };
                check(dbs[w].put_seqno(&r).ok() == Some(m.len()), "a put is acknowledged with its number");
                m.push(r);
                cover("put");
            }
            1 => { let c = dbs[0].clone(); dbs.push(c); cover("copied"); }
            _ => { if dbs.len() > 1 { let k = pick("which", dbs.len() as u64) as usize; drop(dbs.remove(k)); cover("a copy dropped"); } }
        }
        for d in &dbs { verify(d, &m); }
    }
    drop(dbs);
    match open(true) { Some(db) => verify(&db, &m), None => check(false, "it reopens") }
}

/// two threads append at the same time
fn two_writers(file: bool) {
    let db = match open(file) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let first = record(1);
    let started = pick("already appended", 2) == 1;
    let mut n = 0;
    if started { check(db.put(&first).is_ok(), "a put succeeds"); n = 1; }
    let a: Vec<Vec<u8>> = if pick("batch", 2) == 1 { vec![record(1), record(2)] } else { vec![if pick("big", 2) == 1 { big(MAP) } else { record(2) }] };
    let b = vec![record(3)];
    let other = db.clone();
    sched(param(0, 2));
    let put = |db: &Database, r: &[Vec<u8>]| { let refs: Vec<&[u8]> = r.iter().map(|x| x.as_slice()).collect(); db.append_get_seqno(&refs) };
    let (a2, drop_it) = (a.clone(), pick("drop", 2) == 1);
    let t = std::thread::spawn(move || {
        thread(1);
        let r = put(&other, &a2);
        if drop_it { drop(other); } else { std::mem::forget(other); }
        thread(0);
        r
    });
    thread(2);
    let rb = put(&db, &b);
    thread(0);
    let ra = t.join().unwrap();
    sched(0);
    let (ka, kb) = match (ra, rb) { (Ok(Some(x)), Ok(Some(y))) => (x, y), _ => { check(false, "concurrent appends succeed"); return; } };
    if ka < kb { cover("in one order"); check(ka == n && kb == n + a.len(), "concurrent batches are numbered one after the other"); }
    else { cover("in the other order"); check(kb == n && ka == n + b.len(), "concurrent batches are numbered one after the other"); }
    let mut m = Model::new();
    if started { m.push(first); }
    let (x, y) = if ka < kb { (a, b) } else { (b, a) };
    m.extend(x);
    m.extend(y);
    verify(&db, &m);
    if file {
        drop(db);
        match open(true) { Some(db) => verify(&db, &m), None => check(false, "it reopens") }
    }
}
/// one thread appends while another reads
fn writer_and_reader(file: bool) {
    let db = match open(file) { Some(d) => d, None => { check(false, "it opens"); return; } };
    let first = record(2);
    let mut m = Model::new();
    if pick("already appended", 2) == 1 { check(db.put(&first).is_ok(), "a put succeeds"); m.push(first); }
    let n = m.len();
    let a: Vec<Vec<u8>> = if pick("batch", 2) == 1 { vec![record(1), record(2)] } else { vec![if pick("big", 2) == 1 { big(MAP) } else { record(2) }] };
    m.extend(a.iter().cloned());
    let other = db.clone();
    let how = pick("reading", 3);
    sched(param(0, 2));
    let t = std::thread::spawn(move || {
        thread(1);
        let refs: Vec<&[u8]> = a.iter().map(|x| x.as_slice()).collect();
        let r = other.append_get_seqno(&refs).ok();
        std::mem::forget(other);
        thread(0);
        r
    });
    thread(2);
    let (mut l, mut got) = (0, Vec::new());
    match how {
        0 => { l = db.len(); for i in 0..l { got.push(db.get_by_seqno(i)); } }
        1 => { if let Some(it) = db.iter_from_seqno(0) { for r in it { got.push(r.map(Some)); } } l = got.len(); }
        _ => { l = db.len(); got.push(db.last()); }
    }
    let l2 = db.len();
    thread(0);
    let r = t.join().unwrap();
    sched(0);
    check(r == Some(Some(n)), "an append is acknowledged with its number");
    check(l >= n && l <= l2.max(m.len()) && l2 <= m.len(), "a reader sees a number of records the writer has reached");
    if l > n { cover("a reader saw the append"); } else { cover("a reader came first"); }
    if how < 2 {
        check(got.len() == l, "every record a reader counts is there");
        for i in 0..l { check(same(&got[i], Some(&m[i])), "a reader sees complete records in order"); }
    } else {
        match &got[0] { Ok(None) => check(l == 0 && n == 0, "a reader sees complete records in order"), Ok(Some(v)) => check((l.max(1) - 1..m.len()).any(|i| *v == m[i]), "a reader sees complete records in order"), Err(_) => check(false, "a reader sees complete records in order") }
    }
    verify(&db, &m);
}

entries! {
    fn f05_writers() { two_writers(true) }
    fn f05_writers_memory() { two_writers(false) }
    fn f05_reader() { writer_and_reader(true) }
    fn f05_reader_memory() { writer_and_reader(false) }
    fn f01_memory() { history(false) }
    fn f01_file() { history(true) }
    fn f01_growth() { growth(false) }
    fn f01_index() { long_index() }
    fn f01_maps() { many_maps() }
    fn f02_reopen() { lifecycle() }
    fn f02_growth() { growth(true) }
    fn f03_fresh() { crash(false) }
    fn f03_existing() { crash(true) }
    fn f04_memory() { faults(false) }
    fn f04_file() { faults(true) }
    fn f04_merge() { merge_fault() }
    fn f05_clones() { clones() }
    fn f06_memory() { any_number(false) }
    fn f06_file() { any_number(true) }
}
