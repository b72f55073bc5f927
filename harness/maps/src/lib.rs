#[macro_use]
#[path = "../../rt.rs"]
pub mod rt;
use dcspark_core::BlockNumber;
use indexed_log_map::config::IndexedLogMapConfig;
use indexed_log_map::storage::{get_next, IndexedLogMap};
use multiverse::*;
use rt::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Key([u8; 1]);
impl AsRef<[u8]> for Key { fn as_ref(&self) -> &[u8] { &self.0 } }
const NONE: usize = 60;
fn key(i: usize) -> Key { Key([b'0' + i as u8]) }

/// a block: its id, its parent's and its number, which stays below 2^16
#[derive(Clone, Copy, PartialEq, Debug)]
struct Block { id: Key, parent: Key, number: u64 }
impl Serialize for Block {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = [self.id.0[0], self.parent.0[0], 0, 0, 0, 0];
        for i in 0..4 { t[2 + i] = b'a' + (self.number >> (4 * i) & 15) as u8; }
        s.serialize_str(unsafe { std::str::from_utf8_unchecked(&t) })
    }
}
impl<'a> Deserialize<'a> for Block {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let t = s.as_bytes();
        if t.len() != 6 { return Err(serde::de::Error::custom("not a block")); }
        let mut number = 0;
        for i in 0..4 { number |= ((t[2 + i] - b'a') as u64 & 15) << (4 * i); }
        Ok(Block { id: Key([t[0]]), parent: Key([t[1]]), number })
    }
}
impl Variant for Block {
    type Key = Key;
    fn id(&self) -> &Key { &self.id }
    fn parent_id(&self) -> &Key { &self.parent }
    fn block_number(&self) -> BlockNumber { BlockNumber::new(self.number) }
}
type M = Multiverse<Key, Block>;

/// what is held: every block there ever was, and whether it still is
struct Blocks { all: Vec<(Block, bool)>, kept: Vec<BestBlock<Key>>, tips: Vec<std::collections::HashSet<std::sync::Arc<Key>>> }
impl Blocks {
    fn new() -> Self { Blocks { all: Vec::with_capacity(8), kept: Vec::new(), tips: Vec::new() } }
    fn find(&self, k: Key) -> Option<&Block> { self.all.iter().find(|(b, h)| *h && b.id == k).map(|(b, _)| b) }
    fn count(&self) -> usize { self.all.iter().filter(|(_, h)| *h).count() }
    fn is_tip(&self, i: usize) -> bool { let (b, held) = self.all[i]; held && !self.all.iter().any(|(c, h)| *h && c.parent == b.id) }
    /// the next block, a child of one there was or of none
    fn any(&mut self) -> Block {
        let n = self.all.len();
        let p = pick("parent", n as u64 + 1) as usize;
        let b = if p == n { Block { id: key(n), parent: key(NONE), number: range("number", 0, 60000) } }
            else { let parent = self.all[p].0; Block { id: key(n), parent: parent.id, number: parent.number + range("step", 1, 300) } };
        self.all.push((b, true));
        b
    }
    fn insert(&mut self, m: &mut M) { let b = self.any(); check(m.insert(b).is_ok(), "a block is inserted"); cover("inserted"); }
    fn again(&mut self, m: &mut M) {
        if self.all.is_empty() { return; }
        let i = pick("block", self.all.len() as u64) as usize;
        let b = self.all[i].0;
        // parents come before their children
        if !self.all[i].1 && self.all.iter().any(|(c, h)| *h && c.parent == b.id) { return; }
        check(m.insert(b).is_ok(), "a block is inserted again");
        self.all[i].1 = true;
        cover("inserted again");
    }
    fn remove(&mut self, m: &mut M) {
        if self.all.is_empty() { return; }
        let i = pick("block", self.all.len() as u64) as usize;
        let r = m.remove(&EntryRef::new(key(i)));
        if self.all[i].1 {
            check(matches!(r, Ok(b) if b == self.all[i].0), "removing gives the block");
            self.all[i].1 = false;
            cover("removed");
        } else {
            check(matches!(r, Err(MultiverseError::NotFound)), "what is not there is not found");
            cover("absent");
        }
    }
    fn step(&mut self, m: &mut M, keep: bool) {
        match pick("operation", 3) { 0 => self.insert(m), 1 => self.remove(m), _ => self.again(m) }
        if keep { self.keep(m) }
    }
    /// references into the multiverse that the caller holds on to
    fn keep(&mut self, m: &M) {
        self.kept.push(m.select_best_block(BestBlockSelectionRule::LongestChain { depth: 0, age_gap: 0 }));
        self.tips.push(m.tips());
    }
    fn verify(&self, m: &M) {
        check(m.len() == self.count() && m.is_empty() == (self.count() == 0), "it has as many blocks as were inserted and not removed");
        let tips = m.tips();
        let mut n = 0;
        for (i, (b, held)) in self.all.iter().enumerate() {
            check(m.contains(&b.id) == *held, "it contains what was inserted and not removed");
            check(match m.get(&b.id) { Some(x) => *held && x == b, None => !held }, "it gives every block as it was inserted");
            check(tips.contains(&b.id) == self.is_tip(i), "the tips are the blocks without a child");
            if self.is_tip(i) { n += 1; }
        }
        check(tips.len() == n, "the tips are the blocks without a child");
    }
    /// the block so many steps up from i, all of them held
    fn up(&self, i: usize, depth: usize) -> Option<Key> {
        let mut b = self.all[i].0;
        for _ in 0..depth { b = *self.find(b.parent)?; }
        Some(b.id)
    }
    fn highest(&self) -> u64 { let mut n = 0; for (b, h) in &self.all { if *h && b.number > n { n = b.number; } } n }
    fn best(&self, m: &M) {
        let depth = u64_("depth") as usize;
        let age_gap = u64_("age gap") as usize;
        let rule = BestBlockSelectionRule::LongestChain { depth, age_gap };
        let best = m.select_best_block(rule);
        let top = self.highest();
        match &best.selected {
            Some(s) => {
                check((0..self.all.len()).any(|i| self.all[i].1 && self.all[i].0.number == top && self.up(i, depth) == Some(*s.inner())), "the selected block is that many blocks before one of the longest chains' last");
                let Some(at) = self.find(*s.inner()) else { check(false, "the selected block is there"); return };
                for (b, held) in &self.all {
                    check(best.discarded.contains(&b.id) == (*held & ((b.number as u128) + (age_gap as u128) < at.number as u128)), "discarded are the blocks older than the gap allows");
                }
                cover(if best.discarded.is_empty() { "selected" } else { "discarded" });
            }
            None => {
                check(self.count() == 0 || (0..self.all.len()).any(|i| self.all[i].1 && self.all[i].0.number == top && self.up(i, depth).is_none()), "nothing is selected only when a longest chain is not that long");
                check(best.discarded.is_empty(), "nothing is discarded when nothing is selected");
                cover("none selected");
            }
        }
        match m.preferred_fork_tip(rule) {
            Some(t) => check(matches!(self.find(*t.inner()), Some(b) if b.number == top), "the preferred tip ends a longest chain"),
            None => check(self.count() == 0, "there is a preferred tip as long as there are blocks"),
        }
    }
    fn order(&self, m: &M) {
        let mut seen = [false; 8];
        let (mut n, mut last) = (0, 0);
        for b in m.iter() {
            let i = (b.id.0[0] - b'0') as usize;
            check(i < self.all.len() && self.all[i].1 && self.all[i].0 == *b, "iterating gives the blocks that are there");
            if i >= 8 { return; }
            check(!seen[i], "iterating gives every block once");
            seen[i] = true;
            check(last <= b.number, "iterating gives the blocks by their numbers");
            last = b.number;
            n += 1;
        }
        check(n == self.count(), "iterating gives every block");
        cover(if n > 1 { "several" } else { "few" });
    }
}
fn text(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }

fn path(name: &str) -> String { let mut p = text(dir().as_bytes()); p.push('/'); p.push_str(name); p }

type Log = IndexedLogMap<u8, u64>;
fn log(file: bool, indexed: bool) -> Option<Log> { log_as(file, indexed, false) }
fn log_as(file: bool, indexed: bool, readonly: bool) -> Option<Log> {
    Log::new(IndexedLogMapConfig { storage_path: if file { Some(path("log").into()) } else { None }, use_key_indexing: indexed, readonly }).ok()
}
fn all(i: Option<impl Iterator<Item = anyhow::Result<u64>>>) -> Option<Vec<u64>> {
    let mut v = Vec::new();
    for x in i? { match x { Ok(x) => v.push(x), Err(_) => return None } }
    Some(v)
}
fn verify_log(l: &Log, m: &[(u8, u64)]) {
    let values: Vec<u64> = m.iter().map(|x| x.1).collect();
    check(all(l.iter()).as_deref() == Some(&values[..]), "iterating gives every value in the order of the appends");
    check(matches!(l.last(), Ok(v) if v == values.last().copied()), "the last value is the one appended last");
    check(matches!(l.is_empty(), Ok(e) if e == m.is_empty()), "it is empty exactly before the first append");
    check(matches!(get_next(l, &None), Ok(v) if v == values.first().copied()), "the first value comes first");
    for k in 0..3u8 {
        let at = m.iter().rposition(|x| x.0 == k);
        check(matches!(l.get(&k), Ok(v) if v == at.map(|i| values[i])), "a key gives the value last appended under it");
        check(matches!(l.contains(&k), Ok(c) if c == at.is_some()), "it contains the keys appended");
        match l.iter_from(&k) {
            Ok(i) => check(all(i).as_deref() == at.map(|i| &values[i..]), "iterating from a key gives its value and all that follow"),
            Err(_) => check(false, "iterating from a key succeeds"),
        }
        check(matches!(get_next(l, &Some(k)), Ok(v) if v == at.and_then(|i| values.get(i + 1).copied())), "the next value is the one that follows the key's");
    }
}
fn log_history(file: bool) {
    let Some(mut l) = log(file, true) else { check(false, "it opens"); return };
    let mut m: Vec<(u8, u64)> = Vec::with_capacity(8);
    verify_log(&l, &m);
    for _ in 0..param(0, 3) {
        if file && pick("reopen", 2) == 1 {
            drop(l);
            l = match log(true, true) { Some(l) => l, None => { check(false, "it reopens"); return } };
            cover("reopened");
        } else {
            let (k, v) = (pick("key", 2) as u8, range("value", 0, param(1, 300)));
            check(l.append(k, v).is_ok(), "an append succeeds");
            m.push((k, v));
            cover("appended");
        }
        verify_log(&l, &m);
    }
}
/// two threads append, under the same key or different ones
fn two_appends(file: bool) {
    let Some(l) = log(file, true) else { check(false, "it opens"); return };
    let mut m: Vec<(u8, u64)> = Vec::with_capacity(8);
    if pick("already appended", 2) == 1 { check(l.append(0, 100).is_ok(), "an append succeeds"); m.push((0, 100)); }
    let (ka, kb) = (pick("key", 2) as u8, 0);
    let l = std::sync::Arc::new(l);
    let other = l.clone();
    sched(param(0, 1));
    let t = std::thread::spawn(move || {
        thread(1);
        let r = other.append(ka, 101).is_ok();
        std::mem::forget(other);
        thread(0);
        r
    });
    thread(2);
    let rb = l.append(kb, 102).is_ok();
    thread(0);
    let ra = t.join().unwrap();
    sched(0);
    check(ra && rb, "concurrent appends succeed");
    let first = match all(l.iter()) { Some(v) if v.len() == m.len() + 2 => v[m.len()], _ => { check(false, "concurrent appends are all in the log"); return } };
    if first == 101 { m.push((ka, 101)); m.push((kb, 102)); cover("in one order"); } else { m.push((kb, 102)); m.push((ka, 101)); cover("in the other order"); }
    cover(if ka == kb { "the same key" } else { "different keys" });
    verify_log(&l, &m);
}
/// one thread appends while another looks the key up
fn append_and_get(file: bool) {
    let Some(l) = log(file, true) else { check(false, "it opens"); return };
    let had = pick("already appended", 2) == 1;
    if had { check(l.append(0, 100).is_ok(), "an append succeeds"); }
    let l = std::sync::Arc::new(l);
    let other = l.clone();
    sched(param(0, 1));
    let t = std::thread::spawn(move || {
        thread(1);
        let r = other.append(0, 101).is_ok();
        std::mem::forget(other);
        thread(0);
        r
    });
    thread(2);
    let v = l.get(&0);
    let w = l.last();
    thread(0);
    let r = t.join().unwrap();
    sched(0);
    check(r, "an append succeeds");
    match v {
        Ok(Some(101)) => { check(matches!(w, Ok(Some(101))), "what was found under a key is in the log"); cover("a reader saw the append") }
        Ok(Some(100)) if had => cover("a reader came first"),
        Ok(None) if !had => cover("a reader came first"),
        _ => check(false, "a key gives the value before or after the append"),
    }
    check(matches!(w, Ok(Some(101))) || matches!(w, Ok(x) if x == if had { Some(100) } else { None }), "the last value is the one before or after the append");
}

entries! {
    fn k02_writers() { two_appends(false) }
    fn k02_writers_file() { two_appends(true) }
    fn k02_reader() { append_and_get(false) }
    fn k02_reader_file() { append_and_get(true) }
    fn m01_tree() {
        let Ok(mut m) = M::temporary() else { check(false, "it opens"); return };
        let mut b = Blocks::new();
        let keep = pick("references kept", 2) == 1;
        b.verify(&m);
        for _ in 0..param(0, 4) { b.step(&mut m, keep); b.verify(&m); }
        if pick("clear", 2) == 1 {
            check(m.clear().is_ok(), "it is cleared");
            for x in &mut b.all { x.1 = false; }
            b.verify(&m);
            b.insert(&mut m);
            b.verify(&m);
            cover("cleared");
        }
    }
    fn m02_best() {
        let Ok(mut m) = M::temporary() else { check(false, "it opens"); return };
        let mut b = Blocks::new();
        let keep = pick("references kept", 2) == 1;
        for _ in 0..param(0, 3) { b.insert(&mut m); if keep { b.keep(&m) } }
        for _ in 0..param(1, 1) { b.step(&mut m, keep); }
        b.best(&m);
    }
    fn m03_order() {
        let Ok(mut m) = M::temporary() else { check(false, "it opens"); return };
        let mut b = Blocks::new();
        for _ in 0..param(0, 3) { b.insert(&mut m); }
        for _ in 0..param(1, 1) { b.step(&mut m, false); }
        b.order(&m);
    }
    fn m04_reload() {
        let from = range("stored from", 0, 70000);
        let open = |d: &str| M::open(path("m"), d, BlockNumber::new(from));
        let Ok(mut m) = open("a") else { check(false, "it opens"); return };
        let mut b = Blocks::new();
        for _ in 0..param(0, 2) { b.insert(&mut m); }
        for _ in 0..param(1, 1) { b.step(&mut m, false); }
        b.verify(&m);
        let end = pick("end", 3);
        match end {
            0 => drop(m),
            1 => { check(m.clear().is_ok(), "it is cleared"); drop(m) }
            _ => check(m.destroy().is_ok(), "it is destroyed"),
        }
        for x in &mut b.all { if end != 0 || x.0.number < from { x.1 = false; } }
        match open("b") { Ok(m) => check(m.is_empty(), "another domain has blocks of its own"), Err(_) => check(false, "it reopens") }
        let Ok(mut m) = open("a") else { check(false, "it reopens"); return };
        b.verify(&m);
        b.order(&m);
        b.step(&mut m, false);
        b.verify(&m);
        cover(match end { 0 => "reopened", 1 => "reopened after clearing", _ => "reopened after destroying" });
    }
    fn k01_memory() { log_history(false) }
    fn k01_file() { log_history(true) }
    fn k01_readonly() {
        let mut m: Vec<(u8, u64)> = Vec::with_capacity(8);
        {
            let Some(l) = log(true, true) else { check(false, "it opens"); return };
            for i in 0..pick("appends", param(0, 3) + 1) {
                let k = pick("key", 2) as u8;
                check(l.append(k, i).is_ok(), "an append succeeds");
                m.push((k, i));
            }
        }
        {
            let Some(l) = log_as(true, true, true) else { check(m.is_empty(), "it opens for reading"); return };
            verify_log(&l, &m);
            check(l.append(0, 7).is_err(), "what is open for reading takes no append");
            verify_log(&l, &m);
            cover("read only");
        }
        match log(true, true) { Some(l) => verify_log(&l, &m), None => check(false, "it reopens") }
    }
    fn k01_unindexed() {
        {
            let Some(l) = log(true, true) else { check(false, "it opens"); return };
            for k in 0..2u8 { check(l.append(k, k as u64).is_ok(), "an append succeeds"); }
        }
        let Some(l) = log(true, false) else { check(false, "it opens"); return };
        check(l.append(0, 1).is_err(), "without an index nothing is appended");
        check(l.iter_from(&0).is_err() && l.get(&0).is_err() && l.contains(&0).is_err() && l.is_empty().is_err(), "without an index keys are not looked up");
        check(all(l.iter()).as_deref() == Some(&[0, 1][..]), "iterating gives every value in the order of the appends");
        check(matches!(l.last(), Ok(Some(1))), "the last value is the one appended last");
        cover("done");
    }
}
