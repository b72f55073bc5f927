#[macro_use]
#[path = "../../rt.rs"]
pub mod rt;
use blockchain_source::multiverse::rollback::{Event, ForkHandlingSource};
use blockchain_source::multiverse::MultiverseSource;
use blockchain_source::{EventObject, GetNextFrom, PullFrom, Source};
use dcspark_core::BlockNumber;
use multiverse::{Multiverse, Variant};
use rt::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Key([u8; 1]);
impl AsRef<[u8]> for Key { fn as_ref(&self) -> &[u8] { &self.0 } }
impl std::fmt::Display for Key { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("key") } }
impl PullFrom for Key {}
impl Serialize for Key { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u8(self.0[0]) } }
impl<'a> Deserialize<'a> for Key { fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> { Ok(Key([u8::deserialize(d)?])) } }
/// the block the chains start after: it is not received itself
const START: usize = 30;
fn key(i: usize) -> Key { Key([b'0' + i as u8]) }

#[derive(Clone, Copy, PartialEq, Debug)]
struct Block { id: Key, parent: Key, number: u64, tip: bool }
impl Serialize for Block {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = [self.id.0[0], self.parent.0[0], 0, 0, 0, 0];
        for i in 0..4 { t[2 + i] = b'a' + (self.number >> (4 * i) & 15) as u8; }
        s.serialize_str(unsafe { std::str::from_utf8_unchecked(&t) })
    }
}
impl<'a> Deserialize<'a> for Block {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let t = s.as_bytes();
        if t.len() != 6 { return Err(serde::de::Error::custom("not a block")); }
        let mut number = 0;
        for i in 0..4 { number |= ((t[2 + i] - b'a') as u64 & 15) << (4 * i); }
        Ok(Block { id: Key([t[0]]), parent: Key([t[1]]), number, tip: false })
    }
}
impl Variant for Block {
    type Key = Key;
    fn id(&self) -> &Key { &self.id }
    fn parent_id(&self) -> &Key { &self.parent }
    fn block_number(&self) -> BlockNumber { BlockNumber::new(self.number) }
}
impl EventObject for Block { fn is_blockchain_tip(&self) -> bool { self.tip } }
impl GetNextFrom for Block { type From = Key; fn next_from(&self) -> Option<Key> { Some(self.id) } }

/// the source below: gives the blocks it is told to, and remembers what it was asked for
#[derive(Clone, Default)]
struct Inner(Arc<Mutex<(Option<Block>, Vec<Key>)>>);
impl Inner {
    fn give(&self, b: Option<Block>) { let mut x = self.0.lock().unwrap(); x.0 = b; x.1.clear(); }
    fn asked(&self) -> Vec<Key> { self.0.lock().unwrap().1.clone() }
    fn taken(&self) -> bool { self.0.lock().unwrap().0.is_none() }
}
#[async_trait::async_trait]
impl Source for Inner {
    type Event = Block;
    type From = Vec<Key>;
    async fn pull(&mut self, from: &Vec<Key>) -> anyhow::Result<Option<Block>> {
        let mut x = self.0.lock().unwrap();
        x.1 = from.clone();
        Ok(x.0.take())
    }
}
fn wait<T>(f: impl Future<Output = T>) -> Option<T> {
    static T: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &T), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &T)) };
    match Box::pin(f).as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(x) => Some(x), Poll::Pending => None }
}

/// the blocks received, in the order of their receipt
struct Chain { all: Vec<Block>, first: u64 }
impl Chain {
    fn new() -> Chain { Chain { all: Vec::with_capacity(8), first: range("first number", 0, 60000) } }
    fn find(&self, k: Key) -> Option<Block> { self.all.iter().find(|b| b.id == k).copied() }
    /// how many steps it is from a up to b, or none if b is not above a
    fn steps(&self, a: Key, b: Key) -> Option<usize> {
        let (mut n, mut at) = (0, a);
        while at != b { at = self.find(at)?.parent; n += 1; }
        Some(n)
    }
    /// the last block below both
    fn common(&self, a: Key, b: Key) -> Key {
        let mut at = a;
        loop {
            if self.steps(b, at).is_some() { return at; }
            match self.find(at) { Some(x) => at = x.parent, None => return key(START) }
        }
    }
    fn height(&self, k: Key) -> usize { self.steps(k, key(START)).unwrap_or(0) }
    /// the next block, a child of one received or of the start
    fn next(&self) -> Block {
        let n = self.all.len();
        let p = pick("parent", n as u64 + 1) as usize;
        let parent = if p == n { key(START) } else { self.all[p].id };
        Block { id: key(n), parent, number: self.first + self.height(parent) as u64, tip: false }
    }
}

fn path() -> String { let mut p = unsafe { String::from_utf8_unchecked(dir().as_bytes().to_vec()) }; p.push_str("/m"); p }
fn open(file: bool) -> Option<Multiverse<Key, Block>> {
    if file { Multiverse::open(path(), "blocks", BlockNumber::new(0)).ok() } else { Multiverse::temporary().ok() }
}
type Forks = ForkHandlingSource<Key, Block, Inner, Event<Block, Key>>;
type Confirmed = MultiverseSource<Key, Block, Inner>;

/// what a fork handling source reports leads from block to block
fn forks(file: bool, from: Option<Key>) {
    let depth = range("depth", 0, 3) as usize;
    let inner = Inner::default();
    let Some(m) = open(file) else { check(false, "it opens"); return };
    let mut s = Forks::new(m, depth, inner.clone());
    let mut c = Chain::new();
    let mut at = None;
    for i in 0..param(0, 4) {
        if file && i > 0 && c.all[..c.all.len() - 1].iter().all(|b| b.number < c.all[c.all.len() - 1].number) && pick("restart", 2) == 1 {
            drop(s.into_inner());
            let Some(m) = open(true) else { check(false, "it reopens"); return };
            s = Forks::new(m, depth, inner.clone());
            cover("restarted");
        }
        let top = c.all.iter().map(|b| c.height(b.id)).max().unwrap_or(0);
        match if i == 0 { 3 } else { pick("below", 4) } {
            0 => {
                inner.give(None);
                check(matches!(wait(s.pull(&from)), Some(Ok(None))), "nothing is reported when there is nothing new");
                check(from.map_or(true, |k| inner.asked().contains(&k)), "it asks to go on from where it is told to");
                for b in &c.all {
                    let leaf = !c.all.iter().any(|x| x.parent == b.id);
                    if leaf && c.height(b.id) + depth >= top { check(inner.asked().contains(&b.id), "it asks to go on from the tips it knows"); }
                }
                for k in inner.asked() { check(from == Some(k) || c.find(k).is_some(), "it asks to go on from what it has received"); }
                cover("asked");
            }
            1 => {
                let i = pick("block", c.all.len() as u64) as usize;
                assume(c.height(c.all[i].id) + depth >= top);
                inner.give(Some(c.all[i]));
                check(matches!(wait(s.pull(&from)), Some(Ok(None))), "a block received again is not reported again");
                cover("again");
            }
            2 => {
                let t = Block { id: key(20), parent: key(21), number: 0, tip: true };
                inner.give(Some(t));
                check(matches!(wait(s.pull(&from)), Some(Ok(Some(Event::InnerEvent(x)))) if x == t), "what marks the tip of the chain is handed on");
                cover("tip");
            }
            _ => {
                let b = c.next();
                // forks are at blocks received before, and no deeper than the confirmation depth
                assume(i == 0 || b.parent != key(START));
                if let Some(a) = at { assume(c.height(c.common(a, b.parent)) + depth >= top); }
                inner.give(Some(b));
                c.all.push(b);
                let mut n = 0;
                loop {
                    let e = match wait(s.pull(&from)) { Some(Ok(Some(e))) => e, _ => { check(false, "a new block is reported"); return } };
                    match e {
                        Event::InnerEvent(x) => {
                            check(at == Some(x.parent) || at.is_none() && from.is_none(), "a block reported is the next after the last one");
                            check(c.find(x.id) == Some(x), "a block reported is one that was received");
                            at = Some(x.id);
                        }
                        Event::Rollback(k) => {
                            check(match at { None => from == Some(k), Some(a) => matches!(c.steps(a, k), Some(n) if n > 0) }, "it rolls back to an earlier block of the chain reported");
                            check(at.is_none() || c.steps(b.id, k).is_some(), "it rolls back to a block the new one comes after");
                            cover(if at.is_some() { "rolled back" } else { "started" });
                            at = Some(k);
                        }
                    }
                    check(inner.taken(), "the source below is asked for what is next");
                    n += 1;
                    if at == Some(b.id) { break; }
                    check(n < 8, "it gets to the new block");
                    if n >= 8 { return; }
                }
                cover("received");
            }
        }
    }
}
/// what a confirming source reports is one chain, as far behind as it is to be
fn confirmed(file: bool) {
    let depth = range("depth", 0, 3) as usize;
    let inner = Inner::default();
    let Some(m) = open(file) else { check(false, "it opens"); return };
    let mut s = Confirmed::new(m, depth, inner.clone());
    let mut c = Chain::new();
    let mut at: Option<Key> = None;
    for i in 0..param(0, 4) {
        if file && i > 0 && pick("restart", 2) == 1 {
            drop(s.into_inner());
            let Some(m) = open(true) else { check(false, "it reopens"); return };
            s = Confirmed::new(m, depth, inner.clone());
            cover("restarted");
        }
        match if i == 0 { 2 } else { pick("below", 3) } {
            0 => {
                inner.give(None);
                check(matches!(wait(s.pull(&at)), Some(Ok(None))), "nothing is reported when there is nothing new");
                for b in &c.all {
                    if !c.all.iter().any(|x| x.parent == b.id) && (at.is_none() || c.steps(b.id, at.unwrap()).is_some()) { check(inner.asked().contains(&b.id), "it asks to go on from the tips it knows"); }
                }
                for k in inner.asked() { check(c.find(k).is_some(), "it asks to go on from what it has received"); }
                cover("asked");
            }
            1 => {
                let t = Block { id: key(20), parent: key(21), number: 0, tip: true };
                inner.give(Some(t));
                check(matches!(wait(s.pull(&at)), Some(Ok(Some(x))) if x == t), "what marks the tip of the chain is handed on");
                cover("tip");
            }
            _ => {
                let b = c.next();
                // a chain received goes on from what is confirmed
                if let Some(a) = at { assume(c.steps(b.parent, a).is_some()); }
                inner.give(Some(b));
                c.all.push(b);
                let top = c.all.iter().map(|b| c.height(b.id)).max().unwrap_or(0);
                let due = top.saturating_sub(depth) > at.map_or(0, |a| c.height(a));
                match wait(s.pull(&at)) {
                    Some(Ok(Some(x))) => {
                        check(c.find(x.id) == Some(x), "a block reported is one that was received");
                        check(x.parent == at.unwrap_or(key(START)), "a block reported is the next after the last one");
                        check(c.all.iter().any(|b| matches!(c.steps(b.id, x.id), Some(n) if n >= depth)), "a block is reported when as many blocks follow it as it takes");
                        check(due, "a block is reported once");
                        if pick("pull again", 2) == 1 {
                            check(matches!(wait(s.pull(&at)), Some(Ok(Some(y))) if y == x), "a block is reported again to who has not got it");
                            cover("again");
                        }
                        at = Some(x.id);
                        cover("confirmed");
                    }
                    Some(Ok(None)) => { check(!due, "a block is reported as soon as as many blocks follow it as it takes"); cover("not confirmed"); }
                    _ => { check(false, "a new block is taken in"); return }
                }
                check(inner.taken(), "the source below is asked for what is next");
            }
        }
    }
}

entries! {
    fn r01_forks() { forks(false, Some(key(START))) }
    fn r01_beginning() { forks(false, None) }
    fn r01_restarts() { forks(true, Some(key(START))) }
    fn r02_confirmed() { confirmed(false) }
    fn r02_restarts() { confirmed(true) }
}
