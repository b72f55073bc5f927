//! `sled` as what it promises to be: ordered maps of bytes, named trees in a database, a database being
//! found again under its path. Every operation is atomic and immediately durable.
use std::collections::BTreeMap;
use std::ops::{Deref, DerefMut};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, MutexGuard, PoisonError};

#[derive(Debug, Clone, PartialEq)]
pub enum Error { CollectionNotFound(IVec), Unsupported(String), ReportableBug(String), Io(String), Corruption { at: Option<u64>, bt: () } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sled error") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct IVec(Vec<u8>);
impl Deref for IVec { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl DerefMut for IVec { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl AsRef<[u8]> for IVec { fn as_ref(&self) -> &[u8] { &self.0 } }
impl std::borrow::Borrow<[u8]> for IVec { fn borrow(&self) -> &[u8] { &self.0 } }
impl std::fmt::Debug for IVec { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("IVec") } }
impl From<Vec<u8>> for IVec { fn from(v: Vec<u8>) -> Self { IVec(v) } }
impl From<Box<[u8]>> for IVec { fn from(v: Box<[u8]>) -> Self { IVec(v.into_vec()) } }
impl From<&[u8]> for IVec { fn from(v: &[u8]) -> Self { IVec(v.to_vec()) } }
impl From<&str> for IVec { fn from(v: &str) -> Self { IVec(v.as_bytes().to_vec()) } }
impl From<String> for IVec { fn from(v: String) -> Self { IVec(v.into_bytes()) } }
impl From<&String> for IVec { fn from(v: &String) -> Self { IVec(v.as_bytes().to_vec()) } }
impl From<&IVec> for IVec { fn from(v: &IVec) -> Self { v.clone() } }
impl<const N: usize> From<&[u8; N]> for IVec { fn from(v: &[u8; N]) -> Self { IVec(v.to_vec()) } }
impl PartialEq<[u8]> for IVec { fn eq(&self, o: &[u8]) -> bool { self.0 == o } }
impl PartialEq<Vec<u8>> for IVec { fn eq(&self, o: &Vec<u8>) -> bool { self.0 == *o } }

type Map = BTreeMap<Vec<u8>, IVec>;
type Trees = BTreeMap<Vec<u8>, Tree>;
fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> { m.lock().unwrap_or_else(PoisonError::into_inner) }

#[derive(Clone)]
pub struct Tree { name: IVec, map: Arc<Mutex<Map>> }
impl Tree {
    fn new(name: &[u8]) -> Tree { Tree { name: name.into(), map: Arc::new(Mutex::new(Map::new())) } }
    pub fn insert<K: AsRef<[u8]>, V: Into<IVec>>(&self, k: K, v: V) -> Result<Option<IVec>> { Ok(lock(&self.map).insert(k.as_ref().to_vec(), v.into())) }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> { Ok(lock(&self.map).get(k.as_ref()).cloned()) }
    pub fn remove<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> { Ok(lock(&self.map).remove(k.as_ref())) }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> Result<bool> { Ok(lock(&self.map).contains_key(k.as_ref())) }
    pub fn clear(&self) -> Result<()> { lock(&self.map).clear(); Ok(()) }
    pub fn len(&self) -> usize { lock(&self.map).len() }
    pub fn is_empty(&self) -> bool { lock(&self.map).is_empty() }
    pub fn name(&self) -> IVec { self.name.clone() }
    pub fn flush(&self) -> Result<usize> { Ok(0) }
    pub fn first(&self) -> Result<Option<(IVec, IVec)>> { Ok(lock(&self.map).iter().next().map(|(k, v)| (IVec(k.clone()), v.clone()))) }
    pub fn last(&self) -> Result<Option<(IVec, IVec)>> { Ok(lock(&self.map).iter().next_back().map(|(k, v)| (IVec(k.clone()), v.clone()))) }
    /// what is there now: the callers here do not change a tree while they go through it
    pub fn iter(&self) -> Iter { Iter(lock(&self.map).iter().map(|(k, v)| (IVec(k.clone()), v.clone())).collect::<Vec<_>>().into_iter()) }
    pub fn fetch_and_update<K: AsRef<[u8]>, V: Into<IVec>, F: FnMut(Option<&[u8]>) -> Option<V>>(&self, k: K, f: F) -> Result<Option<IVec>> { Ok(self.update(k.as_ref(), f).0) }
    pub fn update_and_fetch<K: AsRef<[u8]>, V: Into<IVec>, F: FnMut(Option<&[u8]>) -> Option<V>>(&self, k: K, f: F) -> Result<Option<IVec>> { Ok(self.update(k.as_ref(), f).1) }
    fn update<V: Into<IVec>, F: FnMut(Option<&[u8]>) -> Option<V>>(&self, k: &[u8], mut f: F) -> (Option<IVec>, Option<IVec>) {
        let mut m = lock(&self.map);
        let old = m.get(k).cloned();
        let new: Option<IVec> = f(old.as_deref()).map(Into::into);
        match &new { Some(v) => { m.insert(k.to_vec(), v.clone()); } None => { m.remove(k); } }
        (old, new)
    }
}

pub struct Iter(std::vec::IntoIter<(IVec, IVec)>);
impl Iter {
    pub fn keys(self) -> impl DoubleEndedIterator<Item = Result<IVec>> { self.0.map(|(k, _)| Ok(k)) }
    pub fn values(self) -> impl DoubleEndedIterator<Item = Result<IVec>> { self.0.map(|(_, v)| Ok(v)) }
}
impl Iterator for Iter { type Item = Result<(IVec, IVec)>; fn next(&mut self) -> Option<Self::Item> { self.0.next().map(Ok) } }
impl DoubleEndedIterator for Iter { fn next_back(&mut self) -> Option<Self::Item> { self.0.next_back().map(Ok) } }

const DEFAULT: &[u8] = b"__sled__default";
#[derive(Clone)]
pub struct Db { default: Tree, trees: Arc<Mutex<Trees>> }
impl Deref for Db { type Target = Tree; fn deref(&self) -> &Tree { &self.default } }
impl std::fmt::Debug for Db { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Db") } }
impl Db {
    fn new() -> Db {
        let default = Tree::new(DEFAULT);
        let mut t = Trees::new();
        t.insert(DEFAULT.to_vec(), default.clone());
        Db { default, trees: Arc::new(Mutex::new(t)) }
    }
    pub fn open_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<Tree> { Ok(lock(&self.trees).entry(name.as_ref().to_vec()).or_insert_with(|| Tree::new(name.as_ref())).clone()) }
    pub fn drop_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<bool> {
        if name.as_ref() == DEFAULT { return Err(Error::Unsupported(String::new())) }
        match lock(&self.trees).remove(name.as_ref()) { Some(t) => { t.clear()?; Ok(true) } None => Ok(false) }
    }
    pub fn tree_names(&self) -> Vec<IVec> { lock(&self.trees).keys().map(|k| IVec(k.clone())).collect() }
    pub fn was_recovered(&self) -> bool { false }
}

static FILES: Mutex<BTreeMap<PathBuf, Db>> = Mutex::new(BTreeMap::new());
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode { LowSpace, HighThroughput }
#[derive(Clone, Debug, Default)]
pub struct Config { path: PathBuf, temporary: bool }
impl Config {
    pub fn new() -> Self { Self::default() }
    pub fn path<P: AsRef<Path>>(mut self, p: P) -> Self { self.path = p.as_ref().to_path_buf(); self }
    pub fn temporary(mut self, t: bool) -> Self { self.temporary = t; self }
    pub fn mode(self, _: Mode) -> Self { self }
    pub fn cache_capacity(self, _: u64) -> Self { self }
    pub fn flush_every_ms(self, _: Option<u64>) -> Self { self }
    pub fn create_new(self, _: bool) -> Self { self }
    pub fn use_compression(self, _: bool) -> Self { self }
    pub fn open(&self) -> Result<Db> {
        if self.temporary { return Ok(Db::new()) }
        Ok(lock(&FILES).entry(self.path.clone()).or_insert_with(Db::new).clone())
    }
}
pub fn open<P: AsRef<Path>>(p: P) -> Result<Db> { Config::new().path(p).open() }
