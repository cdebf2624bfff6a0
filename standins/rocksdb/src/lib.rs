//! Stand-in for the `rocksdb` git dependency (not fetchable here).
//! Contract: an ordered byte-string map; `put` replaces, `get` reads the last value put,
//! `iterator` walks keys in ascending bytewise order from the given position.
//! One in-memory database per path.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

type Data = BTreeMap<Vec<u8>, Vec<u8>>;
static REG: Mutex<BTreeMap<PathBuf, Arc<Mutex<Data>>>> = Mutex::new(BTreeMap::new());

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Default)]
pub struct Options {
    create: bool,
}
impl Options {
    pub fn set_disable_auto_compactions(&mut self, _: bool) {}
    pub fn create_if_missing(&mut self, b: bool) {
        self.create = b
    }
    pub fn set_read_only(&mut self, _: bool) {}
    pub fn set_allow_mmap_reads(&mut self, _: bool) {}
}
#[derive(Debug)]
pub struct DB(Arc<Mutex<Data>>);
pub type DBVector = Vec<u8>;
pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
impl DB {
    pub fn open<P: AsRef<Path>>(o: &Options, p: P) -> Result<DB, Error> {
        let mut reg = REG.lock().unwrap();
        let p = p.as_ref().to_owned();
        if o.create {
            Ok(DB(reg.entry(p).or_insert_with(|| Arc::new(Mutex::new(Data::new()))).clone()))
        } else {
            reg.get(&p).cloned().map(DB).ok_or_else(|| Error(format!("no db at {:?}", p)))
        }
    }
    pub fn destroy<P: AsRef<Path>>(_: &Options, p: P) -> Result<(), Error> {
        REG.lock().unwrap().remove(p.as_ref());
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVector>, Error> {
        Ok(self.0.lock().unwrap().get(k.as_ref()).cloned())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.0.lock().unwrap().insert(k.as_ref().to_vec(), v.as_ref().to_vec());
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.0.lock().unwrap().remove(k.as_ref());
        Ok(())
    }
    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, _: Option<S>, _: Option<E>) {}
    pub fn iterator(&self, m: IteratorMode) -> DBIterator {
        let d = self.0.lock().unwrap();
        let it = d.iter().map(|(k, v)| (k.clone().into_boxed_slice(), v.clone().into_boxed_slice()));
        let v: Vec<_> = match m {
            IteratorMode::Start => it.collect(),
            IteratorMode::End => it.rev().collect(),
            IteratorMode::From(k, Direction::Forward) => it.filter(|(x, _)| &x[..] >= k).collect(),
            IteratorMode::From(k, Direction::Reverse) => {
                it.rev().filter(|(x, _)| &x[..] <= k).collect()
            }
        };
        DBIterator(v.into_iter())
    }
}
pub struct DBIterator(std::vec::IntoIter<(Box<[u8]>, Box<[u8]>)>);
impl Iterator for DBIterator {
    type Item = (Box<[u8]>, Box<[u8]>);
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
}
