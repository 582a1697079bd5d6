//! A database in memory, in the order of its keys; it opens what is still in the write-ahead log of a real one. A
//! failure can be planted: an iterator that comes to that key reports an error and ends there, as the real one does.
use std::collections::BTreeMap;
use std::fmt;
use std::ops::Bound;
use std::path::Path;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(String);
impl Error {
    pub fn into_string(self) -> String {
        self.0
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
#[derive(Default, Clone)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
}
#[derive(Default, Clone)]
pub struct ReadOptions;
#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
type KV = (Box<[u8]>, Box<[u8]>);
#[derive(Clone, Default)]
pub struct DB {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    fails_at: Option<Vec<u8>>,
}
pub struct DBIterator<'a> {
    inner: Box<dyn Iterator<Item = (&'a Vec<u8>, &'a Vec<u8>)> + 'a>,
    fails_at: Option<&'a [u8]>,
    reverse: bool,
    done: bool,
}
impl Iterator for DBIterator<'_> {
    type Item = Result<KV, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        let n = self.inner.next();
        if let Some(at) = self.fails_at {
            let there = match n {
                None => true,
                Some((k, _)) => (k.as_slice() >= at) != self.reverse || k.as_slice() == at,
            };
            if there {
                self.done = true;
                return Some(Err(Error("Corruption: block checksum mismatch".into())));
            }
        }
        match n {
            Some((k, v)) => Some(Ok((k.as_slice().into(), v.as_slice().into()))),
            None => {
                self.done = true;
                None
            }
        }
    }
}
fn varint(b: &[u8], i: &mut usize) -> Option<usize> {
    let (mut s, mut r) = (0, 0);
    loop {
        let x = *b.get(*i)?;
        *i += 1;
        r |= ((x & 127) as usize) << s;
        s += 7;
        if x < 128 {
            return Some(r);
        }
    }
}
/// The puts and deletes of a write-ahead log.
fn log(d: &[u8], map: &mut BTreeMap<Vec<u8>, Vec<u8>>) -> Option<()> {
    let (mut o, mut cur) = (0, vec![]);
    while o + 7 <= d.len() {
        let left = 32768 - o % 32768;
        if left < 7 {
            o += left;
            continue;
        }
        let len = u16::from_le_bytes([d[o + 4], d[o + 5]]) as usize;
        let kind = d[o + 6];
        if kind == 0 {
            break;
        }
        cur.extend_from_slice(d.get(o + 7..o + 7 + len)?);
        o += 7 + len;
        if kind == 1 || kind == 4 {
            let r = std::mem::take(&mut cur);
            let count = u32::from_le_bytes(r.get(8..12)?.try_into().ok()?);
            let mut i = 12;
            for _ in 0..count {
                let tag = *r.get(i)?;
                i += 1;
                let mut part = || {
                    let n = varint(&r, &mut i)?;
                    let p = r.get(i..i + n)?.to_vec();
                    i += n;
                    Some(p)
                };
                match tag {
                    1 => {
                        let k = part()?;
                        let v = part()?;
                        map.insert(k, v);
                    }
                    0 => {
                        let k = part()?;
                        map.remove(&k);
                    }
                    _ => return None,
                }
            }
        }
    }
    Some(())
}
impl DB {
    pub fn open_for_read_only<P: AsRef<Path>>(_: &Options, path: P, _: bool) -> Result<DB, Error> {
        let e = |e: std::io::Error| Error(format!("IO error: {e}"));
        let mut db = DB::default();
        let mut logs: Vec<_> = std::fs::read_dir(path).map_err(e)?.flatten().map(|f| f.path()).filter(|p| p.extension().map_or(false, |x| x == "log")).collect();
        logs.sort();
        for l in logs {
            log(&std::fs::read(l).map_err(e)?, &mut db.map).ok_or(Error("Corruption: log".into()))?;
        }
        Ok(db)
    }
    /// Not part of the real interface: a database with this content.
    pub fn stand_in(map: BTreeMap<Vec<u8>, Vec<u8>>, fails_at: Option<Vec<u8>>) -> DB {
        DB { map, fails_at }
    }
    /// Not part of the real interface.
    pub fn stand_in_map(&self) -> &BTreeMap<Vec<u8>, Vec<u8>> {
        &self.map
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.map.get(k.as_ref()).cloned())
    }
    pub fn iterator(&self, mode: IteratorMode) -> DBIterator<'_> {
        let (inner, reverse): (Box<dyn Iterator<Item = _>>, _) = match mode {
            IteratorMode::Start => (Box::new(self.map.iter()), false),
            IteratorMode::End => (Box::new(self.map.iter().rev()), true),
            IteratorMode::From(k, Direction::Forward) => (Box::new(self.map.range::<[u8], _>((Bound::Included(k), Bound::Unbounded))), false),
            IteratorMode::From(k, Direction::Reverse) => (Box::new(self.map.range::<[u8], _>((Bound::Unbounded, Bound::Included(k))).rev()), true),
        };
        DBIterator { inner, fails_at: self.fails_at.as_deref(), reverse, done: false }
    }
    pub fn iterator_opt(&self, mode: IteratorMode, _: ReadOptions) -> DBIterator<'_> {
        self.iterator(mode)
    }
    /// Begins at the prefix and goes on to the end, as the real one does without a prefix extractor.
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, prefix: P) -> DBIterator<'_> {
        self.iterator(IteratorMode::From(prefix.as_ref(), Direction::Forward))
    }
}
