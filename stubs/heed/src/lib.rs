//! Stand-in for heed (LMDB): an environment is an ordered map with snapshot readers and one
//! writer at a time. Every committed transaction is one checksummed record appended to
//! `data.mdb`, fsynced unless NO_SYNC; a torn tail is dropped on open, so that what
//! survives a crash is a prefix of the commits, all of them when they were synced.
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::io::{Read, Seek, Write};
use std::marker::PhantomData;
use std::ops::{Bound, Deref, DerefMut, RangeBounds};
use std::path::{Path, PathBuf};
use simstd::sync::{Arc, Condvar, Mutex};

pub mod byteorder {
    pub use ::byteorder::*;
    pub type BE = BigEndian;
    pub type LE = LittleEndian;
}

pub type BoxedError = Box<dyn std::error::Error + Send + Sync + 'static>;
#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    Mdb(String),
    Encoding(BoxedError),
    Decoding(BoxedError),
    EnvAlreadyOpened,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Io(e) => write!(f, "{e}"),
            Error::Mdb(e) => write!(f, "{e}"),
            Error::Encoding(e) => write!(f, "error while encoding: {e}"),
            Error::Decoding(e) => write!(f, "error while decoding: {e}"),
            Error::EnvAlreadyOpened => f.write_str("environment already opened in this program"),
        }
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Error {
        Error::Io(e)
    }
}
pub type Result<T, E = Error> = std::result::Result<T, E>;

bitflags::bitflags! {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct EnvFlags: u32 {
        const NO_SUB_DIR = 0x4000;
        const NO_SYNC = 0x10000;
        const READ_ONLY = 0x20000;
        const NO_META_SYNC = 0x40000;
        const WRITE_MAP = 0x80000;
        const MAP_ASYNC = 0x100000;
        const NO_TLS = 0x200000;
        const NO_LOCK = 0x400000;
    }
}

type Map = BTreeMap<Arc<[u8]>, Arc<[u8]>>;
/// named databases share one tree: the key is prefixed by the name
struct Inner {
    dir: PathBuf,
    cur: Mutex<(Arc<Map>, bool, u64)>,
    free: Condvar,
    sync: bool,
    read_only: bool,
    limit: usize,
}
#[derive(Clone)]
pub struct Env(Arc<Inner>);

pub struct EnvOpenOptions {
    flags: EnvFlags,
    map_size: usize,
}
impl Default for EnvOpenOptions {
    fn default() -> Self {
        Self::new()
    }
}
impl EnvOpenOptions {
    pub fn new() -> Self {
        EnvOpenOptions { flags: EnvFlags::empty(), map_size: usize::MAX }
    }
    pub fn map_size(&mut self, n: usize) -> &mut Self {
        self.map_size = n;
        self
    }
    pub fn max_readers(&mut self, _: u32) -> &mut Self {
        self
    }
    pub fn max_dbs(&mut self, _: u32) -> &mut Self {
        self
    }
    /// # Safety
    /// as in heed
    pub unsafe fn flags(&mut self, f: EnvFlags) -> &mut Self {
        self.flags |= f;
        self
    }
    /// # Safety
    /// as in heed
    pub unsafe fn open<P: AsRef<Path>>(&self, path: P) -> Result<Env> {
        let dir = path.as_ref().to_path_buf();
        if !dir.is_dir() {
            return Err(Error::Io(std::io::Error::from_raw_os_error(2)));
        }
        let p = dir.join("data.mdb");
        let mut map = Map::new();
        let mut good = 0u64;
        let old = match std::fs::File::open(&p) {
            Ok(f) => Some(f),
            Err(e) if e.kind() == std::io::ErrorKind::NotFound => None,
            Err(e) => return Err(e.into()),
        };
        if let Some(mut f) = old {
            let mut b = Vec::new();
            f.read_to_end(&mut b)?;
            let mut o = 0usize;
            while let Some(n) = record(&b[o..], &mut map) {
                o += n;
            }
            good = o as u64;
            if o < b.len() {
                simrt::note("lmdb_tail_dropped");
                let f = std::fs::OpenOptions::new().write(true).open(&p)?;
                f.set_len(good)?;
            }
        } else {
            std::fs::File::create(&p)?;
        }
        Ok(Env(Arc::new(Inner {
            dir,
            cur: Mutex::new((Arc::new(map), false, good)),
            free: Condvar::new(),
            sync: !self.flags.contains(EnvFlags::NO_SYNC),
            read_only: self.flags.contains(EnvFlags::READ_ONLY),
            limit: self.map_size,
        })))
    }
}
fn record(b: &[u8], map: &mut Map) -> Option<usize> {
    if b.len() < 8 {
        return None;
    }
    let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    let crc = u32::from_le_bytes(b[4..8].try_into().unwrap());
    let body = b.get(8..8 + n)?;
    if n == 0 || crc32fast::hash(body) != crc {
        return None;
    }
    let mut o = 0;
    let take = |o: &mut usize| -> &[u8] {
        let n = u32::from_le_bytes(body[*o..*o + 4].try_into().unwrap()) as usize;
        let s = &body[*o + 4..*o + 4 + n];
        *o += 4 + n;
        s
    };
    while o < n {
        let op = body[o];
        o += 1;
        if op == 2 {
            break;
        }
        let k = take(&mut o);
        if op == 1 {
            let v = take(&mut o);
            map.insert(k.into(), v.into());
        } else {
            map.remove(k);
        }
    }
    Some(8 + n)
}
impl std::fmt::Debug for Env {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Env({:?})", self.0.dir)
    }
}
pub struct EnvClosingEvent;
impl EnvClosingEvent {
    pub fn wait(self) {}
}
impl Env {
    pub fn path(&self) -> &Path {
        &self.0.dir
    }
    pub fn read_txn(&self) -> Result<RoTxn<'_>> {
        simrt::yield_point();
        let m = self.0.cur.lock().unwrap().0.clone();
        Ok(RoTxn { map: m, p: PhantomData })
    }
    pub fn write_txn(&self) -> Result<RwTxn<'_>> {
        if self.0.read_only {
            return Err(Error::Mdb("MDB_READONLY".into()));
        }
        let mut g = self.0.cur.lock().unwrap();
        while g.1 {
            g = self.0.free.wait(g).unwrap();
        }
        g.1 = true;
        let m = g.0.clone();
        drop(g);
        Ok(RwTxn { ro: RoTxn { map: m, p: PhantomData }, env: self.clone(), log: vec![], live: true })
    }
    pub fn create_database<KC: 'static, DC: 'static>(&self, _: &mut RwTxn, name: Option<&str>) -> Result<Database<KC, DC>> {
        Ok(Database::named(name))
    }
    pub fn open_database<KC: 'static, DC: 'static>(&self, _: &RoTxn, name: Option<&str>) -> Result<Option<Database<KC, DC>>> {
        Ok(Some(Database::named(name)))
    }
    pub fn force_sync(&self) -> Result<()> {
        std::fs::File::open(self.0.dir.join("data.mdb"))?.sync_all()?;
        Ok(())
    }
    pub fn prepare_for_closing(self) -> EnvClosingEvent {
        EnvClosingEvent
    }
    pub fn real_disk_size(&self) -> Result<u64> {
        Ok(std::fs::metadata(self.0.dir.join("data.mdb"))?.len())
    }
}
pub struct RoTxn<'e> {
    map: Arc<Map>,
    p: PhantomData<&'e ()>,
}
impl RoTxn<'_> {
    pub fn commit(self) -> Result<()> {
        Ok(())
    }
}
pub struct RwTxn<'e> {
    ro: RoTxn<'e>,
    env: Env,
    log: Vec<u8>,
    live: bool,
}
impl<'e> Deref for RwTxn<'e> {
    type Target = RoTxn<'e>;
    fn deref(&self) -> &RoTxn<'e> {
        &self.ro
    }
}
impl DerefMut for RwTxn<'_> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.ro
    }
}
impl RwTxn<'_> {
    fn finish(&mut self, publish: bool) {
        self.live = false;
        let mut g = self.env.0.cur.lock().unwrap();
        if publish {
            g.0 = self.ro.map.clone();
        }
        g.1 = false;
        drop(g);
        self.env.0.free.notify_one();
    }
    pub fn commit(mut self) -> Result<()> {
        if !self.log.is_empty() {
            let mut rec = (self.log.len() as u32).to_le_bytes().to_vec();
            rec.extend(crc32fast::hash(&self.log).to_le_bytes());
            rec.extend(&self.log);
            let p = self.env.0.dir.join("data.mdb");
            let at = self.env.0.cur.lock().unwrap().2;
            let r = (|| -> std::io::Result<()> {
                let mut f = std::fs::OpenOptions::new().write(true).open(&p)?;
                f.seek(std::io::SeekFrom::Start(at))?;
                if let Err(e) = f.write_all(&rec).and_then(|_| if self.env.0.sync { f.sync_all() } else { Ok(()) }) {
                    let _ = f.set_len(at);
                    return Err(e);
                }
                Ok(())
            })();
            if let Err(e) = r {
                return Err(Error::Io(e)); // drop aborts
            }
            self.env.0.cur.lock().unwrap().2 = at + rec.len() as u64;
        }
        self.finish(true);
        Ok(())
    }
    pub fn abort(self) {}
    fn put(&mut self, k: Vec<u8>, v: &[u8]) -> Result<()> {
        if k.len() > 511 + 16 || self.log.len() > self.env.0.limit {
            return Err(Error::Mdb("MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, or wrong DUPFIXED size".into()));
        }
        self.log.push(1);
        self.log.extend((k.len() as u32).to_le_bytes());
        self.log.extend(&k);
        self.log.extend((v.len() as u32).to_le_bytes());
        self.log.extend(v);
        Arc::make_mut(&mut self.ro.map).insert(k.into(), v.into());
        Ok(())
    }
    fn del(&mut self, k: &[u8]) -> bool {
        if !self.ro.map.contains_key(k) {
            return false;
        }
        self.log.push(0);
        self.log.extend((k.len() as u32).to_le_bytes());
        self.log.extend(k);
        Arc::make_mut(&mut self.ro.map).remove(k);
        true
    }
}
impl Drop for RwTxn<'_> {
    fn drop(&mut self) {
        if self.live {
            self.finish(false);
        }
    }
}

pub trait BytesEncode<'a> {
    type EItem: ?Sized + 'a;
    fn bytes_encode(item: &'a Self::EItem) -> Result<Cow<'a, [u8]>, BoxedError>;
}
pub trait BytesDecode<'a> {
    type DItem: 'a;
    fn bytes_decode(bytes: &'a [u8]) -> Result<Self::DItem, BoxedError>;
}
pub mod types {
    use super::*;
    pub enum Bytes {}
    pub enum Str {}
    pub enum Unit {}
    pub struct U64<O>(PhantomData<O>);
    pub struct U32<O>(PhantomData<O>);
    pub struct SerdeJson<T>(PhantomData<T>);
    pub enum DecodeIgnore {}
    impl<'a> BytesEncode<'a> for Bytes {
        type EItem = [u8];
        fn bytes_encode(i: &'a [u8]) -> Result<Cow<'a, [u8]>, BoxedError> {
            Ok(Cow::Borrowed(i))
        }
    }
    impl<'a> BytesDecode<'a> for Bytes {
        type DItem = &'a [u8];
        fn bytes_decode(b: &'a [u8]) -> Result<&'a [u8], BoxedError> {
            Ok(b)
        }
    }
    impl<'a> BytesEncode<'a> for Str {
        type EItem = str;
        fn bytes_encode(i: &'a str) -> Result<Cow<'a, [u8]>, BoxedError> {
            Ok(Cow::Borrowed(i.as_bytes()))
        }
    }
    impl<'a> BytesDecode<'a> for Str {
        type DItem = &'a str;
        fn bytes_decode(b: &'a [u8]) -> Result<&'a str, BoxedError> {
            Ok(std::str::from_utf8(b)?)
        }
    }
    impl<'a> BytesEncode<'a> for Unit {
        type EItem = ();
        fn bytes_encode(_: &'a ()) -> Result<Cow<'a, [u8]>, BoxedError> {
            Ok(Cow::Borrowed(&[]))
        }
    }
    impl<'a> BytesDecode<'a> for Unit {
        type DItem = ();
        fn bytes_decode(_: &'a [u8]) -> Result<(), BoxedError> {
            Ok(())
        }
    }
    impl<'a> BytesDecode<'a> for DecodeIgnore {
        type DItem = ();
        fn bytes_decode(_: &'a [u8]) -> Result<(), BoxedError> {
            Ok(())
        }
    }
    impl<'a, O: byteorder::ByteOrder> BytesEncode<'a> for U64<O> {
        type EItem = u64;
        fn bytes_encode(i: &'a u64) -> Result<Cow<'a, [u8]>, BoxedError> {
            let mut b = vec![0; 8];
            O::write_u64(&mut b, *i);
            Ok(Cow::Owned(b))
        }
    }
    impl<'a, O: byteorder::ByteOrder> BytesDecode<'a> for U64<O> {
        type DItem = u64;
        fn bytes_decode(b: &'a [u8]) -> Result<u64, BoxedError> {
            if b.len() < 8 {
                return Err("short".into());
            }
            Ok(O::read_u64(b))
        }
    }
    impl<'a, T: serde::Serialize + 'a> BytesEncode<'a> for SerdeJson<T> {
        type EItem = T;
        fn bytes_encode(i: &'a T) -> Result<Cow<'a, [u8]>, BoxedError> {
            Ok(Cow::Owned(serde_json::to_vec(i)?))
        }
    }
    impl<'a, T: serde::Deserialize<'a> + 'a> BytesDecode<'a> for SerdeJson<T> {
        type DItem = T;
        fn bytes_decode(b: &'a [u8]) -> Result<T, BoxedError> {
            Ok(serde_json::from_slice(b)?)
        }
    }
}

pub struct Database<KC, DC> {
    name: Arc<[u8]>,
    p: PhantomData<(KC, DC)>,
}
impl<KC, DC> Clone for Database<KC, DC> {
    fn clone(&self) -> Self {
        Database { name: self.name.clone(), p: PhantomData }
    }
}
unsafe impl<KC, DC> Send for Database<KC, DC> {}
unsafe impl<KC, DC> Sync for Database<KC, DC> {}

pub struct RoIter<'t, KC, DC> {
    it: Box<dyn DoubleEndedIterator<Item = (&'t [u8], &'t [u8])> + 't>,
    skip: usize,
    p: PhantomData<(KC, DC)>,
}
pub type RoRange<'t, KC, DC> = RoIter<'t, KC, DC>;
pub type RoPrefix<'t, KC, DC> = RoIter<'t, KC, DC>;
pub type RoRevIter<'t, KC, DC> = std::iter::Rev<RoIter<'t, KC, DC>>;
impl<'t, KC: BytesDecode<'t>, DC: BytesDecode<'t>> RoIter<'t, KC, DC> {
    fn one(&self, (k, v): (&'t [u8], &'t [u8])) -> Result<(KC::DItem, DC::DItem)> {
        Ok((KC::bytes_decode(&k[self.skip..]).map_err(Error::Decoding)?, DC::bytes_decode(v).map_err(Error::Decoding)?))
    }
}
impl<'t, KC: BytesDecode<'t>, DC: BytesDecode<'t>> Iterator for RoIter<'t, KC, DC> {
    type Item = Result<(KC::DItem, DC::DItem)>;
    fn next(&mut self) -> Option<Self::Item> {
        let x = self.it.next()?;
        Some(self.one(x))
    }
}
impl<'t, KC: BytesDecode<'t>, DC: BytesDecode<'t>> DoubleEndedIterator for RoIter<'t, KC, DC> {
    fn next_back(&mut self) -> Option<Self::Item> {
        let x = self.it.next_back()?;
        Some(self.one(x))
    }
}

impl<KC: 'static, DC: 'static> Database<KC, DC> {
    fn named(name: Option<&str>) -> Self {
        let mut n = name.unwrap_or("").as_bytes().to_vec();
        n.push(0);
        Database { name: n.into(), p: PhantomData }
    }
    pub fn remap_types<K2: 'static, D2: 'static>(&self) -> Database<K2, D2> {
        Database { name: self.name.clone(), p: PhantomData }
    }
    fn key<'a>(&self, k: &'a KC::EItem) -> Result<Vec<u8>>
    where
        KC: BytesEncode<'a>,
    {
        let b = KC::bytes_encode(k).map_err(Error::Encoding)?;
        if b.is_empty() {
            return Err(Error::Mdb("MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, or wrong DUPFIXED size".into()));
        }
        let mut v = self.name.to_vec();
        v.extend_from_slice(&b);
        Ok(v)
    }
    fn span<'t>(&self, txn: &'t RoTxn, lo: Bound<Vec<u8>>, hi: Bound<Vec<u8>>) -> RoIter<'t, KC, DC> {
        let pre = self.name.to_vec();
        let lo = if matches!(lo, Bound::Unbounded) { Bound::Included(pre.clone()) } else { lo };
        // names end in 0, and no name has a 1 there
        let hi = if matches!(hi, Bound::Unbounded) {
            let mut e = pre;
            *e.last_mut().unwrap() = 1;
            Bound::Excluded(e)
        } else {
            hi
        };
        let empty = match (&lo, &hi) {
            (Bound::Included(a), Bound::Included(b)) => a > b,
            (Bound::Excluded(a), Bound::Excluded(b)) => a >= b,
            (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => a > b,
            _ => false,
        };
        let it: Box<dyn DoubleEndedIterator<Item = (&'t [u8], &'t [u8])> + 't> = if empty {
            Box::new(std::iter::empty())
        } else {
            let f = |b: Bound<Vec<u8>>| match b {
                Bound::Included(x) => Bound::Included(Arc::<[u8]>::from(x)),
                Bound::Excluded(x) => Bound::Excluded(Arc::<[u8]>::from(x)),
                Bound::Unbounded => Bound::Unbounded,
            };
            Box::new(txn.map.range::<Arc<[u8]>, _>((f(lo), f(hi))).map(|(k, v)| (&k[..], &v[..])))
        };
        RoIter { it, skip: self.name.len(), p: PhantomData }
    }
    pub fn get<'a, 't>(&self, txn: &'t RoTxn, k: &'a KC::EItem) -> Result<Option<DC::DItem>>
    where
        KC: BytesEncode<'a>,
        DC: BytesDecode<'t>,
    {
        let k = self.key(k)?;
        match txn.map.get(&k[..]) {
            Some(v) => Ok(Some(DC::bytes_decode(v).map_err(Error::Decoding)?)),
            None => Ok(None),
        }
    }
    pub fn put<'a>(&self, txn: &mut RwTxn, k: &'a KC::EItem, v: &'a DC::EItem) -> Result<()>
    where
        KC: BytesEncode<'a>,
        DC: BytesEncode<'a>,
    {
        let k = self.key(k)?;
        let v = DC::bytes_encode(v).map_err(Error::Encoding)?;
        txn.put(k, &v)
    }
    pub fn delete<'a>(&self, txn: &mut RwTxn, k: &'a KC::EItem) -> Result<bool>
    where
        KC: BytesEncode<'a>,
    {
        let k = self.key(k)?;
        Ok(txn.del(&k))
    }
    fn bounds<'a, R>(&self, r: &'a R) -> Result<(Bound<Vec<u8>>, Bound<Vec<u8>>)>
    where
        KC: BytesEncode<'a>,
        R: RangeBounds<KC::EItem>,
    {
        let f = |b: Bound<&'a KC::EItem>| -> Result<Bound<Vec<u8>>> {
            Ok(match b {
                Bound::Included(x) => Bound::Included(self.key(x)?),
                Bound::Excluded(x) => Bound::Excluded(self.key(x)?),
                Bound::Unbounded => Bound::Unbounded,
            })
        };
        Ok((f(r.start_bound())?, f(r.end_bound())?))
    }
    pub fn delete_range<'a, R>(&self, txn: &mut RwTxn, r: &'a R) -> Result<usize>
    where
        KC: BytesEncode<'a>,
        R: RangeBounds<KC::EItem>,
    {
        let (lo, hi) = self.bounds(r)?;
        let ks: Vec<Vec<u8>> = self.span(txn, lo, hi).it.map(|(k, _)| k.to_vec()).collect();
        for k in &ks {
            txn.del(k);
        }
        Ok(ks.len())
    }
    pub fn clear(&self, txn: &mut RwTxn) -> Result<()> {
        let ks: Vec<Vec<u8>> = self.span(txn, Bound::Unbounded, Bound::Unbounded).it.map(|(k, _)| k.to_vec()).collect();
        for k in &ks {
            txn.del(k);
        }
        Ok(())
    }
    pub fn iter<'t>(&self, txn: &'t RoTxn) -> Result<RoIter<'t, KC, DC>> {
        Ok(self.span(txn, Bound::Unbounded, Bound::Unbounded))
    }
    pub fn rev_iter<'t>(&self, txn: &'t RoTxn) -> Result<RoRevIter<'t, KC, DC>>
    where
        KC: BytesDecode<'t>,
        DC: BytesDecode<'t>,
    {
        Ok(self.iter(txn)?.rev())
    }
    pub fn range<'a, 't, R>(&self, txn: &'t RoTxn, r: &'a R) -> Result<RoIter<'t, KC, DC>>
    where
        KC: BytesEncode<'a>,
        R: RangeBounds<KC::EItem>,
    {
        let (lo, hi) = self.bounds(r)?;
        Ok(self.span(txn, lo, hi))
    }
    pub fn prefix_iter<'a, 't>(&self, txn: &'t RoTxn, p: &'a KC::EItem) -> Result<RoIter<'t, KC, DC>>
    where
        KC: BytesEncode<'a>,
    {
        let b = KC::bytes_encode(p).map_err(Error::Encoding)?;
        let mut lo = self.name.to_vec();
        lo.extend_from_slice(&b);
        let mut hi = lo.clone();
        while let Some(l) = hi.last_mut() {
            if *l < 255 {
                *l += 1;
                break;
            }
            hi.pop();
        }
        Ok(self.span(txn, Bound::Included(lo), Bound::Excluded(hi)))
    }
    pub fn first<'t>(&self, txn: &'t RoTxn) -> Result<Option<(KC::DItem, DC::DItem)>>
    where
        KC: BytesDecode<'t>,
        DC: BytesDecode<'t>,
    {
        self.iter(txn)?.next().transpose()
    }
    pub fn last<'t>(&self, txn: &'t RoTxn) -> Result<Option<(KC::DItem, DC::DItem)>>
    where
        KC: BytesDecode<'t>,
        DC: BytesDecode<'t>,
    {
        self.iter(txn)?.next_back().transpose()
    }
    pub fn len(&self, txn: &RoTxn) -> Result<u64> {
        Ok(self.span(txn, Bound::Unbounded, Bound::Unbounded).it.count() as u64)
    }
    pub fn is_empty(&self, txn: &RoTxn) -> Result<bool> {
        Ok(self.len(txn)? == 0)
    }
}
