//! A pure-Rust stand-in for the part of the `rocksdb` crate that snapchain uses.
//!
//! The real crate is pinned to a git revision that cannot be fetched in this sandbox.
//! This one implements the documented contract of the calls snapchain makes:
//! an ordered byte-string map with atomic write batches, pessimistic transactions
//! (row locks held until commit, lock timeout), point-in-time snapshots for iterators,
//! iterate_lower_bound (inclusive) / iterate_upper_bound (exclusive), durable contents
//! across close/reopen (an append-only log in the database directory), an exclusive
//! LOCK on read-write opens, and read-only opens.
//!
//! `shim` holds fault injection and observation used by the checks.

use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::fs;
use std::io::{BufReader, BufWriter, Read, Write};
use std::ops::Bound;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock, RwLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- errors

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    InvalidArgument,
    IOError,
    Busy,
    TimedOut,
    Unknown,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    kind: ErrorKind,
    message: String,
}

impl Error {
    fn new(kind: ErrorKind, message: impl Into<String>) -> Self {
        Error { kind, message: message.into() }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind.clone()
    }
    pub fn into_string(self) -> String {
        self.message
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}

fn io_err(e: std::io::Error) -> Error {
    Error::new(ErrorKind::IOError, format!("IO error: {e}"))
}

// ---------------------------------------------------------------- options

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DBCompressionType {
    None,
    Snappy,
    Zlib,
    Bz2,
    Lz4,
    Lz4hc,
    Zstd,
}

#[derive(Clone, Default)]
pub struct Cache {
    used: Arc<AtomicUsize>,
    cap: usize,
}
impl fmt::Debug for Cache {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Cache")
    }
}
impl Cache {
    pub fn new_lru_cache(cap: usize) -> Cache {
        Cache { used: Arc::new(AtomicUsize::new(0)), cap }
    }
    pub fn get_usage(&self) -> usize {
        self.used.load(Ordering::Relaxed).min(self.cap)
    }
    pub fn get_pinned_usage(&self) -> usize {
        0
    }
    fn touch(&self, n: usize) {
        self.used.fetch_add(n, Ordering::Relaxed);
    }
}

#[derive(Default, Clone)]
pub struct BlockBasedOptions {
    cache: Option<Cache>,
}
impl BlockBasedOptions {
    pub fn set_block_cache(&mut self, c: &Cache) {
        self.cache = Some(c.clone());
    }
    pub fn set_cache_index_and_filter_blocks(&mut self, _: bool) {}
    pub fn set_pin_l0_filter_and_index_blocks_in_cache(&mut self, _: bool) {}
    pub fn set_bloom_filter(&mut self, _: f64, _: bool) {}
    pub fn set_block_size(&mut self, _: usize) {}
}

#[derive(Clone, Default)]
pub struct Options {
    create_if_missing: bool,
    cache: Option<Cache>,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn set_write_buffer_size(&mut self, _: usize) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_max_write_buffer_number(&mut self, _: i32) {}
    pub fn set_min_write_buffer_number_to_merge(&mut self, _: i32) {}
    pub fn set_max_background_jobs(&mut self, _: i32) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn set_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_bottommost_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_block_based_table_factory(&mut self, b: &BlockBasedOptions) {
        self.cache = b.cache.clone();
    }
}

#[derive(Default)]
pub struct TransactionDBOptions {
    lock_timeout_ms: Option<i64>,
}
impl TransactionDBOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_default_lock_timeout(&mut self, ms: i64) {
        self.lock_timeout_ms = Some(ms);
    }
    pub fn set_txn_lock_timeout(&mut self, ms: i64) {
        self.lock_timeout_ms = Some(ms);
    }
}

#[derive(Default)]
pub struct TransactionOptions {}

#[derive(Default)]
pub struct ReadOptions {
    lower: Option<Vec<u8>>,
    upper: Option<Vec<u8>>,
}
impl ReadOptions {
    pub fn set_iterate_lower_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.lower = Some(k.into());
    }
    pub fn set_iterate_upper_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.upper = Some(k.into());
    }
    pub fn fill_cache(&mut self, _: bool) {}
    pub fn set_verify_checksums(&mut self, _: bool) {}
    pub fn set_readahead_size(&mut self, _: usize) {}
    pub fn set_total_order_seek(&mut self, _: bool) {}
    pub fn set_prefix_same_as_start(&mut self, _: bool) {}
}

#[derive(Default)]
pub struct WriteOptions {
    disable_wal: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn disable_wal(&mut self, v: bool) {
        self.disable_wal = v;
    }
    pub fn set_sync(&mut self, _: bool) {}
}

#[derive(Default)]
pub struct FlushOptions {}

#[derive(Debug, Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}

pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

// ---------------------------------------------------------------- storage

type Val = Arc<[u8]>;

#[derive(Default)]
struct Mem {
    /// key -> versions, oldest first. Readers at `seq` take the last version with `s <= seq`.
    map: BTreeMap<Vec<u8>, Vec<(u64, Option<Val>)>>,
    seq: u64,
    /// active snapshots: seq -> count
    snaps: BTreeMap<u64, usize>,
    /// keys holding more than one version, or a tombstone
    dirty: Vec<Vec<u8>>,
}

impl Mem {
    fn at<'a>(versions: &'a [(u64, Option<Val>)], seq: u64) -> Option<&'a Val> {
        versions.iter().rev().find(|(s, _)| *s <= seq).and_then(|(_, v)| v.as_ref())
    }
    fn get(&self, k: &[u8], seq: u64) -> Option<Val> {
        self.map.get(k).and_then(|v| Self::at(v, seq)).cloned()
    }
    fn write(&mut self, ops: &[(Vec<u8>, Option<Val>)]) {
        self.seq += 1;
        let seq = self.seq;
        if self.snaps.is_empty() {
            for k in std::mem::take(&mut self.dirty) {
                let drop_key = match self.map.get_mut(&k) {
                    Some(v) => {
                        if v.len() > 1 {
                            let last = v.pop().unwrap();
                            v.clear();
                            v.push(last);
                        }
                        v[0].1.is_none()
                    }
                    None => false,
                };
                if drop_key {
                    self.map.remove(&k);
                }
            }
            for (k, v) in ops {
                match v {
                    Some(_) => {
                        self.map.insert(k.clone(), vec![(seq, v.clone())]);
                    }
                    None => {
                        self.map.remove(k);
                    }
                }
            }
        } else {
            for (k, v) in ops {
                self.map.entry(k.clone()).or_default().push((seq, v.clone()));
                self.dirty.push(k.clone());
            }
        }
    }
}

#[derive(Default)]
struct Locks {
    held: Mutex<HashMap<Vec<u8>, u64>>,
    cv: Condvar,
}

struct Store {
    path: PathBuf,
    mem: RwLock<Mem>,
    log: Mutex<Option<BufWriter<fs::File>>>,
    locks: Locks,
    lock_timeout: Duration,
    next_txn: AtomicU64,
    cache: Option<Cache>,
}

const LOG: &str = "000001.log";

fn registry() -> &'static Mutex<HashMap<PathBuf, std::sync::Weak<Store>>> {
    static R: OnceLock<Mutex<HashMap<PathBuf, std::sync::Weak<Store>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

fn canonical(path: &Path) -> PathBuf {
    fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf())
}

fn load(path: &Path) -> Result<Mem, Error> {
    let mut mem = Mem::default();
    let file = path.join(LOG);
    if !file.exists() {
        return Ok(mem);
    }
    let mut r = BufReader::new(fs::File::open(&file).map_err(io_err)?);
    let mut n4 = [0u8; 4];
    loop {
        match r.read_exact(&mut n4) {
            Ok(()) => {}
            Err(_) => break,
        }
        let count = u32::from_le_bytes(n4);
        let mut ops = Vec::with_capacity(count as usize);
        let mut ok = true;
        for _ in 0..count {
            let mut head = [0u8; 9];
            if r.read_exact(&mut head).is_err() {
                ok = false;
                break;
            }
            let kl = u32::from_le_bytes(head[1..5].try_into().unwrap()) as usize;
            let vl = u32::from_le_bytes(head[5..9].try_into().unwrap()) as usize;
            let mut k = vec![0; kl];
            let mut v = vec![0; vl];
            if r.read_exact(&mut k).is_err() || r.read_exact(&mut v).is_err() {
                ok = false;
                break;
            }
            ops.push((k, if head[0] == 1 { Some(Val::from(v)) } else { None }));
        }
        if !ok {
            break; // torn tail: the batch never happened
        }
        mem.write(&ops);
    }
    Ok(mem)
}

impl Store {
    fn open(opts: &Options, path: &Path, lock_timeout: Duration) -> Result<Arc<Store>, Error> {
        if !path.exists() {
            if !opts.create_if_missing {
                return Err(Error::new(
                    ErrorKind::InvalidArgument,
                    format!("Invalid argument: {}: does not exist (create_if_missing is false)", path.display()),
                ));
            }
            fs::create_dir_all(path).map_err(io_err)?;
        }
        let canon = canonical(path);
        let mut reg = registry().lock().unwrap();
        if let Some(s) = reg.get(&canon) {
            if s.strong_count() > 0 {
                return Err(Error::new(
                    ErrorKind::IOError,
                    format!(
                        "IO error: lock hold by current process, acquire time 0 acquiring thread 0: {}/LOCK: No locks available",
                        path.display()
                    ),
                ));
            }
        }
        let mem = load(&canon)?;
        let current = canon.join("CURRENT");
        if !current.exists() {
            fs::write(&current, b"MANIFEST-000001\n").map_err(io_err)?;
        }
        let file = fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(canon.join(LOG))
            .map_err(io_err)?;
        let store = Arc::new(Store {
            path: canon.clone(),
            mem: RwLock::new(mem),
            log: Mutex::new(Some(BufWriter::with_capacity(1 << 16, file))),
            locks: Locks::default(),
            lock_timeout,
            next_txn: AtomicU64::new(1),
            cache: opts.cache.clone(),
        });
        reg.insert(canon, Arc::downgrade(&store));
        Ok(store)
    }

    fn open_read_only(path: &Path) -> Result<Arc<Store>, Error> {
        let canon = canonical(path);
        let live = registry().lock().unwrap().get(&canon).and_then(|w| w.upgrade());
        let mem = if let Some(s) = live {
            let m = s.mem.read().unwrap();
            let mut out = Mem::default();
            let ops: Vec<_> = m
                .map
                .iter()
                .filter_map(|(k, v)| Mem::at(v, m.seq).map(|v| (k.clone(), Some(v.clone()))))
                .collect();
            out.write(&ops);
            out
        } else {
            if !canon.join("CURRENT").exists() {
                return Err(Error::new(
                    ErrorKind::IOError,
                    format!("IO error: No such file or directory: While opening a file for sequentially reading: {}/CURRENT", path.display()),
                ));
            }
            load(&canon)?
        };
        Ok(Arc::new(Store {
            path: canon,
            mem: RwLock::new(mem),
            log: Mutex::new(None),
            locks: Locks::default(),
            lock_timeout: Duration::from_secs(1),
            next_txn: AtomicU64::new(1),
            cache: None,
        }))
    }

    fn apply(&self, ops: Vec<(Vec<u8>, Option<Val>)>) -> Result<(), Error> {
        if ops.is_empty() {
            return Ok(());
        }
        shim::before_write(&self.path)?;
        {
            let mut log = self.log.lock().unwrap();
            if let Some(w) = log.as_mut() {
                let mut buf = Vec::with_capacity(64 * ops.len() + 4);
                buf.extend_from_slice(&(ops.len() as u32).to_le_bytes());
                for (k, v) in &ops {
                    buf.push(v.is_some() as u8);
                    buf.extend_from_slice(&(k.len() as u32).to_le_bytes());
                    buf.extend_from_slice(&(v.as_ref().map_or(0, |v| v.len()) as u32).to_le_bytes());
                    buf.extend_from_slice(k);
                    if let Some(v) = v {
                        buf.extend_from_slice(v);
                    }
                }
                w.write_all(&buf).map_err(io_err)?;
            }
            self.mem.write().unwrap().write(&ops);
        }
        shim::after_write(&self.path, &ops);
        Ok(())
    }

    fn flush(&self) -> Result<(), Error> {
        if let Some(w) = self.log.lock().unwrap().as_mut() {
            w.flush().map_err(io_err)?;
        }
        Ok(())
    }

    fn get(&self, k: &[u8]) -> Option<Val> {
        let m = self.mem.read().unwrap();
        let seq = m.seq;
        let v = m.get(k, seq);
        if let (Some(c), Some(v)) = (&self.cache, &v) {
            c.touch(v.len());
        }
        v
    }

    fn lock(&self, txn: u64, k: &[u8]) -> Result<bool, Error> {
        let deadline = Instant::now() + self.lock_timeout;
        let mut held = self.locks.held.lock().unwrap();
        loop {
            match held.get(k) {
                None => {
                    held.insert(k.to_vec(), txn);
                    return Ok(true);
                }
                Some(t) if *t == txn => return Ok(false),
                Some(_) => {
                    let now = Instant::now();
                    if now >= deadline {
                        return Err(Error::new(
                            ErrorKind::TimedOut,
                            "Operation timed out: Timeout waiting to lock key",
                        ));
                    }
                    held = self.locks.cv.wait_timeout(held, deadline - now).unwrap().0;
                }
            }
        }
    }

    fn unlock(&self, keys: &[Vec<u8>]) {
        if keys.is_empty() {
            return;
        }
        let mut held = self.locks.held.lock().unwrap();
        for k in keys {
            held.remove(k);
        }
        self.locks.cv.notify_all();
    }

    fn single(&self, k: &[u8], v: Option<Val>) -> Result<(), Error> {
        let t = self.next_txn.fetch_add(1, Ordering::Relaxed);
        self.lock(t, k)?;
        let r = self.apply(vec![(k.to_vec(), v)]);
        self.unlock(&[k.to_vec()]);
        r
    }

    fn snap(self: &Arc<Self>) -> Snap {
        let mut m = self.mem.write().unwrap();
        let seq = m.seq;
        *m.snaps.entry(seq).or_insert(0) += 1;
        Snap { store: self.clone(), seq }
    }
}

impl Drop for Store {
    fn drop(&mut self) {
        let _ = self.flush();
    }
}

struct Snap {
    store: Arc<Store>,
    seq: u64,
}
impl Drop for Snap {
    fn drop(&mut self) {
        let mut m = self.store.mem.write().unwrap_or_else(|e| e.into_inner());
        if let Some(n) = m.snaps.get_mut(&self.seq) {
            *n -= 1;
            if *n == 0 {
                m.snaps.remove(&self.seq);
            }
        }
    }
}

// ---------------------------------------------------------------- iterators

pub struct DBRawIteratorWithThreadMode<'a, D> {
    snap: Snap,
    lower: Option<Vec<u8>>,
    upper: Option<Vec<u8>>,
    cur: Option<(Vec<u8>, Val)>,
    _p: std::marker::PhantomData<&'a D>,
}

impl<'a, D> DBRawIteratorWithThreadMode<'a, D> {
    fn new(store: &Arc<Store>, o: ReadOptions) -> Self {
        DBRawIteratorWithThreadMode {
            snap: store.snap(),
            lower: o.lower,
            upper: o.upper,
            cur: None,
            _p: std::marker::PhantomData,
        }
    }

    fn fwd(&mut self, from: Bound<&[u8]>) {
        let m = self.snap.store.mem.read().unwrap();
        let lo: Bound<&[u8]> = match (&from, &self.lower) {
            (Bound::Unbounded, Some(l)) => Bound::Included(l),
            (Bound::Included(f), Some(l)) | (Bound::Excluded(f), Some(l)) if *f < l.as_slice() => Bound::Included(l),
            (b, _) => *b,
        };
        let hi: Bound<&[u8]> = match &self.upper {
            Some(u) => Bound::Excluded(u),
            None => Bound::Unbounded,
        };
        self.cur = None;
        if empty_range(&lo, &hi) {
            return;
        }
        for (k, v) in m.map.range::<[u8], _>((lo, hi)) {
            if let Some(v) = Mem::at(v, self.snap.seq) {
                self.cur = Some((k.clone(), v.clone()));
                break;
            }
        }
    }

    fn back(&mut self, to: Bound<&[u8]>) {
        let m = self.snap.store.mem.read().unwrap();
        let hi: Bound<&[u8]> = match (&to, &self.upper) {
            (Bound::Unbounded, Some(u)) => Bound::Excluded(u),
            (Bound::Included(f), Some(u)) if *f >= u.as_slice() => Bound::Excluded(u),
            (Bound::Excluded(f), Some(u)) if *f > u.as_slice() => Bound::Excluded(u),
            (b, _) => *b,
        };
        let lo: Bound<&[u8]> = match &self.lower {
            Some(l) => Bound::Included(l),
            None => Bound::Unbounded,
        };
        self.cur = None;
        if empty_range(&lo, &hi) {
            return;
        }
        for (k, v) in m.map.range::<[u8], _>((lo, hi)).rev() {
            if let Some(v) = Mem::at(v, self.snap.seq) {
                self.cur = Some((k.clone(), v.clone()));
                break;
            }
        }
    }

    pub fn seek_to_first(&mut self) {
        self.fwd(Bound::Unbounded)
    }
    pub fn seek_to_last(&mut self) {
        self.back(Bound::Unbounded)
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, k: K) {
        self.fwd(Bound::Included(k.as_ref()))
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, k: K) {
        self.back(Bound::Included(k.as_ref()))
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.fwd(Bound::Excluded(&k))
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.back(Bound::Excluded(&k))
        }
    }
    pub fn valid(&self) -> bool {
        self.cur.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(k, _)| k.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(_, v)| &v[..])
    }
    pub fn item(&self) -> Option<(&[u8], &[u8])> {
        self.cur.as_ref().map(|(k, v)| (k.as_slice(), &v[..]))
    }
}

fn empty_range(lo: &Bound<&[u8]>, hi: &Bound<&[u8]>) -> bool {
    match (lo, hi) {
        (Bound::Unbounded, _) | (_, Bound::Unbounded) => false,
        (Bound::Included(a), Bound::Included(b)) => a > b,
        (Bound::Included(a), Bound::Excluded(b)) => a >= b,
        (Bound::Excluded(a), Bound::Included(b)) => a >= b,
        (Bound::Excluded(a), Bound::Excluded(b)) => a >= b,
    }
}

pub struct DBIteratorWithThreadMode<'a, D> {
    raw: DBRawIteratorWithThreadMode<'a, D>,
    forward: bool,
    started: bool,
}
impl<'a, D> DBIteratorWithThreadMode<'a, D> {
    fn new(store: &Arc<Store>, o: ReadOptions, mode: IteratorMode) -> Self {
        let mut raw = DBRawIteratorWithThreadMode::new(store, o);
        let forward = match mode {
            IteratorMode::Start => {
                raw.seek_to_first();
                true
            }
            IteratorMode::End => {
                raw.seek_to_last();
                false
            }
            IteratorMode::From(k, Direction::Forward) => {
                raw.seek(k);
                true
            }
            IteratorMode::From(k, Direction::Reverse) => {
                raw.seek_for_prev(k);
                false
            }
        };
        DBIteratorWithThreadMode { raw, forward, started: false }
    }
}
impl<'a, D> Iterator for DBIteratorWithThreadMode<'a, D> {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.started {
            if self.forward {
                self.raw.next()
            } else {
                self.raw.prev()
            }
        }
        self.started = true;
        self.raw.item().map(|(k, v)| Ok((k.into(), v.into())))
    }
}

pub struct SnapshotWithThreadMode<'a, D> {
    snap: Snap,
    _p: std::marker::PhantomData<&'a D>,
}
impl<'a, D> SnapshotWithThreadMode<'a, D> {
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.snap.store.mem.read().unwrap().get(k.as_ref(), self.snap.seq).map(|v| v.to_vec()))
    }
    pub fn iterator(&self, mode: IteratorMode) -> DBIteratorWithThreadMode<'a, D> {
        let mut it = DBIteratorWithThreadMode::new(&self.snap.store, ReadOptions::default(), IteratorMode::Start);
        {
            let mut m = self.snap.store.mem.write().unwrap();
            *m.snaps.entry(self.snap.seq).or_insert(0) += 1;
        }
        it.raw.snap = Snap { store: self.snap.store.clone(), seq: self.snap.seq };
        match mode {
            IteratorMode::Start => it.raw.seek_to_first(),
            IteratorMode::End => {
                it.forward = false;
                it.raw.seek_to_last()
            }
            IteratorMode::From(k, Direction::Forward) => it.raw.seek(k),
            IteratorMode::From(k, Direction::Reverse) => {
                it.forward = false;
                it.raw.seek_for_prev(k)
            }
        }
        it
    }
}

// ---------------------------------------------------------------- batches

#[derive(Default)]
pub struct WriteBatchWithTransaction<const T: bool> {
    ops: Vec<(Vec<u8>, Option<Val>)>,
}
pub type WriteBatch = WriteBatchWithTransaction<false>;
impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.ops.push((k.as_ref().to_vec(), Some(Val::from(v.as_ref()))));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.ops.push((k.as_ref().to_vec(), None));
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
}

// ---------------------------------------------------------------- DB

pub struct DB {
    store: Arc<Store>,
    read_only: bool,
}

macro_rules! reads {
    () => {
        pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
            Ok(self.store.get(k.as_ref()).map(|v| v.to_vec()))
        }
        pub fn multi_get<K, I>(&self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>>
        where
            K: AsRef<[u8]>,
            I: IntoIterator<Item = K>,
        {
            keys.into_iter().map(|k| self.get(k)).collect()
        }
        pub fn raw_iterator_opt(&self, o: ReadOptions) -> DBRawIteratorWithThreadMode<'_, Self> {
            DBRawIteratorWithThreadMode::new(&self.store, o)
        }
        pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
            DBRawIteratorWithThreadMode::new(&self.store, ReadOptions::default())
        }
        pub fn iterator(&self, mode: IteratorMode) -> DBIteratorWithThreadMode<'_, Self> {
            DBIteratorWithThreadMode::new(&self.store, ReadOptions::default(), mode)
        }
        pub fn iterator_opt(&self, mode: IteratorMode, o: ReadOptions) -> DBIteratorWithThreadMode<'_, Self> {
            DBIteratorWithThreadMode::new(&self.store, o, mode)
        }
        pub fn snapshot(&self) -> SnapshotWithThreadMode<'_, Self> {
            SnapshotWithThreadMode { snap: self.store.snap(), _p: std::marker::PhantomData }
        }
        pub fn flush(&self) -> Result<(), Error> {
            self.store.flush()
        }
        pub fn path(&self) -> &Path {
            &self.store.path
        }
    };
}

impl DB {
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<DB, Error> {
        Ok(DB { store: Store::open(opts, path.as_ref(), Duration::from_secs(1))?, read_only: false })
    }
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> {
        let mut o = Options::default();
        o.create_if_missing(true);
        Self::open(&o, path)
    }
    pub fn open_for_read_only<P: AsRef<Path>>(_o: &Options, path: P, _err_if_log: bool) -> Result<DB, Error> {
        Ok(DB { store: Store::open_read_only(path.as_ref())?, read_only: true })
    }
    pub fn destroy<P: AsRef<Path>>(_o: &Options, path: P) -> Result<(), Error> {
        let canon = canonical(path.as_ref());
        let live = registry().lock().unwrap().get(&canon).map_or(false, |w| w.strong_count() > 0);
        if live {
            return Err(Error::new(ErrorKind::IOError, "IO error: lock hold by current process"));
        }
        for f in [LOG, "CURRENT"] {
            let _ = fs::remove_file(canon.join(f));
        }
        let _ = fs::remove_dir(&canon);
        Ok(())
    }
    fn writable(&self) -> Result<(), Error> {
        if self.read_only {
            return Err(Error::new(ErrorKind::InvalidArgument, "Not implemented: Not supported operation in read only mode."));
        }
        Ok(())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.writable()?;
        self.store.apply(vec![(k.as_ref().to_vec(), Some(Val::from(v.as_ref())))])
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.writable()?;
        self.store.apply(vec![(k.as_ref().to_vec(), None)])
    }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.writable()?;
        self.store.apply(b.ops)
    }
    pub fn write_opt(&self, b: WriteBatch, _o: &WriteOptions) -> Result<(), Error> {
        self.write(b)
    }
    reads!();
}

pub struct TransactionDB {
    store: Arc<Store>,
}

impl TransactionDB {
    pub fn open<P: AsRef<Path>>(opts: &Options, t: &TransactionDBOptions, path: P) -> Result<TransactionDB, Error> {
        let timeout = Duration::from_millis(t.lock_timeout_ms.unwrap_or(1000).max(0) as u64);
        Ok(TransactionDB { store: Store::open(opts, path.as_ref(), timeout)? })
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.store.single(k.as_ref(), Some(Val::from(v.as_ref())))
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.store.single(k.as_ref(), None)
    }
    pub fn write(&self, b: WriteBatchWithTransaction<true>) -> Result<(), Error> {
        self.store.apply(b.ops)
    }
    pub fn transaction(&self) -> Transaction<'_, TransactionDB> {
        shim::point();
        Transaction {
            store: self.store.clone(),
            id: self.store.next_txn.fetch_add(1, Ordering::Relaxed),
            st: Mutex::new(TxnState::default()),
            _p: std::marker::PhantomData,
        }
    }
    pub fn transaction_opt(&self, _w: &WriteOptions, _t: &TransactionOptions) -> Transaction<'_, TransactionDB> {
        self.transaction()
    }
    reads!();
}

#[derive(Default)]
struct TxnState {
    writes: BTreeMap<Vec<u8>, Option<Val>>,
    locks: Vec<Vec<u8>>,
}

pub struct Transaction<'a, D> {
    store: Arc<Store>,
    id: u64,
    st: Mutex<TxnState>,
    _p: std::marker::PhantomData<&'a D>,
}

impl<'a, D> Transaction<'a, D> {
    fn lock(&self, k: &[u8]) -> Result<(), Error> {
        if self.store.lock(self.id, k)? {
            self.st.lock().unwrap().locks.push(k.to_vec());
        }
        Ok(())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.lock(k.as_ref())?;
        self.st.lock().unwrap().writes.insert(k.as_ref().to_vec(), Some(Val::from(v.as_ref())));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.lock(k.as_ref())?;
        self.st.lock().unwrap().writes.insert(k.as_ref().to_vec(), None);
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        if let Some(v) = self.st.lock().unwrap().writes.get(k.as_ref()) {
            return Ok(v.as_ref().map(|v| v.to_vec()));
        }
        Ok(self.store.get(k.as_ref()).map(|v| v.to_vec()))
    }
    pub fn get_for_update<K: AsRef<[u8]>>(&self, k: K, _exclusive: bool) -> Result<Option<Vec<u8>>, Error> {
        self.lock(k.as_ref())?;
        self.get(k)
    }
    pub fn commit(self) -> Result<(), Error> {
        let writes = std::mem::take(&mut self.st.lock().unwrap().writes);
        self.store.apply(writes.into_iter().collect())
        // locks are released by Drop
    }
    pub fn rollback(&self) -> Result<(), Error> {
        let mut st = self.st.lock().unwrap();
        st.writes.clear();
        let l = std::mem::take(&mut st.locks);
        self.store.unlock(&l);
        Ok(())
    }
}

impl<'a, D> Drop for Transaction<'a, D> {
    fn drop(&mut self) {
        if let Ok(mut st) = self.st.lock() {
            let l = std::mem::take(&mut st.locks);
            self.store.unlock(&l);
        }
    }
}

// ---------------------------------------------------------------- faults and observation

pub mod shim {
    //! Fault injection: the n-th write batch from now (to any database under a path prefix) fails.
    use super::*;

    thread_local! {
        static CLOCK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    }
    /// The wall clock, moved by `set_clock` on this thread.
    pub fn now() -> std::time::SystemTime {
        let (t, o) = (std::time::SystemTime::now(), CLOCK.with(|c| c.get()));
        if o >= 0 {
            t + std::time::Duration::from_secs(o as u64)
        } else {
            t - std::time::Duration::from_secs(-o as u64)
        }
    }
    /// Move this thread's wall clock by so many seconds from the real one.
    pub fn set_clock(seconds: i64) {
        CLOCK.with(|c| c.set(seconds))
    }

    type Hook = Box<dyn FnMut()>;
    thread_local! {
        static POINT: std::cell::RefCell<Option<Hook>> = const { std::cell::RefCell::new(None) };
    }
    /// What this thread does before each transaction it begins and each write it makes.
    pub fn on_point(f: Option<Hook>) {
        POINT.with(|p| *p.borrow_mut() = f)
    }
    pub(crate) fn point() {
        let Some(mut f) = POINT.with(|p| p.borrow_mut().take()) else { return };
        f();
        POINT.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(f)
            }
        })
    }

    pub struct Fault {
        prefix: PathBuf,
        /// writes that may still succeed; then every write fails
        left: AtomicI64,
        seen: AtomicU64,
    }

    fn faults() -> &'static RwLock<Vec<Arc<Fault>>> {
        static F: OnceLock<RwLock<Vec<Arc<Fault>>>> = OnceLock::new();
        F.get_or_init(Default::default)
    }

    /// While it lives, counts write batches under `prefix`, and lets only `allow` of them succeed
    /// (all, when None). A write that fails changes nothing.
    pub struct Guard(Arc<Fault>);

    impl Guard {
        pub fn new(prefix: &Path, allow: Option<u64>) -> Guard {
            let f = Arc::new(Fault {
                prefix: canonical(prefix),
                left: AtomicI64::new(allow.map_or(i64::MAX, |n| n as i64)),
                seen: AtomicU64::new(0),
            });
            faults().write().unwrap().push(f.clone());
            Guard(f)
        }
        /// Write batches attempted.
        pub fn seen(&self) -> u64 {
            self.0.seen.load(Ordering::SeqCst)
        }
    }
    impl Drop for Guard {
        fn drop(&mut self) {
            faults().write().unwrap().retain(|f| !Arc::ptr_eq(f, &self.0));
        }
    }

    pub(crate) fn before_write(path: &Path) -> Result<(), Error> {
        point();
        let fs = faults().read().unwrap();
        for f in fs.iter() {
            if path.starts_with(&f.prefix) {
                f.seen.fetch_add(1, Ordering::SeqCst);
                if f.left.fetch_sub(1, Ordering::SeqCst) <= 0 {
                    return Err(Error::new(ErrorKind::IOError, "IO error: injected fault"));
                }
            }
        }
        Ok(())
    }

    pub(crate) fn after_write(_path: &Path, _ops: &[(Vec<u8>, Option<Val>)]) {}
}
