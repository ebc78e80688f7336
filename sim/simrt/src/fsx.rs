//! The simulated disk.
//!
//! Files are real files below one scratch directory, so the code under test uses
//! its own file-system layer unchanged. Every call that reaches such a file is
//! seen here first (see interpose.rs): it is a scheduling point, a place where a
//! crash, an error or a short transfer can be put, and it updates a model of what
//! would survive a power failure.
//!
//! Power-failure model (a journaling file system with ordered metadata, such as
//! ext4 data=ordered with default options, minus its rename heuristics):
//!  * bytes written to a file are durable once fsync/fdatasync of it returned;
//!  * un-synced writes to a file survive independently: each is kept, lost, or
//!    cut at a 512-byte boundary, the lost parts reading as zeroes;
//!  * create, rename, unlink, mkdir, rmdir are journaled in order; a completed
//!    fsync of any file on the disk commits all of them issued before it; of the
//!    rest a prefix survives.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Mutex;

use crate::rng::Rng;

#[derive(Clone, Debug)]
enum Pend {
    Write { off: u64, data: Vec<u8> },
    Trunc(u64),
}
#[derive(Default, Debug, Clone)]
struct Inode {
    durable: Vec<u8>,
    pending: Vec<Pend>,
}
#[derive(Clone, Debug)]
enum Meta {
    Create(String, u64),
    Rename(String, String),
    Unlink(String),
    Mkdir(String),
    Rmdir(String),
}
#[derive(Default, Clone, Debug)]
struct Ns {
    files: BTreeMap<String, u64>,
    dirs: BTreeSet<String>,
}
impl Ns {
    fn apply(&mut self, m: &Meta) {
        match m {
            Meta::Create(p, i) => {
                self.files.insert(p.clone(), *i);
            }
            Meta::Unlink(p) => {
                self.files.remove(p);
            }
            Meta::Mkdir(p) => {
                self.dirs.insert(p.clone());
            }
            Meta::Rmdir(p) => {
                self.dirs.remove(p);
            }
            Meta::Rename(a, b) => {
                if let Some(i) = self.files.remove(a) {
                    self.files.insert(b.clone(), i);
                } else if self.dirs.remove(a) {
                    self.dirs.insert(b.clone());
                    let pre = format!("{a}/");
                    let fs: Vec<_> = self.files.range(pre.clone()..).take_while(|(k, _)| k.starts_with(&pre)).map(|(k, v)| (k.clone(), *v)).collect();
                    for (k, v) in fs {
                        self.files.remove(&k);
                        self.files.insert(format!("{b}/{}", &k[pre.len()..]), v);
                    }
                    let ds: Vec<_> = self.dirs.range(pre.clone()..).take_while(|k| k.starts_with(&pre)).cloned().collect();
                    for k in ds {
                        self.dirs.remove(&k);
                        self.dirs.insert(format!("{b}/{}", &k[pre.len()..]));
                    }
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Sync,
    Trunc,
    Rename,
    Unlink,
    Mkdir,
    Rmdir,
}
impl Op {
    pub fn mutates(self) -> bool {
        !matches!(self, Op::Open | Op::Read)
    }
    fn bit(self) -> u32 {
        1 << self as u32
    }
    fn name(self) -> &'static str {
        match self {
            Op::Open => "open",
            Op::Create => "create",
            Op::Read => "read",
            Op::Write => "write",
            Op::Sync => "sync",
            Op::Trunc => "truncate",
            Op::Rename => "rename",
            Op::Unlink => "unlink",
            Op::Mkdir => "mkdir",
            Op::Rmdir => "rmdir",
        }
    }
}
pub const ANY: u32 = !0;
pub fn mask(ops: &[Op]) -> u32 {
    ops.iter().map(|o| o.bit()).sum()
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// the process dies; with torn, a write it was in is cut short first
    Crash { torn: bool },
    /// this many matching calls fail with the errno
    Err { errno: i32, times: u32 },
    /// a read or write transfers fewer bytes than asked
    Short { times: u32 },
    /// the call takes this long
    Stall { ns: u64 },
}
#[derive(Clone, Debug)]
pub struct Fault {
    /// fires at the (skip+1)-th matching call from when it is armed
    pub skip: u32,
    pub ops: u32,
    /// only paths containing this, when not empty
    pub path: String,
    pub kind: Kind,
}

#[derive(Default)]
struct Disk {
    prefix: String,
    node: u32,
    inodes: HashMap<u64, Inode>,
    cur: Ns,
    dur: Ns,
    log: Vec<Meta>,
    faults: Vec<Fault>,
    ios: u64,
    full: bool,
    /// bytes free before writes fail with ENOSPC, when limited
    room: Option<u64>,
    /// when, and from which path, a file was renamed
    renames: Vec<(u64, String)>,
}
#[derive(Clone)]
struct Fd {
    disk: usize,
    ino: u64,
    path: String,
    append: bool,
}
#[derive(Default)]
struct Fs {
    disks: Vec<Disk>,
    fds: HashMap<i32, Fd>,
    next_ino: u64,
    log_on: bool,
}
static FS: Mutex<Option<Fs>> = Mutex::new(None);
fn fs() -> std::sync::MutexGuard<'static, Option<Fs>> {
    FS.lock().unwrap_or_else(|e| e.into_inner())
}

pub const CRASH_KEY: usize = 0xC4A5_0000;

/// Registers a directory as the disk of a node. It must be empty.
pub fn add_disk(prefix: &str, node: u32) -> usize {
    let mut g = fs();
    let f = g.get_or_insert_with(Fs::default);
    let mut d = Disk {
        prefix: format!("{}/", prefix.trim_end_matches('/')),
        node,
        ..Default::default()
    };
    d.cur.dirs.insert(prefix.trim_end_matches('/').to_string());
    d.dur = d.cur.clone();
    f.disks.push(d);
    f.disks.len() - 1
}
/// The disk now belongs to another incarnation of its node.
pub fn set_node(disk: usize, node: u32) {
    fs().as_mut().unwrap().disks[disk].node = node;
}
pub fn arm(disk: usize, f: Fault) {
    fs().as_mut().unwrap().disks[disk].faults.push(f);
}
pub fn disarm_all(disk: usize) {
    let mut g = fs();
    let d = &mut g.as_mut().unwrap().disks[disk];
    d.faults.clear();
    d.full = false;
    d.room = None;
}
pub fn set_room(disk: usize, bytes: Option<u64>) {
    let mut g = fs();
    let d = &mut g.as_mut().unwrap().disks[disk];
    d.room = bytes;
    d.full = false;
}
pub fn ios(disk: usize) -> u64 {
    fs().as_ref().unwrap().disks[disk].ios
}
/// The times at which files with `needle` in their path were renamed to another name.
pub fn renames(disk: usize, needle: &str) -> Vec<u64> {
    fs().as_ref().unwrap().disks[disk].renames.iter().filter(|r| r.1.contains(needle)).map(|r| r.0).collect()
}
pub fn armed(disk: usize) -> usize {
    fs().as_ref().unwrap().disks[disk].faults.len()
}

pub enum Verdict {
    Go,
    Fail(i32),
    Short(usize),
}

/// Called before a call reaches a tracked file. May not return (crash).
fn gate(disk: usize, op: Op, path: &str, len: usize) -> (Verdict, bool) {
    // scheduling point first: others may run before this call takes effect
    crate::yield_point();
    let mut crash = None;
    let mut stall = 0;
    let mut v = Verdict::Go;
    let node;
    {
        let mut g = fs();
        let f = g.as_mut().unwrap();
        let d = &mut f.disks[disk];
        node = d.node;
        // a thread of an earlier incarnation must not touch the disk
        if crate::current_node() != node && crate::in_sim() && crate::node_dead(crate::current_node()) {
            return (Verdict::Fail(libc::EIO), false);
        }
        if op.mutates() {
            d.ios += 1;
        }
        let mut fired = None;
        for (i, fa) in d.faults.iter_mut().enumerate() {
            if fa.ops & op.bit() == 0 || (!fa.path.is_empty() && !path.contains(fa.path.as_str())) {
                continue;
            }
            if matches!(fa.kind, Kind::Short { .. }) && !(matches!(op, Op::Read | Op::Write) && len > 1) {
                continue;
            }
            if fa.skip > 0 {
                fa.skip -= 1;
                continue;
            }
            fired = Some(i);
            break;
        }
        if let Some(i) = fired {
            let mut done = true;
            match &mut d.faults[i].kind {
                Kind::Crash { torn } => crash = Some(*torn && op == Op::Write),
                Kind::Err { errno, times } => {
                    v = Verdict::Fail(*errno);
                    *times = times.saturating_sub(1);
                    done = *times == 0;
                    crate::note(&format!("fault:errno{}:{}", errno, op.name()));
                }
                Kind::Short { times } => {
                    v = Verdict::Short(1 + crate::choose(len as u64 - 1) as usize);
                    *times = times.saturating_sub(1);
                    done = *times == 0;
                    crate::note(&format!("fault:short:{}", op.name()));
                }
                Kind::Stall { ns } => {
                    stall = *ns;
                    crate::note("fault:stall");
                }
            }
            if done {
                d.faults.remove(i);
            }
        }
        if let (Op::Write, Verdict::Go, Some(room)) = (op, &v, d.room) {
            if room < len as u64 {
                if room > 0 && crate::choose(2) == 0 {
                    v = Verdict::Short(room as usize);
                } else {
                    v = Verdict::Fail(libc::ENOSPC);
                }
                d.full = true;
                crate::note("fault:enospc");
            }
        }
        if matches!(op, Op::Create | Op::Mkdir) && d.full && matches!(v, Verdict::Go) && crate::choose(2) == 0 {
            v = Verdict::Fail(libc::ENOSPC);
            crate::note("fault:enospc_create");
        }
        if let (Op::Write, Some(room)) = (op, d.room.as_mut()) {
            match v {
                Verdict::Go => *room = room.saturating_sub(len as u64),
                Verdict::Short(n) => *room = room.saturating_sub(n as u64),
                _ => {}
            }
        }
    }
    crate::trace(|| format!("io {} {} len={} {}", op.name(), path.rsplit('/').next().unwrap_or(""), len, match (&v, crash) {
        (_, Some(_)) => "CRASH".to_string(),
        (Verdict::Fail(e), _) => format!("-> errno {e}"),
        (Verdict::Short(n), _) => format!("-> short {n}"),
        _ => String::new(),
    }));
    if stall > 0 {
        crate::sleep(stall);
    }
    match crash {
        Some(true) if len > 1 => {
            crate::note("fault:crash_torn");
            (Verdict::Short(1 + crate::choose(len as u64 - 1) as usize), true)
        }
        Some(_) => {
            crate::note(&format!("fault:crash_at_{}", op.name()));
            die(node);
        }
        None => (v, false),
    }
}
fn die(node: u32) -> ! {
    crate::wake_key(CRASH_KEY);
    crate::kill_node(node);
    // only when the caller is not on that node
    panic!("a thread of another node used the disk of node {node}");
}

fn find_disk(f: &Fs, path: &str) -> Option<usize> {
    f.disks.iter().position(|d| path.starts_with(d.prefix.as_str()) || path == &d.prefix[..d.prefix.len() - 1])
}
fn abs(path: &str) -> String {
    // lexical normalisation; the code under test uses absolute paths
    let mut out: Vec<&str> = vec![];
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}
fn track(path: &str) -> Option<(usize, String)> {
    if !crate::in_sim() || !path.starts_with('/') {
        return None;
    }
    let p = abs(path);
    let g = fs();
    let f = g.as_ref()?;
    find_disk(f, &p).map(|d| (d, p))
}
fn fd_of(fd: i32) -> Option<Fd> {
    if !crate::in_sim() {
        return None;
    }
    fs().as_ref()?.fds.get(&fd).cloned()
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn sys_open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32
}

pub unsafe fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    let s = std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned();
    let Some((disk, p)) = track(&s) else {
        let fd = sys_open(path, flags, mode);
        if crate::in_sim() {
            forget(fd);
        }
        return fd;
    };
    let existed = {
        let g = fs();
        let d = &g.as_ref().unwrap().disks[disk];
        d.cur.files.contains_key(&p) || d.cur.dirs.contains(&p)
    };
    let creating = flags & libc::O_CREAT != 0 && !existed;
    let op = if creating { Op::Create } else if flags & libc::O_TRUNC != 0 { Op::Trunc } else { Op::Open };
    match gate(disk, op, &p, 0).0 {
        Verdict::Fail(e) => {
            set_errno(e);
            return -1;
        }
        _ => {}
    }
    let fd = sys_open(path, flags, mode);
    if fd < 0 {
        return fd;
    }
    let mut g = fs();
    let f = g.as_mut().unwrap();
    if f.disks[disk].cur.dirs.contains(&p) {
        // a directory handle (read_dir, or fsync of a directory)
        f.fds.insert(fd, Fd { disk, ino: 0, path: p, append: false });
        return fd;
    }
    let ino = match f.disks[disk].cur.files.get(&p) {
        Some(i) => *i,
        None => {
            f.next_ino += 1;
            let ino = f.next_ino;
            let d = &mut f.disks[disk];
            d.inodes.insert(ino, Inode::default());
            let m = Meta::Create(p.clone(), ino);
            d.cur.apply(&m);
            d.log.push(m);
            ino
        }
    };
    if flags & libc::O_TRUNC != 0 {
        f.disks[disk].inodes.get_mut(&ino).unwrap().pending.push(Pend::Trunc(0));
    }
    f.fds.insert(fd, Fd { disk, ino, path: p, append: flags & libc::O_APPEND != 0 });
    fd
}
pub unsafe fn close(fd: i32) -> i32 {
    if crate::in_sim() {
        if let Some(f) = fs().as_mut() {
            f.fds.remove(&fd);
        }
    }
    libc::syscall(libc::SYS_close, fd) as i32
}
/// fd numbers are reused by calls that are not tracked
pub fn forget(fd: i32) {
    if let Ok(mut g) = FS.try_lock() {
        if let Some(f) = g.as_mut() {
            f.fds.remove(&fd);
        }
    }
}
fn record_write(h: &Fd, off: u64, data: &[u8]) {
    let mut g = fs();
    if let Some(i) = g.as_mut().unwrap().disks[h.disk].inodes.get_mut(&h.ino) {
        i.pending.push(Pend::Write { off, data: data.to_vec() });
    }
}
pub unsafe fn pwrite(fd: i32, buf: *const libc::c_void, n: usize, off: i64) -> isize {
    let Some(h) = fd_of(fd) else {
        return libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize;
    };
    let (v, crash) = gate(h.disk, Op::Write, &h.path, n);
    let n = match v {
        Verdict::Fail(e) => {
            set_errno(e);
            return -1;
        }
        Verdict::Short(k) => k.min(n),
        Verdict::Go => n,
    };
    let r = libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize;
    if r > 0 {
        record_write(&h, off as u64, std::slice::from_raw_parts(buf as *const u8, r as usize));
    }
    if crash {
        die(crate::current_node());
    }
    r
}
pub unsafe fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    let Some(h) = fd_of(fd) else {
        return libc::syscall(libc::SYS_write, fd, buf, n) as isize;
    };
    let (v, crash) = gate(h.disk, Op::Write, &h.path, n);
    let n = match v {
        Verdict::Fail(e) => {
            set_errno(e);
            return -1;
        }
        Verdict::Short(k) => k.min(n),
        Verdict::Go => n,
    };
    let off = libc::syscall(libc::SYS_lseek, fd, 0, if h.append { libc::SEEK_END } else { libc::SEEK_CUR }) as i64;
    let r = libc::syscall(libc::SYS_write, fd, buf, n) as isize;
    if r > 0 && off >= 0 {
        record_write(&h, off as u64, std::slice::from_raw_parts(buf as *const u8, r as usize));
    }
    if crash {
        die(crate::current_node());
    }
    r
}
pub unsafe fn pread(fd: i32, buf: *mut libc::c_void, n: usize, off: i64) -> isize {
    let Some(h) = fd_of(fd) else {
        return libc::syscall(libc::SYS_pread64, fd, buf, n, off) as isize;
    };
    let n = match gate(h.disk, Op::Read, &h.path, n).0 {
        Verdict::Fail(e) => {
            set_errno(e);
            return -1;
        }
        Verdict::Short(k) => k.min(n),
        Verdict::Go => n,
    };
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as isize
}
pub unsafe fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    let Some(h) = fd_of(fd) else {
        return libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    };
    let n = match gate(h.disk, Op::Read, &h.path, n).0 {
        Verdict::Fail(e) => {
            set_errno(e);
            return -1;
        }
        Verdict::Short(k) => k.min(n),
        Verdict::Go => n,
    };
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}
pub unsafe fn sync(fd: i32, nr: libc::c_long) -> i32 {
    let Some(h) = fd_of(fd) else {
        return libc::syscall(nr, fd) as i32;
    };
    if let Verdict::Fail(e) = gate(h.disk, Op::Sync, &h.path, 0).0 {
        set_errno(e);
        return -1;
    }
    commit(&h);
    0
}
fn apply_pend(v: &mut Vec<u8>, p: &Pend) {
    match p {
        Pend::Write { off, data } => {
            let end = *off as usize + data.len();
            if v.len() < end {
                v.resize(end, 0);
            }
            v[*off as usize..end].copy_from_slice(data);
        }
        Pend::Trunc(n) => v.resize(*n as usize, 0),
    }
}
fn commit(h: &Fd) {
    let mut g = fs();
    let d = &mut g.as_mut().unwrap().disks[h.disk];
    if let Some(i) = d.inodes.get_mut(&h.ino) {
        for p in std::mem::take(&mut i.pending) {
            apply_pend(&mut i.durable, &p);
        }
    }
    for m in std::mem::take(&mut d.log) {
        d.dur.apply(&m);
    }
}
pub unsafe fn ftruncate(fd: i32, len: i64) -> i32 {
    let Some(h) = fd_of(fd) else {
        return libc::syscall(libc::SYS_ftruncate, fd, len) as i32;
    };
    if let Verdict::Fail(e) = gate(h.disk, Op::Trunc, &h.path, 0).0 {
        set_errno(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_ftruncate, fd, len) as i32;
    if r == 0 {
        if let Some(i) = fs().as_mut().unwrap().disks[h.disk].inodes.get_mut(&h.ino) {
            i.pending.push(Pend::Trunc(len as u64));
        }
    }
    r
}
pub unsafe fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    let sa = std::ffi::CStr::from_ptr(a).to_string_lossy().into_owned();
    let sb = std::ffi::CStr::from_ptr(b).to_string_lossy().into_owned();
    let (Some((disk, pa)), Some((_, pb))) = (track(&sa), track(&sb)) else {
        return libc::syscall(libc::SYS_rename, a, b) as i32;
    };
    if let Verdict::Fail(e) = gate(disk, Op::Rename, &pb, 0).0 {
        set_errno(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_rename, a, b) as i32;
    if r == 0 {
        meta(disk, Meta::Rename(pa, pb));
    }
    r
}
fn meta(disk: usize, m: Meta) {
    let mut g = fs();
    let d = &mut g.as_mut().unwrap().disks[disk];
    if let Meta::Rename(from, _) = &m {
        d.renames.push((crate::now(), from.clone()));
    }
    d.cur.apply(&m);
    d.log.push(m);
}
/// `unlink`, `rmdir` and `unlinkat` by full path
pub unsafe fn unlink(path: *const libc::c_char, dir: bool) -> i32 {
    let s = std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned();
    let nr = if dir { libc::SYS_rmdir } else { libc::SYS_unlink };
    let Some((disk, p)) = track(&s) else {
        return libc::syscall(nr, path) as i32;
    };
    if let Verdict::Fail(e) = gate(disk, if dir { Op::Rmdir } else { Op::Unlink }, &p, 0).0 {
        set_errno(e);
        return -1;
    }
    let r = libc::syscall(nr, path) as i32;
    if r == 0 {
        meta(disk, if dir { Meta::Rmdir(p) } else { Meta::Unlink(p) });
    }
    r
}
/// for openat/unlinkat relative to a directory handle (std's remove_dir_all)
pub unsafe fn full_at(dirfd: i32, path: *const libc::c_char) -> Option<std::ffi::CString> {
    let s = std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned();
    if s.starts_with('/') || dirfd == libc::AT_FDCWD {
        return std::ffi::CString::new(s).ok();
    }
    let h = fd_of(dirfd)?;
    std::ffi::CString::new(format!("{}/{}", h.path, s)).ok()
}
pub unsafe fn mkdir(path: *const libc::c_char, mode: u32) -> i32 {
    let s = std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned();
    let Some((disk, p)) = track(&s) else {
        return libc::syscall(libc::SYS_mkdir, path, mode) as i32;
    };
    let known = fs().as_ref().unwrap().disks[disk].cur.dirs.contains(&p);
    if !known {
        if let Verdict::Fail(e) = gate(disk, Op::Mkdir, &p, 0).0 {
            set_errno(e);
            return -1;
        }
    }
    let r = libc::syscall(libc::SYS_mkdir, path, mode) as i32;
    if r == 0 {
        meta(disk, Meta::Mkdir(p));
    }
    r
}

/// How much of the un-synced state a power failure spares.
#[derive(Clone, Copy, Debug)]
pub enum Loss {
    /// everything un-synced is lost
    All,
    /// each un-synced write and a prefix of the metadata survive by chance
    Random,
}

/// Rewrites the disk's directory to what a power failure would leave. Call when
/// no thread of its node runs.
pub fn power_loss(disk: usize, loss: Loss, rng: &mut Rng) {
    let (prefix, ns, files) = {
        let mut g = fs();
        let d = &mut g.as_mut().unwrap().disks[disk];
        let keep = match loss {
            Loss::All => 0,
            Loss::Random => rng.below(d.log.len() as u64 + 1) as usize,
        };
        let mut ns = d.dur.clone();
        for m in &d.log[..keep] {
            ns.apply(m);
        }
        let mut files = vec![];
        let mut lost = 0u64;
        for (p, ino) in &ns.files {
            let i = d.inodes.get(ino).cloned().unwrap_or_default();
            let mut v = i.durable.clone();
            for pe in &i.pending {
                match (loss, pe) {
                    (Loss::All, _) => lost += 1,
                    (Loss::Random, Pend::Trunc(_)) => {
                        if rng.chance(1, 2) {
                            apply_pend(&mut v, pe)
                        }
                    }
                    (Loss::Random, Pend::Write { off, data }) => match rng.below(4) {
                        0 | 1 => apply_pend(&mut v, pe),
                        2 => {
                            lost += 1;
                            // length may have been extended without the data
                            if rng.chance(1, 3) {
                                let end = *off as usize + data.len();
                                if v.len() < end {
                                    v.resize(end, 0);
                                }
                            }
                        }
                        _ => {
                            lost += 1;
                            let cut = (rng.below(data.len() as u64 + 1) as usize) & !511;
                            apply_pend(&mut v, &Pend::Write { off: *off, data: data[..cut].to_vec() });
                        }
                    },
                }
            }
            files.push((p.clone(), *ino, v));
        }
        if lost > 0 {
            crate::note("fault:power_loss_lost_writes");
        }
        crate::note("fault:power_loss");
        (d.prefix.clone(), ns, files)
    };
    // the new image; untracked calls, as no simulated thread may interfere
    crate::nested(|| {
        let root = &prefix[..prefix.len() - 1];
        raw_clear(root);
        for dir in &ns.dirs {
            let _ = raw_mkdir_all(dir);
        }
        for (p, _, v) in &files {
            if let Some((dir, _)) = p.rsplit_once('/') {
                let _ = raw_mkdir_all(dir);
            }
            raw_write(p, v);
        }
    });
    let mut g = fs();
    let f = g.as_mut().unwrap();
    f.fds.retain(|_, h| h.disk != disk);
    let d = &mut f.disks[disk];
    d.inodes.clear();
    d.log.clear();
    for (_, ino, v) in files {
        d.inodes.insert(ino, Inode { durable: v, pending: vec![] });
    }
    let mut ns = ns;
    // parents that had to be made
    for p in ns.files.keys().cloned().collect::<Vec<_>>() {
        let mut q = p.as_str();
        while let Some((dir, _)) = q.rsplit_once('/') {
            if dir.len() + 1 < d.prefix.len() {
                break;
            }
            ns.dirs.insert(dir.to_string());
            q = dir;
        }
    }
    d.cur = ns.clone();
    d.dur = ns;
}
/// After a process crash the page cache survives: only handles are gone.
pub fn process_crash(disk: usize) {
    let mut g = fs();
    let f = g.as_mut().unwrap();
    f.fds.retain(|_, h| h.disk != disk);
}

/// Files on the disk now (paths below the prefix, with sizes), for oracles and damage.
pub fn list(disk: usize) -> Vec<String> {
    let g = fs();
    let d = &g.as_ref().unwrap().disks[disk];
    d.cur.files.keys().cloned().collect()
}
/// Damages a file behind the code's back (bit rot): not a scheduling point.
pub fn damage(disk: usize, path: &str, f: impl FnOnce(&mut Vec<u8>)) -> bool {
    crate::nested(|| {
        let Some(mut v) = raw_read(path) else { return false };
        f(&mut v);
        raw_write(path, &v);
        let mut g = fs();
        let d = &mut g.as_mut().unwrap().disks[disk];
        if let Some(i) = d.cur.files.get(path) {
            let i = d.inodes.get_mut(i).unwrap();
            i.pending.clear();
            i.durable = v;
        }
        true
    })
}

// ---- untracked file access -------------------------------------------------
fn c(p: &str) -> std::ffi::CString {
    std::ffi::CString::new(p).unwrap()
}
pub fn raw_read(p: &str) -> Option<Vec<u8>> {
    unsafe {
        let fd = sys_open(c(p).as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0);
        if fd < 0 {
            return None;
        }
        let mut v = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::syscall(libc::SYS_read, fd, buf.as_mut_ptr(), buf.len()) as isize;
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&buf[..n as usize]);
        }
        libc::syscall(libc::SYS_close, fd);
        Some(v)
    }
}
pub fn raw_write(p: &str, v: &[u8]) {
    unsafe {
        let fd = sys_open(c(p).as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC | libc::O_CLOEXEC, 0o644);
        assert!(fd >= 0, "raw_write {p}");
        let mut o = 0;
        while o < v.len() {
            let n = libc::syscall(libc::SYS_write, fd, v[o..].as_ptr(), v.len() - o) as isize;
            assert!(n > 0, "raw_write {p}: scratch space is full");
            o += n as usize;
        }
        libc::syscall(libc::SYS_close, fd);
    }
}
pub fn raw_mkdir_all(p: &str) -> bool {
    let mut cur = String::new();
    for part in p.split('/').filter(|x| !x.is_empty()) {
        cur.push('/');
        cur.push_str(part);
        unsafe {
            libc::syscall(libc::SYS_mkdir, c(&cur).as_ptr(), 0o755u32);
        }
    }
    true
}
/// Empties a directory of the scratch area.
pub fn raw_clear(root: &str) {
    assert!(root.contains("/cnosim-"), "refusing to clear {root}");
    fn rec(dir: &str) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path().to_string_lossy().into_owned();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                rec(&p);
                unsafe { libc::syscall(libc::SYS_rmdir, c(&p).as_ptr()) };
            } else {
                unsafe { libc::syscall(libc::SYS_unlink, c(&p).as_ptr()) };
            }
        }
    }
    crate::nested(|| rec(root));
}
pub fn log_on(on: bool) {
    if let Some(f) = fs().as_mut() {
        f.log_on = on;
    }
}
