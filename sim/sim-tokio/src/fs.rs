//! Files: every call is a blocking job on another thread, and writes are buffered
//! and carried out behind the caller's back, as tokio does.
use std::future::Future;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use real_tokio::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};

use crate::runtime::lk;
use crate::task::{spawn_blocking, JoinHandle};

async fn asyncify<T: Send + 'static>(f: impl FnOnce() -> Result<T> + Send + 'static) -> Result<T> {
    match spawn_blocking(f).await {
        Ok(r) => r,
        Err(_) => Err(Error::new(ErrorKind::Other, "background task failed")),
    }
}

#[derive(Clone, Debug)]
pub struct OpenOptions(std::fs::OpenOptions);
impl OpenOptions {
    pub fn new() -> Self {
        OpenOptions(std::fs::OpenOptions::new())
    }
    pub fn read(&mut self, v: bool) -> &mut Self {
        self.0.read(v);
        self
    }
    pub fn write(&mut self, v: bool) -> &mut Self {
        self.0.write(v);
        self
    }
    pub fn append(&mut self, v: bool) -> &mut Self {
        self.0.append(v);
        self
    }
    pub fn truncate(&mut self, v: bool) -> &mut Self {
        self.0.truncate(v);
        self
    }
    pub fn create(&mut self, v: bool) -> &mut Self {
        self.0.create(v);
        self
    }
    pub fn create_new(&mut self, v: bool) -> &mut Self {
        self.0.create_new(v);
        self
    }
    pub async fn open(&self, p: impl AsRef<Path>) -> Result<File> {
        let o = self.0.clone();
        let p = p.as_ref().to_owned();
        let f = asyncify(move || o.open(p)).await?;
        Ok(File::from_std(f))
    }
}
impl Default for OpenOptions {
    fn default() -> Self {
        Self::new()
    }
}

enum Done {
    Read(Result<Vec<u8>>),
    Write(Result<()>),
    Seek(Result<u64>),
}
pub struct File {
    f: Arc<Mutex<Option<std::fs::File>>>,
    busy: Option<JoinHandle<Done>>,
    rbuf: Vec<u8>,
    rpos: usize,
    werr: Option<Error>,
    sought: Option<u64>,
    seeking: bool,
}
impl std::fmt::Debug for File {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "File")
    }
}
impl File {
    pub fn from_std(f: std::fs::File) -> File {
        File {
            f: Arc::new(Mutex::new(Some(f))),
            busy: None,
            rbuf: vec![],
            rpos: 0,
            werr: None,
            sought: None,
            seeking: false,
        }
    }
    pub async fn open(p: impl AsRef<Path>) -> Result<File> {
        OpenOptions::new().read(true).open(p).await
    }
    pub async fn create(p: impl AsRef<Path>) -> Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p).await
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    fn with<T: Send + 'static>(&self, f: impl FnOnce(&mut std::fs::File) -> T + Send + 'static) -> JoinHandle<T> {
        let a = self.f.clone();
        spawn_blocking(move || {
            // not held across the call: a killed node must not leave it locked
            let mut file = lk(&a).take().expect("file is in use");
            let r = f(&mut file);
            *lk(&a) = Some(file);
            r
        })
    }
    fn settle(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(b) = self.busy.as_mut() {
            let Poll::Ready(r) = Pin::new(b).poll(cx) else { return Poll::Pending };
            self.busy = None;
            match r {
                Ok(Done::Read(Ok(v))) => {
                    self.rbuf = v;
                    self.rpos = 0;
                }
                Ok(Done::Read(Err(e))) | Ok(Done::Write(Err(e))) => self.werr = Some(e),
                Ok(Done::Seek(Ok(n))) => self.sought = Some(n),
                Ok(Done::Seek(Err(e))) => self.werr = Some(e),
                Ok(Done::Write(Ok(()))) => {}
                Err(_) => self.werr = Some(Error::new(ErrorKind::Other, "background task failed")),
            }
        }
        Poll::Ready(())
    }
    async fn idle(&mut self) -> Result<()> {
        std::future::poll_fn(|cx| self.settle(cx)).await;
        match self.werr.take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    pub async fn sync_all(&mut self) -> Result<()> {
        self.idle().await?;
        self.with(|f| f.sync_all()).await?
    }
    pub async fn sync_data(&mut self) -> Result<()> {
        self.idle().await?;
        self.with(|f| f.sync_data()).await?
    }
    pub async fn set_len(&mut self, n: u64) -> Result<()> {
        self.idle().await?;
        self.with(move |f| f.set_len(n)).await?
    }
    pub async fn metadata(&self) -> Result<std::fs::Metadata> {
        self.with(|f| f.metadata()).await?
    }
}
impl AsyncRead for File {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        loop {
            if self.rpos < self.rbuf.len() {
                let n = buf.remaining().min(self.rbuf.len() - self.rpos);
                let s = self.rpos;
                buf.put_slice(&self.rbuf[s..s + n]);
                self.rpos += n;
                return Poll::Ready(Ok(()));
            }
            if self.busy.is_some() {
                if self.settle(cx).is_pending() {
                    return Poll::Pending;
                }
                if let Some(e) = self.werr.take() {
                    return Poll::Ready(Err(e));
                }
                if self.rpos >= self.rbuf.len() {
                    return Poll::Ready(Ok(()));
                }
                continue;
            }
            let want = buf.remaining().clamp(1, 2 << 20);
            let j = self.with(move |f| {
                let mut v = vec![0; want];
                Done::Read(f.read(&mut v).map(|n| {
                    v.truncate(n);
                    v
                }))
            });
            self.busy = Some(j);
        }
    }
}
impl AsyncWrite for File {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        if self.settle(cx).is_pending() {
            return Poll::Pending;
        }
        if let Some(e) = self.werr.take() {
            return Poll::Ready(Err(e));
        }
        let back = (self.rbuf.len() - self.rpos) as i64;
        self.rbuf.clear();
        self.rpos = 0;
        let n = b.len().min(2 << 20);
        let v = b[..n].to_vec();
        let j = self.with(move |f| {
            if back > 0 {
                if let Err(e) = f.seek(SeekFrom::Current(-back)) {
                    return Done::Write(Err(e));
                }
            }
            Done::Write(f.write_all(&v))
        });
        self.busy = Some(j);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        if self.settle(cx).is_pending() {
            return Poll::Pending;
        }
        Poll::Ready(match self.werr.take() {
            Some(e) => Err(e),
            None => Ok(()),
        })
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.poll_flush(cx)
    }
}
impl AsyncSeek for File {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> Result<()> {
        if self.busy.is_some() {
            return Err(Error::new(ErrorKind::Other, "other file operation is pending, call poll_complete before start_seek"));
        }
        let back = (self.rbuf.len() - self.rpos) as i64;
        self.rbuf.clear();
        self.rpos = 0;
        let p = match p {
            SeekFrom::Current(n) => SeekFrom::Current(n - back),
            p => p,
        };
        let j = self.with(move |f| Done::Seek(f.seek(p)));
        self.busy = Some(j);
        self.seeking = true;
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
        if self.settle(cx).is_pending() {
            return Poll::Pending;
        }
        self.seeking = false;
        if let Some(e) = self.werr.take() {
            return Poll::Ready(Err(e));
        }
        Poll::Ready(Ok(self.sought.take().unwrap_or(0)))
    }
}

macro_rules! wrap {
    ($($name:ident($($a:ident),*) -> $t:ty;)*) => {$(
        pub async fn $name($($a: impl AsRef<Path>),*) -> Result<$t> {
            $(let $a: PathBuf = $a.as_ref().to_owned();)*
            asyncify(move || std::fs::$name($($a),*)).await
        }
    )*};
}
wrap! {
    metadata(p) -> std::fs::Metadata;
    create_dir(p) -> ();
    create_dir_all(p) -> ();
    remove_file(p) -> ();
    remove_dir(p) -> ();
    remove_dir_all(p) -> ();
    rename(a, b) -> ();
    copy(a, b) -> u64;
    read(p) -> Vec<u8>;
    read_to_string(p) -> String;
    canonicalize(p) -> PathBuf;
}
pub async fn write(p: impl AsRef<Path>, v: impl AsRef<[u8]>) -> Result<()> {
    let p = p.as_ref().to_owned();
    let v = v.as_ref().to_vec();
    asyncify(move || std::fs::write(p, v)).await
}
pub async fn try_exists(p: impl AsRef<Path>) -> Result<bool> {
    let p = p.as_ref().to_owned();
    asyncify(move || p.try_exists()).await
}
