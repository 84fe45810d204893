//! Instrumented, dynamically chosen storage.
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};

use crate::trace::{Ev, Shared};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Memory,
    Temp,
    BoundedMemory(u16),
    BoundedTemp(u16),
    /// Memory when it fits / bounded when unknown, temp file otherwise.
    Adaptive(u16),
    /// Harness' own file-like storage with short writes and reads.
    Custom { max_write: u16, max_read: u16 },
    /// Same, but what was written becomes visible when it's flushed or doesn't fit into the buffer.
    Buffered { buffer: u16, max_read: u16 },
}

impl Kind {
    pub fn bounded(&self, known_len: bool) -> Option<u64> {
        match self {
            Kind::BoundedMemory(c) | Kind::BoundedTemp(c) => Some(u64::from(*c).max(1)),
            Kind::Adaptive(c) if !known_len => Some(u64::from(*c).max(1)),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// The n-th write call fails.
    Write(u16),
    Flush(u16),
    /// The n-th writer seek to a new position fails.
    Seek(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StoreSpec {
    pub kind: Kind,
    pub fault: Option<Fault>,
}

pub struct DynProvider {
    pub sh: Arc<Shared>,
    pub spec: StoreSpec,
    /// scratch directory for temp files
    pub dir: std::path::PathBuf,
    pub shadow: Arc<Mutex<Shadow>>,
}

/// What the writer was given, byte by byte.
#[derive(Default)]
pub struct Shadow {
    pub data: Vec<Option<u8>>,
    pub requested_len: Vec<Option<u64>>,
}

type BoxR = Box<dyn StorageReader>;
type BoxW = Box<dyn StorageWriter>;

fn boxed<P>(p: P, len: Option<u64>) -> io::Result<(BoxR, BoxW)>
where
    P: StorageProvider,
    P::Reader: 'static,
{
    let (r, w) = p.into_reader_writer(len)?;
    Ok((Box::new(r), Box::new(w)))
}

fn nz(c: u16) -> NonZeroUsize {
    NonZeroUsize::new(usize::from(c).max(1)).unwrap()
}

impl StorageProvider for DynProvider {
    type Reader = SimReader;
    type Writer = SimWriter;

    fn into_reader_writer(self, len: Option<u64>) -> io::Result<(SimReader, SimWriter)> {
        self.shadow.lock().unwrap().requested_len.push(len);
        let temp = || TempStorageProvider::new_in(&self.dir);
        let (r, w) = match self.spec.kind {
            Kind::Memory => boxed(MemoryStorageProvider, len)?,
            Kind::Temp => boxed(temp(), len)?,
            Kind::BoundedMemory(c) => boxed(BoundedStorageProvider::new(MemoryStorageProvider, nz(c)), len)?,
            Kind::BoundedTemp(c) => boxed(BoundedStorageProvider::new(temp(), nz(c)), len)?,
            Kind::Adaptive(c) => boxed(
                AdaptiveStorageProvider::with_fixed_and_variable(MemoryStorageProvider, temp(), nz(c)),
                len,
            )?,
            Kind::Custom { max_write, max_read } => boxed(CustomProvider { max_write, max_read, buffer: 0 }, len)?,
            Kind::Buffered { buffer, max_read } => boxed(CustomProvider { max_write: u16::MAX, max_read, buffer }, len)?,
        };
        Ok((
            SimReader { sh: self.sh.clone(), inner: r, pos: 0 },
            SimWriter {
                sh: self.sh,
                inner: w,
                shadow: self.shadow,
                fault: self.spec.fault,
                n_write: 0,
                n_flush: 0,
                n_seek: 0,
                pos: 0,
            },
        ))
    }

    fn max_capacity_for(&self, len: Option<u64>) -> Option<usize> {
        match self.spec.kind {
            Kind::Adaptive(c) => AdaptiveStorageProvider::new(MemoryStorageProvider, nz(c)).max_capacity_for(len),
            _ => self.max_capacity(),
        }
    }

    fn max_capacity(&self) -> Option<usize> {
        match self.spec.kind {
            Kind::BoundedMemory(c) | Kind::BoundedTemp(c) => {
                BoundedStorageProvider::new(MemoryStorageProvider, nz(c)).max_capacity()
            }
            Kind::Adaptive(c) => AdaptiveStorageProvider::new(MemoryStorageProvider, nz(c)).max_capacity(),
            Kind::Memory => MemoryStorageProvider.max_capacity(),
            Kind::Temp => TempStorageProvider::new().max_capacity(),
            Kind::Custom { .. } | Kind::Buffered { .. } => None,
        }
    }
}

pub struct SimReader {
    sh: Arc<Shared>,
    inner: BoxR,
    pos: u64,
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.sh.sched.at_point();
        self.sh.ev(Ev::SBegin);
        let n = self.inner.read(buf).inspect_err(|_| self.sh.ev(Ev::SFail))?;
        self.sh.ev(Ev::SRead { pos: self.pos, len: n });
        self.pos += n as u64;
        self.sh.sched.at_point();
        Ok(n)
    }
}
impl Seek for SimReader {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.sh.sched.at_point();
        self.sh.ev(Ev::SBegin);
        let pos = self.inner.seek(to).inspect_err(|_| self.sh.ev(Ev::SFail))?;
        self.pos = pos;
        self.sh.ev(Ev::SSeek { pos });
        self.sh.sched.at_point();
        Ok(pos)
    }
    fn stream_position(&mut self) -> io::Result<u64> {
        self.inner.stream_position()
    }
}
impl Drop for SimReader {
    fn drop(&mut self) {
        self.sh.ev(Ev::ReaderDropped);
    }
}

pub struct SimWriter {
    sh: Arc<Shared>,
    inner: BoxW,
    shadow: Arc<Mutex<Shadow>>,
    fault: Option<Fault>,
    n_write: u16,
    n_flush: u16,
    n_seek: u16,
    pos: u64,
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.sh.sched.at_point();
        if !buf.is_empty() {
            if self.fault == Some(Fault::Write(self.n_write)) {
                self.n_write += 1;
                self.sh.ev(Ev::WriteErr);
                return Err(self.sh.fault("mock write failure"));
            }
            self.n_write += 1;
        }
        self.sh.ev(Ev::WBegin);
        let n = self.inner.write(buf)?;
        let mut bad = false;
        {
            let mut sd = self.shadow.lock().unwrap();
            let end = (self.pos + n as u64) as usize;
            if end < (1 << 22) {
                if sd.data.len() < end {
                    sd.data.resize(end, None);
                }
                for (i, b) in buf[..n].iter().enumerate() {
                    let p = self.pos + i as u64;
                    bad |= *b != self.sh.byte(p) || p >= self.sh.len;
                    sd.data[p as usize] = Some(*b);
                }
            } else {
                bad = true;
            }
        }
        if !buf.is_empty() {
            self.sh.ev(Ev::Write { pos: self.pos, asked: buf.len(), len: n, bad });
        }
        self.pos += n as u64;
        self.sh.sched.at_point();
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.sh.sched.at_point();
        if self.fault == Some(Fault::Flush(self.n_flush)) {
            self.n_flush += 1;
            self.sh.ev(Ev::WFlushErr);
            return Err(self.sh.fault("mock flush failure"));
        }
        self.n_flush += 1;
        self.inner.flush()?;
        self.sh.ev(Ev::WFlush);
        Ok(())
    }
}
impl Seek for SimWriter {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.sh.sched.at_point();
        if to != SeekFrom::Current(0) {
            if self.fault == Some(Fault::Seek(self.n_seek)) {
                self.n_seek += 1;
                self.sh.ev(Ev::WSeekErr);
                return Err(self.sh.fault("mock writer seek failure"));
            }
            self.n_seek += 1;
        }
        self.sh.ev(Ev::WBegin);
        let pos = self.inner.seek(to)?;
        self.pos = pos;
        self.sh.ev(Ev::WSeek { pos });
        self.sh.sched.at_point();
        Ok(pos)
    }
    fn stream_position(&mut self) -> io::Result<u64> {
        self.inner.stream_position()
    }
}
impl Drop for SimWriter {
    fn drop(&mut self) {
        self.sh.ev(Ev::WriterDropped);
        self.sh.sched.main_wake.notify_one();
    }
}

// ---- custom storage: one growable sparse file, short reads and writes

struct CustomProvider {
    buffer: u16,
    max_write: u16,
    max_read: u16,
}
struct CustomR {
    data: Arc<Mutex<Vec<u8>>>,
    pos: u64,
    max: usize,
}
struct CustomW {
    /// Written data that isn't visible yet; it ends at `pos`.
    pending: Vec<u8>,
    buffer: usize,
    data: Arc<Mutex<Vec<u8>>>,
    pos: u64,
    max: usize,
}
impl StorageProvider for CustomProvider {
    type Reader = CustomR;
    type Writer = CustomW;
    fn into_reader_writer(self, _len: Option<u64>) -> io::Result<(CustomR, CustomW)> {
        let data = Arc::new(Mutex::new(Vec::new()));
        Ok((
            CustomR { data: data.clone(), pos: 0, max: usize::from(self.max_read).max(1) },
            CustomW {
                data,
                pos: 0,
                max: usize::from(self.max_write).max(1),
                pending: vec![],
                buffer: usize::from(self.buffer),
            },
        ))
    }
}
fn seek_to(pos: u64, len: u64, to: SeekFrom) -> io::Result<u64> {
    let (base, off) = match to {
        SeekFrom::Start(p) => return Ok(p),
        SeekFrom::Current(o) => (pos, o),
        SeekFrom::End(o) => (len, o),
    };
    base.checked_add_signed(off)
        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "negative seek"))
}
impl Read for CustomR {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let d = self.data.lock().unwrap();
        let from = (self.pos as usize).min(d.len());
        let n = buf.len().min(self.max).min(d.len() - from);
        buf[..n].copy_from_slice(&d[from..from + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for CustomR {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let len = self.data.lock().unwrap().len() as u64;
        self.pos = seek_to(self.pos, len, to)?;
        Ok(self.pos)
    }
}
impl CustomW {
    fn publish(&mut self) {
        if self.pending.is_empty() {
            return;
        }
        let mut d = self.data.lock().unwrap();
        let end = self.pos as usize;
        if d.len() < end {
            d.resize(end, 0);
        }
        let from = end - self.pending.len();
        d[from..end].copy_from_slice(&self.pending);
        self.pending.clear();
    }
}
impl Write for CustomW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = buf.len().min(self.max);
        if self.pending.len() + n > self.buffer {
            self.publish();
        }
        self.pending.extend_from_slice(&buf[..n]);
        self.pos += n as u64;
        if n > self.buffer {
            self.publish();
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.publish();
        Ok(())
    }
}
impl Seek for CustomW {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        if to != SeekFrom::Current(0) {
            self.publish();
        }
        let len = self.data.lock().unwrap().len() as u64;
        self.pos = seek_to(self.pos, len, to)?;
        Ok(self.pos)
    }
}
