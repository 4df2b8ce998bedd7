//! Simulated byte streams and disk.

use crate::core::Cx;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

// ------------------------------------------------------------------ reading

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum End {
    Eof,
    Error(ErrorKind),
}

/// Delivers `data` in pieces of drawn sizes, with interruptions, and ends in EOF or
/// in an error once `data` is used up.
pub struct SimReader<'a> {
    cx: &'a Cx,
    data: Vec<u8>,
    pos: usize,
    end: End,
    calls: u64,
    profile: u64,
    pub interrupts: bool,
    pub failed: Rc<RefCell<bool>>,
}

impl<'a> SimReader<'a> {
    pub fn new(cx: &'a Cx, data: impl Into<Vec<u8>>, end: End) -> Self {
        SimReader {
            cx,
            data: data.into(),
            pos: 0,
            end,
            calls: 0,
            profile: cx.draw(5),
            interrupts: cx.coin(),
            failed: Rc::new(RefCell::new(false)),
        }
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        let free = self.calls <= 40;
        if self.interrupts && free && self.cx.chance(1, 6) {
            self.cx.count("read interrupted (EINTR)");
            self.cx.ev("eintr", self.pos as u64, 0);
            return Err(ErrorKind::Interrupted.into());
        }
        let left = self.data.len() - self.pos;
        if left == 0 {
            return match self.end {
                End::Eof => Ok(0),
                End::Error(k) => {
                    self.cx.count("read error");
                    self.cx.ev("read error", self.pos as u64, k as u64);
                    *self.failed.borrow_mut() = true;
                    Err(error(self.cx, k))
                }
            };
        }
        let cap = left.min(buf.len());
        if cap == 0 {
            return Ok(0);
        }
        let n = match self.profile {
            0 => cap,
            1 => 1,
            2 => cap.min(7),
            3 if free => 1 + self.cx.n(cap.min(64)),
            4 if free => {
                // end the piece inside a multi-byte character when there is one
                let at = (self.pos..self.pos + cap).find(|i| self.data[*i] >= 0x80);
                match at {
                    Some(i) if i + 1 < self.pos + cap => {
                        self.cx.count("read split inside a character");
                        i + 1 - self.pos
                    }
                    _ => cap.min(13),
                }
            }
            _ => cap,
        };
        if n < left {
            self.cx.count("short read");
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.cx.ev("read", n as u64, 0);
        Ok(n)
    }
}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::StaleNetworkFileHandle,
];

/// An error as a library makes it, or bare, or as the kernel gives it.
fn error(cx: &Cx, k: ErrorKind) -> io::Error {
    const OS: &[i32] = &[11, 13, 28, 32, 104, 110, 116, 122];
    match cx.draw(4) {
        0 | 1 => io::Error::new(k, "injected"),
        2 => k.into(),
        _ => OS
            .iter()
            .map(|c| io::Error::from_raw_os_error(*c))
            .find(|e| e.kind() == k)
            .unwrap_or_else(|| k.into()),
    }
}

// ------------------------------------------------------------------ writing

/// What a simulated sink does once `limit` bytes were taken.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    None,
    /// fail with an error
    Error(ErrorKind),
    /// accept no more bytes (`Ok(0)`)
    Full,
}

pub struct SimWriter<'a> {
    cx: &'a Cx,
    pub out: Rc<RefCell<Vec<u8>>>,
    pub limit: usize,
    pub fault: Fault,
    pub fired: Rc<RefCell<bool>>,
    calls: u64,
    short: bool,
    interrupts: bool,
}

impl<'a> SimWriter<'a> {
    pub fn new(cx: &'a Cx, limit: usize, fault: Fault) -> Self {
        SimWriter {
            cx,
            out: Rc::default(),
            limit,
            fault,
            fired: Rc::default(),
            calls: 0,
            short: cx.coin(),
            interrupts: cx.chance(1, 3),
        }
    }
}

impl Write for SimWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        let free = self.calls <= 40;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && free && self.cx.chance(1, 6) {
            self.cx.count("write interrupted (EINTR)");
            self.cx.ev("eintr", self.calls, 1);
            return Err(ErrorKind::Interrupted.into());
        }
        let room = if self.fault == Fault::None {
            usize::MAX
        } else {
            self.limit.saturating_sub(self.out.borrow().len())
        };
        if room == 0 {
            *self.fired.borrow_mut() = true;
            self.cx.ev("write fault", self.limit as u64, self.calls);
            return match self.fault {
                Fault::Error(k) => {
                    self.cx.count("write error");
                    Err(error(self.cx, k))
                }
                _ => {
                    self.cx.count("disk full (write returns 0)");
                    Ok(0)
                }
            };
        }
        let mut n = buf.len().min(room);
        if self.short && free && n > 1 && self.cx.chance(1, 3) {
            n = 1 + self.cx.n(n - 1);
            self.cx.count("short write");
        }
        self.out.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------ disk

/// A file system with a volatile cache over durable state. Only what was synced is
/// sure to survive a crash; unsynced bytes survive as a drawn prefix, unsynced
/// directory operations survive in order up to a drawn point.
#[derive(Default, Clone)]
pub struct Disk {
    /// inode contents as seen by the running process
    cache: Vec<Vec<u8>>,
    durable: Vec<Vec<u8>>,
    names: BTreeMap<String, usize>,
    durable_names: BTreeMap<String, usize>,
    pending: Vec<(String, Option<usize>)>,
}

impl Disk {
    pub fn create(&mut self, name: &str) -> usize {
        let i = self.cache.len();
        self.cache.push(Vec::new());
        self.durable.push(Vec::new());
        self.names.insert(name.to_owned(), i);
        self.pending.push((name.to_owned(), Some(i)));
        i
    }
    pub fn append(&mut self, inode: usize, bytes: &[u8]) {
        self.cache[inode].extend_from_slice(bytes);
    }
    pub fn fsync(&mut self, inode: usize) {
        self.durable[inode] = self.cache[inode].clone();
    }
    pub fn rename(&mut self, from: &str, to: &str) {
        if let Some(i) = self.names.remove(from) {
            self.names.insert(to.to_owned(), i);
            self.pending.push((to.to_owned(), Some(i)));
            self.pending.push((from.to_owned(), None));
        }
    }
    pub fn sync_dir(&mut self) {
        self.durable_names = self.names.clone();
        self.pending.clear();
    }
    pub fn read(&self, name: &str) -> Option<Vec<u8>> {
        self.names.get(name).map(|i| self.cache[*i].clone())
    }
    pub fn crash(&mut self, cx: &Cx) {
        cx.count("crash");
        let keep = cx.n(self.pending.len() + 1);
        cx.ev("crash", self.pending.len() as u64, keep as u64);
        for (n, i) in self.pending.drain(..).take(keep) {
            match i {
                Some(i) => self.durable_names.insert(n, i),
                None => self.durable_names.remove(&n),
            };
        }
        for i in 0..self.cache.len() {
            if self.cache[i] != self.durable[i] {
                let d = self.durable[i].len().min(self.cache[i].len());
                let extra = self.cache[i].len() - d;
                let n = cx.n(extra + 1);
                if n < extra {
                    cx.count("torn write");
                }
                let v = self.cache[i][..d + n].to_vec();
                self.durable[i] = v;
            }
        }
        self.cache = self.durable.clone();
        self.names = self.durable_names.clone();
    }
}
