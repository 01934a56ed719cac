//! An in-memory file system which records every operation and can fail any of them.
use io_trait::{DirEntry, File, Io, Metadata};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::{self, Error, ErrorKind, Read, Seek, SeekFrom, Write},
    rc::Rc,
    time::Duration,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Open {
        asked: String,
        path: String,
        ok: bool,
    },
    /// A read call reported an error.
    ReadFailed {
        path: String,
    },
    /// A read call reported the end.
    ReadToEnd {
        path: String,
    },
    Create {
        asked: String,
        path: String,
        ok: bool,
    },
    Write {
        path: String,
        n: usize,
        ok: bool,
    },
    Other {
        what: &'static str,
        path: String,
    },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    /// The n-th fallible operation of the run fails.
    Nth(usize),
    Open(String, ErrorKind),
    /// Reading fails after this many bytes.
    Read(String, usize),
    Create(String, ErrorKind),
    /// Writing fails after this many bytes.
    Write(String, usize),
}

#[derive(Default, Debug)]
pub struct State {
    pub files: BTreeMap<String, Vec<u8>>,
    pub log: Vec<Op>,
    pub faults: Vec<Fault>,
    pub ops: usize,
    /// Largest number of bytes given or taken by one call (0: any).
    pub chunk: usize,
    pub args: Vec<String>,
    pub stdout: Vec<u8>,
    pub cwd: String,
    /// Number of faults that were injected.
    pub injected: usize,
    /// What kind of error the faults are (`Other` when not given).
    pub kind: Option<ErrorKind>,
    /// A failing write takes nothing, instead of failing.
    pub full: bool,
    /// Every so many reads and writes one is interrupted, and works when it is asked again (0: none).
    pub interrupts: usize,
    pub transfers: usize,
    pub interrupted: usize,
}

/// Kinds of errors a file system gives.
pub const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
];

#[derive(Clone, Default, Debug)]
pub struct MemIo(pub Rc<RefCell<State>>);

/// The file a path names, for a file system without links: absolute, no `.`, `..` or empty steps.
pub fn resolve(cwd: &str, path: &str) -> String {
    let full = if path.starts_with('/') {
        path.to_string()
    } else {
        format!("{cwd}/{path}")
    };
    let mut v: Vec<&str> = vec![];
    for s in full.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            _ => v.push(s),
        }
    }
    format!("/{}", v.join("/"))
}

impl MemIo {
    pub fn new(cwd: &str) -> MemIo {
        let io = MemIo::default();
        io.0.borrow_mut().cwd = cwd.to_string();
        io
    }
    pub fn put(&self, path: &str, data: &[u8]) {
        let mut s = self.0.borrow_mut();
        let p = resolve(&s.cwd, path);
        s.files.insert(p, data.to_vec());
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        let s = self.0.borrow();
        s.files.get(&resolve(&s.cwd, path)).cloned()
    }
    pub fn log(&self) -> Vec<Op> {
        self.0.borrow().log.clone()
    }
    pub fn clear_log(&self) {
        self.0.borrow_mut().log.clear();
    }
    pub fn opened(&self) -> Vec<String> {
        self.0
            .borrow()
            .log
            .iter()
            .filter_map(|o| match o {
                Op::Open { path, .. } => Some(path.clone()),
                _ => None,
            })
            .collect()
    }
}

impl State {
    /// With a message, or without one as the operating system gives them.
    fn error(&self) -> Error {
        match self.kind {
            None => Error::new(ErrorKind::Other, "injected"),
            Some(k) => Error::from(k),
        }
    }
    fn interrupt(&mut self) -> Option<Error> {
        self.transfers += 1;
        if self.interrupts == 0 || self.transfers % self.interrupts != 0 {
            return None;
        }
        self.interrupted += 1;
        Some(Error::from(ErrorKind::Interrupted))
    }
    fn nth(&mut self) -> Option<Error> {
        let n = self.ops;
        self.ops += 1;
        if self.faults.contains(&Fault::Nth(n)) {
            self.injected += 1;
            Some(self.error())
        } else {
            None
        }
    }
}

#[derive(Debug)]
pub struct MemFile {
    state: Rc<RefCell<State>>,
    path: String,
    pos: usize,
    write: bool,
}

impl Read for MemFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.state.borrow_mut();
        if let Some(e) = s.interrupt() {
            return Err(e);
        }
        if let Some(e) = s.nth() {
            s.log.push(Op::ReadFailed {
                path: self.path.clone(),
            });
            return Err(e);
        }
        let limit = s.faults.iter().find_map(|f| match f {
            Fault::Read(p, n) if *p == self.path => Some(*n),
            _ => None,
        });
        let data = s.files.get(&self.path).cloned().unwrap_or_default();
        let end = limit.unwrap_or(data.len()).min(data.len());
        let mut n = end.saturating_sub(self.pos).min(buf.len());
        if s.chunk > 0 {
            n = n.min(s.chunk);
        }
        if n == 0 && !buf.is_empty() {
            if limit.is_some() {
                s.injected += 1;
                s.log.push(Op::ReadFailed {
                    path: self.path.clone(),
                });
                return Err(s.error());
            }
            s.log.push(Op::ReadToEnd {
                path: self.path.clone(),
            });
        }
        buf[..n].copy_from_slice(&data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for MemFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.state.borrow_mut();
        let path = self.path.clone();
        if !self.write {
            s.log.push(Op::Write {
                path,
                n: 0,
                ok: false,
            });
            return Err(Error::new(
                ErrorKind::PermissionDenied,
                "opened for reading",
            ));
        }
        if let Some(e) = s.interrupt() {
            return Err(e);
        }
        if let Some(e) = s.nth() {
            s.log.push(Op::Write {
                path,
                n: 0,
                ok: false,
            });
            return if s.full { Ok(0) } else { Err(e) };
        }
        let limit = s.faults.iter().find_map(|f| match f {
            Fault::Write(p, n) if *p == path => Some(*n),
            _ => None,
        });
        let mut n = buf.len();
        if s.chunk > 0 {
            n = n.min(s.chunk);
        }
        if let Some(l) = limit {
            n = n.min(l.saturating_sub(self.pos));
            if n == 0 && !buf.is_empty() {
                s.injected += 1;
                s.log.push(Op::Write {
                    path,
                    n: 0,
                    ok: false,
                });
                return if s.full { Ok(0) } else { Err(s.error()) };
            }
        }
        let f = s.files.entry(path.clone()).or_default();
        f.truncate(self.pos);
        f.extend_from_slice(&buf[..n]);
        self.pos += n;
        s.log.push(Op::Write { path, n, ok: true });
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Seek for MemFile {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let s = self.state.borrow();
        let len = s.files.get(&self.path).map_or(0, |f| f.len()) as i64;
        let p = match pos {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => len + n,
            SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if p < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

pub struct MemMeta {
    len: u64,
    dir: bool,
}

impl Metadata for MemMeta {
    fn len(&self) -> u64 {
        self.len
    }
    fn is_dir(&self) -> bool {
        self.dir
    }
}

impl File for MemFile {
    type Metadata = MemMeta;
    fn metadata(&self) -> io::Result<MemMeta> {
        let s = self.state.borrow();
        Ok(MemMeta {
            len: s.files.get(&self.path).map_or(0, |f| f.len()) as u64,
            dir: false,
        })
    }
}

pub struct MemEntry(MemIo, String);

impl DirEntry for MemEntry {
    type Metadata = MemMeta;
    fn path(&self) -> String {
        self.1.clone()
    }
    fn metadata(&self) -> io::Result<MemMeta> {
        self.0.metadata(&self.1)
    }
}

pub struct MemOut(Rc<RefCell<State>>);

impl Write for MemOut {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().stdout.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone)]
pub struct MemInstant;

impl std::ops::Sub for MemInstant {
    type Output = Duration;
    fn sub(self, _: Self) -> Duration {
        Duration::ZERO
    }
}

impl Io for MemIo {
    type Args = std::vec::IntoIter<String>;
    type File = MemFile;
    type Stdout = MemOut;
    type Metadata = MemMeta;
    type DirEntry = MemEntry;
    type Instant = MemInstant;
    fn args(&self) -> Self::Args {
        self.0.borrow().args.clone().into_iter()
    }
    fn stdout(&self) -> MemOut {
        MemOut(self.0.clone())
    }
    fn metadata(&self, path: &str) -> io::Result<MemMeta> {
        let mut s = self.0.borrow_mut();
        let p = resolve(&s.cwd, path);
        s.log.push(Op::Other {
            what: "metadata",
            path: p.clone(),
        });
        match s.files.get(&p) {
            Some(f) => Ok(MemMeta {
                len: f.len() as u64,
                dir: false,
            }),
            None => {
                let d = format!("{p}/");
                if s.files.keys().any(|k| k.starts_with(&d)) {
                    Ok(MemMeta { len: 0, dir: true })
                } else {
                    Err(Error::from(ErrorKind::NotFound))
                }
            }
        }
    }
    fn create_dir(&self, path: &str) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        let p = resolve(&s.cwd, path);
        s.log.push(Op::Other {
            what: "create_dir",
            path: p,
        });
        Ok(())
    }
    fn create(&self, asked: &str) -> io::Result<MemFile> {
        let mut s = self.0.borrow_mut();
        let path = resolve(&s.cwd, asked);
        let asked = asked.to_string();
        let mut e = s.nth();
        if e.is_none() {
            let k = s.faults.iter().find_map(|f| match f {
                Fault::Create(p, k) if *p == path => Some(*k),
                _ => None,
            });
            if let Some(k) = k {
                s.injected += 1;
                e = Some(Error::from(k));
            }
        }
        s.log.push(Op::Create {
            asked,
            path: path.clone(),
            ok: e.is_none(),
        });
        if let Some(e) = e {
            return Err(e);
        }
        s.files.insert(path.clone(), vec![]);
        Ok(MemFile {
            state: self.0.clone(),
            path,
            pos: 0,
            write: true,
        })
    }
    fn open(&self, asked: &str) -> io::Result<MemFile> {
        let mut s = self.0.borrow_mut();
        let path = resolve(&s.cwd, asked);
        let asked = asked.to_string();
        let mut e = s.nth();
        if e.is_none() {
            let k = s.faults.iter().find_map(|f| match f {
                Fault::Open(p, k) if *p == path => Some(*k),
                _ => None,
            });
            if let Some(k) = k {
                s.injected += 1;
                e = Some(Error::from(k));
            } else if !s.files.contains_key(&path) {
                e = Some(Error::from(ErrorKind::NotFound));
            }
        }
        s.log.push(Op::Open {
            asked,
            path: path.clone(),
            ok: e.is_none(),
        });
        if let Some(e) = e {
            return Err(e);
        }
        Ok(MemFile {
            state: self.0.clone(),
            path,
            pos: 0,
            write: false,
        })
    }
    fn now(&self) -> MemInstant {
        MemInstant
    }
    fn read_dir(&self, path: &str) -> io::Result<Vec<MemEntry>> {
        let mut s = self.0.borrow_mut();
        let d = format!("{}/", resolve(&s.cwd, path));
        s.log.push(Op::Other {
            what: "read_dir",
            path: d.clone(),
        });
        Ok(s.files
            .keys()
            .filter(|k| k.starts_with(&d))
            .map(|k| MemEntry(self.clone(), k.clone()))
            .collect())
    }
    fn current_dir(&self) -> io::Result<String> {
        Ok(self.0.borrow().cwd.clone())
    }
    fn set_current_dir(&self, path: &str) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        s.cwd = resolve(&s.cwd, path);
        Ok(())
    }
}
