//! Scripted reader and writer: short transfers, interruptions and failures.
use serde_json::Value;
use std::cell::RefCell;
use std::fmt;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// How many bytes each transfer moves (cyclic); zero is `Interrupted`
fn schedule(v: &Value) -> Vec<usize> {
    v.as_array()
        .map(|a| a.iter().map(|n| n.as_u64().unwrap() as usize).collect())
        .unwrap_or_default()
}

/// Failing offset (the transfer of this byte fails)
fn fail_at(v: &Value) -> Option<usize> {
    v.as_u64().map(|n| n as usize)
}

/// Kinds of failures (all but `Interrupted` are final)
const KINDS: [ErrorKind; 24] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionAborted,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AlreadyExists,
    ErrorKind::IsADirectory,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::QuotaExceeded,
    ErrorKind::ResourceBusy,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

/// Instead of a kind: the number which follows is an error of the system
const SYSTEM: u8 = 24;

/// The failure itself, to recognize it: its kind (index) and a number
#[derive(Debug)]
struct Scripted(Vec<u8>);

impl fmt::Display for Scripted {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "scripted failure {:?}", self.0)
    }
}

impl std::error::Error for Scripted {}

impl Scripted {
    fn kind(&self) -> ErrorKind {
        self.0
            .first()
            .map_or(ErrorKind::Other, |k| KINDS[*k as usize])
    }
}

pub fn scripted(what: Vec<u8>) -> io::Error {
    if let [SYSTEM, n] = what[..] {
        return io::Error::from_raw_os_error(n.into());
    }
    let e = Scripted(what);
    io::Error::new(e.kind(), e)
}

/// Which failure is it?  [255] is one that was not scripted
pub fn what(e: &io::Error) -> Vec<u8> {
    if let Some(n) = e.raw_os_error() {
        return vec![SYSTEM, n as u8];
    }
    match e.get_ref().and_then(|e| e.downcast_ref::<Scripted>()) {
        Some(s) if s.kind() == e.kind() => s.0.clone(),
        _ => vec![255],
    }
}

pub struct Script {
    sched: Vec<usize>,
    n: usize,
    fail_at: Option<usize>,
    /// which failure; empty for the default
    what: Vec<u8>,
    /// fail by transferring nothing
    zero: bool,
    /// transfers at fail_at fail this many times (0: forever)
    times: usize,
}

impl Script {
    pub fn new(v: &Value) -> Self {
        Script {
            sched: schedule(&v["sched"]),
            n: 0,
            fail_at: fail_at(&v["fail_at"]),
            what: crate::item::bytes(&v["what"]),
            zero: v["zero"].as_bool().unwrap_or(false),
            times: v["times"].as_u64().unwrap_or(0) as usize,
        }
    }

    /// Number of bytes the next transfer may move
    fn next(&mut self, pos: usize, want: usize) -> io::Result<usize> {
        let mut n = want;
        if !self.sched.is_empty() && want > 0 {
            let s = self.sched[self.n % self.sched.len()];
            self.n += 1;
            if s == 0 {
                return Err(ErrorKind::Interrupted.into());
            }
            n = n.min(s);
        }
        if let Some(f) = self.fail_at
            && want > 0
        {
            if pos >= f {
                if self.times > 0 {
                    self.times -= 1;
                    if self.times == 0 {
                        self.fail_at = None;
                    }
                }
                if self.zero {
                    return Ok(0);
                }
                return Err(scripted(self.what.clone()));
            }
            n = n.min(f - pos);
        }
        Ok(n)
    }
}

/// What a reader has done so far
#[derive(Default)]
pub struct Progress {
    /// bytes delivered
    pub pos: usize,
    /// how much data there was after each arrival
    pub arrivals: Vec<usize>,
}

/// Reader of data which is all there, or arrives (as if in a pipe) whenever
/// the reader asks for more than there is: `arrive` are the sizes (cyclic)
pub struct ScriptReader {
    data: Vec<u8>,
    progress: Rc<RefCell<Progress>>,
    arrive: Vec<usize>,
    script: Script,
}

impl ScriptReader {
    pub fn new(data: Vec<u8>, scn: &Value) -> (Self, Rc<RefCell<Progress>>) {
        let progress = Rc::new(RefCell::new(Progress::default()));
        let p = Rc::clone(&progress);
        let arrive = schedule(&scn["arrive"]);
        let script = Script::new(scn);
        let r = ScriptReader {
            data,
            progress,
            arrive,
            script,
        };
        (r, p)
    }
}

impl Read for ScriptReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut progress = self.progress.borrow_mut();
        let mut there = self.data.len();
        if !self.arrive.is_empty() {
            let n = progress.arrivals.len();
            let old = progress.arrivals.last().copied().unwrap_or(0);
            if old == progress.pos && old < there && !buf.is_empty() {
                there = there.min(old + self.arrive[n % self.arrive.len()]);
                progress.arrivals.push(there);
            } else {
                there = old;
            }
        }
        let pos = &mut progress.pos;
        let want = buf.len().min(there - *pos);
        // a failing offset at or past the end still fails
        let ask =
            if want == 0 && !buf.is_empty() && self.script.fail_at.is_some() {
                1
            } else {
                want
            };
        let n = self.script.next(*pos, ask)?.min(want);
        buf[..n].copy_from_slice(&self.data[*pos..*pos + n]);
        *pos += n;
        Ok(n)
    }
}

#[derive(Clone)]
pub struct ScriptWriter {
    pub out: Rc<RefCell<Vec<u8>>>,
    script: Rc<RefCell<Script>>,
}

impl ScriptWriter {
    pub fn new(script: Script) -> Self {
        ScriptWriter {
            out: Rc::new(RefCell::new(vec![])),
            script: Rc::new(RefCell::new(script)),
        }
    }
}

impl Write for ScriptWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut out = self.out.borrow_mut();
        let n = self.script.borrow_mut().next(out.len(), buf.len())?;
        out.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
