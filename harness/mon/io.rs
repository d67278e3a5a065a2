//! Monitored readers and sinks: segmentation, interruption, faults; everything they see is logged.
use crate::ctx::Violation;
use crate::rng::Rng;
use std::io::{self, BufRead, ErrorKind, Read, Write};

/// Every stable error kind that does not mean "try again".
pub const FATAL: [ErrorKind; 39] = [
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
    ErrorKind::WriteZero,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::InvalidFilename,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::CrossesDevices,
    ErrorKind::BrokenPipe,
];

/// Raw operating system errors, none of which means "try again".
const RAW: [i32; 12] = [5, 28, 32, 11, 104, 110, 9, 21, 12, 13, 116, 122];

#[derive(Debug)]
pub struct Payload(pub String);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Payload {}

/// A failure to inject, and how to recognise it again.
#[derive(Clone, Debug)]
pub enum Fault {
    /// An error of that kind around a value of ours.
    Payload(ErrorKind),
    Message(ErrorKind),
    Bare(ErrorKind),
    Os(i32),
}

impl Fault {
    pub fn nth(i: usize) -> Fault {
        let k = FATAL[i % FATAL.len()];
        match (i / FATAL.len() + i) % 5 {
            0 | 1 => Fault::Message(k),
            2 => Fault::Payload(k),
            3 => Fault::Bare(k),
            _ => Fault::Os(RAW[(i / 5) % RAW.len()]),
        }
    }
    pub fn make(&self, msg: &str) -> io::Error {
        match self {
            Fault::Payload(k) => io::Error::new(*k, Payload(msg.into())),
            Fault::Message(k) => io::Error::new(*k, msg.to_string()),
            Fault::Bare(k) => io::Error::from(*k),
            Fault::Os(n) => io::Error::from_raw_os_error(*n),
        }
    }
    /// `e` is the error made above.
    pub fn is(&self, e: &io::Error, msg: &str) -> bool {
        match self {
            Fault::Payload(k) => {
                let p = e.get_ref().and_then(|p| p.downcast_ref::<Payload>());
                e.kind() == *k && p.map_or(false, |p| p.0 == msg)
            }
            Fault::Message(k) => e.kind() == *k && e.to_string().contains(msg),
            Fault::Bare(k) => e.kind() == *k,
            Fault::Os(n) => e.raw_os_error() == Some(*n),
        }
    }
    pub fn name(&self) -> String {
        match self {
            Fault::Payload(k) | Fault::Message(k) | Fault::Bare(k) => format!("{:?}", k),
            Fault::Os(n) => format!("os error {}", n),
        }
    }
}

/// Splits the data into buffer fills of random size and may interrupt reads.
pub struct SegReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    end: usize,
    max_seg: usize,
    interrupt_pct: usize,
    rng: Rng,
    pub fills: usize,
    pub interrupts: usize,
    pub eof_reads: usize,
}

impl<'a> SegReader<'a> {
    pub fn new(data: &'a [u8], max_seg: usize, interrupt_pct: usize, rng: Rng) -> Self {
        SegReader { data, pos: 0, end: 0, max_seg: max_seg.max(1), interrupt_pct, rng, fills: 0, interrupts: 0, eof_reads: 0 }
    }
}

impl Read for SegReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let a = self.fill_buf()?;
            let n = a.len().min(buf.len());
            buf[..n].copy_from_slice(&a[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for SegReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.rng.chance(self.interrupt_pct, 100) {
            self.interrupts += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "again"));
        }
        self.fills += 1;
        if self.pos >= self.data.len() {
            self.eof_reads += 1;
            if self.eof_reads > 10_000 {
                std::panic::panic_any(Violation {
                    sig: "reads-after-eof".into(),
                    msg: "the loader keeps reading although the input has ended (10000 reads at end of file)".into(),
                });
            }
        }
        if self.end <= self.pos {
            let n = 1 + self.rng.below(self.max_seg);
            self.end = (self.pos + n).min(self.data.len());
        }
        Ok(&self.data[self.pos..self.end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        assert!(self.pos <= self.data.len(), "consume past the filled buffer");
    }
}

/// Delivers `data[..at]`, then fails; afterwards goes on in one of three ways.
pub struct FaultReader<'a> {
    data: &'a [u8],
    at: usize,
    fault: Fault,
    msg: String,
    /// 0: fails again, 1: end of file, 2: delivers the rest as if nothing had happened.
    after: u8,
    pos: usize,
    seg: usize,
    pub fired: usize,
    calls: usize,
}

impl<'a> FaultReader<'a> {
    pub fn new(data: &'a [u8], at: usize, fault: Fault, msg: String, after: u8, seg: usize) -> Self {
        FaultReader { data, at, fault, msg, after, pos: 0, seg: seg.max(1), fired: 0, calls: 0 }
    }
}

impl Read for FaultReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let a = self.fill_buf()?;
            let n = a.len().min(buf.len());
            buf[..n].copy_from_slice(&a[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for FaultReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.calls += 1;
        if self.calls > 100_000 + 2 * self.data.len() {
            std::panic::panic_any(Violation { sig: "reads-forever".into(), msg: "the loader keeps reading from a failed reader".into() });
        }
        let limit = if self.fired > 0 && self.after == 2 { self.data.len() } else { self.at };
        if self.pos >= limit {
            if self.fired == 0 || self.after == 0 {
                self.fired += 1;
                return Err(self.fault.make(&self.msg));
            }
            return Ok(&[]);
        }
        Ok(&self.data[self.pos..(self.pos + self.seg).min(limit)])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

#[derive(Clone, Debug)]
pub enum SinkPlan {
    /// Accepts at most 1..=n bytes a call.
    Partial { max: usize, interrupt_pct: usize },
    /// As Partial, until `cap` bytes have been accepted; then fails for good.
    FailAt { cap: usize, fault: Fault, max: usize, interrupt_pct: usize },
    /// Accepts everything, the flush fails.
    FailFlush { fault: Fault },
    /// Accepts `cap` bytes, then returns Ok(0).
    ZeroAt { cap: usize },
}

pub struct Sink {
    plan: SinkPlan,
    rng: Rng,
    pub got: Vec<u8>,
    pub writes: usize,
    pub partials: usize,
    pub interrupts: usize,
    pub flushes: usize,
    /// Bytes held when last flushed.
    pub flushed_len: Option<usize>,
    pub failed: Option<String>,
    /// An interruption was never answered with a retry.
    pub last_was_interrupt: bool,
    calls: usize,
}

impl Sink {
    pub fn new(plan: SinkPlan, rng: Rng) -> Sink {
        Sink { plan, rng, got: vec![], writes: 0, partials: 0, interrupts: 0, flushes: 0, flushed_len: None, failed: None, last_was_interrupt: false, calls: 0 }
    }
    fn fail(&mut self, fault: &Fault) -> io::Error {
        let msg = format!("injected sink failure {}", self.got.len());
        let e = fault.make(&msg);
        self.failed = Some(msg);
        e
    }
    fn take(&mut self, buf: &[u8], max: usize, pct: usize) -> io::Result<usize> {
        self.last_was_interrupt = false;
        if self.rng.chance(pct, 100) {
            self.interrupts += 1;
            self.last_was_interrupt = true;
            return Err(io::Error::new(ErrorKind::Interrupted, "again"));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let n = (1 + self.rng.below(max.max(1))).min(buf.len());
        if n < buf.len() {
            self.partials += 1;
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        self.calls += 1;
        if self.calls > 50_000_000 {
            std::panic::panic_any(Violation { sig: "writes-forever".into(), msg: "the writer never stops writing".into() });
        }
        match self.plan.clone() {
            SinkPlan::Partial { max, interrupt_pct } => self.take(buf, max, interrupt_pct),
            SinkPlan::FailAt { cap, fault, max, interrupt_pct } => {
                let left = cap.saturating_sub(self.got.len());
                if left == 0 && !buf.is_empty() {
                    return Err(self.fail(&fault));
                }
                let n = buf.len().min(left);
                self.take(&buf[..n], max, interrupt_pct)
            }
            SinkPlan::FailFlush { .. } => self.take(buf, usize::MAX >> 1, 0),
            SinkPlan::ZeroAt { cap } => {
                let left = cap.saturating_sub(self.got.len());
                if left == 0 && !buf.is_empty() {
                    self.failed = Some(String::new());
                    return Ok(0);
                }
                let n = buf.len().min(left);
                self.take(&buf[..n], usize::MAX >> 1, 0)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if let SinkPlan::FailFlush { fault } = self.plan.clone() {
            return Err(self.fail(&fault));
        }
        self.flushed_len = Some(self.got.len());
        Ok(())
    }
}
