//! Simulated streams: the readers and writers a caller hands to the library.
use crate::choice::{below, chance, pick, range, subseed, Rng};
use crate::seam::{event, fault, Fault, Quiet};
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    All,
    Fixed(usize),
    Random(usize),
    /// Everything up to a cut, then everything after it.
    Split(usize),
}
pub fn gen_chunk(len: usize) -> Chunk {
    match below(5) {
        0 => Chunk::All,
        1 => Chunk::Fixed(1),
        2 => Chunk::Fixed(pick(&[2usize, 3, 7, 13, 64, 511, 4096])),
        3 => Chunk::Random(pick(&[2usize, 5, 16, 100, 1000])),
        _ => Chunk::Split(below(len as u64 + 1) as usize),
    }
}
fn size(c: Chunk, rng: &mut Rng, pos: usize, want: usize) -> usize {
    match c {
        Chunk::All => want,
        Chunk::Fixed(k) => want.min(k),
        Chunk::Random(k) => want.min(1 + rng.below(k as u64) as usize),
        Chunk::Split(at) => {
            if pos < at {
                want.min(at - pos)
            } else {
                want
            }
        }
    }
}
/// The kinds of hard failure a stream can report.
pub const HARD: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::StorageFull,
    ErrorKind::InvalidInput,
    ErrorKind::NotConnected,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotFound,
    ErrorKind::OutOfMemory,
];

#[derive(Clone, Debug)]
pub struct ReadPlan {
    pub chunk: Chunk,
    /// Chance in 1/256, per call, of an interruption.
    pub intr: u64,
    /// A hard error once this many bytes were delivered; `sticky` errors repeat, others happen once.
    pub error: Option<(usize, ErrorKind, bool)>,
    pub seed: u64,
}
impl ReadPlan {
    pub fn plain() -> ReadPlan {
        ReadPlan { chunk: Chunk::All, intr: 0, error: None, seed: 0 }
    }
    pub fn gen(len: usize) -> ReadPlan {
        ReadPlan { chunk: gen_chunk(len), intr: pick(&[0u64, 0, 8, 64, 128]), error: None, seed: subseed() }
    }
}
/// A point in a byte stream; half the time near an end or at a small multiple of a buffer size.
pub fn gen_offset(len: usize) -> usize {
    let len64 = len as u64;
    let v = match below(8) {
        0 => range(0, 40),
        1 => len64.saturating_sub(range(0, 80)),
        2 => pick(&[512u64, 1024, 4096, 8192, 16384]) + range(0, 2),
        _ => below(len64 + 1),
    };
    v.min(len64) as usize
}
pub struct SimReader<'a> {
    data: &'a [u8],
    pub pos: usize,
    plan: ReadPlan,
    rng: Rng,
    pub calls: u64,
    pub bytes_asked: u64,
    pub after_end: u64,
    intr_run: u32,
    /// The hard errors the library has actually been given.
    pub errors: u64,
    pub intrs: u64,
    pub shorts: u64,
    pub reads_after_error: u64,
    /// Called before each read (used to switch tasks or to nest another call).
    pub hook: Option<Box<dyn FnMut(u64) + 'a>>,
    pub max_calls: u64,
}
impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], plan: ReadPlan) -> SimReader<'a> {
        let rng = Rng::new(plan.seed);
        SimReader {
            data, pos: 0, plan, rng, calls: 0, bytes_asked: 0, after_end: 0, intr_run: 0, errors: 0, intrs: 0, shorts: 0,
            reads_after_error: 0, hook: None, max_calls: u64::MAX,
        }
    }
}
impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(h) = self.hook.as_mut() {
            h(self.calls);
        }
        crate::sched::io_point();
        let _q = Quiet::new();
        self.calls += 1;
        self.bytes_asked += buf.len() as u64;
        if self.calls > self.max_calls {
            // deterministic detection of a read loop that makes no progress
            std::process::exit(crate::seam::EXIT_ALLOC_CALLS);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.plan.intr > 0 && self.intr_run < 3 && self.rng.below(256) < self.plan.intr {
            self.intr_run += 1;
            self.intrs += 1;
            fault(Fault::ReadInterrupted);
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        self.intr_run = 0;
        let mut end = self.data.len();
        if let Some((at, kind, sticky)) = self.plan.error {
            let at = at.min(end);
            if self.pos >= at && (sticky || self.errors == 0) {
                self.errors += 1;
                if self.errors > 1 {
                    self.reads_after_error += 1;
                }
                fault(Fault::ReadError);
                return Err(io::Error::new(kind, "injected"));
            }
            if self.errors == 0 {
                end = at;
            } else {
                self.reads_after_error += 1;
            }
        }
        let left = end - self.pos;
        if left == 0 {
            self.after_end += 1;
            event(b'E', self.pos as u64, 0);
            return Ok(0);
        }
        let want = left.min(buf.len());
        let n = size(self.plan.chunk, &mut self.rng, self.pos, want);
        if n < want {
            self.shorts += 1;
            fault(Fault::ReadShort);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        event(b'R', buf.len() as u64, n as u64);
        Ok(n)
    }
}

#[derive(Clone, Debug)]
pub struct WritePlan {
    pub chunk: Chunk,
    pub intr: u64,
    /// (offset, kind or None for "accepts zero bytes", sticky)
    pub error: Option<(usize, Option<ErrorKind>, bool)>,
    pub flush_error: Option<ErrorKind>,
    pub seed: u64,
}
impl WritePlan {
    pub fn plain() -> WritePlan {
        WritePlan { chunk: Chunk::All, intr: 0, error: None, flush_error: None, seed: 0 }
    }
    pub fn gen(len: usize) -> WritePlan {
        WritePlan { chunk: gen_chunk(len), intr: pick(&[0u64, 0, 8, 64, 128]), error: None, flush_error: None, seed: subseed() }
    }
}
pub struct SimWriter<'a> {
    pub data: Vec<u8>,
    plan: WritePlan,
    rng: Rng,
    pub calls: u64,
    pub errors: u64,
    pub writes_after_error: u64,
    pub intrs: u64,
    pub shorts: u64,
    pub flushes: u64,
    intr_run: u32,
    pub hook: Option<Box<dyn FnMut(u64) + 'a>>,
}
impl<'a> SimWriter<'a> {
    pub fn new(plan: WritePlan) -> SimWriter<'a> {
        let rng = Rng::new(plan.seed);
        SimWriter {
            data: vec![], plan, rng, calls: 0, errors: 0, writes_after_error: 0, intrs: 0, shorts: 0, flushes: 0, intr_run: 0, hook: None,
        }
    }
}
impl Write for SimWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some(h) = self.hook.as_mut() {
            h(self.calls);
        }
        crate::sched::io_point();
        let _q = Quiet::new();
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.errors > 0 {
            self.writes_after_error += 1;
        }
        if self.plan.intr > 0 && self.intr_run < 3 && self.rng.below(256) < self.plan.intr {
            self.intr_run += 1;
            self.intrs += 1;
            fault(Fault::WriteInterrupted);
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        self.intr_run = 0;
        let mut n = size(self.plan.chunk, &mut self.rng, self.data.len(), buf.len());
        if let Some((at, kind, sticky)) = self.plan.error {
            if self.data.len() >= at && (sticky || self.errors == 0) {
                self.errors += 1;
                return match kind {
                    Some(k) => {
                        fault(Fault::WriteError);
                        Err(io::Error::new(k, "injected"))
                    }
                    None => {
                        fault(Fault::WriteZero);
                        Ok(0)
                    }
                };
            }
            if self.errors == 0 {
                n = n.min(at - self.data.len());
            }
        }
        if n < buf.len() {
            self.shorts += 1;
            fault(Fault::WriteShort);
        }
        self.data.extend_from_slice(&buf[..n]);
        event(b'W', buf.len() as u64, n as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let _q = Quiet::new();
        self.flushes += 1;
        if let Some(k) = self.plan.flush_error {
            self.errors += 1;
            fault(Fault::WriteError);
            return Err(io::Error::new(k, "injected"));
        }
        Ok(())
    }
}
/// Chooses a hard failure.
pub fn gen_hard() -> ErrorKind {
    pick(HARD)
}
pub fn gen_sticky() -> bool {
    chance(1, 2)
}
