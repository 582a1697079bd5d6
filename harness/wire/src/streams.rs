//! Adversarial byte streams: arbitrary chunking, interruptions and hard faults.
use mon::Rng;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug)]
pub enum Mode {
    Whole,
    OneByte,
    Random(usize),
    /// deliver exactly up to this offset first, then the rest
    SplitAt(usize),
    Fixed(usize),
}
pub fn gen_mode(r: &mut Rng, n: usize) -> Mode {
    match r.below(6) {
        0 => Mode::Whole,
        1 => Mode::OneByte,
        2 => Mode::Random(r.range(1, 16)),
        3 => Mode::SplitAt(r.below(n as u64 + 1) as usize),
        4 => Mode::Fixed(r.range(1, 9)),
        _ => Mode::Random(r.range(1, 9000)),
    }
}
pub struct ChunkReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub mode: Mode,
    pub interrupts: bool,
    pub fault: Option<(usize, ErrorKind)>,
    pub rng: Rng,
    pub calls: u64,
    pub interrupted: u64,
    pub short_reads: u64,
}
impl<'a> ChunkReader<'a> {
    pub fn new(data: &'a [u8], mode: Mode, rng: Rng) -> Self {
        ChunkReader { data, pos: 0, mode, interrupts: false, fault: None, rng, calls: 0, interrupted: 0, short_reads: 0 }
    }
}
impl<'a> Read for ChunkReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts && self.rng.chance(1, 3) {
            self.interrupted += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "injected interrupt"));
        }
        let mut end = self.data.len();
        if let Some((at, k)) = self.fault {
            if self.pos >= at {
                return Err(io::Error::new(k, "injected fault"));
            }
            end = end.min(at);
        }
        let left = end - self.pos;
        let want = match self.mode {
            Mode::Whole => left,
            Mode::OneByte => 1,
            Mode::Random(m) => self.rng.range(1, m),
            Mode::SplitAt(p) if self.pos < p => p - self.pos,
            Mode::SplitAt(_) => left,
            Mode::Fixed(n) => n,
        };
        let n = want.min(left).min(buf.len());
        if n < left {
            self.short_reads += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub struct ChunkWriter {
    pub out: Vec<u8>,
    pub max: usize,
    pub interrupts: bool,
    pub fault: Option<(usize, ErrorKind)>,
    /// report Ok(0) once this many bytes were accepted
    pub zero_at: Option<usize>,
    pub rng: Rng,
    pub partial: u64,
    pub interrupted: u64,
}
impl ChunkWriter {
    pub fn new(max: usize, rng: Rng) -> Self {
        ChunkWriter { out: vec![], max, interrupts: false, fault: None, zero_at: None, rng, partial: 0, interrupted: 0 }
    }
}
impl Write for ChunkWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.rng.chance(1, 3) {
            self.interrupted += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "injected interrupt"));
        }
        let mut n = self.rng.range(1, self.max.max(1)).min(b.len());
        if let Some((at, k)) = self.fault {
            if self.out.len() >= at {
                return Err(io::Error::new(k, "injected fault"));
            }
            n = n.min(at - self.out.len());
        }
        if let Some(at) = self.zero_at {
            n = n.min(at - self.out.len());
        }
        if n < b.len() {
            self.partial += 1;
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub const FAULTS: &[ErrorKind] = &[
    ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::InvalidData, ErrorKind::ConnectionAborted,
];
