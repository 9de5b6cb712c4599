//! Transports and writers with chosen chunking and faults, and their monitors.
use crate::rng::Rng;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// How a byte stream is split into `read()` results.
#[derive(Clone, Debug)]
pub enum Plan {
    /// as much as the caller asks for
    All,
    Fixed(usize),
    /// reads never cross these offsets (sorted)
    Cuts(Vec<usize>),
    /// random sizes up to the given maximum
    Random(u64, usize),
}

pub const SIZES: &[usize] = &[
    1, 2, 3, 5, 7, 16, 31, 64, 127, 512, 1000, 1023, 1024, 1025, 2048, 4096, 8191, 8192, 8193, 16384,
];

impl Plan {
    pub fn random(r: &mut Rng) -> Plan {
        match r.below(8) {
            0 => Plan::All,
            1..=3 => Plan::Fixed(*r.pick(SIZES)),
            4 => Plan::Fixed(r.range(1, 3000)),
            5 => Plan::Random(r.u64(), 8),
            6 => Plan::Random(r.u64(), 1500),
            _ => Plan::Random(r.u64(), 9000),
        }
    }
    /// like `random`, but likely to end reads inside or next to the given positions
    pub fn near(r: &mut Rng, marks: &[usize], spread: usize, len: usize) -> Plan {
        if marks.is_empty() || r.chance(1, 3) {
            return Plan::random(r);
        }
        let mut cuts: Vec<usize> = marks
            .iter()
            .filter_map(|m| {
                if r.chance(1, 5) {
                    return None;
                }
                let m = m + r.below(spread);
                Some(m.saturating_sub(r.below(4)).min(len))
            })
            .collect();
        if r.chance(1, 3) {
            for _ in 0..r.below(6) {
                cuts.push(r.below(len + 1));
            }
        }
        cuts.sort();
        cuts.dedup();
        Plan::Cuts(cuts)
    }
    /// all the plans every body must decode identically under (small representative set)
    pub fn standard() -> Vec<Plan> {
        let mut v = vec![Plan::All];
        for s in [1, 2, 3, 7, 64, 1023, 1024, 1025, 8191, 8192, 8193] {
            v.push(Plan::Fixed(s));
        }
        v
    }
}

/// A fault to inject at a given read call.
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub at: usize,
    pub kind: ErrorKind,
}

/// The monitored transport: hands out `data` as planned, with faults at given call numbers.
pub struct Src {
    data: Arc<Vec<u8>>,
    pos: usize,
    plan: Plan,
    rng: Rng,
    calls: usize,
    eof_calls: usize,
    faults: Vec<Fault>,
    pub stats: Arc<SrcStats>,
}

#[derive(Default)]
pub struct SrcStats {
    pub calls: AtomicUsize,
    pub eof_calls: AtomicUsize,
    pub given: AtomicUsize,
    pub faults: AtomicUsize,
    pub empty_bufs: AtomicUsize,
}

pub const SPIN: &str = "reader called over and over after the end of the body";
/// reads of an exhausted transport above this are taken for an endless loop
pub const MAX_EOF_CALLS: usize = 200_000;

impl Src {
    pub fn new(data: Arc<Vec<u8>>, plan: Plan) -> Src {
        let seed = match plan {
            Plan::Random(s, _) => s,
            _ => 0,
        };
        Src { data, pos: 0, plan, rng: Rng::new(seed), calls: 0, eof_calls: 0, faults: vec![], stats: Default::default() }
    }
    pub fn with_faults(mut self, faults: Vec<Fault>) -> Src {
        self.faults = faults;
        self
    }
    pub fn stats(&self) -> Arc<SrcStats> {
        self.stats.clone()
    }
}

impl Read for Src {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        self.stats.calls.fetch_add(1, Ordering::Relaxed);
        if out.is_empty() {
            self.stats.empty_bufs.fetch_add(1, Ordering::Relaxed);
            return Ok(0);
        }
        if let Some(f) = self.faults.iter().find(|f| f.at == call) {
            self.stats.faults.fetch_add(1, Ordering::Relaxed);
            return Err(io::Error::new(f.kind, "injected transport fault"));
        }
        let left = self.data.len() - self.pos;
        if left == 0 {
            self.eof_calls += 1;
            self.stats.eof_calls.fetch_add(1, Ordering::Relaxed);
            if self.eof_calls > MAX_EOF_CALLS {
                panic!("{}", SPIN);
            }
            return Ok(0);
        }
        let want = match self.plan {
            Plan::All => left,
            Plan::Fixed(n) => n,
            Plan::Cuts(ref c) => match c.binary_search(&(self.pos + 1)) {
                Ok(i) | Err(i) => c.get(i).map_or(left, |&next| next - self.pos),
            },
            Plan::Random(_, max) => self.rng.range(1, max),
        };
        let n = want.max(1).min(left).min(out.len());
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.stats.given.fetch_add(n, Ordering::Relaxed);
        Ok(n)
    }
}

/// A writer that takes only some of the data at a time, with faults at given call numbers.
pub struct Sink {
    pub out: Vec<u8>,
    max: usize,
    rng: Rng,
    calls: usize,
    pub faults: Vec<(usize, WriteFault)>,
    pub hit: usize,
}

#[derive(Clone, Copy, Debug)]
pub enum WriteFault {
    Err(ErrorKind),
    Zero,
}

impl Sink {
    pub fn new(max: usize, seed: u64) -> Sink {
        Sink { out: vec![], max, rng: Rng::new(seed), calls: 0, faults: vec![], hit: 0 }
    }
    pub fn calls(&self) -> usize {
        self.calls
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((_, f)) = self.faults.iter().find(|f| f.0 == call) {
            self.hit += 1;
            match *f {
                WriteFault::Err(k) => return Err(io::Error::new(k, "injected write fault")),
                WriteFault::Zero => return Ok(0),
            }
        }
        let n = if self.max == 0 { buf.len() } else { self.rng.range(1, self.max).min(buf.len()) };
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A field source for the client side: short reads, faults at given calls.
pub struct Feed {
    data: Vec<u8>,
    pos: usize,
    max: usize,
    rng: Rng,
    calls: usize,
    pub faults: Vec<(usize, ErrorKind)>,
}

impl Feed {
    pub fn new(data: Vec<u8>, max: usize, seed: u64) -> Feed {
        Feed { data, pos: 0, max, rng: Rng::new(seed), calls: 0, faults: vec![] }
    }
    pub fn with_faults(mut self, f: Vec<(usize, ErrorKind)>) -> Feed {
        self.faults = f;
        self
    }
}

impl Read for Feed {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if let Some((_, k)) = self.faults.iter().find(|f| f.0 == call) {
            return Err(io::Error::new(*k, "injected source fault"));
        }
        let left = self.data.len() - self.pos;
        let want = if self.max == 0 { left } else { self.rng.range(1, self.max) };
        let n = want.min(left).min(out.len());
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
