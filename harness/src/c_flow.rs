//! C27, C28: data flows on as soon as it is there; nothing is read before it is needed.
use crate::core::{Case, Ctx, Res};
use crate::decode::check_headers;
use crate::ensure;
use crate::fail;
use crate::gen::{self, diff, Body};
use crate::io::{Plan, Src};
use crate::rng::Rng;
use crate::scratch;
use multipart::client::{lazy, HttpRequest, HttpStream};
use multipart::server::save::SaveResult;
use multipart::server::{self, Multipart, MultipartData};
use std::io::{self, BufRead, Read, Write};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- C27

/// How much had been given before each read of the transport.
#[derive(Default)]
struct Gauge {
    given: usize,
    reads: Vec<usize>,
}

struct Gauged {
    src: Src,
    gauge: Arc<Mutex<Gauge>>,
}

impl Read for Gauged {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let mut g = self.gauge.lock().unwrap();
        if !out.is_empty() {
            let given = g.given;
            g.reads.push(given);
        }
        let n = self.src.read(out)?;
        g.given += n;
        Ok(n)
    }
}

/// The trace checker: reads of the transport during one operation that ended at offset `at` of the body.
fn judge(c: &mut Case, g: &Mutex<Gauge>, at: usize, min: usize, op: &str) -> Res {
    let mut g = g.lock().unwrap();
    for given in g.reads.drain(..) {
        c.count("transport_reads");
        ensure!(given < at + min, "{}: the transport was read again when {} bytes behind offset {} were already there ({} are enough)", op, given - at, at, min);
    }
    Ok(())
}

/// `min` bytes, and a delimiter that may begin at their end
fn enough(min: usize, bnd: &str) -> usize {
    min.max(2 * (bnd.len() + 2)) + bnd.len() + 4
}

const DEFAULT_MIN: usize = 1024;

fn field<M: server::ReadEntry>(c: &mut Case, g: &Mutex<Gauge>, d: &mut MultipartData<M>, bnd: &str, start: usize, want: &[u8], log: &mut Vec<String>) -> Res {
    let mut at = 0;
    let mut min = DEFAULT_MIN;
    let mut set = 0;
    for _ in 0..c.r.below(12) {
        let left = &want[at..];
        let op = c.r.below(8);
        match op {
            0 | 1 => {
                let mut b = vec![0u8; c.r.range(1, 3000)];
                let n = d.read(&mut b).map_err(|e| format!("{:?}", e))?;
                log.push(format!("read({})={}", b.len(), n));
                ensure!(n <= left.len() && b[..n] == left[..n], "read at {}: {}", at, diff(&b[..n], left));
                judge(c, g, start + at, enough(min, bnd), "read()")?;
                at += n;
            }
            2..=4 => {
                let n = {
                    let b = d.fill_buf().map_err(|e| format!("{:?}", e))?;
                    ensure!(b.len() <= left.len() && *b == left[..b.len()], "fill_buf at {}: {}", at, diff(b, left));
                    b.len()
                };
                log.push(format!("fill_buf()={}", n));
                judge(c, g, start + at, enough(min, bnd), "fill_buf()")?;
                ensure!(n >= set.min(left.len()), "fill_buf() returned {} bytes, the minimum was set to {} and {} bytes of the field are left", n, set, left.len());
                if set > 0 && left.len() > n {
                    c.count("minimum_kept");
                }
                let k = match c.r.below(3) {
                    0 => 0,
                    1 => n,
                    _ => c.r.range(0, n),
                };
                d.consume(k);
                log.push(format!("consume({})", k));
                judge(c, g, 0, 0, "consume()")?;
                at += k;
            }
            5 => {
                set = *c.r.pick(&[0usize, 1, 20, 100, 500, 1023, 1024, 1500, 3000, 4096, 5000, 9000, 40_000, 100_000, 400_000]);
                min = set;
                d.set_min_buf_size(set);
                log.push(format!("min({})", set));
                judge(c, g, 0, 0, "set_min_buf_size()")?;
                c.count("minimum_set");
            }
            6 => {
                let mut v = vec![];
                let limit = c.r.range(0, left.len() + 1) as u64;
                d.by_ref().take(limit).read_to_end(&mut v).map_err(|e| format!("{:?}", e))?;
                log.push(format!("take({})", limit));
                ensure!(v.len() == (limit as usize).min(left.len()) && v == left[..v.len()], "take() at {}: {}", at, diff(&v, left));
                at += v.len();
                judge(c, g, start + at, enough(min, bnd), "take().read_to_end()")?;
            }
            _ => {
                let mut v = vec![];
                let limit = if c.r.bool() { None } else { Some(c.r.below(left.len() + 1000) as u64) };
                let n = match d.save().size_limit(limit).write_to(&mut v) {
                    SaveResult::Full(n) | SaveResult::Partial(n, _) => n as usize,
                    SaveResult::Error(e) => fail!("write_to: {:?}", e),
                };
                log.push(format!("write_to({:?})={}", limit, n));
                ensure!(n == v.len() && n <= left.len() && v == left[..n], "write_to() at {}: {}", at, diff(&v, left));
                at += n;
                judge(c, g, start + at, enough(min, bnd), "write_to()")?;
            }
        }
        c.count("operations");
    }
    Ok(())
}

fn flow_body(r: &mut Rng) -> Body {
    let max = *r.pick(&[50usize, 1500, 6000, 30_000, 30_000, 30_000, 600_000]);
    let mut b = gen::body(r, 5, max);
    if r.bool() {
        // long tail: nothing of it is wanted
        let mut v = b.bytes.to_vec();
        v.extend(std::iter::repeat(b'e').take(r.range(1000, 40_000)));
        b.bytes = Arc::new(v);
    }
    b
}

pub fn c27(ctx: &Ctx) {
    ctx.expect(&["transport_reads", "operations", "minimum_set", "minimum_kept", "entries_reached", "asked_after_the_end"]);
    ctx.assume("up to 1024 bytes (or the minimum set for the field), and a delimiter more, may be awaited behind the position reached");
    ctx.cases("reads", ctx.n(30_000, 600_000), |c| {
        let b = flow_body(&mut c.r);
        let marks: Vec<usize> = b.delims.iter().chain(&b.content_at).copied().collect();
        let plan = Plan::near(&mut c.r, &marks, 30, b.bytes.len());
        let gauge: Arc<Mutex<Gauge>> = Default::default();
        let mut log = vec![];
        let res = (|| -> Res {
            let src = Gauged { src: Src::new(b.bytes.clone(), plan.clone()), gauge: gauge.clone() };
            let bnd = b.boundary.as_str();
            let mut mp = Multipart::with_body(src, bnd);
            judge(c, &gauge, 0, 0, "with_body()")?;
            for i in 0..b.parts.len() {
                log.push(format!("[{}]", i));
                let mut f = mp.read_entry().map_err(|e| format!("part {}: {:?}", i, e))?.ok_or(format!("end instead of part {}", i))?;
                // the headers must be in the buffer too, which is read for from their start on
                judge(c, &gauge, b.content_at[i], enough(DEFAULT_MIN, bnd), "read_entry()")?;
                check_headers(&f.headers, &b.parts[i])?;
                c.count("entries_reached");
                field(c, &gauge, &mut f.data, bnd, b.content_at[i], &b.parts[i].content, &mut log).map_err(|e| format!("part {}: {}", i, e))?;
            }
            ensure!(mp.read_entry().map_err(|e| format!("end: {:?}", e))?.is_none(), "extra entry");
            judge(c, &gauge, b.end, enough(DEFAULT_MIN, bnd), "read_entry() at the end")?;
            for _ in 0..2 {
                ensure!(mp.read_entry().map_err(|e| format!("end: {:?}", e))?.is_none(), "extra entry");
                judge(c, &gauge, 0, 0, "read_entry() after the end")?;
                c.count("asked_after_the_end");
            }
            Ok(())
        })();
        c.eval();
        c.note(format!("plan {:?}; {}", plan, log.join(" ")));
        c.distinct(format!("{:?} {} {:?}", plan, log.join(" "), b.content_at).as_bytes());
        c.sample(|| format!("{} parts, {:?}: {}", b.parts.len(), plan, log.join(" ")));
        res
    });
}

// ---------------------------------------------------------------- C28

/// What happened, in order.
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// source i gave these many bytes (0: its end)
    Gave(usize, usize),
    Wrote(usize),
    Opened,
    Finished,
}

type Log = Arc<Mutex<Vec<Ev>>>;

struct Spring {
    id: usize,
    data: Vec<u8>,
    pos: usize,
    max: usize,
    rng: Rng,
    log: Log,
}

impl Read for Spring {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        let mut n = out.len().min(self.data.len() - self.pos);
        if self.max > 0 && n > 0 {
            n = n.min(self.rng.range(1, self.max));
        }
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.log.lock().unwrap().push(Ev::Gave(self.id, n));
        Ok(n)
    }
}

struct Drain {
    max: usize,
    rng: Rng,
    log: Log,
    out: Arc<Mutex<Vec<u8>>>,
}

impl Write for Drain {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = b.len();
        if self.max > 0 && n > 0 {
            n = n.min(self.rng.range(1, self.max));
        }
        self.out.lock().unwrap().extend_from_slice(&b[..n]);
        self.log.lock().unwrap().push(Ev::Wrote(n));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct DrainReq(Drain);

impl HttpRequest for DrainReq {
    type Stream = Drain;
    type Error = io::Error;
    fn apply_headers(&mut self, _: &str, _: Option<u64>) -> bool {
        true
    }
    fn open_stream(self) -> io::Result<Drain> {
        self.0.log.lock().unwrap().push(Ev::Opened);
        Ok(self.0)
    }
}

impl HttpStream for Drain {
    type Request = DrainReq;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> io::Result<()> {
        self.log.lock().unwrap().push(Ev::Finished);
        Ok(())
    }
}

enum Item {
    Text(String),
    File(PathBuf, Vec<u8>),
    Stream(Vec<u8>),
}

impl Item {
    fn content(&self) -> &[u8] {
        match *self {
            Item::Text(ref t) => t.as_bytes(),
            Item::File(_, ref v) | Item::Stream(ref v) => v,
        }
    }
}

const MODES: &[&str] = &["streaming", "sized", "lazy_send", "lazy_read"];

/// Checks, at the moment of each read of a source, that what it gave before was passed on; and nothing out of turn.
fn judge_order(log: &[Ev], its: &[Item], taken_upto: usize) -> Result<u64, String> {
    let mut given = vec![0usize; its.len()];
    let mut ended = vec![false; its.len()];
    let mut written = 0usize;
    let mut judged = 0;
    for (at, e) in log.iter().enumerate() {
        match *e {
            Ev::Gave(i, n) => {
                // what all sources gave so far must be out (there are also the heads, so this is a lower bound)
                let before: usize = given.iter().sum();
                ensure!(written >= before, "event {}: source {} is read when only {} bytes were passed on, and sources gave {}", at, i, written, before);
                for (j, it) in its.iter().enumerate() {
                    if j != i && matches!(it, Item::Stream(_)) {
                        ensure!(given[j] == 0 || ended[j], "event {}: source {} is read before source {} ended", at, i, j);
                    }
                }
                ensure!(n == 0 || !ended[i], "event {}: source {} is read after its end", at, i);
                given[i] += n;
                ended[i] |= n == 0;
                judged += 1;
            }
            Ev::Wrote(n) => written += n,
            _ => (),
        }
    }
    ensure!(written >= taken_upto, "only {} bytes were passed on", written);
    Ok(judged)
}

pub fn c28(ctx: &Ctx) {
    ctx.expect(&["streaming", "sized", "lazy_send", "lazy_read", "source_reads", "fields_out_on_return", "nothing_opened_before_send", "short_reads_passed_on"]);
    ctx.assume("the passing on inside of hyper (its output buffer) is outside of the crate");
    ctx.cases("passing-on", ctx.n(6000, 120_000), |c| {
        let dir = scratch::fresh("flow");
        let res = pass_on(c, &dir);
        scratch::done(&dir);
        res
    });
}

fn pass_on(c: &mut Case, dir: &std::path::Path) -> Res {
    let mode = c.idx % MODES.len();
    let n = c.r.range(1, 5);
    let its: Vec<Item> = (0..n)
        .map(|i| {
            let len = gen::len(&mut c.r, 30_000);
            match c.r.below(5) {
                0 => Item::Text(gen::utf8(&mut c.r, len)),
                1 => {
                    let p = dir.join(format!("f{}.bin", i));
                    let v = c.r.bytes(len);
                    std::fs::write(&p, &v).unwrap();
                    Item::File(p, v)
                }
                _ => Item::Stream(c.r.bytes(len)),
            }
        })
        .collect();
    let log: Log = Default::default();
    let out: Arc<Mutex<Vec<u8>>> = Default::default();
    let smax = *c.r.pick(&[0usize, 10, 500, 5000, 9000]);
    let smax = if smax == 10 && its.iter().any(|i| i.content().len() > 5000) { 500 } else { smax };
    let wmax = *c.r.pick(&[0usize, 0, 100, 5000]);
    let seed = c.r.u64();
    let spring = |i: usize, v: &[u8]| Spring { id: i, data: v.to_vec(), pos: 0, max: smax, rng: Rng::new(seed ^ i as u64), log: log.clone() };
    let req = DrainReq(Drain { max: wmax, rng: Rng::new(seed), log: log.clone(), out: out.clone() });
    let desc = format!(
        "{}: {}; source reads up to {}, writes up to {}",
        MODES[mode],
        its.iter()
            .map(|i| match i {
                Item::Text(_) => format!("text({})", i.content().len()),
                Item::File(..) => format!("file({})", i.content().len()),
                Item::Stream(_) => format!("stream({})", i.content().len()),
            })
            .collect::<Vec<_>>()
            .join(", "),
        smax,
        wmax
    );
    c.note(desc.clone());
    c.eval();
    let total: usize = its.iter().map(|i| i.content().len()).sum();
    let err = |e: io::Error| format!("{:?}", e);
    match mode {
        0 | 1 => {
            macro_rules! write_all {
                ($m:ident) => {
                    for (i, it) in its.iter().enumerate() {
                        let name = format!("field{}", i);
                        match *it {
                            Item::Text(ref t) => $m.write_text(&name, t).map(|_| ()).map_err(err)?,
                            Item::File(ref p, _) => $m.write_file(&name, p).map(|_| ()).map_err(err)?,
                            Item::Stream(ref v) => $m.write_stream(&name, &mut spring(i, v), None, None).map(|_| ()).map_err(err)?,
                        }
                        if mode == 0 {
                            // all of the field is out when the call returns
                            let o = out.lock().unwrap();
                            ensure!(o.ends_with(it.content()), "field {} is not completely written when the call returns", i);
                            ensure!(gen::find(&o, name.as_bytes()).is_some(), "the head of field {} is not written when the call returns", i);
                            c.count("fields_out_on_return");
                        } else {
                            ensure!(!log.lock().unwrap().contains(&Ev::Opened), "the request was opened before it is sent");
                            c.count("nothing_opened_before_send");
                        }
                    }
                };
            }
            if mode == 0 {
                let mut m = multipart::client::Multipart::from_request(req).map_err(err)?;
                ensure!(log.lock().unwrap().contains(&Ev::Opened), "the request is not open after from_request()");
                write_all!(m);
                m.send().map_err(err)?;
            } else {
                let mut m = multipart::client::Multipart::from_request_sized(req).map_err(err)?;
                write_all!(m);
                m.send().map_err(err)?;
            }
        }
        _ => {
            let mut lz = lazy::Multipart::new();
            for (i, it) in its.iter().enumerate() {
                let name = format!("field{}", i);
                match *it {
                    Item::Text(ref t) => lz.add_text(name, &**t),
                    Item::File(ref p, _) => lz.add_file(name, &**p),
                    Item::Stream(ref v) => lz.add_stream(name, spring(i, v), None::<String>, None),
                };
            }
            ensure!(log.lock().unwrap().is_empty(), "adding fields read a stream or opened the request: {:?}", log.lock().unwrap());
            if mode == 2 {
                lz.send(req).map_err(|e| format!("{:?}", e))?;
            } else {
                let mut p = lz.prepare().map_err(|e| format!("{:?}", e))?;
                ensure!(log.lock().unwrap().is_empty(), "preparing read a stream: {:?}", log.lock().unwrap());
                let mut buf = vec![0u8; *c.r.pick(&[1usize, 50, 1000, 8192, 50_000])];
                if buf.len() < 50 && total > 10_000 {
                    buf.resize(50, 0);
                }
                loop {
                    let from = log.lock().unwrap().len();
                    let n = p.read(&mut buf).map_err(err)?;
                    let mut l = log.lock().unwrap();
                    let gave: Vec<usize> = l[from..]
                        .iter()
                        .filter_map(|e| match *e {
                            Ev::Gave(_, n) if n > 0 => Some(n),
                            _ => None,
                        })
                        .collect();
                    // one read passes on what one read of a source gave, rather than waiting for more
                    ensure!(gave.len() <= 1, "one read of {} bytes read {} times from its sources", buf.len(), gave.len());
                    if let Some(&g) = gave.first() {
                        ensure!(n == g, "a source gave {} bytes, {} were passed on", g, n);
                        if g < buf.len() {
                            c.count("short_reads_passed_on");
                        }
                    }
                    if n == 0 {
                        break;
                    }
                    l.push(Ev::Wrote(n));
                    out.lock().unwrap().extend_from_slice(&buf[..n]);
                }
            }
        }
    }
    let l = log.lock().unwrap();
    // a sized request may only pass on in the end
    let judged = if mode == 1 {
        let opened = l.iter().position(|e| *e == Ev::Opened).ok_or("the request was never opened")?;
        ensure!(l[opened..].iter().all(|e| !matches!(e, Ev::Gave(..))), "a source was read after the request was opened");
        l.len() as u64
    } else {
        judge_order(&l, &its, total)?
    };
    if mode != 3 {
        ensure!(l.iter().filter(|e| **e == Ev::Opened).count() == 1, "the request was opened {} times", l.iter().filter(|e| **e == Ev::Opened).count());
        ensure!(l.last() == Some(&Ev::Finished), "the last event is {:?}", l.last());
        ensure!(l.iter().filter(|e| **e == Ev::Finished).count() == 1, "the request was finished more than once");
    }
    c.add("source_reads", judged);
    c.count(MODES[mode]);
    c.distinct(desc.as_bytes());
    c.sample(|| desc.clone());
    Ok(())
}
