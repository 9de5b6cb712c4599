//! C01..C07: the decoder.
use crate::alloc;
use crate::core::{guard, Case, Ctx, Res};
use crate::decode::*;
use crate::gen::{self, diff, show, Body, Layout, Part};
use crate::io::{Fault, Plan, Src};
use crate::rng::Rng;
use crate::scratch;
use crate::{ensure, fail};
use multipart::server::save::{PartialReason, SaveResult, SavedData};
use multipart::server::{Multipart, MultipartData, ReadEntryResult};
use std::io::{self, BufRead, ErrorKind, Read};
use std::sync::atomic::Ordering;
use std::sync::Arc;

fn describe(c: &mut Case, b: &Body, plan: &Plan) {
    c.note(format!("boundary {:?}, body {}", b.boundary, show(&b.bytes)));
    for (i, p) in b.parts.iter().enumerate() {
        c.note(format!("part {}: name {:?} filename {:?} type {:?} content {}", i, p.name, p.filename, p.ctype, show(&p.content)));
    }
    let mut s = format!("reads: {:?}", plan);
    if s.len() > 300 {
        s.truncate(300);
    }
    c.note(s);
}

fn split_stats(c: &mut Case, b: &Body, plan: &Plan) {
    let cuts: Vec<usize> = match plan {
        Plan::Cuts(v) => v.clone(),
        Plan::Fixed(n) if *n > 0 => (1..).map(|i| i * n).take_while(|p| *p < b.bytes.len()).collect(),
        _ => return,
    };
    for &d in &b.delims {
        let lo = d.saturating_sub(2);
        let hi = d + 2 + b.boundary.len() + 2;
        for &x in cuts.iter().skip_while(|x| **x <= lo).take_while(|x| **x < hi) {
            if d >= 2 && x == d - 1 {
                c.count("reads_ending_between_cr_and_lf");
            }
            c.count("reads_ending_inside_delimiter");
        }
    }
}

// ------------------------------------------------------------------ C01

fn decode_once(c: &mut Case, b: &Body, plan: Plan, styles: &mut dyn FnMut() -> Style) -> Res {
    split_stats(c, b, &plan);
    let src = Src::new(b.bytes.clone(), plan.clone());
    let stats = src.stats();
    let mut mp = Multipart::with_body(src, b.boundary.as_str());
    let res = guard(|| check_all(&mut mp, b, styles)).and_then(|r| r);
    c.eval();
    c.add("transport_reads", stats.calls.load(Ordering::Relaxed) as u64);
    c.add("parts_compared", b.parts.len() as u64);
    c.add("content_bytes_compared", b.parts.iter().map(|p| p.content.len() as u64).sum());
    if let Err(e) = res {
        describe(c, b, &plan);
        return Err(e);
    }
    c.distinct(format!("{:x} {:?}", crate::rng::hash(&b.bytes), plan).as_bytes());
    Ok(())
}

pub fn c01(ctx: &Ctx) {
    ctx.expect(&["reads_ending_inside_delimiter", "reads_ending_between_cr_and_lf", "parts_compared"]);
    // random bodies under random plans and the standard ones
    ctx.cases("random", ctx.n(6_000, 200_000), |c| {
        let max = *c.r.pick(&[60, 3000, 40_000]);
        let b = gen::body(&mut c.r, 5, max);
        let mut marks = b.delims.clone();
        marks.extend_from_slice(&b.content_at);
        for k in 0..6 {
            let plan = if k == 0 { c.r.pick(&Plan::standard()).clone() } else { Plan::near(&mut c.r, &marks, b.boundary.len() + 8, b.bytes.len()) };
            let mut r2 = Rng::new(c.r.u64());
            let fixed = Style::random(&mut r2);
            let vary = r2.bool();
            decode_once(c, &b, plan, &mut || if vary { Style::random(&mut r2) } else { fixed.clone() })?;
        }
        c.sample(|| format!("boundary {:?}, {} parts, {} bytes: {}", b.boundary, b.parts.len(), b.bytes.len(), show(&b.bytes)));
        Ok(())
    });
    // every position of a read's end in and around a delimiter, with enough data in front of it
    // that the decoder does not need to read more before handing out data
    let styles = [Style::ToEnd, Style::FillAll, Style::Read(4096), Style::Read(65536), Style::Read(1024), Style::Read(7), Style::FillSome(1, 2000), Style::Mixed(3)];
    ctx.cases("delimiter-split", ctx.n(3_000, 60_000), |c| {
        let bnd = gen::boundary(&mut c.r);
        let lens = [0usize, 1, 2, 900, 960, 1000, 1023, 1024, 1025, 1026, 1100, 2000, 4000, 7000, 8000, 8100, 8191, 8192, 8193, 9000, 16384];
        let l1 = *c.r.pick(&lens) + c.r.below(4);
        let l2 = *c.r.pick(&lens);
        let plain = c.r.chance(1, 2);
        let mk = |r: &mut Rng, n, name: &str| {
            let mut d = if plain { vec![b'x'; n] } else { gen::content(r, &bnd, n) };
            gen::scrub(&mut d, &bnd);
            gen::mk(name, None, None, d)
        };
        let parts = vec![mk(&mut c.r, l1, "one"), mk(&mut c.r, l2, "two")];
        let b = gen::encode(&mut c.r, &bnd, parts, &Layout::plain());
        let which = c.r.range(1, 2);
        let d = b.delims[which];
        for at in d.saturating_sub(5)..(d + bnd.len() + 8).min(b.bytes.len()) {
            let mut cuts = vec![at];
            if c.r.chance(1, 4) {
                cuts.push(at + 1);
            }
            if c.r.chance(1, 8) {
                cuts.push(b.delims[0] + 4 + bnd.len());
            }
            cuts.sort();
            let st = c.r.pick(&styles).clone();
            decode_once(c, &b, Plan::Cuts(cuts), &mut || st.clone())?;
        }
        Ok(())
    });
    // delimiters at every offset around the edges of the internal buffer
    ctx.cases("buffer-edge", ctx.n(2_500, 50_000), |c| {
        let bnd = gen::boundary(&mut c.r);
        let head = gen::head(&gen::mk("one", None, None, vec![])).len() + bnd.len() + 4;
        let edge = *c.r.pick(&[1024usize, 2048, 8192, 8192 + 1024, 16384, 24576, 32768]);
        for _ in 0..12 {
            let at = edge + 90 - c.r.below(180);
            let n = at.saturating_sub(head);
            let mut d = if c.r.bool() { vec![b'y'; n] } else { gen::content(&mut c.r, &bnd, n) };
            gen::scrub(&mut d, &bnd);
            let n2 = c.r.below(3000);
            let p2 = gen::content(&mut c.r, &bnd, n2);
            let parts = vec![gen::mk("one", None, None, d), gen::mk("two", Some("f"), Some("image/png"), p2)];
            let b = gen::encode(&mut c.r, &bnd, parts, &Layout::plain());
            c.count("delimiters_placed_at_buffer_edges");
            let plan = match c.r.below(4) {
                0 => Plan::All,
                1 => Plan::Fixed(8192),
                2 => Plan::Fixed(1024),
                _ => Plan::random(&mut c.r),
            };
            let st = c.r.pick(&styles).clone();
            decode_once(c, &b, plan, &mut || st.clone())?;
        }
        Ok(())
    });
    // many parts
    ctx.cases("many", ctx.n(40, 600), |c| {
        let bnd = gen::boundary(&mut c.r);
        let n = c.r.range(50, 600);
        let parts = (0..n).map(|_| gen::part(&mut c.r, &bnd, 300)).collect();
        let lay = Layout::random(&mut c.r, &bnd);
        let b = gen::encode(&mut c.r, &bnd, parts, &lay);
        c.max("most_parts_in_a_body", n as u64);
        let mut r2 = Rng::new(c.r.u64());
        let plan = Plan::random(&mut c.r);
        decode_once(c, &b, plan, &mut || Style::random(&mut r2))
    });
    // large parts
    ctx.cases("large", ctx.n(16, 100), |c| {
        let bnd = gen::boundary(&mut c.r);
        let n = c.r.range(300_000, 3_000_000);
        let d = gen::content(&mut c.r, &bnd, n);
        let b = gen::encode(&mut c.r, &bnd, vec![gen::mk("big", Some("big.bin"), Some("application/octet-stream"), d), gen::mk("tail", None, None, b"t".to_vec())], &Layout::plain());
        c.max("largest_body", b.bytes.len() as u64);
        let plan = if c.r.bool() { Plan::All } else { Plan::Random(c.r.u64(), 20000) };
        let st = c.r.pick(&[Style::ToEnd, Style::FillAll, Style::Read(8192), Style::Read(100_000)]).clone();
        decode_once(c, &b, plan, &mut || st.clone())
    });
}

// ------------------------------------------------------------------ C02

fn hostile(r: &mut Rng, small: bool) -> (String, Vec<u8>) {
    let bnd = match r.below(12) {
        0 => String::new(),
        1 => "\r\n".into(),
        2 => "-".into(),
        3 => "é日".into(),
        4 => "a".repeat(r.range(100, 6000)),
        5 => "\r".into(),
        6 => "x\r\n--x".into(),
        _ => gen::boundary(r),
    };
    let max = if small { 200 } else { *r.pick(&[200, 3000, 20_000]) };
    let mut v: Vec<u8> = match r.below(4) {
        0 => {
            let n = r.below(max + 1);
            r.bytes(n)
        }
        1 | 2 => {
            // a soup of the pieces that mean something to a parser
            let mut v = vec![];
            let n = r.range(0, if small { 40 } else { 300 });
            for _ in 0..n {
                match r.below(22) {
                    0..=3 => v.extend_from_slice(format!("--{}", bnd).as_bytes()),
                    4 => v.extend_from_slice(format!("\r\n--{}\r\n", bnd).as_bytes()),
                    5 => v.extend_from_slice(format!("\r\n--{}--", bnd).as_bytes()),
                    6 | 7 => v.extend_from_slice(b"\r\n"),
                    8 => v.extend_from_slice(b"\r\n\r\n"),
                    9 => v.extend_from_slice(b"Content-Disposition: form-data; name=\"a\""),
                    10 => v.extend_from_slice(b"Content-Disposition: form-data; name=\"a\"; filename=\"b\"\r\nContent-Type: text/plain\r\n\r\n"),
                    11 => v.extend_from_slice(b"Content-Type: "),
                    12 => v.extend_from_slice(b"name="),
                    13 => v.push(b'"'),
                    14 => v.push(b';'),
                    15 => v.push(b'\r'),
                    16 => v.push(b'\n'),
                    17 => v.push(b'-'),
                    18 => v.extend_from_slice(b": "),
                    19 => {
                        let n = r.below(if small { 20 } else { 1200 });
                        let x = r.byte();
                        v.extend(std::iter::repeat(x).take(n))
                    }
                    20 => {
                        let k = r.below(bnd.len() + 1);
                        v.extend_from_slice(b"--");
                        v.extend_from_slice(&bnd.as_bytes()[..k])
                    }
                    _ => v.push(r.byte()),
                }
            }
            v
        }
        _ => {
            // a valid body, damaged
            let b = if bnd.is_empty() || bnd.contains('\r') { "zz".to_string() } else { bnd.clone() };
            let n = r.range(0, 4);
            let parts = (0..n).map(|_| gen::part(r, &b, max / 4)).collect::<Vec<_>>();
            let mut parts = parts;
            for p in &mut parts {
                p.name = p.name.replace('-', "_");
                p.filename = p.filename.take().map(|f| f.replace('-', "_"));
            }
            let lay = Layout::random(r, &b);
            let lay = if b == "-" || small { Layout::plain() } else { lay };
            let mut v = gen::encode(r, &b, parts, &lay).bytes.to_vec();
            for _ in 0..r.range(1, 6) {
                if v.is_empty() {
                    break;
                }
                let i = r.below(v.len());
                match r.below(6) {
                    0 => v[i] = r.byte(),
                    1 => {
                        v.remove(i);
                    }
                    2 => v.insert(i, *r.pick(b"\r\n-\";: \0\xff")),
                    3 => v.truncate(i),
                    4 => {
                        let j = (i + r.below(60)).min(v.len());
                        v.drain(i..j);
                    }
                    _ => {
                        let j = (i + r.below(200)).min(v.len());
                        let piece = v[i..j].to_vec();
                        let at = r.below(v.len() + 1);
                        v.splice(at..at, piece);
                    }
                }
            }
            v
        }
    };
    if small {
        v.truncate(999);
    }
    (bnd, v)
}

/// Read hostile bytes in some way; returns the delivered pieces in order. Bounded by `max_ops`.
fn explore(r: &mut Rng, bnd: &str, body: &Arc<Vec<u8>>, plan: &Plan, dir: Option<&std::path::Path>, ops: &mut usize) -> Result<(Vec<Vec<u8>>, Arc<crate::io::SrcStats>), String> {
    let src = Src::new(body.clone(), plan.clone());
    let stats = src.stats();
    let mut mp = Multipart::with_body(src, bnd);
    let mut got = vec![];
    let mut errors = 0;
    let limit = body.len() + 50;
    for round in 0.. {
        if round > limit {
            fail!("{} entries from a body of {} bytes", round, body.len());
        }
        *ops += 1;
        if let (Some(dir), true) = (dir, r.chance(1, 6)) {
            let sv = mp
                .save()
                .size_limit(*r.pick(&[0u64, 1, 10, 1000, 5000, u64::MAX]))
                .memory_threshold(*r.pick(&[0u64, 1, 100, 10240, u64::MAX]))
                .count_limit(*r.pick(&[0u32, 1, 3, 1000]));
            let sv = match r.below(3) {
                0 => sv.try_text(),
                1 => sv.force_text(),
                _ => sv.ignore_text(),
            };
            *ops += 8 + body.len() / 64;
            match sv.with_dir(dir) {
                SaveResult::Full(_) => break,
                SaveResult::Partial(..) | SaveResult::Error(_) => {
                    errors += 1;
                    if errors > 4 {
                        break;
                    }
                    // the order of fields is lost in a map: pieces are not recorded here
                    got.clear();
                    continue;
                }
            }
        }
        match (&mut mp).read_entry_checked() {
            Ok(None) => break,
            Ok(Some(mut f)) => {
                if r.chance(1, 5) {
                    f.data.set_min_buf_size(*r.pick(&[0, 1, 10, 100, 1024, 5000, 8192, 20_000]));
                }
                match r.below(6) {
                    0 => {}
                    1 => {
                        let _ = f.data.fill_buf().map(|b| b.len());
                    }
                    2 => {
                        let mut b = vec![0; r.range(1, 300)];
                        let n = f.data.read(&mut b).map_err(|e| format!("read: {:?}", e))?;
                        got.push(b[..n].to_vec());
                    }
                    _ => {
                        let st = Style::random(r);
                        *ops += 40 + body.len();
                        let d = read_all(&mut f.data, &st, body.len(), &mut vec![]).map_err(|e| format!("data read failed without a fault: {:?}", e))?;
                        got.push(d);
                    }
                }
            }
            Err(_) => {
                errors += 1;
                if errors > 4 {
                    break;
                }
            }
        }
    }
    Ok((got, stats))
}

/// `read_entry` of the inherent impl, whatever traits are in scope.
trait ReadEntryChecked<'a> {
    type F;
    fn read_entry_checked(self) -> io::Result<Option<Self::F>>;
}
impl<'a, R: Read> ReadEntryChecked<'a> for &'a mut Multipart<R> {
    type F = multipart::server::MultipartField<&'a mut Multipart<R>>;
    fn read_entry_checked(self) -> io::Result<Option<Self::F>> {
        Multipart::read_entry(self)
    }
}

fn judge_hostile(c: &mut Case, bnd: &str, body: &Arc<Vec<u8>>, plan: &Plan, seed: u64, dir: Option<&std::path::Path>) -> Res {
    let mut ops = 0;
    let mut r = Rng::new(seed);
    let res = guard(|| explore(&mut r, bnd, body, plan, dir, &mut ops)).and_then(|x| x);
    c.eval();
    let judged = res.and_then(|(got, stats)| {
        let total: usize = got.iter().map(Vec::len).sum();
        ensure!(total <= body.len(), "delivered {} bytes of a body of {}", total, body.len());
        let mut at = 0;
        for g in &got {
            match gen::find(&body[at..], g) {
                Some(i) => at += i + g.len(),
                None => fail!("delivered bytes that are not in the body (in order): {}", show(g)),
            }
        }
        let calls = stats.calls.load(Ordering::Relaxed);
        let eof = stats.eof_calls.load(Ordering::Relaxed);
        ensure!(eof <= 1, "the transport was read {} times after it signalled its end", eof - 1);
        ensure!(calls <= body.len() + eof + 50 * ops + 2000, "{} reads for {} bytes in {} operations", calls, body.len(), ops);
        ensure!(stats.empty_bufs.load(Ordering::Relaxed) <= ops + 10, "transport read with an empty buffer");
        c.add("hostile_pieces_located_in_body", got.len() as u64);
        c.add("hostile_bytes_delivered", total as u64);
        c.add("transport_ends_signalled", eof as u64);
        Ok(())
    });
    if judged.is_err() {
        c.note(format!("boundary {:?} body {} reads {:?} seed {}", bnd, show(body), plan, seed));
        if body.len() < 4000 {
            c.note(format!("body in full: {:?}", String::from_utf8_lossy(body)));
        }
    }
    judged
}

fn outcome(bnd: &str, body: &Arc<Vec<u8>>, plan: Plan) -> Result<(Vec<String>, bool), String> {
    let mut mp = Multipart::with_body(Src::new(body.clone(), plan), bnd);
    let mut v = vec![];
    for _ in 0..body.len() + 10 {
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                let mut d = vec![];
                f.data.read_to_end(&mut d).map_err(|e| format!("{:?}", e))?;
                v.push(format!("{:?} {:?}", f.headers, show(&d)));
            }
            Ok(None) => return Ok((v, true)),
            Err(_) => return Ok((v, false)),
        }
    }
    Err("endless entries".into())
}

struct SinkLog;
impl log::Log for SinkLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::io::Write;
        let _ = write!(io::sink(), "{}", r.args());
        LOGGED.fetch_add(1, Ordering::Relaxed);
    }
    fn flush(&self) {}
}
static LOGGED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn c02(ctx: &Ctx) {
    ctx.expect(&["transport_ends_signalled", "hostile_pieces_located_in_body", "clean_ends", "error_ends", "log_records_formatted"]);
    ctx.cases("hostile", ctx.n(40_000, 1_500_000), |c| {
        let small = c.r.chance(1, 3);
        let (bnd, body) = hostile(&mut c.r, small);
        let body = Arc::new(body);
        let plan = Plan::random(&mut c.r);
        let dir = if c.r.chance(1, 8) { Some(scratch::fresh("hostile")) } else { None };
        let seed = c.r.u64();
        let res = judge_hostile(c, &bnd, &body, &plan, seed, dir.as_deref());
        if let Some(d) = dir {
            c.count("cases_with_saving");
            scratch::done(&d);
        }
        res?;
        c.distinct(&body);
        c.sample(|| format!("boundary {:?} {} as {:?}", bnd, show(&body), plan));
        Ok(())
    });
    ctx.cases("same-outcome", ctx.n(12_000, 400_000), |c| {
        let (bnd, body) = hostile(&mut c.r, true);
        // beyond twice its length the boundary does not fit the minimum buffer either way
        if bnd.len() > 200 {
            return Ok(());
        }
        let body = Arc::new(body);
        let mut first: Option<(Vec<String>, bool)> = None;
        for plan in [Plan::All, Plan::Fixed(1), Plan::Fixed(2), Plan::Fixed(13), Plan::Random(c.r.u64(), 60)] {
            let o = guard(|| outcome(&bnd, &body, plan.clone())).and_then(|x| x);
            c.eval();
            let o = match o {
                Ok(o) => o,
                Err(e) => {
                    c.note(format!("boundary {:?} body {:?} {:?}", bnd, String::from_utf8_lossy(&body), plan));
                    return Err(e);
                }
            };
            c.count(if o.1 { "clean_ends" } else { "error_ends" });
            match first {
                None => first = Some(o),
                Some(ref f) => {
                    if *f != o {
                        c.note(format!("boundary {:?} body {:?}", bnd, String::from_utf8_lossy(&body)));
                        fail!("outcome depends on how the body is split: {:?} in one piece, {:?} as {:?}", f, o, plan);
                    }
                }
            }
        }
        c.distinct(&body);
        Ok(())
    });
    // with every log statement formatted
    let _ = log::set_logger(&SinkLog);
    log::set_max_level(log::LevelFilter::Trace);
    ctx.cases("logged", ctx.n(2_500, 60_000), |c| {
        let (bnd, body) = hostile(&mut c.r, true);
        let body = Arc::new(body);
        let plan = Plan::random(&mut c.r);
        let seed = c.r.u64();
        judge_hostile(c, &bnd, &body, &plan, seed, None)?;
        let b = gen::body(&mut c.r, 3, 3000);
        let plan = Plan::random(&mut c.r);
        let mut r2 = Rng::new(c.r.u64());
        decode_once(c, &b, plan, &mut || Style::random(&mut r2))?;
        let n = LOGGED.swap(0, Ordering::Relaxed);
        c.add("log_records_formatted", n);
        Ok(())
    });
    log::set_max_level(log::LevelFilter::Off);
}

// ------------------------------------------------------------------ C03

/// A body produced on the fly.
struct Flow {
    head: Vec<u8>,
    pat: Vec<u8>,
    n: u64,
    tail: Vec<u8>,
    pos: u64,
    chunk: usize,
}
impl Flow {
    fn len(&self) -> u64 {
        self.head.len() as u64 + self.n + self.tail.len() as u64
    }
}
impl Read for Flow {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let left = self.len() - self.pos;
        let n = (out.len() as u64).min(left).min(self.chunk as u64) as usize;
        let h = self.head.len() as u64;
        for (i, o) in out[..n].iter_mut().enumerate() {
            let p = self.pos + i as u64;
            *o = if p < h {
                self.head[p as usize]
            } else if p < h + self.n {
                self.pat[((p - h) % self.pat.len() as u64) as usize]
            } else {
                self.tail[(p - h - self.n) as usize]
            };
        }
        self.pos += n as u64;
        Ok(n)
    }
}

const MEM_BOUND: usize = 256 * 1024;

pub fn c03(ctx: &Ctx) {
    ctx.expect(&["peaks_measured", "bytes_streamed"]);
    ctx.assume("memory is measured as live heap bytes requested from the global allocator by the thread running the decoder");
    let mib = ctx.n(3, 64) as u64;
    ctx.cases("stream", ctx.n(160, 1200), |c| {
        let bnd = gen::boundary(&mut c.r);
        let delim = format!("\r\n--{}", bnd);
        let mut pat = match c.r.below(8) {
            0 => vec![0],
            1 => b"\r".to_vec(),
            2 => b"\r\n".to_vec(),
            3 => b"-".to_vec(),
            4 => delim.as_bytes()[..delim.len() - 1].to_vec(),
            5 => b"\n".to_vec(),
            6 => {
                let n = c.r.range(1, 5000);
                c.r.bytes(n)
            }
            _ => gen::utf8(&mut c.r, 3000).into_bytes(),
        };
        // no delimiter within or across repetitions
        pat.push(b'\t');
        gen::scrub(&mut pat, &bnd);
        if c.r.bool() && !gen::find(&pat.repeat(80), &delim.as_bytes()[2..]).is_some() && pat.len() == 2 {
            pat.pop();
            if gen::find(&pat.repeat(80), &delim.as_bytes()[2..]).is_some() {
                pat.push(b'\t');
            }
        }
        let n = mib * 1024 * 1024 + c.r.below(10_000) as u64;
        let part = gen::mk("big", Some("f"), None, vec![]);
        let hd = gen::head(&part).replace("big", if bnd.len() < 3 { "b" } else { "big" });
        let garbage = c.r.chance(1, 5);
        let (head, tail) = if garbage {
            (vec![], format!("\r\n--{}\r\n{}x{}--\r\n", bnd, hd, delim))
        } else {
            (format!("--{}\r\n{}", bnd, hd).into_bytes(), format!("{}--\r\n", delim))
        };
        let mode = c.r.below(9);
        let threshold = *c.r.pick(&[0u64, 100, 10_240, 60_000]);
        let minb = *c.r.pick(&[0usize, 0, 2000, 8192, 30_000]);
        let chunk = *c.r.pick(&[1usize << 30, 8192, 1000, 1 << 16]);
        let policy = c.r.below(3);
        let flow = Flow { head, pat: pat.clone(), n, tail: tail.into_bytes(), pos: 0, chunk };
        let body_len = flow.len();
        let dir = scratch::fresh("mem");
        c.note(format!("boundary {:?}, {} bytes of pattern {}, garbage before first delimiter: {}, mode {}, threshold {}, min_buf {}, transport reads of {}", bnd, n, show(&pat), garbage, mode, threshold, minb, chunk));
        let (res, peak) = alloc::peak(|| -> Result<u64, String> {
            let mut mp = Multipart::with_body(flow, bnd.as_str());
            let mut total = 0u64;
            if mode == 8 {
                let s = mp.save().memory_threshold(threshold).size_limit(None);
                let e = match s.with_dir(&dir) {
                    SaveResult::Full(e) => e,
                    SaveResult::Partial(_, r) => fail!("save stopped: {:?}", r),
                    SaveResult::Error(e) => fail!("save failed: {:?}", e),
                };
                return Ok(e.fields.values().flat_map(|v| v.iter()).map(|f| f.data.size()).sum());
            }
            {
                let mut f = mp.read_entry().map_err(|e| format!("{:?}", e))?.ok_or("no entry")?;
                if minb > 0 {
                    f.data.set_min_buf_size(minb);
                }
                match mode {
                    0 => total = n,
                    1 => {
                        let mut b = [0u8; 4096];
                        loop {
                            let k = f.data.read(&mut b).map_err(|e| format!("{:?}", e))?;
                            if k == 0 {
                                break;
                            }
                            total += k as u64;
                        }
                    }
                    2 => loop {
                        let k = f.data.fill_buf().map_err(|e| format!("{:?}", e))?.len();
                        if k == 0 {
                            break;
                        }
                        f.data.consume(k);
                        total += k as u64;
                    },
                    3 => loop {
                        let k = f.data.fill_buf().map_err(|e| format!("{:?}", e))?.len();
                        if k == 0 {
                            break;
                        }
                        let k = k.min(97);
                        f.data.consume(k);
                        total += k as u64;
                    },
                    4 => {
                        // peek, then skip
                        f.data.fill_buf().map_err(|e| format!("{:?}", e))?;
                        total = n;
                    }
                    5 => match f.data.save().size_limit(None).write_to(io::sink()) {
                        SaveResult::Full(k) => total = k,
                        _ => fail!("write_to did not finish"),
                    },
                    _ => {
                        let mut s = f.data.save().size_limit(None).memory_threshold(threshold);
                        s = match policy {
                            0 => s.try_text(),
                            1 => s.force_text(),
                            _ => s.ignore_text(),
                        };
                        match s.with_path(dir.join("f")) {
                            SaveResult::Full(d) => total = d.size(),
                            SaveResult::Partial(d, PartialReason::Utf8Error(_)) if policy == 1 => total = n.max(d.size()),
                            SaveResult::Partial(_, r) => fail!("save stopped: {:?}", r),
                            SaveResult::Error(e) => fail!("save failed: {:?}", e),
                        }
                    }
                }
            }
            match mp.read_entry() {
                Ok(None) => Ok(total),
                Ok(Some(_)) => Err("unexpected second entry".into()),
                Err(e) => Err(format!("instead of the end: {:?}", e)),
            }
        });
        scratch::done(&dir);
        c.eval();
        let total = res?;
        let want = if garbage { 1 } else { n };
        if !(garbage && matches!(mode, 0 | 4 | 6 | 7)) {
            ensure!(total == want, "{} bytes came through, {} were sent", total, want);
        }
        let bound = MEM_BOUND + 4 * minb + if mode >= 6 { 4 * threshold as usize } else { 0 };
        ensure!(peak <= bound, "peak heap use {} bytes for a body of {} bytes (bound {})", peak, body_len, bound);
        c.count("peaks_measured");
        c.add("bytes_streamed", body_len);
        c.max("highest_peak_heap_bytes", peak as u64);
        c.distinct(format!("{} {} {} {} {:?}", mode, threshold, minb, garbage, &pat[..pat.len().min(20)]).as_bytes());
        c.sample(|| format!("mode {} pattern {} body {} bytes: peak {} bytes", mode, show(&pat), body_len, peak));
        Ok(())
    });
    // very many small parts
    ctx.cases("many-parts", ctx.n(16, 60), |c| {
        let one = b"--bnd\r\nContent-Disposition: form-data; name=\"a\"; filename=\"b\"\r\nContent-Type: text/plain\r\n\r\n0123456789\r\n".to_vec();
        let k = ctx.n(10_000, 200_000) as u64;
        let flow = Flow { head: vec![], n: one.len() as u64 * k, pat: one, tail: b"--bnd--\r\n".to_vec(), pos: 0, chunk: *c.r.pick(&[100, 5000, 1 << 20]) };
        let read = c.r.bool();
        let (res, peak) = alloc::peak(|| -> Result<u64, String> {
            let mut mp = Multipart::with_body(flow, "bnd");
            let mut seen = 0;
            while let Some(mut f) = mp.read_entry().map_err(|e| format!("{:?}", e))? {
                if read {
                    let mut s = String::new();
                    f.data.read_to_string(&mut s).map_err(|e| format!("{:?}", e))?;
                    ensure!(s == "0123456789", "part {}: {:?}", seen, s);
                }
                seen += 1;
            }
            Ok(seen)
        });
        c.eval();
        let seen = res?;
        ensure!(seen == k, "{} parts seen, {} sent", seen, k);
        ensure!(peak <= MEM_BOUND, "peak heap use {} bytes for {} small parts", peak, k);
        c.count("peaks_measured");
        c.max("highest_peak_heap_bytes_many_parts", peak as u64);
        c.distinct(&[read as u8, c.idx as u8]);
        Ok(())
    });
    // long boundaries and huge header sections must not grow buffers with the input either
    ctx.cases("headers", ctx.n(40, 400), |c| {
        let n = 1024 * 1024 * (1 + c.r.below(3)) as u64;
        let kinds: [&[u8]; 5] = [b"a", b"X-H: v\r\n", b"Content-Disposition: ", b"\r", b": "];
        let flow = Flow { head: b"--bnd\r\nContent-Disposition: form-data; name=\"".to_vec(), pat: c.r.pick(&kinds).to_vec(), n, tail: b"\"\r\n\r\nx\r\n--bnd--\r\n".to_vec(), pos: 0, chunk: *c.r.pick(&[100, 1 << 20]) };
        let (res, peak) = alloc::peak(|| {
            let mut mp = Multipart::with_body(flow, "bnd");
            let mut k = 0;
            for _ in 0..3 {
                match mp.read_entry() {
                    Ok(None) => break,
                    Ok(Some(_)) => k += 1,
                    Err(_) => k += 100,
                }
            }
            k
        });
        c.eval();
        ensure!(res >= 100, "a {} byte header section was accepted", n);
        ensure!(peak <= MEM_BOUND, "peak heap use {} bytes for a header section of {} bytes", peak, n);
        c.count("peaks_measured");
        Ok(())
    });
}

// ------------------------------------------------------------------ C04

/// Read the data in a random way, comparing with `want`; may stop anywhere.
fn poke<M: multipart::server::ReadEntry>(c: &mut Case, d: &mut MultipartData<M>, want: &[u8], log: &mut Vec<String>) -> Res {
    let mut at = 0;
    let n = match c.r.below(6) {
        0 => 0,
        1 => 1,
        2 => c.r.range(2, 4),
        _ => c.r.range(2, 25),
    };
    for _ in 0..n {
        let left = &want[at..];
        match c.r.below(13) {
            0..=2 => {
                let k = match c.r.below(5) {
                    0 => 1,
                    1 => c.r.range(1, 20),
                    2 => c.r.range(1, left.len() + 1),
                    3 => left.len().saturating_sub(c.r.below(4)).max(1),
                    _ => c.r.range(1000, 9000),
                };
                let mut b = vec![0u8; k];
                let got = d.read(&mut b).map_err(|e| format!("read({}) at {}: {:?}", k, at, e))?;
                log.push(format!("read({})={}", k, got));
                ensure!(got <= left.len() && b[..got] == left[..got], "read({}) at offset {} of {}: {}", k, at, want.len(), diff(&b[..got], left));
                ensure!(got > 0 || left.is_empty(), "read({}) returned no data at offset {} of {}", k, at, want.len());
                at += got;
                c.count("reads");
            }
            3 | 4 => {
                let b = d.fill_buf().map_err(|e| format!("fill_buf at {}: {:?}", at, e))?;
                log.push(format!("peek={}", b.len()));
                ensure!(b.len() <= left.len() && *b == left[..b.len()], "fill_buf at offset {} of {}: {}", at, want.len(), diff(b, left));
                ensure!(!b.is_empty() || left.is_empty(), "fill_buf returned no data at offset {} of {}", at, want.len());
                c.count("peeks");
            }
            5..=7 => {
                let len = {
                    let b = d.fill_buf().map_err(|e| format!("fill_buf at {}: {:?}", at, e))?;
                    ensure!(b.len() <= left.len() && *b == left[..b.len()], "fill_buf at offset {} of {}: {}", at, want.len(), diff(b, left));
                    ensure!(!b.is_empty() || left.is_empty(), "fill_buf returned no data at offset {} of {}", at, want.len());
                    b.len()
                };
                let k = match c.r.below(4) {
                    0 => len,
                    1 => len.min(1),
                    2 => len.saturating_sub(c.r.below(3)),
                    _ => c.r.range(0, len),
                };
                d.consume(k);
                log.push(format!("peek={},consume({})", len, k));
                at += k;
                c.count("partial_consumes");
            }
            8 => {
                let k = *c.r.pick(&[0usize, 1, 5, 64, 512, 1000, 1024, 1025, 2048, 4000, 4096, 4097, 5000, 6000, 8000, 8191, 8192, 8193, 10_000, 20_000]);
                d.set_min_buf_size(k);
                log.push(format!("min_buf({})", k));
                c.count("min_buf_changes");
            }
            9 => {
                let k = d.read(&mut []).map_err(|e| format!("{:?}", e))?;
                ensure!(k == 0, "read into an empty buffer returned {}", k);
            }
            10 => {
                let mut v = vec![];
                d.read_to_end(&mut v).map_err(|e| format!("read_to_end at {}: {:?}", at, e))?;
                log.push(format!("read_to_end={}", v.len()));
                ensure!(v == left, "read_to_end at offset {} of {}: {}", at, want.len(), diff(&v, left));
                at = want.len();
                c.count("read_to_ends");
            }
            11 => {
                // lines, as BufRead users do
                let mut v = vec![];
                d.read_until(b'\n', &mut v).map_err(|e| format!("read_until at {}: {:?}", at, e))?;
                let k = left.iter().position(|b| *b == b'\n').map_or(left.len(), |i| i + 1);
                log.push(format!("read_until={}", v.len()));
                ensure!(v == left[..k], "read_until at offset {} of {}: {}", at, want.len(), diff(&v, &left[..k]));
                at += k;
            }
            _ => {
                let k = c.r.range(0, left.len());
                let mut v = vec![0; k];
                d.read_exact(&mut v).map_err(|e| format!("read_exact({}) at {} of {}: {:?}", k, at, want.len(), e))?;
                ensure!(v == left[..k], "read_exact at offset {} of {}: {}", at, want.len(), diff(&v, &left[..k]));
                log.push(format!("read_exact({})", k));
                at += k;
            }
        }
        if at == want.len() && c.r.bool() {
            for _ in 0..c.r.range(1, 3) {
                let mut b = [0u8; 50];
                let k = d.read(&mut b).map_err(|e| format!("read past the end: {:?}", e))?;
                ensure!(k == 0, "read past the end of the field returned {}", show(&b[..k]));
                let b = d.fill_buf().map_err(|e| format!("fill_buf past the end: {:?}", e))?;
                ensure!(b.is_empty(), "fill_buf past the end of the field returned {}", show(b));
                c.count("reads_past_field_end");
            }
            log.push("past-end".into());
        }
    }
    if at == 0 {
        c.count("fields_skipped_whole");
    } else if at < want.len() {
        c.count("fields_left_partly_read");
    } else {
        c.count("fields_read_whole");
    }
    Ok(())
}

fn walk(c: &mut Case, b: &Body, plan: &Plan, driver: usize, log: &mut Vec<String>) -> Res {
    let src = Src::new(b.bytes.clone(), plan.clone());
    let mut mp = Multipart::with_body(src, b.boundary.as_str());
    let n = b.parts.len();
    let end_err = |i: usize, what: &str| format!("{} instead of part {} of {}", what, i, n);
    match driver {
        0 => {
            for i in 0..=n + 1 {
                match mp.read_entry() {
                    Ok(Some(mut f)) => {
                        ensure!(i < n, "extra entry {:?}", f.headers);
                        log.push(format!("[{}]", i));
                        check_headers(&f.headers, &b.parts[i]).map_err(|e| format!("part {}: {}", i, e))?;
                        poke(c, &mut f.data, &b.parts[i].content, log)?;
                    }
                    Ok(None) => ensure!(i >= n, "{}", end_err(i, "end")),
                    Err(e) => fail!("{}", end_err(i, &format!("{:?}", e))),
                }
            }
        }
        1 => {
            let mut res = mp.into_entry();
            let mut i = 0;
            loop {
                match res {
                    ReadEntryResult::Entry(mut f) => {
                        ensure!(i < n, "extra entry {:?}", f.headers);
                        log.push(format!("[{}]", i));
                        check_headers(&f.headers, &b.parts[i]).map_err(|e| format!("part {}: {}", i, e))?;
                        poke(c, &mut f.data, &b.parts[i].content, log)?;
                        i += 1;
                        res = if c.r.bool() { f.next_entry() } else { f.data.into_inner().into_entry() };
                    }
                    ReadEntryResult::End(m) => {
                        ensure!(i >= n, "{}", end_err(i, "end"));
                        i += 1;
                        if i > n + 2 {
                            break;
                        }
                        res = m.into_entry();
                    }
                    ReadEntryResult::Error(_, e) => fail!("{}", end_err(i, &format!("{:?}", e))),
                }
            }
        }
        2 => {
            let mut f = match mp.into_entry() {
                ReadEntryResult::Entry(f) => f,
                ReadEntryResult::End(_) => {
                    ensure!(n == 0, "{}", end_err(0, "end"));
                    return Ok(());
                }
                ReadEntryResult::Error(_, e) => fail!("{}", end_err(0, &format!("{:?}", e))),
            };
            for i in 0..n + 2 {
                if i < n {
                    log.push(format!("[{}]", i));
                    check_headers(&f.headers, &b.parts[i]).map_err(|e| format!("part {}: {}", i, e))?;
                    poke(c, &mut f.data, &b.parts[i].content, log)?;
                } else {
                    // after the end the field handle has no more data
                    let mut v = vec![];
                    f.data.read_to_end(&mut v).map_err(|e| format!("{:?}", e))?;
                    ensure!(v.is_empty(), "data after the end of the request: {}", show(&v));
                }
                match next_inplace(&mut f) {
                    Ok(true) => ensure!(i + 1 < n, "extra entry {:?}", f.headers),
                    Ok(false) => ensure!(i + 1 >= n, "{}", end_err(i + 1, "end")),
                    Err(e) => fail!("{}", end_err(i + 1, &format!("{:?}", e))),
                }
            }
        }
        3 => {
            let mut i = 0;
            let mut err = None;
            let stop = if c.r.chance(1, 3) { c.r.below(n + 1) } else { 0 };
            // part of the entries by reference first
            for k in 0..stop {
                match mp.read_entry() {
                    Ok(Some(mut f)) => {
                        check_headers(&f.headers, &b.parts[k]).map_err(|e| format!("part {}: {}", k, e))?;
                        poke(c, &mut f.data, &b.parts[k].content, log)?;
                    }
                    o => fail!("{}", end_err(k, &format!("{:?}", o.map(|o| o.is_some())))),
                }
                i += 1;
            }
            let res = mp.foreach_entry(|mut f| {
                if err.is_some() {
                    return;
                }
                log.push(format!("[{}]", i));
                let r = if i >= n {
                    Err(format!("extra entry {:?}", f.headers))
                } else {
                    check_headers(&f.headers, &b.parts[i]).map_err(|e| format!("part {}: {}", i, e)).and_then(|_| poke(c, &mut f.data, &b.parts[i].content, log))
                };
                if let Err(e) = r {
                    err = Some(e);
                }
                i += 1;
            });
            if let Some(e) = err {
                return Err(e);
            }
            res.map_err(|e| end_err(i, &format!("{:?}", e)))?;
            ensure!(i == n, "callback saw {} of {} parts", i, n);
            let mut again = 0;
            mp.foreach_entry(|_| again += 1).map_err(|e| format!("second foreach_entry: {:?}", e))?;
            ensure!(again == 0, "second foreach_entry saw {} parts", again);
        }
        _ => {
            use multipart::server::ReadEntry;
            let mut res = mp.read_entry_mut();
            let mut i = 0;
            loop {
                match res {
                    ReadEntryResult::Entry(mut f) => {
                        ensure!(i < n, "extra entry {:?}", f.headers);
                        log.push(format!("[{}]", i));
                        check_headers(&f.headers, &b.parts[i]).map_err(|e| format!("part {}: {}", i, e))?;
                        poke(c, &mut f.data, &b.parts[i].content, log)?;
                        i += 1;
                        res = f.next_entry();
                    }
                    ReadEntryResult::End(m) => {
                        ensure!(i >= n, "{}", end_err(i, "end"));
                        i += 1;
                        if i > n + 2 {
                            break;
                        }
                        res = ReadEntry::read_entry(m);
                    }
                    ReadEntryResult::Error(_, e) => fail!("{}", end_err(i, &format!("{:?}", e))),
                }
            }
        }
    }
    Ok(())
}

fn next_inplace<R: Read>(f: &mut multipart::server::MultipartField<Multipart<R>>) -> io::Result<bool> {
    f.next_entry_inplace().map(|o| o.is_some())
}

pub fn c04(ctx: &Ctx) {
    ctx.expect(&["reads", "peeks", "partial_consumes", "min_buf_changes", "fields_left_partly_read", "fields_skipped_whole", "reads_past_field_end"]);
    let run = |c: &mut Case, b: &Body, plan: Plan| -> Res {
        let driver = c.r.below(5);
        let mut log = vec![];
        c.count(["driver_by_reference", "driver_by_value", "driver_in_place", "driver_callback", "driver_from_field"][driver]);
        split_stats(c, b, &plan);
        let res = guard(|| walk(c, b, &plan, driver, &mut log)).and_then(|r| r);
        c.eval();
        if let Err(e) = res {
            describe(c, b, &plan);
            c.note(format!("driver {} history {}", driver, log.join(" ")));
            return Err(e);
        }
        c.distinct(log.join(" ").as_bytes());
        c.sample(|| format!("driver {} over {} parts: {}", driver, b.parts.len(), log.join(" ").chars().take(300).collect::<String>()));
        Ok(())
    };
    ctx.cases("history", ctx.n(40_000, 1_200_000), |c| {
        let max = *c.r.pick(&[60, 3000, 40_000]);
        let b = gen::body(&mut c.r, 5, max);
        let mut marks = b.delims.clone();
        marks.extend_from_slice(&b.content_at);
        let plan = Plan::near(&mut c.r, &marks, b.boundary.len() + 8, b.bytes.len());
        run(c, &b, plan)
    });
    // reads that end in or right behind a delimiter with more than the minimum buffered before it
    ctx.cases("split", ctx.n(20_000, 600_000), |c| {
        let bnd = gen::boundary(&mut c.r);
        let parts: Vec<Part> = (0..3)
            .map(|i| {
                let n = *c.r.pick(&[0, 1, 500, 1000, 1024, 1100, 2000, 4000, 8000, 8150, 9000]) + c.r.below(30);
                gen::mk(["a", "b", "c"][i], None, None, gen::content(&mut c.r, &bnd, n))
            })
            .collect();
        let b = gen::encode(&mut c.r, &bnd, parts, &Layout::plain());
        let mut cuts: Vec<usize> = b.delims[1..].iter().map(|d| (d + c.r.below(bnd.len() + 7)).saturating_sub(3)).collect();
        cuts.sort();
        run(c, &b, Plan::Cuts(cuts))
    });
}

// ------------------------------------------------------------------ C05

type Got = (Vec<(multipart::server::FieldHeaders, Vec<u8>)>, Option<io::Error>, bool);

const APIS: &[&str] = &["read_entry()", "into_entry()", "next_entry()", "foreach_entry()", "next_entry_inplace()"];

/// Read everything there is until the first error or the clean end; `api` is the way of asking for entries.
/// The last of the result: on asking again after an error there was a clean end.
fn collect(b: &Body, data: Arc<Vec<u8>>, plan: &Plan, style: &Style, api: usize) -> Result<Got, String> {
    let size = data.len();
    let most = b.parts.len() + 1;
    let mut mp = Multipart::with_body(Src::new(data, plan.clone()), b.boundary.as_str());
    let mut got = vec![];
    // the content of an entry; an error is that of the request, unless it is one of the check
    let content = |d: io::Result<Vec<u8>>| -> Result<Result<Vec<u8>, io::Error>, String> {
        match d {
            Err(e) if e.to_string().starts_with("CHECK") => Err(e.to_string()),
            d => Ok(d),
        }
    };
    // asking again must not turn it into a clean end
    fn again<R: Read>(mp: &mut Multipart<R>) -> bool {
        (0..3).any(|_| matches!(mp.read_entry(), Ok(None)))
    }
    match api {
        1 | 2 => {
            let mut res = mp.into_entry();
            loop {
                ensure!(got.len() <= most, "more entries than parts");
                match res {
                    ReadEntryResult::Entry(mut f) => match content(read_all(&mut f.data, style, size, &mut vec![]))? {
                        Ok(d) => {
                            got.push((f.headers.clone(), d));
                            res = if api == 1 { f.data.into_inner().into_entry() } else { f.next_entry() };
                        }
                        Err(e) => return Ok((got, Some(e), false)),
                    },
                    ReadEntryResult::End(_) => return Ok((got, None, false)),
                    ReadEntryResult::Error(mut mp, e) => {
                        let ended = again(&mut mp) || matches!(multipart::server::ReadEntry::read_entry_mut(&mut mp), ReadEntryResult::End(_));
                        return Ok((got, Some(e), ended));
                    }
                }
            }
        }
        3 => {
            let mut bad = None;
            let mut failed = None;
            let res = mp.foreach_entry(|mut f| {
                if bad.is_some() || failed.is_some() {
                    return;
                }
                if got.len() > most {
                    bad = Some("more entries than parts".to_string());
                    return;
                }
                match content(read_all(&mut f.data, style, size, &mut vec![])) {
                    Err(e) => bad = Some(e),
                    Ok(Err(e)) => failed = Some(e),
                    Ok(Ok(d)) => got.push((f.headers.clone(), d)),
                }
            });
            if let Some(e) = bad {
                return Err(e);
            }
            match res {
                // what the callback met is an error all the same
                Ok(()) => Ok((got, failed, false)),
                Err(e) => {
                    let ended = again(&mut mp) || mp.foreach_entry(|_| ()).is_ok();
                    Ok((got, Some(e), ended))
                }
            }
        }
        4 => {
            let mut f = match mp.into_entry() {
                ReadEntryResult::Entry(f) => f,
                ReadEntryResult::End(_) => return Ok((got, None, false)),
                ReadEntryResult::Error(mut mp, e) => {
                    let ended = again(&mut mp);
                    return Ok((got, Some(e), ended));
                }
            };
            loop {
                ensure!(got.len() <= most, "more entries than parts");
                match content(read_all(&mut f.data, style, size, &mut vec![]))? {
                    Ok(d) => got.push((f.headers.clone(), d)),
                    Err(e) => return Ok((got, Some(e), false)),
                }
                match next_inplace(&mut f) {
                    Ok(true) => (),
                    Ok(false) => return Ok((got, None, false)),
                    Err(e) => {
                        let ended = (0..3).any(|_| matches!(next_inplace(&mut f), Ok(false)));
                        return Ok((got, Some(e), ended));
                    }
                }
            }
        }
        _ => loop {
            ensure!(got.len() <= most, "more entries than parts");
            match mp.read_entry() {
                Ok(Some(mut f)) => match content(read_all(&mut f.data, style, size, &mut vec![]))? {
                    Ok(d) => got.push((f.headers, d)),
                    Err(e) => return Ok((got, Some(e), false)),
                },
                Ok(None) => return Ok((got, None, false)),
                Err(e) => {
                    let ended = again(&mut mp);
                    return Ok((got, Some(e), ended));
                }
            }
        },
    }
}

fn judge_cut(c: &mut Case, b: &Body, t: usize, plan: &Plan, style: &Style) -> Res {
    let data = Arc::new(b.bytes[..t].to_vec());
    let api = c.r.below(APIS.len());
    let res = guard(|| collect(b, data.clone(), plan, style, api)).and_then(|x| x);
    c.eval();
    c.count(["cut_read_entry", "cut_into_entry", "cut_next_entry", "cut_foreach_entry", "cut_next_entry_inplace"][api]);
    let j = res.and_then(|(got, err, later_end)| {
        if t >= b.end {
            ensure!(err.is_none(), "complete body (cut after the closing delimiter) gave {:?}", err);
            ensure!(got.len() == b.parts.len(), "{} of {} parts", got.len(), b.parts.len());
        } else {
            ensure!(err.is_some(), "clean end although the body was cut at {} of {}", t, b.end);
            ensure!(!later_end, "clean end on asking again after the error, although the body was cut at {} of {}", t, b.end);
            c.count("cuts_reported");
        }
        for (i, (h, d)) in got.iter().enumerate() {
            ensure!(i < b.parts.len(), "extra part {:?}", h);
            let p = &b.parts[i];
            ensure!(b.content_at[i] <= t, "part {} delivered although its headers were cut", i);
            check_headers(h, p).map_err(|e| format!("part {}: {}", i, e))?;
            let complete = b.delims[i + 1] + 2 + b.boundary.len() <= t;
            if complete || i + 1 < got.len() {
                ensure!(complete, "part {} was cut but an entry follows it", i);
                ensure!(d == &p.content, "part {}: {}", i, diff(d, &p.content));
            } else {
                let raw = &data[b.content_at[i]..];
                ensure!(d.len() <= raw.len() && d[..] == raw[..d.len()], "cut part {} is not a prefix of what was sent: {}", i, diff(d, raw));
                c.count("cut_parts_delivered_as_prefix");
            }
        }
        Ok(())
    });
    if j.is_err() {
        describe(c, b, plan);
        c.note(format!("cut at {} (closing delimiter ends at {}), read through {} with {:?}", t, b.end, APIS[api], style));
    }
    j
}

fn judge_cut_save(c: &mut Case, b: &Body, t: usize, plan: &Plan) -> Res {
    let data = Arc::new(b.bytes[..t].to_vec());
    let dir = scratch::fresh("cut");
    let threshold = *c.r.pick(&[0u64, 50, 10240]);
    let res = guard(|| {
        let mut mp = Multipart::with_body(Src::new(data, plan.clone()), b.boundary.as_str());
        match mp.save().size_limit(None).memory_threshold(threshold).with_dir(&dir) {
            SaveResult::Full(e) => Some(e.fields_count()),
            SaveResult::Partial(p, PartialReason::IoError(_)) => {
                let _ = p;
                None
            }
            SaveResult::Partial(_, _) => None,
            SaveResult::Error(_) => None,
        }
    });
    scratch::done(&dir);
    c.eval();
    c.count("cut_requests_saved");
    match res {
        Ok(None) => Ok(()),
        Ok(Some(n)) => {
            describe(c, b, plan);
            Err(format!("saving a body cut at {} of {} reported full success with {} fields", t, b.end, n))
        }
        Err(e) => {
            describe(c, b, plan);
            Err(e)
        }
    }
}

pub fn c05(ctx: &Ctx) {
    ctx.expect(&["cut_read_entry", "cut_into_entry", "cut_next_entry", "cut_foreach_entry", "cut_next_entry_inplace", "cuts_reported", "cut_parts_delivered_as_prefix", "corruptions_reported", "cut_requests_saved", "bad_headers_reported"]);
    // every cut of small bodies
    ctx.cases("every-cut", ctx.n(350, 10_000), |c| {
        let b = gen::body(&mut c.r, 3, 40);
        for t in 0..=b.bytes.len().min(1500) {
            let plan = if c.r.chance(1, 3) { Plan::All } else { Plan::random(&mut c.r) };
            let style = Style::random(&mut c.r);
            judge_cut(c, &b, t, &plan, &style)?;
            if t < b.end && c.r.chance(1, 12) {
                judge_cut_save(c, &b, t, &plan)?;
            }
        }
        c.count("bodies_cut_everywhere");
        c.distinct(&b.bytes);
        c.sample(|| format!("every cut of {}", show(&b.bytes)));
        Ok(())
    });
    // cuts near the structure of larger bodies
    ctx.cases("structure", ctx.n(4000, 100_000), |c| {
        let b = gen::body(&mut c.r, 4, 20_000);
        let mut marks = b.delims.clone();
        marks.extend_from_slice(&b.content_at);
        for _ in 0..6 {
            let m = *c.r.pick(&marks);
            let t = (m + c.r.below(b.boundary.len() + 12)).saturating_sub(6).min(b.bytes.len());
            let t = if c.r.chance(1, 5) { c.r.below(b.bytes.len() + 1) } else { t };
            let plan = Plan::near(&mut c.r, &marks, b.boundary.len() + 8, b.bytes.len());
            let style = Style::random(&mut c.r);
            judge_cut(c, &b, t, &plan, &style)?;
            if t < b.end && c.r.chance(1, 5) {
                judge_cut_save(c, &b, t, &plan)?;
            }
        }
        c.distinct(&b.bytes);
        Ok(())
    });
    // wrong bytes behind a delimiter
    ctx.cases("corrupt-delimiter", ctx.n(8000, 200_000), |c| {
        let n = c.r.range(0, 3);
        let bnd = gen::boundary(&mut c.r);
        let max = *c.r.pick(&[30, 3000]);
        let parts = (0..n).map(|_| gen::part(&mut c.r, &bnd, max)).collect();
        let b = gen::encode(&mut c.r, &bnd, parts, &Layout::plain());
        let k = c.r.below(b.delims.len());
        let at = b.delims[k] + 2 + bnd.len();
        let mut bytes = b.bytes.to_vec();
        let bad: [u8; 2] = match c.r.below(9) {
            0 => *b"\n\n",
            1 => *b"\r-",
            2 => *b"-\r",
            3 => *b"-x",
            4 => *b"\r\r",
            5 => *b"  ",
            6 => *b"x-",
            7 => *b"\n\r",
            _ => [c.r.byte(), c.r.byte()],
        };
        if &bad == b"\r\n" || &bad == b"--" {
            return Ok(());
        }
        bytes[at] = bad[0];
        bytes[at + 1] = bad[1];
        // the damaged bytes may complete an earlier delimiter only if the boundary says so
        let d = [b"--", bnd.as_bytes()].concat();
        if gen::find(&bytes[b.delims[k] + 1..at + 2], &d).is_some() {
            return Ok(());
        }
        let data = Arc::new(bytes);
        let plan = Plan::near(&mut c.r, &b.delims, bnd.len() + 8, data.len());
        let style = Style::random(&mut c.r);
        let api = c.r.below(APIS.len());
        let res = guard(|| collect(&b, data.clone(), &plan, &style, api)).and_then(|x| x);
        c.eval();
        let j = res.and_then(|(got, err, later_end)| {
            ensure!(!later_end, "clean end on asking again, although delimiter {} is followed by {}", k, show(&bad));
            ensure!(err.is_some(), "clean end although delimiter {} is followed by {}", k, show(&bad));
            ensure!(got.len() == k, "{} parts delivered, delimiter {} is damaged", got.len(), k);
            for (i, (h, d)) in got.iter().enumerate() {
                check_part(h, d, &b.parts[i]).map_err(|e| format!("part {}: {}", i, e))?;
            }
            Ok(())
        });
        if j.is_err() {
            describe(c, &b, &plan);
            c.note(format!("delimiter {} followed by {}, read through {}", k, show(&bad), APIS[api]));
        }
        j?;
        c.count("corruptions_reported");
        c.distinct(&data);
        Ok(())
    });
    // header sections that are unusable
    ctx.cases("bad-headers", ctx.n(4000, 100_000), |c| {
        let bad = *c.r.pick(&[
            "\r\n",
            "Content-Type: text/plain\r\n\r\n",
            "Content-Disposition: attachment; name=\"a\"\r\n\r\n",
            "Content-Disposition: form-data\r\n\r\n",
            "Content-Disposition: form-data; filename=\"x\"\r\n\r\n",
            "Content-Disposition form-data; name=\"a\"\r\n\r\n",
            "Content-Disposition: form-data; name=\"a\"\r\nContent-Type: nonsense\r\n\r\n",
            "Content-Disposition: form-data; name=\"a\"\r\n",
            "Content-Disposition: form-data; name=\"a\"",
            "",
        ]);
        let bnd = gen::plain_boundary(&mut c.r);
        let n = c.r.below(3);
        let good: Vec<Part> = (0..n).map(|_| gen::part(&mut c.r, &bnd, 2000)).collect();
        let b = gen::encode(&mut c.r, &bnd, good, &Layout::plain());
        let mut v = b.bytes[..b.delims[n]].to_vec();
        v.extend_from_slice(format!("--{}\r\n{}", bnd, bad).as_bytes());
        if c.r.bool() {
            v.extend_from_slice(b"data");
        }
        v.extend_from_slice(format!("\r\n--{}--\r\n", bnd).as_bytes());
        let plan = Plan::random(&mut c.r);
        let style = Style::random(&mut c.r);
        let data = Arc::new(v);
        let api = c.r.below(APIS.len());
        let res = guard(|| collect(&b, data.clone(), &plan, &style, api)).and_then(|x| x).and_then(|(got, err, _)| {
            for (i, (h, d)) in got.iter().enumerate() {
                ensure!(i < n, "the part with headers {:?} was delivered as {:?}", bad, h);
                check_part(h, d, &b.parts[i])?;
            }
            ensure!(err.is_some(), "clean end although a part has headers {:?}", bad);
            ensure!(got.len() == n, "error {:?} before the damaged part", err);
            Ok(())
        });
        c.eval();
        if res.is_err() {
            c.note(format!("body {:?} read through {}", String::from_utf8_lossy(&data), APIS[api]));
        }
        res?;
        c.count("bad_headers_reported");
        c.distinct(&data);
        Ok(())
    });
    // no delimiter at all
    ctx.cases("no-delimiter", ctx.n(1000, 20_000), |c| {
        let bnd = gen::plain_boundary(&mut c.r);
        let n = gen::len(&mut c.r, 30_000);
        let mut v = gen::content(&mut c.r, &bnd, n);
        if c.r.bool() {
            v.extend_from_slice(&format!("\r\n--{}", bnd).as_bytes()[..c.r.below(bnd.len() + 4)]);
        }
        let data = Arc::new(v);
        let plan = Plan::random(&mut c.r);
        let b = Body { bytes: data.clone(), boundary: bnd.clone(), parts: vec![], delims: vec![], content_at: vec![], end: data.len() };
        let api = c.r.below(APIS.len());
        let style = Style::random(&mut c.r);
        c.eval();
        let res = guard(|| collect(&b, data.clone(), &plan, &style, api)).and_then(|x| x).and_then(|(got, err, later_end)| {
            ensure!(got.is_empty(), "an entry from a body without delimiter");
            ensure!(err.is_some() && !later_end, "clean end from a body without delimiter");
            Ok(())
        });
        if res.is_err() {
            c.note(format!("boundary {:?} body {} reads {:?}, read through {}", bnd, show(&data), plan, APIS[api]));
        }
        res?;
        c.count("cuts_reported");
        Ok(())
    });
}

// ------------------------------------------------------------------ C06

/// What a consumer does with the fields of a request read with faults.
struct Reading<'a> {
    b: &'a Body,
    style: &'a Style,
    faults: &'a [Fault],
    skip: u64,
    peek: bool,
    /// decides the minimum of buffered bytes of each field; 0: left as it is
    min: u64,
    seen: Vec<ErrorKind>,
    /// number of the next entry
    i: usize,
    steps: usize,
}

impl<'a> Reading<'a> {
    fn step(&mut self) -> Res {
        self.steps += 1;
        ensure!(self.steps < 1000 + self.b.parts.len(), "no progress");
        Ok(())
    }
    fn entry<M: multipart::server::ReadEntry>(&mut self, f: &mut multipart::server::MultipartField<M>) -> Res {
        let (i, b) = (self.i, self.b);
        ensure!(i < b.parts.len(), "extra entry {:?}", f.headers);
        check_headers(&f.headers, &b.parts[i]).map_err(|e| format!("part {}: {}", i, e))?;
        self.i += 1;
        if self.min != 0 {
            let mut r = Rng::new(self.min + i as u64);
            if r.chance(2, 3) {
                f.data.set_min_buf_size(*r.pick(&[0, 1, 100, 1024, 1025, 2000, 4000, 4096, 5000, 9000, 20_000]));
            }
        }
        if self.skip & (1 << (i % 64)) != 0 && self.skip & (1 << ((i + 7) % 64)) != 0 {
            if self.peek {
                match f.data.fill_buf() {
                    Ok(d) => ensure!(b.parts[i].content.starts_with(d), "peeked data of part {} is wrong", i),
                    Err(e) => self.seen.push(e.kind()),
                }
            }
            return Ok(());
        }
        let d = read_all(&mut f.data, self.style, b.bytes.len(), &mut self.seen).map_err(|e| format!("part {}: {:?}", i, e))?;
        ensure!(d == b.parts[i].content, "part {} of {}: {}", i, b.parts.len(), diff(&d, &b.parts[i].content));
        Ok(())
    }
    fn end(&mut self) -> Res {
        ensure!(self.i == self.b.parts.len(), "end of request after {} of {} parts", self.i, self.b.parts.len());
        Ok(())
    }
    fn error(&mut self, e: io::Error) -> Res {
        ensure!(self.faults.iter().any(|f| f.kind == e.kind()), "error {:?} which was not injected, before part {}", e, self.i);
        self.seen.push(e.kind());
        Ok(())
    }
}

/// Read all entries, asking for them in one of several ways and again after an error.
fn read_entries(mp: Multipart<Src>, rd: &mut Reading, way: usize) -> Res {
    let mut mp = mp;
    match way {
        0 => loop {
            rd.step()?;
            match mp.read_entry() {
                Ok(Some(mut f)) => rd.entry(&mut f)?,
                Ok(None) => return rd.end(),
                Err(e) => rd.error(e)?,
            }
        },
        1 => {
            let mut res = mp.into_entry();
            loop {
                rd.step()?;
                res = match res {
                    ReadEntryResult::Entry(mut f) => {
                        rd.entry(&mut f)?;
                        f.next_entry()
                    }
                    ReadEntryResult::End(_) => return rd.end(),
                    ReadEntryResult::Error(m, e) => {
                        rd.error(e)?;
                        m.into_entry()
                    }
                };
            }
        }
        2 => {
            let mut field = loop {
                rd.step()?;
                match mp.into_entry() {
                    ReadEntryResult::Entry(f) => break f,
                    ReadEntryResult::End(_) => return rd.end(),
                    ReadEntryResult::Error(m, e) => {
                        rd.error(e)?;
                        mp = m;
                    }
                }
            };
            rd.entry(&mut field)?;
            loop {
                rd.step()?;
                match next_inplace(&mut field) {
                    Ok(true) => rd.entry(&mut field)?,
                    Ok(false) => return rd.end(),
                    Err(e) => rd.error(e)?,
                }
            }
        }
        3 => loop {
            rd.step()?;
            let mut bad = Ok(());
            let res = mp.foreach_entry(|mut f| {
                if bad.is_ok() {
                    bad = rd.entry(&mut f);
                }
            });
            bad?;
            match res {
                Ok(()) => return rd.end(),
                Err(e) => rd.error(e)?,
            }
        },
        _ => {
            use multipart::server::ReadEntry;
            let mut res = mp.read_entry_mut();
            loop {
                rd.step()?;
                res = match res {
                    ReadEntryResult::Entry(mut f) => {
                        rd.entry(&mut f)?;
                        ReadEntry::read_entry(f.data.into_inner())
                    }
                    ReadEntryResult::End(_) => return rd.end(),
                    ReadEntryResult::Error(m, e) => {
                        rd.error(e)?;
                        ReadEntry::read_entry(m)
                    }
                };
            }
        }
    }
}

fn faulty(c: &mut Case, b: &Body, plan: &Plan, faults: Vec<Fault>, style: &Style) -> Res {
    let src = Src::new(b.bytes.clone(), plan.clone()).with_faults(faults.clone());
    let stats = src.stats();
    let mp = Multipart::with_body(src, b.boundary.as_str());
    let mut rd = Reading { b, style, faults: &faults, skip: c.r.u64(), peek: c.r.chance(1, 4), min: if c.r.chance(1, 4) { c.r.u64() >> 1 } else { 0 }, seen: vec![], i: 0, steps: 0 };
    let way = c.r.below(5);
    c.count(["way_by_reference", "way_by_value", "way_in_place", "way_callback", "way_reborrowed"][way]);
    let go = || read_entries(mp, &mut rd, way);
    let mut res = guard(go).and_then(|r| r);
    c.eval();
    let hit = stats.faults.load(Ordering::Relaxed);
    let seen = rd.seen;
    if res.is_ok() {
        c.add("faults_injected", hit as u64);
        c.add("faults_seen_by_caller", seen.len() as u64);
        let hard = |v: &[ErrorKind]| v.iter().filter(|k| **k != ErrorKind::Interrupted).count();
        let mut injected: Vec<ErrorKind> = faults.iter().map(|f| f.kind).collect();
        injected.truncate(hit);
        if faults.iter().all(|f| f.kind == faults[0].kind) {
            if faults.len() > 0 && faults[0].kind != ErrorKind::Interrupted && hard(&seen) != hit {
                res = Err(format!("{} faults {:?} injected, but the caller saw {:?}", hit, faults[0].kind, seen));
            }
        }
        if seen.len() > hit {
            res = Err(format!("{} faults injected, but the caller saw {:?}", hit, seen));
        }
    }
    if res.is_err() {
        describe(c, b, plan);
        c.note(format!("faults {:?}, read with {:?}, entries in way {}", faults, style, way));
    }
    res
}

pub fn saved_bytes(d: &SavedData) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    d.readable().map_err(|e| format!("readable: {:?}", e))?.read_to_end(&mut v).map_err(|e| format!("reading saved data: {:?}", e))?;
    Ok(v)
}

/// Save a whole request, finishing every partially saved field by hand and resuming until done.
pub fn save_resuming(mp: &mut Multipart<Src>, b: &Body, dir: &std::path::Path, threshold: u64, c: &mut Case) -> Res {
    use multipart::server::save::{Entries, SaveDir};
    let mut done: Vec<(String, Vec<u8>)> = vec![];
    let mut entries = Some(Entries::new(SaveDir::Perm(dir.to_path_buf())));
    let mut seen_partial = std::collections::HashMap::<String, Vec<Vec<u8>>>::new();
    for _round in 0..200 {
        let sv = mp.save().size_limit(None).count_limit(None).memory_threshold(threshold);
        match sv.with_entries(entries.take().unwrap()) {
            SaveResult::Full(e) => {
                // saved fields in order of appearance per name
                let mut want = std::collections::HashMap::<String, Vec<&Part>>::new();
                for p in &b.parts {
                    want.entry(p.name.clone()).or_default().push(p);
                }
                let mut got = std::collections::HashMap::<String, Vec<Vec<u8>>>::new();
                for (k, v) in &e.fields {
                    for f in v {
                        got.entry(k.to_string()).or_default().push(saved_bytes(&f.data)?);
                    }
                }
                for (k, v) in seen_partial.drain() {
                    got.entry(k).or_default().extend(v);
                }
                let mut names: Vec<_> = want.keys().cloned().collect();
                names.sort();
                let mut gnames: Vec<_> = got.keys().cloned().collect();
                gnames.sort();
                ensure!(names == gnames, "saved field names {:?}, sent {:?}", gnames, names);
                for (k, ps) in want {
                    let mut g = got.remove(&k).unwrap();
                    let mut w: Vec<Vec<u8>> = ps.iter().map(|p| p.content.clone()).collect();
                    g.sort();
                    w.sort();
                    ensure!(g == w, "contents saved for {:?}: {} of {} fields, or altered", k, g.len(), w.len());
                }
                let _ = &mut done;
                return Ok(());
            }
            SaveResult::Partial(p, PartialReason::IoError(e)) => {
                ensure!(transient(e.kind()), "error {:?} which was not injected", e);
                c.count("saves_interrupted");
                if let Some(part) = p.partial {
                    let mut src = part.source;
                    let name = src.headers.name.to_string();
                    let mut v = match part.dest {
                        Some(d) => saved_bytes(&d)?,
                        None => vec![],
                    };
                    c.add("bytes_saved_before_interruption", v.len() as u64);
                    let rest = read_all(&mut src.data, &Style::Read(1000), b.bytes.len(), &mut vec![]).map_err(|e| format!("rest of {:?}: {:?}", name, e))?;
                    v.extend(rest);
                    seen_partial.entry(name).or_default().push(v);
                }
                entries = Some(p.entries);
            }
            SaveResult::Partial(_, r) => fail!("unexpected reason {:?}", r),
            SaveResult::Error(e) => fail!("error {:?}", e),
        }
    }
    Err("saving never finished".into())
}

pub fn c06(ctx: &Ctx) {
    ctx.expect(&["faults_injected", "faults_seen_by_caller", "saves_interrupted", "bytes_saved_before_interruption", "single_faults_enumerated", "way_by_reference", "way_by_value", "way_in_place", "way_callback", "way_reborrowed"]);
    let kinds = [ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::TimedOut];
    // every single read call of the transport as the failing one
    ctx.cases("each-call", ctx.n(900, 30_000), |c| {
        let edge = c.r.chance(1, 5);
        let max = if edge { 30_000 } else { *c.r.pick(&[40, 2500, 12_000]) };
        let b = gen::body(&mut c.r, 4, max);
        let mut marks = b.delims.clone();
        marks.extend_from_slice(&b.content_at);
        let plan = match c.r.below(3) {
            // reads that nearly fill the buffer, with delimiters and headers at its end
            _ if edge => {
                let mut cuts = vec![8192 - c.r.below(300), 8192, 16_384 - c.r.below(300)];
                if c.r.bool() {
                    cuts.remove(1);
                } else {
                    cuts.extend(marks.iter().map(|m| (m + c.r.below(40)).saturating_sub(c.r.below(20))));
                }
                cuts.retain(|x| *x > 0 && *x < b.bytes.len());
                cuts.sort();
                cuts.dedup();
                Plan::Cuts(cuts)
            }
            0 => Plan::Fixed((b.bytes.len() / 25).max(1)),
            1 => Plan::Random(c.r.u64(), (b.bytes.len() / 12).max(2)),
            _ => Plan::near(&mut c.r, &marks, b.boundary.len() + 8, b.bytes.len()),
        };
        let style = Style::random(&mut c.r);
        let src = Src::new(b.bytes.clone(), plan.clone());
        let stats = src.stats();
        let mut mp = Multipart::with_body(src, b.boundary.as_str());
        check_all(&mut mp, &b, &mut || style.clone()).map_err(|e| format!("without faults: {}", e))?;
        let calls = stats.calls.load(Ordering::Relaxed).min(60);
        for at in 0..calls {
            let kind = *c.r.pick(&kinds);
            faulty(c, &b, &plan, vec![Fault { at, kind }], &style)?;
            c.count("single_faults_enumerated");
        }
        // several in a row and scattered
        for _ in 0..5 {
            let kind = *c.r.pick(&kinds);
            let start = c.r.below(calls + 1);
            let mut f: Vec<Fault> = (0..c.r.range(2, 5)).map(|i| Fault { at: start + i, kind }).collect();
            if c.r.bool() {
                f = (0..c.r.range(2, 6)).map(|_| Fault { at: c.r.below(calls + 4), kind: *c.r.pick(&kinds) }).collect();
                f.sort_by_key(|f| f.at);
                f.dedup_by_key(|f| f.at);
            }
            faulty(c, &b, &plan, f, &style)?;
        }
        c.distinct(format!("{:x} {:?} {:?}", crate::rng::hash(&b.bytes), plan, style).as_bytes());
        c.sample(|| format!("{} parts in {} bytes as {:?}: fault at each of {} reads", b.parts.len(), b.bytes.len(), plan, calls));
        Ok(())
    });
    // fault at each of the first calls with one byte per read around the headers
    ctx.cases("headers", ctx.n(300, 10_000), |c| {
        let b = gen::body(&mut c.r, 3, 20);
        let style = Style::random(&mut c.r);
        for at in 0..b.bytes.len().min(400) {
            let kind = *c.r.pick(&kinds);
            faulty(c, &b, &Plan::Fixed(1), vec![Fault { at, kind }], &style)?;
        }
        c.distinct(&b.bytes);
        Ok(())
    });
    ctx.cases("save", ctx.n(2500, 80_000), |c| {
        let b = gen::body(&mut c.r, 5, 20_000);
        let plan = Plan::Random(c.r.u64(), *c.r.pick(&[300, 3000]));
        let src = Src::new(b.bytes.clone(), plan.clone());
        let stats = src.stats();
        let mut mp = Multipart::with_body(src, b.boundary.as_str());
        check_all(&mut mp, &b, &mut || Style::FillAll).map_err(|e| format!("without faults: {}", e))?;
        let calls = stats.calls.load(Ordering::Relaxed);
        for _ in 0..4 {
            let kind = *c.r.pick(&[ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::TimedOut]);
            let mut f: Vec<Fault> = (0..c.r.range(1, 3)).map(|_| Fault { at: c.r.below(calls), kind }).collect();
            f.sort_by_key(|f| f.at);
            f.dedup_by_key(|f| f.at);
            let threshold = *c.r.pick(&[0, 1, 500, 10240, u64::MAX]);
            let dir = scratch::fresh("resume");
            let mut mp = Multipart::with_body(Src::new(b.bytes.clone(), plan.clone()).with_faults(f.clone()), b.boundary.as_str());
            let res = guard(|| save_resuming(&mut mp, &b, &dir, threshold, c)).and_then(|r| r);
            scratch::done(&dir);
            c.eval();
            if res.is_err() {
                describe(c, &b, &plan);
                c.note(format!("faults {:?} threshold {}", f, threshold));
            }
            res?;
        }
        c.distinct(&b.bytes);
        Ok(())
    });
}

// ------------------------------------------------------------------ C07

fn token(r: &mut Rng) -> String {
    (0..r.range(1, 12)).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.") as char).collect()
}

fn cased(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        _ => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

/// A valid content type: as sent, and as it is to be reported
fn content_type(r: &mut Rng) -> (String, mime::Mime) {
    loop {
        let mut t = if r.bool() {
            (*r.pick(gen::CTYPES)).to_string()
        } else {
            let top = *r.pick(&["text", "image", "application", "multipart", "audio", "message", "x-own", "texts", "tex"]);
            let top = cased(r, top);
            format!("{}/{}{}", top, token(r), *r.pick(&["", "", "+xml", "+JSON"]))
        };
        for _ in 0..r.below(3) {
            let name = match r.below(5) {
                0 => "charset".to_string(),
                1 => "Boundary".to_string(),
                2 => "name".to_string(),
                _ => token(r),
            };
            let value = match r.below(4) {
                0 => (*r.pick(&["UTF-8", "utf-8", "us-ascii", "Windows-1252", "US-ASCII", "ISO-8859-15"])).to_string(),
                1 => format!("\"{}\"", token(r)),
                2 => format!("\"{} {};\"", token(r), token(r)),
                _ => token(r),
            };
            t.push_str(&format!("{}{}={}", r.pick(&[";", "; "]), name, value));
        }
        if let Ok(m) = t.parse() {
            return (t, m);
        }
    }
}

fn qvalue(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        return String::new();
    }
    if r.chance(1, 40) {
        // long
        let n = r.range(60, 340);
        return (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', ';', '=', '.', '-'])).collect();
    }
    let pieces = [
        ";", "=", "; ", "name=", "filename=", "name=x;", "; filename=evil", "; name=evil", " ", "é", "日本", "\\", "'", "/", "..", "%22", ",", ":", "*", "form-data", "&", "<", "🎉", "\u{a0}",
        "%0D%0A", "%0d", "%20", "+", "&amp;", "&#34;", "&quot;", "\u{feff}", "C:\\dir\\", "/tmp/", "=?utf-8?B?w6Q=?=", "utf-8''", "\\n", "\\\\", "a\u{308}", "\u{202e}", "\t", "~", "$HOME", "`", "[0]", "[]", "{", "\u{fffd}",
    ];
    let mut s = String::new();
    for _ in 0..r.range(1, 8) {
        if r.bool() {
            s.push_str(*r.pick(&pieces[..]));
        } else {
            s.push_str(&token(r));
        }
    }
    s
}

/// Headers no part can have, and what is wrong with them
fn rejected(r: &mut Rng) -> (&'static str, Vec<String>) {
    let v = qvalue(r);
    let ok = "Content-Disposition: form-data; name=\"a\"".to_string();
    let (kind, mut lines): (&'static str, Vec<String>) = match r.below(9) {
        0 => ("missing Content-Disposition", vec![format!("X-Other: form-data; name=\"{}\"", v)]),
        1 => {
            let t = *r.pick(&["attachment", "inline", "form-data2", "formdata", "x-form-data", "file", ""]);
            ("not form-data", vec![format!("Content-Disposition: {}; name=\"a\"", t)])
        }
        2 => ("no parameters", vec!["Content-Disposition: form-data".into()]),
        3 => ("no name", vec![format!("Content-Disposition: form-data; filename=\"{}\"", v)]),
        4 => ("no name", vec![format!("Content-Disposition: form-data; filename=\"x; name=y\"; foo=\"name={}\"", token(r))]),
        5 => ("no name", vec![format!("Content-Disposition: form-data; xname=\"{}\"", token(r))]),
        6 => {
            let t = *r.pick(&["text", "/", "/plain", "text plain", "text/plain/html", ";", "text/pl ain", "a b/c", "text/plain; charset"]);
            ("bad Content-Type", vec![ok, format!("Content-Type: {}", t)])
        }
        7 => {
            let n = r.range(4, 12);
            let mut v = vec![ok];
            for i in 0..n {
                v.push(format!("X-{}: {}", i, token(r)));
            }
            ("too many headers", v)
        }
        _ => ("malformed line", vec![ok, (*r.pick(&["no colon here", " leading: space", "bad name: x", "\u{1}: x"])).to_string()]),
    };
    if kind != "malformed line" {
        r.shuffle(&mut lines);
    }
    (kind, lines)
}

pub fn c07(ctx: &Ctx) {
    ctx.expect(&["valid_headers", "filename_before_name", "values_with_semicolon", "values_with_quotes", "bare_values", "rejected_headers", "rejected_parts_left_behind", "text_fields", "binary_fields"]);
    ctx.assume("quoted values contain no double quote, CR or LF; content types are valid ones, and are expected to be what the mime crate takes them for");
    ctx.cases("valid", ctx.n(60_000, 2_000_000), |c| {
        let r = &mut c.r;
        let mut counts: Vec<&'static str> = vec![];
        let name_bare = r.chance(1, 6);
        let name = if name_bare { token(r) } else { qvalue(r) };
        let file_bare = r.chance(1, 6);
        let filename = if r.chance(2, 3) { Some(if file_bare { token(r) } else { qvalue(r) }) } else { None };
        let q = |bare: bool, s: &str| if bare { s.to_string() } else { format!("\"{}\"", s) };
        let mut params: Vec<String> = vec![format!("name={}", q(name_bare, &name))];
        if name_bare || (file_bare && filename.is_some()) {
            counts.push("bare_values");
        }
        if let Some(ref f) = filename {
            params.push(format!("filename={}", q(file_bare, f)));
        }
        if r.chance(1, 4) {
            params.push(match r.below(6) {
                0 => format!("size={}", r.below(1000)),
                1 => format!("x-name=\"{}\"", qvalue(r)),
                2 => "filename*=UTF-8''na%20me.txt".to_string(),
                3 => format!("creation-date=\"{}\"", qvalue(r)),
                4 => format!("username=\"{}\"", token(r)),
                _ => "flag".to_string(),
            });
        }
        r.shuffle(&mut params);
        let ni = params.iter().position(|p| p.starts_with("name=")).unwrap();
        if params.iter().position(|p| p.starts_with("filename=")).map_or(false, |i| i < ni) {
            counts.push("filename_before_name");
        }
        if name.contains(';') || filename.as_ref().map_or(false, |f| f.contains(';')) {
            counts.push("values_with_semicolon");
        }
        let seps = ["; ", ";", " ; ", ";  ", ";\t"];
        let mut cd = String::from(*r.pick(&["form-data", "form-data", "form-data "]));
        for p in &params {
            cd.push_str(*r.pick(&seps[..]));
            cd.push_str(p);
        }
        if r.chance(1, 10) {
            cd.push(';');
        }
        let ctype = if r.bool() { Some(content_type(r)) } else { None };
        let ows = ["", " ", " ", "  ", "\t"];
        let mut lines = vec![format!("{}:{}{}", cased(r, "Content-Disposition"), r.pick(&ows), cd)];
        if let Some((ref t, _)) = ctype {
            lines.push(format!("{}:{}{}", cased(r, "Content-Type"), r.pick(&ows), t));
        }
        let room = 4 - lines.len();
        for _ in 0..r.below(room + 1) {
            lines.push((*r.pick(&["Content-Transfer-Encoding: binary", "X-Name: name=\"no\"; filename=\"no\"", "Content-Length: 5", "Content-Disposition-X: form-data; name=\"no\"", "X-Content-Type: image/gif", "Content-Language: de"])).to_string());
        }
        r.shuffle(&mut lines);
        let head = lines.join("\r\n") + "\r\n\r\n";
        let bnd = gen::plain_boundary(r);
        if head.len() > 900 || head.contains(&bnd) {
            return Ok(());
        }
        let text = ctype.as_ref().map_or(true, |(_, m)| m.type_() == mime::TEXT);
        let ctype = ctype.map(|(_, m)| m.to_string());
        let n = r.below(30);
        let data = gen::content(r, &bnd, n);
        let body = [format!("--{}\r\n{}", bnd, head).as_bytes(), &data, format!("\r\n--{}--\r\n", bnd).as_bytes()].concat();
        let plan = Plan::random(r);
        c.note(format!("headers {:?} as {:?}", head, plan));
        for k in counts {
            c.count(k);
        }
        c.eval();
        let mut mp = Multipart::with_body(Src::new(Arc::new(body), plan), bnd);
        let want = Part { name, filename, ctype, content: data };
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                let mut d = vec![];
                f.data.read_to_end(&mut d).map_err(|e| format!("{:?}", e))?;
                check_part(&f.headers, &d, &want)?;
                ensure!(f.is_text() == text, "is_text() is {} for content type {:?}", f.is_text(), want.ctype);
            }
            Ok(None) => fail!("no entry"),
            Err(e) => fail!("valid headers were rejected: {:?}", e),
        }
        c.count("valid_headers");
        c.count(if text { "text_fields" } else { "binary_fields" });
        c.distinct(head.as_bytes());
        c.sample(|| head.clone());
        c.desc.clear();
        Ok(())
    });
    // quotes inside of a value, escaped the way browsers used to; how it is delivered is up to the crate, but not cut off
    ctx.cases("inner-quotes", ctx.n(4000, 100_000), |c| {
        let r = &mut c.r;
        let mut value = |r: &mut Rng| {
            let mut s = token(r);
            for _ in 0..r.range(1, 3) {
                s.push('"');
                s.push_str(&token(r));
            }
            s
        };
        let (name, file) = (value(r), value(r));
        let esc = |s: &str| s.replace('"', "\\\"");
        let mut params = [format!("name=\"{}\"", esc(&name)), format!("filename=\"{}\"", esc(&file))];
        r.shuffle(&mut params);
        let data = r.bytes(10);
        let bnd = "----inner-quotes----";
        let body = [format!("--{}\r\nContent-Disposition: form-data; {}; {}\r\n\r\n", bnd, params[0], params[1]).as_bytes(), &data, format!("\r\n--{}--\r\n", bnd).as_bytes()].concat();
        c.note(format!("headers {:?}", params));
        c.eval();
        c.distinct(params.join(" ").as_bytes());
        let mut mp = Multipart::with_body(Src::new(Arc::new(body), Plan::All), bnd);
        let mut f = mp.read_entry().map_err(|e| format!("{:?}", e))?.ok_or("no entry")?;
        let ok = |got: &str, want: &str| got == want || got == esc(want);
        ensure!(ok(&f.headers.name, &name), "name {:?} of {:?}", f.headers.name, name);
        ensure!(f.headers.filename.as_ref().map_or(false, |g| ok(g, &file)), "filename {:?} of {:?}", f.headers.filename, file);
        let mut d = vec![];
        f.data.read_to_end(&mut d).map_err(|e| format!("{:?}", e))?;
        ensure!(d == data, "{}", diff(&d, &data));
        c.count("values_with_quotes");
        c.desc.clear();
        Ok(())
    });
    ctx.cases("invalid", ctx.n(20_000, 500_000), |c| {
        let r = &mut c.r;
        let (kind, lines) = rejected(r);
        let head = lines.join("\r\n") + "\r\n\r\n";
        let bnd = gen::plain_boundary(r);
        let body = format!("--{}\r\n{}data\r\n--{}--\r\n", bnd, head, bnd);
        let plan = Plan::random(r);
        c.note(format!("{}: headers {:?} as {:?}", kind, head, plan));
        c.eval();
        let mut mp = Multipart::with_body(Src::new(Arc::new(body.clone().into_bytes()), plan), bnd.clone());
        match mp.read_entry() {
            Ok(Some(f)) => fail!("{}: accepted as {:?}", kind, f.headers),
            Ok(None) => fail!("{}: taken for the end of the request", kind),
            Err(_) => {}
        }
        // the same through the other entry points
        let mut seen = 0;
        let mut mp = Multipart::with_body(body.as_bytes(), bnd.clone());
        ensure!(mp.foreach_entry(|_| seen += 1).is_err(), "{}: foreach_entry reported success", kind);
        ensure!(seen == 0, "{}: foreach_entry delivered the part", kind);
        let mut mp = Multipart::with_body(body.as_bytes(), bnd);
        if let SaveResult::Full(_) = mp.save().temp() {
            fail!("{}: saved in full", kind)
        }
        c.count("rejected_headers");
        c.distinct(head.as_bytes());
        c.desc.clear();
        Ok(())
    });
    // a rejected part is left behind like any other: reading on leads to the next one
    ctx.cases("rejected-between", ctx.n(8000, 200_000), |c| {
        let r = &mut c.r;
        let bnd = gen::plain_boundary(r);
        let n = r.range(1, 6);
        let mut body: Vec<u8> = vec![];
        // the parts that can be delivered, None for the others
        let mut parts: Vec<Option<Part>> = vec![];
        for i in 0..n {
            let bad = r.bool();
            let mut data = vec![];
            // looks like the start of a part, or continues the headers
            for _ in 0..r.below(3) {
                let k = r.below(200);
                match r.below(5) {
                    0 => data.extend_from_slice(b"Content-Disposition: form-data; name=\"fake\"\r\n\r\nfake"),
                    1 => data.extend_from_slice(b"\r\nContent-Disposition: form-data; name=\"fake\"\r\n\r\n"),
                    2 => data.extend_from_slice(b"\r\n\r\n"),
                    _ => data.extend_from_slice(&gen::content(r, &bnd, k)),
                }
            }
            if data.windows(bnd.len()).any(|w| w == bnd.as_bytes()) {
                return Ok(());
            }
            let head = if bad { rejected(r).1.join("\r\n") } else { format!("Content-Disposition: form-data; name=\"n{}\"", i) };
            if head.contains(&bnd) {
                return Ok(());
            }
            body.extend_from_slice(format!("--{}\r\n{}\r\n\r\n", bnd, head).as_bytes());
            body.extend_from_slice(&data);
            body.extend_from_slice(b"\r\n");
            parts.push(if bad { None } else { Some(Part { name: format!("n{}", i), filename: None, ctype: None, content: data }) });
        }
        body.extend_from_slice(format!("--{}--\r\n", bnd).as_bytes());
        let plan = Plan::random(r);
        let mode = r.below(4);
        c.note(format!("{:?} as {:?}, mode {}", String::from_utf8_lossy(&body), plan, mode));
        c.eval();
        c.distinct(&body);
        let mut mp = Multipart::with_body(Src::new(Arc::new(body), plan), bnd);
        let bad = parts.iter().filter(|p| p.is_none()).count();
        match mode {
            0 | 1 => {
                let mut cur = Some(mp);
                for (i, want) in parts.iter().enumerate() {
                    let m = cur.take().unwrap();
                    cur = Some(match (m.into_entry(), want) {
                        (ReadEntryResult::Entry(mut f), Some(w)) => {
                            let mut d = vec![];
                            if mode == 0 || c.r.bool() {
                                f.data.read_to_end(&mut d).map_err(|e| format!("part {}: {:?}", i, e))?;
                                check_part(&f.headers, &d, w).map_err(|e| format!("part {}: {}", i, e))?;
                            }
                            f.data.into_inner()
                        }
                        (ReadEntryResult::Error(m, _), None) => m,
                        (ReadEntryResult::Entry(f), None) => fail!("part {} was accepted as {:?}", i, f.headers),
                        (ReadEntryResult::End(_), _) => fail!("end of request at part {} of {}", i, n),
                        (ReadEntryResult::Error(_, e), Some(_)) => fail!("part {}: {:?}", i, e),
                    });
                }
                match cur.unwrap().into_entry() {
                    ReadEntryResult::End(_) => {}
                    o => fail!("no end after {} parts: {:?}", n, o.into_result().map(|f| f.map(|f| f.headers.name.clone()))),
                }
            }
            2 => {
                let mut got: Vec<(String, Vec<u8>)> = vec![];
                let mut errors = 0;
                let mut bad_read = None;
                loop {
                    let res = mp.foreach_entry(|mut f| {
                        let mut d = vec![];
                        if let Err(e) = f.data.read_to_end(&mut d) {
                            bad_read = Some(e);
                        }
                        got.push((f.headers.name.to_string(), d));
                    });
                    if res.is_ok() {
                        break;
                    }
                    errors += 1;
                    ensure!(errors <= bad, "{} errors for {} rejected parts: {:?}", errors, bad, res);
                }
                ensure!(bad_read.is_none(), "{:?}", bad_read);
                ensure!(errors == bad, "{} errors for {} rejected parts", errors, bad);
                let want: Vec<(String, Vec<u8>)> = parts.iter().flatten().map(|p| (p.name.clone(), p.content.clone())).collect();
                ensure!(got == want, "delivered {:?}", got);
            }
            _ => {
                let mut res = mp.save().memory_threshold(1 << 20).temp();
                let mut errors = 0;
                let e = loop {
                    match res {
                        SaveResult::Full(e) => break e,
                        SaveResult::Partial(p, why) => {
                            ensure!(errors < bad, "{} results are partial for {} rejected parts: {:?}", errors + 1, bad, why);
                            errors += 1;
                            let e = p.keep_partial();
                            res = mp.save().memory_threshold(1 << 20).with_entries(e);
                        }
                        SaveResult::Error(e) => fail!("{:?}", e),
                    }
                };
                ensure!(errors == bad, "{} partial results for {} rejected parts", errors, bad);
                let want: Vec<&Part> = parts.iter().flatten().collect();
                ensure!(e.fields.len() == want.len(), "{} fields saved of {}", e.fields.len(), want.len());
                for w in want {
                    let v = e.fields.get(w.name.as_str()).ok_or_else(|| format!("field {} is missing", w.name))?;
                    let mut d = vec![];
                    ensure!(v.len() == 1, "{} fields {}", v.len(), w.name);
                    v[0].data.readable().and_then(|mut s| s.read_to_end(&mut d)).map_err(|e| format!("{:?}", e))?;
                    ensure!(d == w.content, "field {}: {}", w.name, diff(&d, &w.content));
                }
            }
        }
        c.add("rejected_parts_left_behind", bad as u64);
        c.desc.clear();
        Ok(())
    });
}
