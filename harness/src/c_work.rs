//! C29: how the work grows with the data. Every scenario runs in a child process under valgrind,
//! which counts the instructions executed, for sizes n, 2n and 4n.
use crate::c_client::Req;
use crate::core::{Case, Ctx};
use crate::gen::{self, mk, Part};
use crate::io::{Feed, Plan, Src};
use crate::rng::Rng;
use crate::scratch;
use crate::{ensure, fail};
use multipart::client::{lazy, Multipart as Client};
use multipart::server::save::SaveResult;
use multipart::server::{Multipart, MultipartField, ReadEntry, ReadEntryResult};
use std::io::{BufRead, Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::Command;
use std::sync::Arc;

/// What is measured: what n counts, the smallest n, and the scenario (the random choices must not
/// depend on n).
struct Scenario {
    name: &'static str,
    unit: &'static str,
    base: usize,
    run: fn(&mut Rng, usize, &Path) -> Result<(), String>,
}

type Out = Result<(), String>;

fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}

/// `n` bytes of `unit` over and over (few instructions per byte)
fn repeat(unit: &[u8], n: usize) -> Vec<u8> {
    let mut v = unit.to_vec();
    while v.len() < n {
        v.extend_from_within(..);
    }
    v.truncate(n);
    v
}

/// the kinds of content that a search for the delimiter may have trouble with
fn filler(r: &mut Rng, bnd: &str, n: usize) -> Vec<u8> {
    let unit: Vec<u8> = match r.below(9) {
        0 => b"-".to_vec(),
        1 => b"\r\n".to_vec(),
        2 => b"\r".to_vec(),
        3 => format!("\r\n--{}", &bnd[..bnd.len() - 1]).into_bytes(),
        4 => format!("--{}", &bnd[..bnd.len() / 2]).into_bytes(),
        5 => bnd.as_bytes()[..1].to_vec(),
        6 => b"\r\n--".to_vec(),
        7 => bnd.as_bytes().to_vec(),
        _ => r.bytes(997),
    };
    let delim = format!("--{}", bnd);
    if gen::find(&repeat(&unit, 3 * (unit.len() + delim.len())), delim.as_bytes()).is_some() {
        return repeat(b"\r\n-x", n);
    }
    repeat(&unit, n)
}

fn plan(r: &mut Rng) -> Plan {
    match r.below(4) {
        0 => Plan::All,
        1 => Plan::Fixed(*r.pick(&[100, 1024, 5000])),
        2 => Plan::Fixed(*r.pick(&[1, 2, 7])),
        _ => Plan::Random(r.u64(), 3000),
    }
}

fn boundary(r: &mut Rng) -> String {
    match r.below(4) {
        0 => "-".repeat(r.range(2, 60)),
        1 => "ab".repeat(r.range(1, 30)),
        2 => format!("{}b", "a".repeat(r.range(1, 60))),
        _ => gen::plain_boundary(r),
    }
}

fn body(bnd: &str, parts: &[Part]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        write!(v, "--{}\r\n{}", bnd, gen::head(p)).unwrap();
        v.extend_from_slice(&p.content);
        v.extend_from_slice(b"\r\n");
    }
    write!(v, "--{}--\r\n", bnd).unwrap();
    v
}

fn server(bnd: &str, bytes: Vec<u8>, plan: Plan) -> Multipart<Src> {
    Multipart::with_body(Src::new(Arc::new(bytes), plan), bnd)
}

fn entry<R: ReadEntry>(m: R) -> Result<MultipartField<R>, String> {
    match m.read_entry() {
        ReadEntryResult::Entry(f) => Ok(f),
        ReadEntryResult::End(_) => Err("no entry".into()),
        ReadEntryResult::Error(_, e) => Err(format!("{:?}", e)),
    }
}

/// one large field
fn large(r: &mut Rng, n: usize, ctype: Option<&str>) -> Multipart<Src> {
    let bnd = boundary(r);
    let p = plan(r);
    let c = filler(r, &bnd, n);
    let parts = [mk("f", if ctype.is_some() { Some("f.bin") } else { None }, ctype, c), mk("end", None, None, b"last".to_vec())];
    server(&bnd, body(&bnd, &parts), p)
}

fn last(m: Multipart<Src>) -> Out {
    let mut f = entry(m)?;
    let mut s = String::new();
    io(f.data.read_to_string(&mut s))?;
    ensure!(&*f.headers.name == "end" && s == "last", "last field {:?} {:?}", f.headers.name, s);
    Ok(())
}

fn read(r: &mut Rng, n: usize, _: &Path) -> Out {
    let how = r.below(4);
    let mut buf = vec![0; *r.pick(&[1usize, 3, 64, 1000, 8192, 100_000])];
    let mut f = entry(large(r, n, Some("image/png")))?;
    let mut got = 0;
    match how {
        0 | 1 => loop {
            let k = io(f.data.read(&mut buf))?;
            if k == 0 {
                break;
            }
            got += k;
        },
        2 => loop {
            let k = io(f.data.fill_buf())?.len();
            if k == 0 {
                break;
            }
            f.data.consume(k);
            got += k;
        },
        _ => {
            let mut v = vec![];
            got = io(f.data.read_to_end(&mut v))?;
        }
    }
    ensure!(got == n, "{} of {} bytes", got, n);
    last(f.data.into_inner())
}

/// a byte at a time, looking at all there is each time
fn peek(r: &mut Rng, n: usize, _: &Path) -> Out {
    let mut f = entry(large(r, n, Some("image/png")))?;
    for i in 0..n {
        ensure!(!io(f.data.fill_buf())?.is_empty(), "ended after {} of {} bytes", i, n);
        f.data.consume(1);
    }
    last(f.data.into_inner())
}

fn skip(r: &mut Rng, n: usize, _: &Path) -> Out {
    let f = entry(large(r, n, Some("image/png")))?;
    last(f.data.into_inner())
}

fn preamble(r: &mut Rng, n: usize, _: &Path) -> Out {
    let bnd = boundary(r);
    let p = plan(r);
    let mut v = filler(r, &bnd, n);
    v.extend_from_slice(b"\r\n");
    v.extend_from_slice(&body(&bnd, &[mk("end", None, None, b"last".to_vec())]));
    last(server(&bnd, v, p))
}

/// nothing but the start of a field
fn endless(r: &mut Rng, n: usize, _: &Path) -> Out {
    let bnd = boundary(r);
    let p = plan(r);
    let v = filler(r, &bnd, n);
    let save = r.bool();
    let mut b = body(&bnd, &[mk("f", None, None, v)]);
    let len = b.len() - 2 * bnd.len();
    b.truncate(len.max(n));
    let m = server(&bnd, b, p);
    if save {
        let mut m = m;
        ensure!(!matches!(m.save().memory_threshold(u64::MAX).size_limit(None).with_dir("."), SaveResult::Full(_)), "saved a cut body");
        return Ok(());
    }
    let f = entry(m)?;
    match f.data.into_inner().read_entry() {
        ReadEntryResult::Error(..) => Ok(()),
        _ => Err("no error at the end".into()),
    }
}

/// header lines without end
fn headers(r: &mut Rng, n: usize, _: &Path) -> Out {
    let p = plan(r);
    let unit: &[u8] = *r.pick(&[&b"X-Header: value\r\n"[..], b"a", b":", b"\n", b"a:\n", b" ", b"\""]);
    let mut b = b"--boundary\r\nContent-Disposition: form-data; name=\"a\"\r\n".to_vec();
    b.extend_from_slice(&repeat(unit, n));
    b.extend_from_slice(b"\r\n\r\ncontent\r\n--boundary--\r\n");
    let mut m = server("boundary", b, p);
    let _ = m.foreach_entry(|mut e| {
        let mut v = vec![];
        let _ = e.data.read_to_end(&mut v);
    });
    Ok(())
}

fn small(r: &mut Rng, n: usize) -> (String, Vec<Part>, Plan) {
    let bnd = gen::plain_boundary(r);
    let p = plan(r);
    let (same, files) = (r.bool(), r.bool());
    let len = r.range(0, 60);
    let parts = (0..n)
        .map(|i| {
            let name = if same { "f".to_string() } else { format!("field-{}", i) };
            mk(&name, if files { Some("a.bin") } else { None }, if files { Some("image/png") } else { None }, vec![b'x'; len])
        })
        .collect();
    (bnd, parts, p)
}

fn many(r: &mut Rng, n: usize, _: &Path) -> Out {
    let skip = r.bool();
    let by_ref = r.bool();
    let (bnd, parts, p) = small(r, n);
    let mut m = server(&bnd, body(&bnd, &parts), p);
    let mut got = 0;
    let mut v = vec![];
    if by_ref {
        while let Some(mut f) = io(m.read_entry_mut().into_result())? {
            if !skip {
                v.clear();
                io(f.data.read_to_end(&mut v))?;
            }
            got += 1;
        }
    } else {
        io(m.foreach_entry(|mut f| {
            if !skip {
                v.clear();
                let _ = f.data.read_to_end(&mut v);
            }
            got += 1;
        }))?;
    }
    ensure!(got == n, "{} of {} fields", got, n);
    Ok(())
}

fn save_many(r: &mut Rng, n: usize, dir: &Path) -> Out {
    let (bnd, parts, p) = small(r, n);
    let all = r.bool();
    let mut m = server(&bnd, body(&bnd, &parts), p);
    let lim = if all { None } else { Some(n as u32 / 2) };
    match m.save().count_limit(lim).with_dir(dir) {
        SaveResult::Full(e) => ensure!(all && e.fields_count() as usize == n, "{} of {} fields", e.fields_count(), n),
        SaveResult::Partial(p, _) => {
            ensure!(!all, "partly saved");
            ensure!(p.entries.fields_count() as usize == n / 2, "{} of {} fields", p.entries.fields_count(), n / 2);
            ensure!(p.partial.is_some(), "no partial field");
            p.keep_partial();
        }
        SaveResult::Error(e) => fail!("{:?}", e),
    }
    Ok(())
}

fn save_files(r: &mut Rng, n: usize, dir: &Path) -> Out {
    let (bnd, mut parts, p) = small(r, n);
    for p in &mut parts {
        p.content.push(b'x');
    }
    let mut m = server(&bnd, body(&bnd, &parts), p);
    let e = match m.save().count_limit(None).memory_threshold(0).with_dir(dir) {
        SaveResult::Full(e) => e,
        other => fail!("{:?}", other.into_result().err()),
    };
    ensure!(e.fields_count() as usize == n, "{} of {} fields", e.fields_count(), n);
    let mut v = vec![];
    io(e.write_debug(&mut v))
}

fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let unit = *r.pick(&["a", "é", "€", "😀", "aé€😀", "word \r\n"]);
    let mut v = repeat(unit.as_bytes(), n / unit.len() * unit.len());
    v.resize(n, b'.');
    v
}

fn save_text(r: &mut Rng, n: usize, dir: &Path) -> Out {
    save_one(r, n, dir, true)
}

fn save_large(r: &mut Rng, n: usize, dir: &Path) -> Out {
    save_one(r, n, dir, false)
}

fn save_one(r: &mut Rng, n: usize, dir: &Path, as_text: bool) -> Out {
    let bnd = gen::plain_boundary(r);
    let p = plan(r);
    let mut c = match r.below(3) {
        0 if !as_text => filler(r, &bnd, n),
        _ => text(r, n),
    };
    match r.below(if as_text { 10 } else { 4 }) {
        // where it is invalid: early, halfway, at the end
        0 => c[10] = 0xFF,
        1 => c[n / 2] = 0xFF,
        2 => c[n - 1] = 0xFF,
        _ => (),
    }
    let parts = [mk("f", None, if r.bool() { Some("text/plain") } else { None }, c), mk("end", None, None, b"last".to_vec())];
    let mut m = server(&bnd, body(&bnd, &parts), p);
    let threshold = if as_text { u64::MAX } else { *r.pick(&[0u64, 1000, n as u64 / 2, u64::MAX]) };
    let limit = *r.pick(&[None, None, Some(u64::MAX - 1)]);
    let policy = if as_text { *r.pick(&[0, 0, 2]) } else { r.below(3) };
    let b = m.save().memory_threshold(threshold).size_limit(limit);
    let b = match policy {
        0 => b.try_text(),
        1 => b.ignore_text(),
        _ => b.force_text(),
    };
    match b.with_dir(dir) {
        SaveResult::Full(e) => {
            let f = &e.fields["f"][0];
            ensure!(f.data.size() as usize == n, "{} of {} bytes", f.data.size(), n);
            let mut v = vec![];
            io(io(f.data.readable())?.read_to_end(&mut v))?;
            io(e.write_debug(&mut v))?;
        }
        SaveResult::Partial(p, _) => {
            ensure!(policy == 2, "partly saved");
            drop(p);
        }
        SaveResult::Error(e) => fail!("{:?}", e),
    }
    Ok(())
}

/// saved piece by piece, through rising limits
fn resume(r: &mut Rng, n: usize, _: &Path) -> Out {
    let mut f = entry(large(r, n, Some("image/png")))?;
    let piece = *r.pick(&[20_000u64, 9000, 16_384]);
    let mut out = vec![];
    let mut total = 0;
    loop {
        match f.data.save().size_limit(piece).write_to(&mut out) {
            SaveResult::Full(k) => {
                total += k;
                break;
            }
            SaveResult::Partial(k, _) => total += k,
            SaveResult::Error(e) => fail!("{:?}", e),
        }
    }
    ensure!(total as usize == n, "{} of {} bytes", total, n);
    last(f.data.into_inner())
}

/// a large minimum
fn minimum(r: &mut Rng, n: usize, _: &Path) -> Out {
    let bnd = boundary(r);
    let p = *r.pick(&[5000usize, 20_000, 1 << 20]);
    let min = *r.pick(&[5000, 20_000, 60_000]);
    let step = *r.pick(&[500, 4096, 20_000]);
    let c = filler(r, &bnd, n);
    let parts = [mk("f", Some("f.bin"), Some("image/png"), c), mk("end", None, None, b"last".to_vec())];
    let mut f = entry(server(&bnd, body(&bnd, &parts), Plan::Fixed(p)))?;
    f.data.set_min_buf_size(min);
    let mut got = 0;
    loop {
        let k = io(f.data.fill_buf())?.len();
        if k == 0 {
            break;
        }
        let k = k.min(step);
        f.data.consume(k);
        got += k;
    }
    ensure!(got == n, "{} of {} bytes", got, n);
    last(f.data.into_inner())
}

/// looking at n bytes at once while they are consumed one by one
fn window(r: &mut Rng, n: usize, _: &Path) -> Out {
    let bnd = boundary(r);
    let c = filler(r, &bnd, 4 * n);
    let parts = [mk("f", Some("f.bin"), Some("image/png"), c), mk("end", None, None, b"last".to_vec())];
    let mut f = entry(server(&bnd, body(&bnd, &parts), Plan::All))?;
    f.data.set_min_buf_size(n);
    let small = r.bool();
    for i in 0..n {
        if small {
            ensure!(io(f.data.read(&mut [0; 1]))? == 1, "ended after {} bytes", i);
        } else {
            let k = io(f.data.fill_buf())?.len();
            ensure!(k >= n, "{} bytes after {}, minimum {}", k, i, n);
            f.data.consume(1);
        }
    }
    last(f.data.into_inner())
}

// ---- client

fn sink(r: &mut Rng) -> usize {
    *r.pick(&[0usize, 0, 10, 1000, 10_000])
}

fn drain(mut p: lazy::PreparedFields, buf: usize) -> Result<usize, String> {
    let mut b = vec![0; buf];
    let mut n = 0;
    loop {
        let k = io(p.read(&mut b))?;
        if k == 0 {
            return Ok(n);
        }
        n += k;
    }
}

/// one large field: text, file or stream
fn send_large(r: &mut Rng, n: usize, dir: &Path) -> Out {
    let kind = r.below(3);
    let max = sink(r);
    let way = r.below(4);
    let chunk = *r.pick(&[0usize, 10, 3000]);
    let buf = *r.pick(&[1usize, 7, 1000, 8192, 100_000]);
    let t = String::from_utf8(text(r, n)).unwrap();
    let path = dir.join("large.txt");
    if kind == 1 {
        io(std::fs::write(&path, &t))?;
    }
    let feed = || Feed::new(t.clone().into_bytes(), chunk, 1);
    let (req, log) = Req::new(max, 1);
    macro_rules! write_it {
        ($m:expr) => {{
            let mut m = $m;
            match kind {
                0 => io(m.write_text("f", &t))?,
                1 => io(m.write_file("f", &path))?,
                _ => io(m.write_stream("f", &mut feed(), Some("a.txt"), None))?,
            };
            io(m.send())?;
        }};
    }
    match way {
        0 => write_it!(io(Client::from_request(req))?),
        1 => write_it!(io(Client::from_request_sized(req))?),
        _ => {
            let mut m = lazy::Multipart::new();
            match kind {
                0 => m.add_text("f", &t[..]),
                1 => m.add_file("f", &*path),
                _ => m.add_stream("f", feed(), Some("a.txt"), None),
            };
            if way == 2 {
                m.send(req).map_err(|e| format!("{:?}", e))?;
            } else {
                let got = drain(m.prepare().map_err(|e| format!("{:?}", e))?, buf)?;
                ensure!(got > n, "{} bytes read", got);
                return Ok(());
            }
        }
    }
    drop(log);
    Ok(())
}

fn send_many(r: &mut Rng, n: usize, dir: &Path) -> Out {
    let kind = r.below(4);
    let max = sink(r);
    let way = r.below(4);
    let buf = *r.pick(&[1usize, 7, 1000, 8192, 100_000]);
    let path = dir.join("f.txt");
    io(std::fs::write(&path, b"content"))?;
    // (files of a prepared request are all open at once)
    let kind_of = |i: usize| match if kind == 3 { i % 3 } else { kind } {
        1 if way >= 2 && i % 64 != 1 => 2,
        k => k,
    };
    let (req, _log) = Req::new(max, 1);
    macro_rules! write_all {
        ($m:expr) => {{
            let mut m = $m;
            for i in 0..n {
                let name = format!("field-{}", i);
                match kind_of(i) {
                    0 => io(m.write_text(name, "content"))?,
                    1 => io(m.write_file(name, &path))?,
                    _ => io(m.write_stream(name, &mut &b"content"[..], Some("a.txt"), None))?,
                };
            }
            io(m.send())?;
        }};
    }
    match way {
        0 => write_all!(io(Client::from_request(req))?),
        1 => write_all!(io(Client::from_request_sized(req))?),
        _ => {
            let mut m = lazy::Multipart::new();
            for i in 0..n {
                let name = format!("field-{}", i);
                match kind_of(i) {
                    0 => m.add_text(name, "content"),
                    1 => m.add_file(name, &*path),
                    _ => m.add_stream(name, &b"content"[..], Some("a.txt"), None),
                };
            }
            if way == 2 {
                m.send(req).map_err(|e| format!("{:?}", e))?;
            } else {
                let got = drain(m.prepare().map_err(|e| format!("{:?}", e))?, buf)?;
                ensure!(got > 50 * n, "{} bytes read", got);
            }
        }
    }
    Ok(())
}

/// a long name, of characters that are escaped or not
fn send_name(r: &mut Rng, n: usize, _: &Path) -> Out {
    let unit = *r.pick(&["\"", "\r", "\n", "a", "a\"", "é"]);
    let name: String = unit.repeat(n / unit.len());
    let file = r.bool();
    let (req, _log) = Req::new(0, 1);
    if r.bool() {
        let mut m = io(Client::from_request(req))?;
        io(m.write_stream(if file { "f" } else { &name }, &mut &b"content"[..], Some(if file { &name[..] } else { "f" }), None))?;
        io(m.send())?;
    } else {
        let mut m = lazy::Multipart::new();
        m.add_text(&name[..], "content");
        m.add_stream(if file { "f" } else { &name[..] }, &b"content"[..], Some(if file { &name[..] } else { "f" }), None);
        m.send(req).map_err(|e| format!("{:?}", e))?;
    }
    Ok(())
}

fn mock(r: &mut Rng, n: usize, _: &Path) -> Out {
    use multipart::mock::{ClientRequest, HttpBuffer, ServerRequest};
    let k = *r.pick(&[1usize, 10, 1000, 10_000]);
    let buf = if r.bool() {
        let mut m = io(Client::from_request(ClientRequest::default()))?;
        let mut left = n;
        while left > 0 {
            let t = "x".repeat(left.min(k.max(100)));
            left -= t.len();
            io(m.write_text("f", &t))?;
        }
        io(m.send())?
    } else {
        let mut b = HttpBuffer::new_empty("boundary".into(), None);
        let data = vec![b'x'; k];
        let mut left = n;
        while left > 0 {
            let w = io(b.write(&data[..k.min(left)]))?;
            left -= w;
        }
        b
    };
    let mut q = ServerRequest::new(&buf.buf, "boundary");
    let mut b = vec![0; k];
    let mut got = 0;
    loop {
        let x = io(q.read(&mut b))?;
        if x == 0 {
            break;
        }
        got += x;
    }
    ensure!(got == buf.buf.len(), "{} of {} bytes", got, buf.buf.len());
    Ok(())
}

const SCENARIOS: &[Scenario] = &[
    Scenario { name: "read", unit: "bytes", base: 128 << 10, run: read },
    Scenario { name: "peek", unit: "bytes", base: 32 << 10, run: peek },
    Scenario { name: "skip", unit: "bytes", base: 256 << 10, run: skip },
    Scenario { name: "preamble", unit: "bytes", base: 256 << 10, run: preamble },
    Scenario { name: "endless", unit: "bytes", base: 256 << 10, run: endless },
    Scenario { name: "headers", unit: "bytes", base: 512 << 10, run: headers },
    Scenario { name: "many", unit: "fields", base: 1024, run: many },
    Scenario { name: "save_many", unit: "fields", base: 1024, run: save_many },
    Scenario { name: "save_files", unit: "fields", base: 256, run: save_files },
    Scenario { name: "save_large", unit: "bytes", base: 1 << 20, run: save_large },
    Scenario { name: "save_text", unit: "bytes", base: 1 << 20, run: save_text },
    Scenario { name: "resume", unit: "bytes", base: 128 << 10, run: resume },
    Scenario { name: "minimum", unit: "bytes", base: 64 << 10, run: minimum },
    Scenario { name: "window", unit: "bytes", base: 8 << 10, run: window },
    Scenario { name: "send_large", unit: "bytes", base: 128 << 10, run: send_large },
    Scenario { name: "send_many", unit: "fields", base: 1024, run: send_many },
    Scenario { name: "send_name", unit: "bytes", base: 64 << 10, run: send_name },
    Scenario { name: "mock", unit: "bytes", base: 64 << 10, run: mock },
];

/// The child: `work NAME N SEED DIR`
pub fn child(args: &[String]) -> Out {
    let s = SCENARIOS.iter().find(|s| s.name == args[0]).ok_or("no such scenario")?;
    (s.run)(&mut Rng::new(args[2].parse().unwrap()), args[1].parse().unwrap(), args[3].as_ref())
}

const CPU_SECONDS: u64 = 120;

enum Failed {
    /// the scenario
    Said(String),
    /// the measurement
    Harness(String),
}

/// Instructions executed by a child
fn instructions(s: &Scenario, n: usize, seed: u64, dir: &Path) -> Result<u64, Failed> {
    fn h<T>(r: std::io::Result<T>) -> Result<T, Failed> {
        r.map_err(|e| Failed::Harness(format!("{:?}", e)))
    }
    h(std::fs::create_dir_all(dir))?;
    let log = dir.join("valgrind.log");
    let work = dir.join("work");
    h(std::fs::create_dir(&work))?;
    let mut cmd = Command::new("valgrind");
    cmd.args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"])
        .arg(format!("--log-file={}", log.display()))
        .arg(h(std::env::current_exe())?)
        .args(["work", s.name, &n.to_string(), &seed.to_string()])
        .arg(&work)
        .env("TMPDIR", &work)
        .current_dir(&work);
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: CPU_SECONDS, rlim_max: CPU_SECONDS + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let out = h(cmd.output())?;
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_dir_all(dir);
    let err = String::from_utf8_lossy(&out.stderr);
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => (),
        (Some(101), _) => return Err(Failed::Said(format!("{} of {} {} panicked: {}", s.name, n, s.unit, err))),
        (Some(3), _) => return Err(Failed::Said(format!("{} of {} {}: {}", s.name, n, s.unit, err))),
        (_, Some(libc::SIGXCPU)) => return Err(Failed::Said(format!("{} of {} {} used more than {} seconds", s.name, n, s.unit, CPU_SECONDS))),
        other => return Err(Failed::Harness(format!("{} of {} {}: {:?} {} {}", s.name, n, s.unit, other, err, text))),
    }
    text.lines()
        .find_map(|l| l.split("I refs:").nth(1))
        .and_then(|v| v.trim().replace(',', "").parse().ok())
        .ok_or_else(|| Failed::Harness(format!("valgrind said {:?}", text)))
}

pub fn c29(ctx: &Ctx) {
    ctx.expect(&["read", "peek", "skip", "preamble", "endless", "headers", "many", "save_many", "save_files", "save_large", "save_text", "resume", "minimum", "window", "send_large", "send_many", "send_name", "mock"]);
    ctx.assume("work is measured as instructions executed in user mode, counted by valgrind; growth with the data is judged, not the work done for each byte");
    ctx.cases("growth", SCENARIOS.len() * if ctx.thorough { 400 } else { 12 }, |c| {
        let dir = scratch::fresh("work");
        let res = grows(c, &dir);
        scratch::done(&dir);
        match res {
            Ok(()) => Ok(()),
            Err(Failed::Said(s)) => Err(s),
            Err(Failed::Harness(s)) => {
                ctx.trouble(s);
                Ok(())
            }
        }
    });
}

fn grows(c: &mut Case, dir: &Path) -> Result<(), Failed> {
    let s = &SCENARIOS[c.idx % SCENARIOS.len()];
    let seed = c.r.u64();
    let mut i = [0u64; 4];
    let mut step = |k: usize| -> Result<u64, Failed> {
        i[k] = instructions(s, s.base << k, seed, &dir.join(format!("{}", k)))?;
        Ok(if k == 0 { 0 } else { i[k].saturating_sub(i[k - 1]) })
    };
    step(0)?;
    let (d1, d2) = (step(1)?, step(2)?);
    // twice in proportion, four times if it grows with the square
    let grows = |a: u64, b: u64| b > a * 47 / 20 + 100_000;
    // some buffer may have reached another size: look further
    if std::env::var_os("MP_TIMES").is_some() {
        eprintln!("{} {} #{}: {} {}", s.name, seed, c.idx, d1, d2);
    }
    if grows(d1, d2) {
        c.count("looked_further");
        let d3 = step(3)?;
        if grows(d2, d3) {
            c.note(format!("replay one: valgrind --tool=cachegrind --cache-sim=no mpcheck work {} N {} DIR", s.name, seed));
            return Err(Failed::Said(format!("{}: {:?} instructions for {} {} and twice, four and eight times that: more than in proportion", s.name, i, s.base, s.unit)));
        }
    }
    c.eval();
    c.count(s.name);
    c.add("instructions_counted", i.iter().sum());
    c.max(&format!("highest_growth_percent_{}", s.name), (d2 * 100).checked_div(d1).unwrap_or(0));
    c.max(&format!("most_instructions_per_{}_{}", s.unit.trim_end_matches('s'), s.name), d2 / (2 * s.base as u64));
    c.distinct(format!("{} {}", s.name, seed).as_bytes());
    c.sample(|| format!("{}: {:?} instructions for {} {}, twice and four times that", s.name, &i[..3], s.base, s.unit));
    Ok(())
}
