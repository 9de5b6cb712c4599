//! C25, C26: what the crate holds on to — memory while sending, files, streams and memory afterwards.
use crate::alloc;
use crate::c_client::raw_head;
use crate::core::{guard, Case, Ctx, Res};
use crate::gen::{self, Part};
use crate::io::{Fault, Plan, Src};
use crate::rng::Rng;
use crate::scratch;
use crate::{ensure, fail};
use multipart::client::{lazy, HttpRequest, HttpStream, Multipart};
use multipart::server::save::{Entries, PartialReason, SaveResult};
use multipart::server::{self, MultipartField, ReadEntry, ReadEntryResult};
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- C25

/// Takes everything and keeps nothing but the count.
struct Null {
    taken: Arc<AtomicU64>,
    max: usize,
    rng: Rng,
}

impl Write for Null {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = if self.max == 0 { buf.len() } else { self.rng.range(1, self.max).min(buf.len()) };
        self.taken.fetch_add(n as u64, Ordering::Relaxed);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct NullReq(Null);

impl HttpRequest for NullReq {
    type Stream = Null;
    type Error = io::Error;
    fn apply_headers(&mut self, _: &str, _: Option<u64>) -> bool {
        true
    }
    fn open_stream(self) -> io::Result<Null> {
        Ok(self.0)
    }
}

impl HttpStream for Null {
    type Request = NullReq;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> io::Result<()> {
        Ok(())
    }
}

/// A connection that takes everything, answers, and keeps only the request's head.
struct Conn {
    null: Null,
    reply: io::Cursor<Vec<u8>>,
    head: Arc<Mutex<Vec<u8>>>,
}

impl Write for Conn {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.null.write(buf)?;
        let mut h = self.head.lock().unwrap();
        if h.len() < 4096 {
            h.extend_from_slice(&buf[..n.min(4096)]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Read for Conn {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        self.reply.read(out)
    }
}

impl hyper::net::NetworkStream for Conn {
    fn peer_addr(&mut self) -> io::Result<std::net::SocketAddr> {
        Ok("127.0.0.1:80".parse().unwrap())
    }
    fn set_read_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
}

struct Connect {
    taken: Arc<AtomicU64>,
    max: usize,
    seed: u64,
    head: Arc<Mutex<Vec<u8>>>,
}

impl hyper::net::NetworkConnector for Connect {
    type Stream = Conn;
    fn connect(&self, _: &str, _: u16, _: &str) -> hyper::Result<Conn> {
        Ok(Conn {
            null: Null { taken: self.taken.clone(), max: self.max, rng: Rng::new(self.seed) },
            reply: io::Cursor::new(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok".to_vec()),
            head: self.head.clone(),
        })
    }
}

fn hyper_url() -> hyper::Url {
    hyper::Url::parse("http://127.0.0.1:1/upload").unwrap()
}

/// `left` bytes, generated as they are read.
struct Endless {
    left: u64,
    max: usize,
    rng: Rng,
}

impl Read for Endless {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let mut n = (out.len() as u64).min(self.left) as usize;
        if self.max != 0 && n > 0 {
            n = n.min(self.rng.range(1, self.max));
        }
        for b in &mut out[..n] {
            *b = b'-';
        }
        self.left -= n as u64;
        Ok(n)
    }
}

pub const CLIENT_BOUND: usize = 256 * 1024;
const CLIENTS: &[&str] = &["streaming", "lazy_send", "lazy_read", "hyper_streaming", "hyper_lazy", "hyper_prepared"];

pub fn c25(ctx: &Ctx) {
    ctx.expect(&["streaming", "lazy_send", "lazy_read", "hyper_streaming", "hyper_lazy", "hyper_prepared", "large_files", "large_streams", "with_length", "chunked"]);
    ctx.assume("memory is measured as live heap bytes requested from the global allocator by the sending thread; sized requests are documented to hold the whole body");
    ctx.cases("send", ctx.n(240, 2400), |c| {
        let dir = scratch::fresh("send");
        let res = send_large(c, &dir, ctx.thorough);
        scratch::done(&dir);
        res
    });
    // many fields: nothing of the written ones is kept
    ctx.cases("many-fields", ctx.n(8, 40), |c| {
        let taken = Arc::new(AtomicU64::new(0));
        let n = ctx.n(2000, 10_000);
        let max = *c.r.pick(&[0, 100, 8192]);
        let dir = scratch::fresh("send");
        let path = dir.join("f.txt");
        std::fs::write(&path, vec![b'x'; 100]).unwrap();
        let null = Null { taken: taken.clone(), max, rng: Rng::new(1) };
        let (res, peak) = alloc::peak(|| -> Result<(), io::Error> {
            let mut m = Multipart::from_request(NullReq(null))?;
            for i in 0..n {
                match i % 3 {
                    0 => m.write_text(format!("name{}", i), "0123456789012345678901234567890123456789")?,
                    1 => m.write_stream(format!("stream{}", i), &mut &b"0123456789012345678901234567890123456789"[..], Some("f.bin"), None)?,
                    _ => m.write_file(format!("file{}", i), &path)?,
                };
            }
            m.send()
        });
        scratch::done(&dir);
        c.eval();
        res.map_err(|e| format!("{:?}", e))?;
        ensure!(taken.load(Ordering::Relaxed) > n as u64 * 100, "only {} bytes were written", taken.load(Ordering::Relaxed));
        ensure!(peak <= CLIENT_BOUND, "peak heap use {} bytes while {} small fields were written one after the other", peak, n);
        c.count("streaming");
        c.max("highest_peak_many_fields", peak as u64);
        c.distinct(&[c.idx as u8]);
        Ok(())
    });
}

fn send_large(c: &mut Case, dir: &Path, thorough: bool) -> Res {
    let client = c.idx % CLIENTS.len();
    let top: u64 = if thorough { 64 << 20 } else { 12 << 20 };
    let k = c.r.range(1, 3);
    // sizes spread over the orders of magnitude from what the bound allows
    let sizes: Vec<u64> = (0..k)
        .map(|i| if i == 0 { (600 << 10 << c.r.below(5)).min(top) + c.r.below(5000) as u64 } else { c.r.below(1 << 20) as u64 })
        .collect();
    let files: Vec<bool> = sizes.iter().map(|_| c.r.bool()).collect();
    let names: Vec<PathBuf> = (0..k).map(|i| dir.join(format!("f{}.{}", i, c.r.pick(&["bin", "txt", "png"])))).collect();
    for i in 0..k {
        if files[i] {
            // sparse
            std::fs::File::create(&names[i]).unwrap().set_len(sizes[i]).unwrap();
        }
    }
    let total: u64 = sizes.iter().sum();
    let step = *c.r.pick(&[0usize, 1000, 8192, 100_000]);
    let max = *c.r.pick(&[0usize, 0, 1000, 20_000]);
    let seed = c.r.u64();
    let text = c.r.bool();
    let taken = Arc::new(AtomicU64::new(0));
    let head: Arc<Mutex<Vec<u8>>> = Arc::new(Mutex::new(Vec::with_capacity(8192)));
    let null = || Null { taken: taken.clone(), max, rng: Rng::new(seed) };
    let mut buf = vec![0u8; *c.r.pick(&[100usize, 1000, 8192, 100_000, 1 << 20])];
    let stream = |i: usize| Endless { left: sizes[i], max: step, rng: Rng::new(seed ^ i as u64) };
    let connect = || Connect { taken: taken.clone(), max, seed, head: head.clone() };
    let (res, peak) = alloc::peak(|| -> Result<(), String> {
        macro_rules! stream_all {
            ($m:ident) => {{
                if text {
                    $m.write_text("note", "a short text").map_err(|e| format!("{:?}", e))?;
                }
                for i in 0..k {
                    if files[i] {
                        $m.write_file("f", &names[i]).map_err(|e| format!("{:?}", e))?;
                    } else {
                        $m.write_stream("s", &mut stream(i), Some("s.bin"), None).map_err(|e| format!("{:?}", e))?;
                    }
                }
            }};
        }
        let mut lz = lazy::Multipart::new();
        if client != 0 && client != 3 {
            if text {
                lz.add_text("note", "a short text");
            }
            for i in 0..k {
                if files[i] {
                    lz.add_file("f", &*names[i]);
                } else {
                    lz.add_stream("s", stream(i), Some("s.bin"), None);
                }
            }
        }
        match client {
            0 => {
                let mut m = Multipart::from_request(NullReq(null())).map_err(|e| e.to_string())?;
                stream_all!(m);
                m.send().map_err(|e| e.to_string())?;
            }
            1 => lz.send(NullReq(null())).map_err(|e| format!("{:?}", e))?,
            2 => {
                let mut p = lz.prepare().map_err(|e| format!("{:?}", e))?;
                loop {
                    let n = p.read(&mut buf).map_err(|e| e.to_string())?;
                    if n == 0 {
                        break;
                    }
                    taken.fetch_add(n as u64, Ordering::Relaxed);
                }
            }
            3 => {
                let req = hyper::client::Request::with_connector(hyper::method::Method::Post, hyper_url(), &connect()).map_err(|e| format!("{:?}", e))?;
                let mut m = Multipart::from_request(req).map_err(|e| format!("{:?}", e))?;
                stream_all!(m);
                m.send().map_err(|e| format!("{:?}", e))?;
            }
            4 => {
                let cl = hyper::Client::with_connector(connect());
                lz.client_request(&cl, hyper_url()).map_err(|e| format!("{:?}", e))?;
            }
            _ => {
                let cl = hyper::Client::with_connector(connect());
                let mut p = lz.prepare().map_err(|e| format!("{:?}", e))?;
                let ct = multipart::client::hyper::content_type(p.boundary());
                cl.post(hyper_url()).header(ct).body(p.to_body()).send().map_err(|e| format!("{:?}", e))?;
            }
        }
        Ok(())
    });
    c.eval();
    c.note(format!("{}: fields of {:?} bytes (file: {:?}), source reads up to {}, writes up to {}, reads of {}", CLIENTS[client], sizes, files, step, max, buf.len()));
    res?;
    let sent = taken.load(Ordering::Relaxed);
    ensure!(sent >= total, "{} of {} bytes were sent", sent, total);
    // the heaviest single field alone is above the bound
    ensure!(peak <= CLIENT_BOUND, "peak heap use {} bytes while sending {} bytes (bound {})", peak, total, CLIENT_BOUND);
    if client >= 3 {
        let h = raw_head(&head.lock().unwrap())?;
        if h.iter().any(|(n, _)| n == "content-length") {
            c.count("with_length");
        } else {
            c.count("chunked");
        }
    }
    c.count(CLIENTS[client]);
    for i in 0..k {
        c.count(if files[i] { "large_files" } else { "large_streams" });
    }
    c.add("bytes_sent", sent);
    c.max("highest_peak_heap_bytes", peak as u64);
    c.distinct(format!("{} {:?} {:?} {} {} {}", client, sizes, files, step, max, buf.len()).as_bytes());
    c.sample(|| format!("{}: {} bytes in {} fields: peak {} bytes", CLIENTS[client], total, k, peak));
    Ok(())
}

// ---------------------------------------------------------------- C26

static FULL: Mutex<()> = Mutex::new(());

/// The files below `dir` that this process has open.
fn open_below(dir: &Path) -> Result<Vec<PathBuf>, String> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc/self/fd").map_err(|e| format!("(harness) /proc/self/fd: {}", e))?.flatten() {
        if let Ok(p) = std::fs::read_link(e.path()) {
            // only one case at a time has a link to that
            if p.starts_with(dir) || dir.join("full").exists() && p == Path::new("/dev/full") {
                v.push(p);
            }
        }
    }
    Ok(v)
}

fn none_open(dir: &Path, when: &str) -> Res {
    let v = open_below(dir)?;
    ensure!(v.is_empty(), "{}: still open: {:?}", when, v);
    Ok(())
}

#[derive(Default)]
struct Life {
    started: AtomicBool,
    ended: AtomicBool,
    dropped: AtomicUsize,
}

/// A stream (or transport) that tells when it is used and dropped.
struct Tracked<R> {
    inner: R,
    life: Arc<Life>,
    fail_at: Option<(usize, ErrorKind)>,
    calls: usize,
}

impl<R: Read> Read for Tracked<R> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        self.life.started.store(true, Ordering::SeqCst);
        let call = self.calls;
        self.calls += 1;
        if let Some((at, kind)) = self.fail_at {
            if call >= at {
                return Err(io::Error::new(kind, "injected source fault"));
            }
        }
        let n = self.inner.read(out)?;
        if n == 0 && !out.is_empty() {
            self.life.ended.store(true, Ordering::SeqCst);
        }
        Ok(n)
    }
}

impl<R> Drop for Tracked<R> {
    fn drop(&mut self) {
        self.life.dropped.fetch_add(1, Ordering::SeqCst);
    }
}

fn tracked<R: Read>(inner: R) -> (Tracked<R>, Arc<Life>) {
    let life: Arc<Life> = Default::default();
    (Tracked { inner, life: life.clone(), fail_at: None, calls: 0 }, life)
}

fn all_dropped(lives: &[Arc<Life>], when: &str) -> Res {
    for (i, l) in lives.iter().enumerate() {
        let n = l.dropped.load(Ordering::SeqCst);
        ensure!(n == 1, "{}: source {} was dropped {} times", when, i, n);
    }
    Ok(())
}

/// A request whose stream tells when it is dropped.
struct OutReq {
    life: Arc<Life>,
    fail_open: bool,
    fail_finish: bool,
    fail_write: Option<usize>,
}

struct OutStream {
    life: Arc<Life>,
    out: usize,
    fail_finish: bool,
    fail_write: Option<usize>,
}

impl Drop for OutStream {
    fn drop(&mut self) {
        self.life.dropped.fetch_add(1, Ordering::SeqCst);
    }
}

impl Write for OutStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.fail_write.map_or(false, |f| self.out >= f) {
            return Err(io::Error::new(ErrorKind::BrokenPipe, "injected write fault"));
        }
        self.out += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl HttpRequest for OutReq {
    type Stream = OutStream;
    type Error = io::Error;
    fn apply_headers(&mut self, _: &str, _: Option<u64>) -> bool {
        true
    }
    fn open_stream(self) -> io::Result<OutStream> {
        if self.fail_open {
            return Err(io::Error::new(ErrorKind::ConnectionRefused, "injected open fault"));
        }
        self.life.started.store(true, Ordering::SeqCst);
        Ok(OutStream { life: self.life.clone(), out: 0, fail_finish: self.fail_finish, fail_write: self.fail_write })
    }
}

impl HttpStream for OutStream {
    type Request = OutReq;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> io::Result<()> {
        if self.fail_finish {
            return Err(io::Error::new(ErrorKind::ConnectionReset, "injected finish fault"));
        }
        Ok(())
    }
}

enum Item {
    Text(String),
    File(PathBuf),
    Stream(Vec<u8>, Option<(usize, ErrorKind)>),
}

thread_local! {
    static ROUND: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
static ROUNDS: AtomicU64 = AtomicU64::new(0);

/// Differs from round to round (so that a table of everything seen would grow), but not in length.
fn nonce() -> String {
    format!("{:012}", ROUND.with(|r| r.get()))
}

/// Fields named `<i>~...` so that their heads can be found in the output.
fn items(r: &mut Rng, dir: &Path, bad: bool) -> Vec<Item> {
    let n = r.range(1, 6);
    let at = r.below(n);
    (0..n)
        .map(|i| {
            let len = gen::len(r, 20_000);
            if bad && i == at {
                return if r.bool() { Item::File(dir.join("missing")) } else { Item::Stream(r.bytes(len), Some((r.below(3), ErrorKind::Other))) };
            }
            match r.below(5) {
                0 => Item::Text(gen::utf8(r, len)),
                1 | 2 => {
                    let p = dir.join(format!("source-{}.bin", i));
                    std::fs::write(&p, r.bytes(len)).unwrap();
                    Item::File(p)
                }
                _ => Item::Stream(r.bytes(len), None),
            }
        })
        .collect()
}

fn fill<'n, 'd>(items: &'d [Item], lz: &mut lazy::Multipart<'n, 'd>, lives: &mut Vec<Arc<Life>>) {
    for (i, it) in items.iter().enumerate() {
        let name = format!("{}~{}", i, nonce());
        match *it {
            Item::Text(ref t) => lz.add_text(name, &**t),
            Item::File(ref p) => lz.add_file(name, &**p),
            Item::Stream(ref v, f) => {
                let (mut s, life) = tracked(&v[..]);
                s.fail_at = f;
                lives.push(life);
                lz.add_stream(name, s, None::<String>, None)
            }
        };
    }
}

fn describe(items: &[Item]) -> String {
    items
        .iter()
        .map(|i| match i {
            Item::Text(t) => format!("text({})", t.len()),
            Item::File(p) => format!("file({:?})", p.file_name()),
            Item::Stream(v, f) => format!("stream({}, {:?})", v.len(), f),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// A lazy body is read step by step; everything behind the reading position must be closed.
fn lazy_read(r: &mut Rng, dir: &Path, obs: &mut Vec<&'static str>, desc: &mut String) -> Res {
    let its = items(r, dir, false);
    *desc = format!("lazy body of {}", describe(&its));
    let sources = its.iter().filter(|i| !matches!(i, Item::Text(_))).count();
    let mut lives = vec![];
    let mut lz = lazy::Multipart::new();
    fill(&its, &mut lz, &mut lives);
    none_open(dir, "before preparing")?;
    let mut p = lz.prepare().map_err(|e| format!("{:?}", e))?;
    let mut out: Vec<u8> = vec![];
    let mut buf = vec![0u8; *r.pick(&[1usize, 10, 100, 1000, 5000, 100_000])];
    let stop = if r.chance(1, 4) { r.below(30_000) } else { usize::MAX };
    let mut look_at = 0;
    let ended = loop {
        if out.len() >= stop {
            break false;
        }
        let n = p.read(&mut buf).map_err(|e| e.to_string())?;
        if n == 0 {
            break true;
        }
        out.extend_from_slice(&buf[..n]);
        if out.len() >= look_at {
            look_at = out.len() + 1 + r.below(4000);
            let running = lives.iter().filter(|l| l.started.load(Ordering::SeqCst) && l.dropped.load(Ordering::SeqCst) == 0).count();
            ensure!(running <= 1, "{} streams that were begun are still held after {} bytes", running, out.len());
            // heads of files and streams that were completely delivered
            let mut begun = 0;
            for (i, it) in its.iter().enumerate() {
                if !matches!(it, Item::Text(_)) && gen::find(&out, format!("name=\"{}~", i).as_bytes()).is_some() {
                    begun += 1;
                }
            }
            let held = open_below(dir)?.len() + lives.iter().filter(|l| l.dropped.load(Ordering::SeqCst) == 0).count();
            let most = sources - if begun > 0 { begun - 1 } else { 0 };
            ensure!(held <= most, "{} sources are held while the {}th of {} is read", held, begun, sources);
            if begun > 1 {
                obs.push("passed_sources_seen_closed");
            }
        }
    };
    if ended {
        none_open(dir, "at the end of the body")?;
        all_dropped(&lives, "at the end of the body")?;
        obs.push("bodies_read");
    }
    drop(p);
    none_open(dir, "after the body was dropped")?;
    all_dropped(&lives, "after the body was dropped")?;
    if !ended {
        obs.push("bodies_abandoned");
    }
    Ok(())
}

/// A lazy request is sent, maybe with a failure somewhere.
fn lazy_send(r: &mut Rng, dir: &Path, obs: &mut Vec<&'static str>, desc: &mut String) -> Res {
    let bad = r.chance(1, 3);
    let its = items(r, dir, bad);
    let life: Arc<Life> = Default::default();
    let req = OutReq {
        life: life.clone(),
        fail_open: r.chance(1, 8),
        fail_finish: r.chance(1, 8),
        fail_write: if r.chance(1, 4) { Some(r.below(20_000)) } else { None },
    };
    *desc = format!("lazy request of {}, open fault {}, finish fault {}, write fault {:?}", describe(&its), req.fail_open, req.fail_finish, req.fail_write);
    let mut lives = vec![];
    let mut lz = lazy::Multipart::new();
    fill(&its, &mut lz, &mut lives);
    let res = lz.send(req);
    none_open(dir, if res.is_ok() { "after sending" } else { "after sending failed" })?;
    if life.started.load(Ordering::SeqCst) {
        ensure!(life.dropped.load(Ordering::SeqCst) == 1, "the request stream was not dropped (result {:?})", res.as_ref().map_err(|e| e.to_string()));
    }
    if res.is_ok() {
        all_dropped(&lives, "after sending")?;
        obs.push("requests_sent");
    } else {
        obs.push("requests_failed");
    }
    drop(res);
    drop(lz);
    all_dropped(&lives, "after the builder was dropped")
}

/// The streaming client closes a file before it returns.
fn streaming(r: &mut Rng, dir: &Path, obs: &mut Vec<&'static str>, desc: &mut String) -> Res {
    let bad = r.chance(1, 3);
    let its = items(r, dir, bad);
    let life: Arc<Life> = Default::default();
    let req = OutReq {
        life: life.clone(),
        fail_open: r.chance(1, 8),
        fail_finish: r.chance(1, 8),
        fail_write: if r.chance(1, 4) { Some(r.below(20_000)) } else { None },
    };
    let sized = r.bool();
    *desc = format!("{} request of {}, open fault {}, finish fault {}, write fault {:?}", if sized { "sized" } else { "chunked" }, describe(&its), req.fail_open, req.fail_finish, req.fail_write);
    macro_rules! go {
        ($start:expr) => {{
            let res = $start.and_then(|mut m| {
                for (i, it) in its.iter().enumerate() {
                    let name = format!("{}~{}", i, nonce());
                    let res = match *it {
                        Item::Text(ref t) => m.write_text(name, t).map(|_| ()),
                        Item::File(ref p) => m.write_file(name, p).map(|_| ()),
                        Item::Stream(ref v, f) => {
                            let (mut s, _life) = tracked(&v[..]);
                            s.fail_at = f;
                            m.write_stream(name, &mut s, None, None).map(|_| ())
                        }
                    };
                    if let Err(e) = none_open(dir, "after the field was written") {
                        return Err(io::Error::new(ErrorKind::AddrInUse, e));
                    }
                    res?;
                }
                m.send()
            });
            match res {
                Ok(_) => obs.push("requests_sent"),
                Err(ref e) if e.kind() == ErrorKind::AddrInUse => fail!("{}", e),
                Err(_) => obs.push("requests_failed"),
            }
        }};
    }
    if sized {
        go!(Multipart::from_request_sized(req));
    } else {
        go!(Multipart::from_request(req));
    }
    if life.started.load(Ordering::SeqCst) {
        ensure!(life.dropped.load(Ordering::SeqCst) == 1, "the request stream was not dropped");
    }
    none_open(dir, "after the request")
}

fn upload(r: &mut Rng) -> gen::Body {
    let n = r.range(0, 6);
    let parts: Vec<Part> = (0..n)
        .map(|i| {
            let len = gen::len(r, 20_000);
            let b = gen::plain_boundary(r);
            let name = format!("n{}-{}", if r.bool() { i } else { 0 }, nonce());
            let file = format!("f-{}", nonce());
            let ty = format!("{}/x-{}", if r.bool() { "text" } else { "image" }, nonce());
            gen::mk(&name, if r.bool() { Some(&*file) } else { None }, if r.bool() { Some(&*ty) } else { None }, gen::content(r, &b, len))
        })
        .collect();
    gen::simple(r, parts)
}

fn transport(r: &mut Rng, b: &gen::Body) -> (Tracked<Src>, Arc<Life>) {
    let mut bytes: Vec<u8> = b.bytes.to_vec();
    if r.chance(1, 4) {
        bytes.truncate(r.below(bytes.len() + 1));
    }
    let faults = if r.chance(1, 4) { vec![Fault { at: r.below(10), kind: *r.pick(&[ErrorKind::Interrupted, ErrorKind::TimedOut, ErrorKind::ConnectionReset]) }] } else { vec![] };
    let plan = Plan::Random(r.u64(), 6000);
    tracked(Src::new(Arc::new(bytes), plan).with_faults(faults))
}

/// Fields and requests are saved; nothing is open while the results are held.
fn saving(r: &mut Rng, dir: &Path, obs: &mut Vec<&'static str>, desc: &mut String) -> Res {
    let b = upload(r);
    let (src, life) = transport(r, &b);
    let threshold = *r.pick(&[0u64, 100, 10_240, u64::MAX]);
    let limit = if r.bool() { None } else { Some(r.below(12_000) as u64) };
    let to = dir.join("out");
    let whole = r.bool();
    *desc = format!("{} of {} fields saved, threshold {}, limit {:?}", if whole { "request" } else { "first field" }, b.parts.len(), threshold, limit);
    let mut mp = server::Multipart::with_body(src, &*b.boundary);
    if whole {
        let count = if r.chance(1, 4) { Some(r.below(6) as u32) } else { None };
        let res = mp.save().memory_threshold(threshold).size_limit(limit).count_limit(count).with_dir(&to);
        none_open(dir, "while the result of saving the request is held")?;
        let mut kept: Option<Entries> = None;
        match res {
            SaveResult::Full(e) => {
                obs.push("requests_saved");
                kept = Some(e);
            }
            SaveResult::Partial(p, reason) => {
                obs.push("requests_saved_in_part");
                match reason {
                    // go on from there
                    PartialReason::CountLimit | PartialReason::SizeLimit if r.bool() => {
                        let e = p.keep_partial();
                        let res = mp.save().memory_threshold(threshold).size_limit(None).count_limit(None).with_entries(e);
                        none_open(dir, "while the result of the resumed save is held")?;
                        kept = res.into_entries();
                    }
                    _ => drop(p),
                }
            }
            SaveResult::Error(_) => obs.push("errors_to_save"),
        }
        if let Some(ref e) = kept {
            for f in e.fields.values().flat_map(|v| v.iter()) {
                let mut rd = f.data.readable().map_err(|e| e.to_string())?;
                let mut v = vec![0; 100];
                rd.read(&mut v).map_err(|e| e.to_string())?;
                if !f.data.is_memory() {
                    ensure!(open_below(dir)?.len() == 1, "{:?} open while one reader is held", open_below(dir)?);
                    obs.push("readers_of_files");
                }
            }
            none_open(dir, "after the readers were dropped")?;
        }
    } else {
        let full = r.chance(1, 5);
        let _one = if full { Some(FULL.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
        if full {
            std::os::unix::fs::symlink("/dev/full", dir.join("full")).unwrap();
        }
        let mut all = vec![];
        loop {
            let mut f = match mp.read_entry_mut().into_result() {
                Ok(Some(f)) => f,
                _ => break,
            };
            let mut s = f.data.save();
            let s = s.memory_threshold(threshold).size_limit(limit);
            let mut s = if r.bool() { s.force_text() } else { s };
            let res = if full {
                obs.push("full_disks");
                s.mod_open_opts(|o| {
                    o.create_new(false);
                })
                .with_path(dir.join("full"))
            } else if r.bool() {
                s.with_dir(&to)
            } else {
                s.with_path(to.join("same"))
            };
            match res {
                SaveResult::Full(_) => obs.push("fields_saved"),
                SaveResult::Partial(..) => obs.push("fields_saved_in_part"),
                SaveResult::Error(_) => obs.push("errors_to_save"),
            }
            all.push(res);
            none_open(dir, "while the result of saving a field is held")?;
            if all.len() > 8 {
                break;
            }
        }
    }
    ensure!(life.dropped.load(Ordering::SeqCst) == 0, "the body was dropped while its reader is held");
    drop(mp);
    ensure!(life.dropped.load(Ordering::SeqCst) == 1, "the body was dropped {} times", life.dropped.load(Ordering::SeqCst));
    Ok(())
}

/// The body goes away with whatever holds it last, wherever reading stopped.
fn reading(r: &mut Rng, _: &Path, obs: &mut Vec<&'static str>, desc: &mut String) -> Res {
    let b = upload(r);
    let (src, life) = transport(r, &b);
    let stop = r.range(0, 7);
    let how = r.below(4);
    *desc = format!("{} fields read by value up to {}, way {}", b.parts.len(), stop, how);
    let mp = server::Multipart::with_body(src, &*b.boundary);
    let alive = || life.dropped.load(Ordering::SeqCst);
    fn peek<R: Read>(r: &mut Rng, f: &mut MultipartField<server::Multipart<R>>) {
        match r.below(3) {
            0 => {
                let _ = f.data.read_to_end(&mut vec![]);
            }
            1 => {
                let _ = f.data.fill_buf();
            }
            _ => (),
        }
    }
    match how {
        0 => drop(mp),
        1 => {
            let mut cur = mp.into_entry();
            let mut i = 0;
            loop {
                match cur {
                    ReadEntryResult::Entry(mut f) => {
                        peek(r, &mut f);
                        ensure!(alive() == 0, "the body was dropped while field {} is held", i);
                        i += 1;
                        if i > stop {
                            drop(f);
                            break;
                        }
                        cur = f.next_entry();
                    }
                    ReadEntryResult::End(m) => {
                        ensure!(alive() == 0, "the body was dropped although it was given back at the end");
                        drop(m);
                        break;
                    }
                    ReadEntryResult::Error(m, e) => {
                        ensure!(alive() == 0, "the body was dropped although it was given back with the error");
                        drop(m);
                        drop(e);
                        obs.push("errors_to_read");
                        break;
                    }
                }
            }
        }
        2 => {
            if let ReadEntryResult::Entry(mut f) = mp.into_entry() {
                peek(r, &mut f);
                let m = f.data.into_inner();
                ensure!(alive() == 0, "the body was dropped although it was taken out of the field");
                drop(m);
            }
        }
        _ => {
            let mut mp = mp;
            let _ = mp.foreach_entry(|_| ());
            ensure!(alive() == 0, "the body was dropped while its reader is held");
            let _ = mp.read_entry_mut().into_result();
            drop(mp);
        }
    }
    ensure!(alive() == 1, "the body was dropped {} times", alive());
    obs.push("bodies_released");
    Ok(())
}

type Scenario = fn(&mut Rng, &Path, &mut Vec<&'static str>, &mut String) -> Res;
const SCENARIOS: &[Scenario] = &[lazy_read, lazy_send, streaming, saving, reading];

pub fn c26(ctx: &Ctx) {
    ctx.expect(&[
        "passed_sources_seen_closed", "bodies_read", "bodies_abandoned", "requests_sent", "requests_failed", "requests_saved", "requests_saved_in_part", "readers_of_files",
        "fields_saved", "fields_saved_in_part", "bodies_released", "errors_to_read", "errors_to_save", "heap_balances", "full_disks",
    ]);
    ctx.assume("open files are those /proc/self/fd shows below the case's own directory; memory is what the case's thread requested from the global allocator and did not return");
    ctx.cases("release", ctx.n(4000, 60_000), |c| {
        let which = c.idx % SCENARIOS.len();
        let seed = c.r.u64();
        let mut left = 0;
        // memory that is kept once (caches, thread-local generators) is no leak: only repeated growth is
        for round in 0..4 {
            ROUND.with(|r| r.set(ROUNDS.fetch_add(1, Ordering::Relaxed)));
            let mut desc = String::new();
            let mut obs = Vec::with_capacity(1024);
            let dir = scratch::fresh("held");
            let before = alloc::live();
            let res = guard(|| SCENARIOS[which](&mut Rng::new(seed), &dir, &mut obs, &mut desc)).and_then(|x| x);
            let ok = res.is_ok();
            left = alloc::live() - before - desc.capacity() as isize;
            scratch::done(&dir);
            if round == 0 {
                c.eval();
                for o in &obs {
                    c.count(o);
                }
                c.distinct(format!("{} {}", which, desc).as_bytes());
                c.sample(|| desc.clone());
            }
            if !ok {
                c.note(desc);
                return res;
            }
            if obs.len() > 1024 || left <= 0 {
                left = 0;
                break;
            }
            c.count("repeated_for_memory");
            if round == 3 {
                c.note(desc);
            }
        }
        ensure!(left <= 0, "{} bytes more are allocated after everything was dropped, again and again", left);
        c.count("heap_balances");
        Ok(())
    });
}
