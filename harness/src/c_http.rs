//! C18–C20: the server integrations.
use crate::c_decode::saved_bytes;
use crate::core::{guard, Case, Ctx, Res};
use crate::decode::{check_all, check_headers, Style};
use crate::gen::{self, diff, show, Body, Part};
use crate::rng::{hash, Rng};
use crate::scratch;
use crate::{ensure, fail};
use hyper::buffer::BufReader;
use hyper::net::NetworkStream;
use multipart::server::iron::{FileCountLimitError, FileSizeLimitError, Intercept, LimitBehavior};
use multipart::server::nickel::{Maybe, MultipartBody};
use multipart::server::save::{Entries, SaveResult};
use multipart::server::{HttpRequest, Multipart};
use std::collections::{BTreeMap, HashSet};
use std::io::{self, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- requests in memory

/// A connection that delivers `data` in portions and takes whatever is written.
pub struct Mem {
    data: Vec<u8>,
    pos: usize,
    max: usize,
    rng: Rng,
}

impl Mem {
    fn new(data: Vec<u8>, max: usize, seed: u64) -> Mem {
        Mem { data, pos: 0, max, rng: Rng::new(seed) }
    }
}

impl Read for Mem {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos);
        if n > 1 && self.max > 0 {
            n = self.rng.range(1, n.min(self.max));
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Mem {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl NetworkStream for Mem {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(addr())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}

fn addr() -> SocketAddr {
    "127.0.0.1:4711".parse().unwrap()
}

#[derive(Clone, Debug)]
struct Ask {
    method: &'static str,
    /// name as written in the head, value
    ctype: Option<(String, String)>,
    /// the boundary to be found
    want: Option<String>,
    why: &'static str,
}

fn random_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}

const METHODS: &[&str] = &["GET", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "PROPFIND", "POSTS", "XPOST", "post", "Post"];

const OTHER_TYPES: &[&str] = &[
    "multipart/mixed",
    "multipart/related",
    "multipart/form-data2",
    "multipart/x-form-data",
    "multipart/form",
    "multipart/byteranges",
    "text/form-data",
    "application/form-data",
    "form-data/multipart",
    "application/x-www-form-urlencoded",
    "text/plain",
    "application/json",
    "xmultipart/form-data",
];

/// A boundary and how it is written as a parameter value
fn boundary_param(r: &mut Rng) -> (String, String, bool) {
    let n = *r.pick(&[1, 2, 5, 16, 27, 40, 69, 70]);
    let quoted = r.chance(1, 3);
    let mut b = String::new();
    for i in 0..n {
        let c = if i == 0 || i == n - 1 {
            *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-")
        } else if quoted {
            *r.pick(b"ABCXYZabcxyz0123456789-_.+'()/:=?, ")
        } else {
            *r.pick(gen::BSAFE)
        };
        b.push(c as char);
    }
    if r.chance(1, 4) && n >= 16 {
        b.replace_range(..12, "------------");
    }
    // mean something elsewhere
    if r.chance(1, 20) {
        b = r.pick(&["utf-8", "UTF-8", "boundary", "form-data", "multipart", "text", "charset", "q", "none", "gzip"]).to_string();
    }
    let v = if quoted { format!("\"{}\"", b) } else { b.clone() };
    (b, v, quoted)
}

fn valid_type(r: &mut Rng) -> (String, String) {
    let (b, v, quoted) = boundary_param(r);
    let sep = |r: &mut Rng| *r.pick(&[";", "; ", "; ", ";  "]);
    let mut s = random_case(r, "multipart/form-data");
    let others = ["charset=utf-8", "foo=bar", "x-boundary=zzz", "boundary2=other", "bound=ary", "charset=ISO-8859-1", "a=boundary"];
    for _ in 0..r.below(3) {
        s.push_str(sep(r));
        s.push_str(*r.pick(&others));
    }
    s.push_str(sep(r));
    s.push_str(&random_case(r, "boundary"));
    s.push('=');
    s.push_str(&v);
    if !quoted {
        for _ in 0..r.below(2) {
            s.push_str(sep(r));
            s.push_str(*r.pick(&others));
        }
    }
    (b, s)
}

fn ask(r: &mut Rng) -> Ask {
    let (b, t) = valid_type(r);
    let name = random_case(r, "Content-Type");
    if r.chance(3, 5) {
        return Ask { method: "POST", ctype: Some((name, t)), want: Some(b), why: "multipart" };
    }
    match r.below(5) {
        0 => Ask { method: *r.pick(METHODS), ctype: Some((name, t)), want: None, why: "method" },
        1 => Ask { method: "POST", ctype: None, want: None, why: "no content type" },
        2 => {
            let other = *r.pick(OTHER_TYPES);
            let mut v = random_case(r, other);
            if r.chance(3, 4) {
                v.push_str(&t[t.find(';').unwrap()..]);
            }
            Ask { method: "POST", ctype: Some((name, v)), want: None, why: "other type" }
        }
        3 => {
            let mut v = random_case(r, "multipart/form-data");
            for _ in 0..r.below(3) {
                v.push_str("; ");
                v.push_str(*r.pick(&["charset=utf-8", "foo=bar", "x-boundary=zzz", "boundary2=other", "xboundary=abc", "bound=ary"]));
            }
            Ask { method: "POST", ctype: Some((name, v)), want: None, why: "no boundary" }
        }
        _ => {
            let v = format!("multipart/form-data; foo=\"boundary={}\"", b.replace('"', ""));
            Ask { method: "POST", ctype: Some((name, v)), want: None, why: "boundary in another parameter" }
        }
    }
}

/// A body, multipart with the expected boundary where there is one
fn ask_body(r: &mut Rng, a: &Ask) -> Body {
    let bnd = match a.want {
        Some(ref b) => b.clone(),
        None => gen::plain_boundary(r),
    };
    let parts: Vec<Part> = (0..r.range(1, 4)).map(|_| gen::part(r, &bnd, 3000)).collect();
    let lay = gen::Layout { varied: r.bool(), ..gen::Layout::plain() };
    gen::encode(r, &bnd, parts, &lay)
}

fn chunked(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut rest = b;
    while !rest.is_empty() {
        let n = r.range(1, 3000).min(rest.len());
        v.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
        v.extend_from_slice(&rest[..n]);
        v.extend_from_slice(b"\r\n");
        rest = &rest[n..];
    }
    v.extend_from_slice(b"0\r\n\r\n");
    v
}

fn message(r: &mut Rng, a: &Ask, body: &[u8], allow_chunked: bool) -> Vec<u8> {
    let chunk = allow_chunked && r.chance(1, 4);
    let mut lines = vec!["Host: check.test".to_string(), "X-Marker: kept; boundary=fake".to_string()];
    lines.push(if chunk { "Transfer-Encoding: chunked".into() } else { format!("Content-Length: {}", body.len()) });
    if let Some((ref n, ref v)) = a.ctype {
        lines.push(format!("{}: {}", n, v));
    }
    r.shuffle(&mut lines);
    let mut m = format!("{} /some/path?q=1 HTTP/1.1\r\n{}\r\n\r\n", a.method, lines.join("\r\n")).into_bytes();
    if chunk {
        m.extend_from_slice(&chunked(r, body));
    } else {
        m.extend_from_slice(body);
    }
    m
}

fn read_whole(rd: &mut dyn Read) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    rd.read_to_end(&mut v).map_err(|e| format!("reading the body of a rejected request: {:?}", e))?;
    Ok(v)
}

/// Check what an integration said about a request.
fn accepted<R: Read>(a: &Ask, b: &Body, mp: &mut Multipart<R>, style: &mut dyn FnMut() -> Style) -> Res {
    ensure!(a.want.is_some(), "a request was accepted as multipart ({})", a.why);
    check_all(mp, b, style)
}

fn found(a: &Ask, got: Option<&str>) -> Res {
    ensure!(got == a.want.as_deref(), "multipart_boundary() is {:?}, expected {:?}", got, a.want);
    Ok(())
}

fn rejected(a: &Ask, b: &Body, method: &str, ctype: Option<String>, marker: Option<String>, body: &mut dyn Read) -> Res {
    ensure!(a.want.is_none(), "a multipart request was rejected");
    ensure!(method == a.method, "method of the rejected request is {}", method);
    if let Some((_, ref v)) = a.ctype {
        ensure!(ctype.as_ref() == Some(v), "content type of the rejected request is {:?}", ctype);
    } else {
        ensure!(ctype.is_none(), "content type of the rejected request is {:?}", ctype);
    }
    ensure!(marker.as_deref() == Some("kept; boundary=fake"), "another header of the rejected request is {:?}", marker);
    let got = read_whole(body)?;
    ensure!(got == **b.bytes, "body of the rejected request: {}", diff(&got, &b.bytes));
    Ok(())
}

fn raw_header(h: &hyper::header::Headers, n: &str) -> Option<String> {
    h.get_raw(n).and_then(|v| v.first().map(|v| String::from_utf8_lossy(v).into_owned()))
}

const WAYS: &[&str] = &["hyper", "hyper_by_reference", "hyper_switch", "iron", "nickel", "nickel_multipart_body"];

fn in_memory(way: usize, a: &Ask, b: &Body, msg: Vec<u8>, max: usize, seed: u64) -> Res {
    let mut mem = Mem::new(msg, max, seed);
    let mut rng = Rng::new(seed);
    let mut style = move || Style::random(&mut rng);
    let mut stream = BufReader::new(&mut mem as &mut dyn NetworkStream);
    let mut req = hyper::server::Request::new(&mut stream, addr()).map_err(|e| format!("(harness) request not parsed: {:?}", e))?;
    match way {
        0 => {
            found(a, req.multipart_boundary())?;
            match Multipart::from_request(req) {
                Ok(mut mp) => accepted(a, b, &mut mp, &mut style),
                Err(mut req) => {
                    let (ct, mk) = (raw_header(&req.headers, "Content-Type"), raw_header(&req.headers, "X-Marker"));
                    let m = req.method.to_string();
                    rejected(a, b, &m, ct, mk, &mut req)
                }
            }
        }
        1 => {
            found(a, (&mut req).multipart_boundary())?;
            let acc = match Multipart::from_request(&mut req) {
                Ok(mut mp) => {
                    accepted(a, b, &mut mp, &mut style)?;
                    true
                }
                Err(_) => false,
            };
            if !acc {
                let (ct, mk) = (raw_header(&req.headers, "Content-Type"), raw_header(&req.headers, "X-Marker"));
                let m = req.method.to_string();
                rejected(a, b, &m, ct, mk, &mut req)?;
            }
            Ok(())
        }
        2 => {
            type Got = Mutex<Vec<Res>>;
            let got: &'static Got = Box::leak(Box::default());
            let (a1, b1) = (a.clone(), Body { boundary: b.boundary.clone(), parts: b.parts.clone(), bytes: b.bytes.clone(), delims: vec![], content_at: vec![], end: b.end });
            let (a2, b2) = (a.clone(), Body { boundary: b.boundary.clone(), parts: b.parts.clone(), bytes: b.bytes.clone(), delims: vec![], content_at: vec![], end: b.end });
            let normal = move |mut req: hyper::server::Request, _res: hyper::server::Response| {
                let (ct, mk) = (raw_header(&req.headers, "Content-Type"), raw_header(&req.headers, "X-Marker"));
                let m = req.method.to_string();
                got.lock().unwrap().push(rejected(&a2, &b2, &m, ct, mk, &mut req));
            };
            let multi = move |mut mp: Multipart<hyper::server::Request>, _res: hyper::server::Response| {
                let mut rng = Rng::new(seed);
                got.lock().unwrap().push(accepted(&a1, &b1, &mut mp, &mut || Style::random(&mut rng)));
            };
            let sw = multipart::server::hyper::Switch::new(normal, multi);
            let mut out: Vec<u8> = vec![];
            let mut headers = hyper::header::Headers::new();
            let res = hyper::server::Response::new(&mut out, &mut headers);
            hyper::server::Handler::handle(&sw, req, res);
            let mut got = got.lock().unwrap();
            ensure!(got.len() == 1, "Switch called {} handlers", got.len());
            got.pop().unwrap()
        }
        3 => {
            let mut req = iron::Request::from_http(req, addr(), &iron::Protocol::http()).map_err(|e| format!("(harness) {}", e))?;
            found(a, (&mut req).multipart_boundary())?;
            let acc = match Multipart::from_request(&mut req) {
                Ok(mut mp) => {
                    accepted(a, b, &mut mp, &mut style)?;
                    true
                }
                Err(_) => false,
            };
            if !acc {
                let (ct, mk) = (raw_header(&req.headers, "Content-Type"), raw_header(&req.headers, "X-Marker"));
                let m = req.method.to_string();
                rejected(a, b, &m, ct, mk, &mut req.body)?;
            }
            Ok(())
        }
        _ => {
            let data = ();
            let mut req = nickel::Request::from_internal(req, &data);
            let acc = if way == 4 {
                found(a, Maybe(&mut req).multipart_boundary())?;
                match Multipart::from_request(Maybe(&mut req)) {
                    Ok(mut mp) => {
                        accepted(a, b, &mut mp, &mut style)?;
                        true
                    }
                    Err(back) => {
                        // as it came
                        let inner: &mut nickel::Request<()> = back.into();
                        ensure!(inner.origin.method.to_string() == a.method, "method of the rejected request");
                        false
                    }
                }
            } else {
                match req.multipart_body() {
                    Some(mut mp) => {
                        accepted(a, b, &mut mp, &mut style)?;
                        true
                    }
                    None => false,
                }
            };
            if !acc {
                let (ct, mk) = (raw_header(&req.origin.headers, "Content-Type"), raw_header(&req.origin.headers, "X-Marker"));
                let m = req.origin.method.to_string();
                rejected(a, b, &m, ct, mk, &mut req.origin)?;
            }
            Ok(())
        }
    }
}

fn note_ask(c: &mut Case, a: &Ask, b: &Body, way: &str) {
    c.note(format!("{}: {} with {:?} ({}); expected boundary {:?}", way, a.method, a.ctype, a.why, a.want));
    for (i, p) in b.parts.iter().enumerate() {
        c.note(format!("part {}: name {:?} filename {:?} type {:?} content {}", i, p.name, p.filename, p.ctype, show(&p.content)));
    }
}

fn count_ask(c: &mut Case, a: &Ask) {
    c.count(match a.why {
        "multipart" => "multipart_requests",
        "method" => "other_methods",
        "no content type" => "without_content_type",
        "other type" => "other_types",
        "no boundary" => "without_boundary",
        _ => "boundary_in_other_parameter",
    });
}

/// Requests over one connection to a tiny_http server, handled here.
struct Tiny {
    server: tiny_http::Server,
    conn: Option<(TcpStream, usize)>,
}

impl Tiny {
    fn new() -> io::Result<Tiny> {
        let server = tiny_http::Server::http("127.0.0.1:0").map_err(|e| io::Error::new(io::ErrorKind::Other, e.to_string()))?;
        Ok(Tiny { server, conn: None })
    }
    /// Send the bytes of one request and get it at the server.
    /// (`None`: tiny_http did not hand it over; nothing of this crate has run yet)
    fn request(&mut self, msg: &[u8]) -> io::Result<Option<tiny_http::Request>> {
        if self.conn.as_ref().map_or(true, |c| c.1 >= 50) {
            self.conn = None;
            self.conn = Some((TcpStream::connect(self.server.server_addr())?, 0));
        }
        let c = self.conn.as_mut().unwrap();
        c.1 += 1;
        c.0.set_read_timeout(Some(Duration::from_secs(60)))?;
        c.0.write_all(msg)?;
        self.server.recv_timeout(Duration::from_secs(20))
    }
    /// Read the response (with a Content-Length).
    fn response(&mut self, head_only: bool) -> io::Result<Vec<u8>> {
        let s = &mut self.conn.as_mut().unwrap().0;
        let mut buf = vec![];
        loop {
            if let Some(e) = gen::find(&buf, b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&buf[..e]).to_ascii_lowercase();
                let n = head.split("content-length:").nth(1).and_then(|x| x.split("\r\n").next()).and_then(|x| x.trim().parse::<usize>().ok()).unwrap_or(0);
                if head_only || buf.len() >= e + 4 + n {
                    return Ok(buf[e + 4..].to_vec());
                }
            }
            let mut t = [0; 4096];
            let n = s.read(&mut t)?;
            if n == 0 {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
            buf.extend_from_slice(&t[..n]);
        }
    }
}

pub fn c18(ctx: &Ctx) {
    ctx.expect(&["multipart_requests", "other_methods", "without_content_type", "other_types", "without_boundary", "boundary_in_other_parameter", "hyper", "hyper_by_reference", "hyper_switch", "iron", "nickel", "nickel_multipart_body", "tiny_http"]);
    ctx.assume("boundaries hyper's Mime can represent; no parameters after a quoted one (hyper's Mime stops there)");
    ctx.cases("memory", ctx.n(20_000, 200_000), |c| {
        let a = ask(&mut c.r);
        let b = ask_body(&mut c.r, &a);
        let way = c.idx % WAYS.len();
        let msg = message(&mut c.r, &a, &b.bytes, true);
        let max = *c.r.pick(&[0usize, 0, 50, 1000]);
        let seed = c.r.u64();
        count_ask(c, &a);
        c.count(WAYS[way]);
        c.eval();
        c.distinct(format!("{} {} {:?}", way, a.method, a.ctype).as_bytes());
        c.sample(|| format!("{}: {} {:?}", WAYS[way], a.method, a.ctype));
        let res = guard(|| in_memory(way, &a, &b, msg, max, seed)).and_then(|x| x);
        if res.is_err() {
            note_ask(c, &a, &b, WAYS[way]);
        }
        res
    });
    let slots: Vec<Mutex<Option<Tiny>>> = (0..8).map(|_| Mutex::new(None)).collect();
    ctx.cases("tiny_http", ctx.n(1000, 2000), |c| {
        let mut a = ask(&mut c.r);
        // tiny_http reads methods whatever their case
        while a.method.eq_ignore_ascii_case("post") && a.method != "POST" {
            a = ask(&mut c.r);
        }
        let b = ask_body(&mut c.r, &a);
        let msg = message(&mut c.r, &a, &b.bytes, true);
        let seed = c.r.u64();
        count_ask(c, &a);
        c.count("tiny_http");
        c.eval();
        c.distinct(format!("tiny {} {:?}", a.method, a.ctype).as_bytes());
        // any free one
        let mut slot = loop {
            if let Some(s) = slots.iter().find_map(|s| s.try_lock().ok()) {
                break s;
            }
            std::thread::yield_now();
        };
        if slot.is_none() {
            *slot = Some(Tiny::new().map_err(|e| format!("(harness) {:?}", e))?);
        }
        let tiny = slot.as_mut().unwrap();
        let mut lost = false;
        let res = guard(|| -> Res {
            let mut req = match tiny.request(&msg).map_err(|e| format!("(harness) {:?}", e))? {
                Some(r) => r,
                None => {
                    tiny.conn = None;
                    lost = true;
                    return Ok(());
                }
            };
            let mut rng = Rng::new(seed);
            found(&a, (&mut req).multipart_boundary())?;
            let acc = match Multipart::from_request(&mut req) {
                Ok(mut mp) => {
                    accepted(&a, &b, &mut mp, &mut || Style::random(&mut rng))?;
                    true
                }
                Err(_) => false,
            };
            if !acc {
                let get = |n: &str| req.headers().iter().find(|h| h.field.as_str().as_str().eq_ignore_ascii_case(n)).map(|h| h.value.as_str().to_string());
                let (ct, mk) = (get("Content-Type"), get("X-Marker"));
                let m = req.method().to_string();
                rejected(&a, &b, &m, ct, mk, req.as_reader())?;
            }
            req.respond(tiny_http::Response::from_string("answer")).map_err(|e| format!("(harness) responding: {:?}", e))?;
            let got = tiny.response(a.method == "HEAD").map_err(|e| format!("the response after the request: {:?}", e))?;
            ensure!(a.method == "HEAD" || got == b"answer", "(harness) response {}", show(&got));
            if gen::find(&msg, b"Transfer-Encoding").is_some() {
                // tiny_http takes what is left of a chunked body for the next request
                tiny.conn = None;
            }
            Ok(())
        })
        .and_then(|x| x);
        if lost {
            c.count("not_handed_over_by_tiny_http");
        }
        if res.is_err() {
            *slot = None;
            note_ask(c, &a, &b, "tiny_http");
        }
        res
    });
}

// ---------------------------------------------------------------- C19

fn uploads(r: &mut Rng) -> Body {
    let bnd = loop {
        let b = gen::plain_boundary(r);
        if !b.starts_with(['_', '.', '+']) {
            break b;
        }
    };
    let many = r.chance(1, 150);
    let max = if many { 60 } else { *r.pick(&[50usize, 500, 3000, 20000]) };
    let n = if many { r.range(250, 1200) } else { r.range(0, 6) };
    let mut parts: Vec<Part> = vec![];
    for _ in 0..n {
        let mut p = gen::part(r, &bnd, max);
        if r.chance(1, 4) && !parts.is_empty() {
            let k = r.below(parts.len());
            p.name = parts[k].name.clone();
        }
        parts.push(p);
    }
    gen::encode(r, &bnd, parts, &gen::Layout::plain())
}

/// All fields are there; those over the limit as a prefix not longer than it.
fn entries_match(e: &Entries, parts: &[Part], limit: u64) -> Res {
    let mut want: BTreeMap<&str, Vec<&Part>> = BTreeMap::new();
    for p in parts {
        want.entry(&p.name).or_default().push(p);
    }
    let total: usize = e.fields.values().map(|v| v.len()).sum();
    ensure!(total == parts.len(), "{} fields in the entries, {} were sent", total, parts.len());
    for (k, ps) in want {
        let got = match e.fields.get(k) {
            Some(g) => g,
            None => fail!("field {:?} is missing", k),
        };
        ensure!(got.len() == ps.len(), "{} fields named {:?}, {} sent", got.len(), k, ps.len());
        for (g, p) in got.iter().zip(ps) {
            check_headers(&g.headers, p)?;
            let d = saved_bytes(&g.data)?;
            if p.content.len() as u64 > limit {
                ensure!(d.len() as u64 <= limit, "{} bytes of {:?} stored, the limit is {}", d.len(), k, limit);
                ensure!(p.content.starts_with(&d), "field {:?} over the limit: {}", k, diff(&d, &p.content));
            } else {
                ensure!(d == p.content, "field {:?}: {}", k, diff(&d, &p.content));
            }
        }
    }
    Ok(())
}

pub fn c19(ctx: &Ctx) {
    ctx.expect(&["strict_full", "strict_size_errors", "strict_count_errors", "lenient_full", "lenient_truncated", "lenient_over_count", "not_multipart", "malformed", "default_limits", "directories_created"]);
    ctx.assume("TMPDIR is a directory of the harness");
    ctx.cases("intercept", ctx.n(20_000, 200_000), |c| {
        use iron::BeforeMiddleware;
        let b = uploads(&mut c.r);
        let strict = c.r.bool();
        let sizes: Vec<u64> = b.parts.iter().map(|p| p.content.len() as u64).collect();
        let biggest = sizes.iter().copied().max().unwrap_or(0);
        let limit = match c.r.below(8) {
            0 => biggest,
            1 => biggest.saturating_sub(1),
            2 => biggest + 1,
            3 => biggest / 2,
            4 => c.r.below(biggest as usize + 2) as u64,
            5 => *c.r.pick(&[1 << 31, u32::MAX as u64, 1 << 32, u64::MAX - 1, u64::MAX]),
            _ => 1 << 20,
        };
        let n = b.parts.len() as u32;
        let count = match c.r.below(6) {
            0 => n,
            1 => n.saturating_sub(1),
            2 => c.r.below(n as usize + 2) as u32,
            3 => *c.r.pick(&[256, 1 << 16, 1 << 31, u32::MAX - 1, u32::MAX]),
            _ => 100,
        };
        let defaults = c.r.chance(1, 10);
        let (limit, count) = if defaults { (2 << 20, 16) } else { (limit, count) };
        let dir = scratch::fresh("iron");
        let place = match c.r.below(3) {
            0 => None,
            1 => Some(dir.clone()),
            _ => Some(dir.join("to/be/made")),
        };
        let kind = match c.r.below(10) {
            0 => "not multipart",
            1 => "cut",
            _ => "well-formed",
        };
        let mut icept = Intercept::default();
        // each setting leaves the others alone
        let mut order = [0, 1, 2, 3];
        c.r.shuffle(&mut order);
        for o in order {
            icept = match o {
                0 if !defaults => icept.file_size_limit(limit),
                1 if !defaults => icept.file_count_limit(count),
                2 => icept.limit_behavior(if strict { LimitBehavior::ThrowError } else { LimitBehavior::Continue }),
                3 if place.is_some() => icept.temp_dir_path(place.clone().unwrap()),
                _ => icept,
            };
        }
        let mut bytes = (*b.bytes).clone();
        if kind == "cut" {
            bytes.truncate(c.r.below(b.end));
        }
        let a = if kind == "not multipart" {
            let mut a = ask(&mut c.r);
            while a.want.is_some() {
                a = ask(&mut c.r);
            }
            a
        } else {
            Ask { method: "POST", ctype: Some(("Content-Type".into(), format!("multipart/form-data; boundary={}", b.boundary))), want: Some(b.boundary.clone()), why: "multipart" }
        };
        let msg = message(&mut c.r, &a, &bytes, true);
        let mut what = String::new();
        let res = guard(|| -> Res {
            let mut mem = Mem::new(msg, *c.r.pick(&[0usize, 0, 100, 1000]), c.r.u64());
            let mut stream = BufReader::new(&mut mem as &mut dyn NetworkStream);
            let req = hyper::server::Request::new(&mut stream, addr()).map_err(|e| format!("(harness) {:?}", e))?;
            let mut req = iron::Request::from_http(req, addr(), &iron::Protocol::http()).map_err(|e| format!("(harness) {}", e))?;
            let r = icept.before(&mut req);
            what = match r {
                Ok(()) => format!("Ok, entries {}", req.extensions.get::<Entries>().is_some()),
                Err(ref e) => format!("Err({:?})", e.error),
            };
            let over_count = n > count;
            let over_size = biggest > limit;
            let first_big = b.parts.iter().position(|p| p.content.len() as u64 > limit);
            let mut used: Option<PathBuf> = None;
            match kind {
                "not multipart" => {
                    ensure!(r.is_ok(), "a request that is not multipart: {}", what);
                    ensure!(req.extensions.get::<Entries>().is_none(), "entries for a request that is not multipart");
                    let (ct, mk) = (raw_header(&req.headers, "Content-Type"), raw_header(&req.headers, "X-Marker"));
                    let m = req.method.to_string();
                    rejected(&a, &b, &m, ct, mk, &mut req.body)?;
                    c.count("not_multipart");
                }
                "cut" => {
                    let e = match r {
                        Err(e) => e,
                        Ok(()) => fail!("a request cut off after {} of {} bytes: {}", bytes.len(), b.end, what),
                    };
                    let io = e.error.downcast_ref::<io::Error>().is_some();
                    // a limit may be hit first
                    if !(strict && (over_count || over_size)) {
                        ensure!(io, "a request cut off: {}", what);
                    }
                    ensure!(req.extensions.get::<Entries>().is_none(), "entries after an error");
                    c.count("malformed");
                }
                _ if strict => match r {
                    Ok(()) => {
                        ensure!(!over_count && !over_size, "limits size {}, count {}: accepted", limit, count);
                        let e = req.extensions.get::<Entries>().ok_or("no entries in the request")?;
                        entries_match(e, &b.parts, u64::MAX)?;
                        used = Some(e.save_dir.as_path().to_path_buf());
                        c.count("strict_full");
                    }
                    Err(ref e) => {
                        ensure!(req.extensions.get::<Entries>().is_none(), "entries after an error");
                        if let Some(s) = e.error.downcast_ref::<FileSizeLimitError>() {
                            ensure!(over_size, "limit {}, largest field {}: {}", limit, biggest, what);
                            check_headers(&s.field, &b.parts[first_big.unwrap()]).map_err(|m| format!("the offending field: {}", m))?;
                            c.count("strict_size_errors");
                        } else if e.error.downcast_ref::<FileCountLimitError>().is_some() {
                            ensure!(over_count, "limit {}, {} fields: {}", count, n, what);
                            c.count("strict_count_errors");
                        } else {
                            fail!("{}", what);
                        }
                    }
                },
                _ => {
                    ensure!(r.is_ok(), "lenient: {}", what);
                    let e = req.extensions.get::<Entries>().ok_or("no entries in the request")?;
                    entries_match(e, &b.parts, limit)?;
                    used = Some(e.save_dir.as_path().to_path_buf());
                    c.count(if over_size {
                        "lenient_truncated"
                    } else if over_count {
                        "lenient_over_count"
                    } else {
                        "lenient_full"
                    });
                }
            }
            if let Some(ref u) = used {
                let tmp = scratch::tmp();
                ensure!(u.parent() == Some(place.as_deref().unwrap_or(&tmp)), "directory {:?}, configured was {:?}", u, place);
                ensure!(u.is_dir(), "{:?} is no directory", u);
                if place.as_ref().map_or(false, |p| *p != dir) {
                    c.count("directories_created");
                }
            }
            if defaults {
                c.count("default_limits");
            }
            drop(req);
            if let Some(ref u) = used {
                ensure!(!u.exists(), "{:?} is still there after the request", u);
            }
            if let Some(ref p) = place {
                let left = scratch::list(p);
                ensure!(left.is_empty(), "left in {:?}: {:?}", p, left);
            }
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {} {} {} {}", hash(&bytes), limit, count, strict, kind).as_bytes());
        c.sample(|| format!("{} fields up to {} bytes, limits {} and {}, {}, {}: {}", n, biggest, limit, count, if strict { "strict" } else { "lenient" }, kind, what));
        if res.is_err() {
            note_ask(c, &a, &b, "iron middleware");
            c.note(format!("sizes {:?}, size limit {}, count limit {}, {}, {}, directory {:?}, {} of {} bytes: {}", sizes, limit, count, if strict { "strict" } else { "lenient" }, kind, place, bytes.len(), b.bytes.len(), what));
        }
        res
    });
    // the default limits at work
    ctx.cases("default", ctx.n(8, 8), |c| {
        use iron::BeforeMiddleware;
        let k = c.idx % 8;
        let size = [2 << 20, (2 << 20) + 1, 0, 0, 2 << 20, (2 << 20) + 1, 0, 0][k];
        let n = [1usize, 1, 16, 17, 1, 1, 16, 17][k];
        let strict = k < 4;
        let parts: Vec<Part> = (0..n).map(|i| gen::mk(&format!("f{}", i), Some("x.bin"), Some("image/png"), vec![b'a' + i as u8; size.max(3)])).collect();
        let b = gen::encode(&mut c.r, "simple-boundary", parts, &gen::Layout::plain());
        let msg = format!("POST / HTTP/1.1\r\nHost: a\r\nContent-Type: multipart/form-data; boundary=simple-boundary\r\nContent-Length: {}\r\n\r\n", b.bytes.len());
        let mut msg = msg.into_bytes();
        msg.extend_from_slice(&b.bytes);
        let mut icept = Intercept::default();
        if !strict {
            icept = icept.limit_behavior(LimitBehavior::Continue);
        }
        let mut mem = Mem::new(msg, 0, 1);
        let mut stream = BufReader::new(&mut mem as &mut dyn NetworkStream);
        let req = hyper::server::Request::new(&mut stream, addr()).map_err(|e| format!("(harness) {:?}", e))?;
        let mut req = iron::Request::from_http(req, addr(), &iron::Protocol::http()).map_err(|e| format!("(harness) {}", e))?;
        let r = icept.before(&mut req);
        c.eval();
        c.count("default_limits");
        let over = k % 4 == 1 || k % 4 == 3;
        if strict {
            ensure!(r.is_err() == over, "default limits: {} fields of {} bytes: {:?}", n, size.max(3), r.err().map(|e| e.to_string()));
        } else {
            ensure!(r.is_ok(), "default limits, lenient: {:?}", r.err().map(|e| e.to_string()));
            let e = req.extensions.get::<Entries>().ok_or("no entries in the request")?;
            entries_match(e, &b.parts, 2 << 20)?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C20

/// What a server saw: one line per field.
fn describe_entries(e: &Entries, out: &mut Vec<String>) -> Res {
    for (name, fields) in &e.fields {
        for (i, f) in fields.iter().enumerate() {
            ensure!(*f.headers.name == **name, "headers of {:?} say {:?}", name, f.headers.name);
            let d = saved_bytes(&f.data)?;
            out.push(line(name, i, f.headers.filename.as_deref(), f.headers.content_type.as_ref().map(|m| m.to_string()).as_deref(), &d));
        }
    }
    Ok(())
}

fn line(name: &str, i: usize, filename: Option<&str>, ctype: Option<&str>, d: &[u8]) -> String {
    format!("{} {:?} {:?} {:?} {} {:016x}", i, name, filename, ctype, d.len(), hash(d))
}

fn report(entries: Result<Entries, String>) -> String {
    let res = entries.and_then(|e| {
        let mut v = vec![];
        describe_entries(&e, &mut v)?;
        v.sort();
        Ok(format!("dir {}\n{}\n", e.save_dir.as_path().display(), v.join("\n")))
    });
    match res {
        Ok(s) => s,
        Err(e) => format!("error {}\n", e),
    }
}

static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static MOST_ACTIVE: AtomicUsize = AtomicUsize::new(0);
static SAVES: AtomicUsize = AtomicUsize::new(0);

struct Busy;
impl Busy {
    fn new() -> Busy {
        let n = ACTIVE.fetch_add(1, Ordering::SeqCst) + 1;
        MOST_ACTIVE.fetch_max(n, Ordering::SeqCst);
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        ACTIVE.fetch_sub(1, Ordering::SeqCst);
    }
}

fn full<M: multipart::server::ReadEntry>(r: SaveResult<Entries, multipart::server::save::PartialEntries<M>>) -> Result<Entries, String> {
    match r {
        SaveResult::Full(e) => Ok(e),
        SaveResult::Partial(_, why) => Err(format!("partial: {:?}", why)),
        SaveResult::Error(e) => Err(format!("error: {:?}", e)),
    }
}

fn save_all<R: Read>(mp: &mut Multipart<R>) -> String {
    let _busy = Busy::new();
    // more requests at once
    let n = SAVES.fetch_add(1, Ordering::Relaxed);
    if n % 3 == 0 {
        std::thread::sleep(Duration::from_micros((n * 7919 % 2000) as u64));
    }
    report(full(mp.save().size_limit(None).memory_threshold(5000).temp()))
}

struct Servers {
    addrs: Vec<(&'static str, SocketAddr)>,
}

fn start_servers() -> Result<Servers, String> {
    let mut addrs = vec![];
    let err = |e: &dyn std::fmt::Display| format!("(harness) server: {}", e);
    // hyper through Switch, by value
    {
        let normal = |_req: hyper::server::Request, res: hyper::server::Response| {
            let _ = res.send(b"error not multipart");
        };
        let multi = |mut mp: Multipart<hyper::server::Request>, res: hyper::server::Response| {
            let s = save_all(&mut mp);
            let _ = res.send(s.as_bytes());
        };
        let mut s = hyper::Server::http("127.0.0.1:0").map_err(|e| err(&e))?;
        s.keep_alive(None);
        let l = s.handle_threads(multipart::server::hyper::Switch::new(normal, multi), 16).map_err(|e| err(&e))?;
        addrs.push(("hyper_switch", l.socket));
        std::mem::forget(l);
    }
    // hyper by reference
    {
        let h = |mut req: hyper::server::Request, res: hyper::server::Response| {
            let s = match Multipart::from_request(&mut req) {
                Ok(mut mp) => save_all(&mut mp),
                Err(_) => "error not multipart".into(),
            };
            let _ = res.send(s.as_bytes());
        };
        let mut s = hyper::Server::http("127.0.0.1:0").map_err(|e| err(&e))?;
        s.keep_alive(None);
        let l = s.handle_threads(h, 16).map_err(|e| err(&e))?;
        addrs.push(("hyper_by_reference", l.socket));
        std::mem::forget(l);
    }
    // iron, by hand and through the middleware
    for through in [false, true] {
        let h = move |req: &mut iron::Request| -> iron::IronResult<iron::Response> {
            let s = if through {
                let _busy = Busy::new();
                match req.extensions.remove::<Entries>() {
                    Some(e) => report(Ok(e)),
                    None => "error no entries".into(),
                }
            } else {
                match Multipart::from_request(req) {
                    Ok(mut mp) => save_all(&mut mp),
                    Err(_) => "error not multipart".into(),
                }
            };
            Ok(iron::Response::with((iron::status::Ok, s)))
        };
        let mut chain = iron::Chain::new(h);
        if through {
            chain.link_before(Intercept::default().file_size_limit(100 << 20).file_count_limit(1000));
        }
        let mut s = iron::Iron::new(chain);
        s.threads = 16;
        s.timeouts.keep_alive = None;
        let l = s.http("127.0.0.1:0").map_err(|e| err(&e))?;
        addrs.push((if through { "iron_intercept" } else { "iron" }, l.socket));
        std::mem::forget(l);
    }
    // nickel
    {
        fn handle<'mw>(req: &mut nickel::Request<'mw, '_, ()>, mut res: nickel::Response<'mw, ()>) -> nickel::MiddlewareResult<'mw, ()> {
            let s = match req.multipart_body() {
                Some(mut mp) => save_all(&mut mp),
                None => "error not multipart".into(),
            };
            res.set(nickel::MediaType::Txt);
            res.send(s)
        }
        let mut n = nickel::Nickel::with_options(nickel::Options::default().output_on_listen(false).thread_count(Some(16)));
        n.keep_alive_timeout(None);
        n.utilize(handle);
        let l = n.listen("127.0.0.1:0").map_err(|e| err(&e))?;
        addrs.push(("nickel", l.socket()));
        l.detach();
    }
    // tiny_http
    {
        let s = Arc::new(tiny_http::Server::http("127.0.0.1:0").map_err(|e| err(&e))?);
        addrs.push(("tiny_http", s.server_addr()));
        for i in 0..16 {
            let s = s.clone();
            std::thread::Builder::new()
                .name(format!("tiny-{}", i))
                .spawn(move || {
                    while let Ok(mut req) = s.recv() {
                        let text = match Multipart::from_request(&mut req) {
                            Ok(mut mp) => save_all(&mut mp),
                            Err(_) => "error not multipart".into(),
                        };
                        let _ = req.respond(tiny_http::Response::from_string(text));
                    }
                })
                .unwrap();
        }
    }
    Ok(Servers { addrs })
}

enum Source {
    Text,
    File(PathBuf),
    Stream(Option<mime::Mime>),
}

struct Up {
    part: Part,
    src: Source,
}

/// A reader that gives the scheduler chances.
struct Slow {
    data: io::Cursor<Vec<u8>>,
    rng: Rng,
    pause: bool,
}
impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pause && self.rng.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(self.rng.below(800) as u64));
        }
        let n = buf.len().min(self.rng.range(1, 9000));
        self.data.read(&mut buf[..n])
    }
}

fn uploads_for(r: &mut Rng, dir: &std::path::Path) -> Vec<Up> {
    let n = r.range(0, 5);
    let max = *r.pick(&[100usize, 3000, 30000, 30000, 200_000]);
    (0..n)
        .map(|i| {
            let wild = r.chance(1, 4);
            // repeated names
            let name = if r.bool() { format!("n{}", r.below(3)) } else { gen::word(r, wild) };
            let len = gen::len(r, max);
            match r.below(3) {
                0 => Up { part: Part { name, filename: None, ctype: None, content: gen::utf8(r, len).into_bytes() }, src: Source::Text },
                1 => {
                    let b = gen::plain_boundary(r);
                    let content = gen::content(r, &b, len);
                    let f = format!("file-{}.png", i);
                    let p = dir.join(&f);
                    std::fs::write(&p, &content).unwrap();
                    Up { part: Part { name, filename: Some(f), ctype: Some("image/png".into()), content }, src: Source::File(p) }
                }
                _ => {
                    let content = r.bytes(len);
                    let filename = if r.bool() { Some(gen::word(r, false)) } else { None };
                    let m: mime::Mime = r.pick(&["application/octet-stream", "image/gif", "text/plain; charset=utf-8"]).parse().unwrap();
                    Up { part: Part { name, filename, ctype: Some(m.to_string()), content }, src: Source::Stream(Some(m)) }
                }
            }
        })
        .collect()
}

const SENDERS: &[&str] = &["streamed", "sized", "lazy", "lazy_request_mut", "prepared"];

fn send(to: SocketAddr, how: usize, ups: &[Up], seed: u64) -> Result<String, String> {
    use hyper::method::Method;
    use multipart::client;
    let slow = |u: &Up, i: usize| Slow { data: io::Cursor::new(u.part.content.clone()), rng: Rng::new(seed ^ i as u64), pause: seed % 2 == 0 };
    let url = hyper::Url::parse(&format!("http://{}/upload", to)).unwrap();
    let text = |u: &Up| std::str::from_utf8(&u.part.content).unwrap().to_string();
    let mut resp = if how < 2 {
        let req = hyper::client::Request::new(Method::Post, url).map_err(|e| format!("connecting: {:?}", e))?;
        let _ = req.set_read_timeout(Some(Duration::from_secs(100)));
        macro_rules! write_all {
            ($m:ident) => {
                for (i, u) in ups.iter().enumerate() {
                    match u.src {
                        Source::Text => $m.write_text(&u.part.name, text(u)).map(|_| ()),
                        Source::File(ref p) => $m.write_file(&u.part.name, p).map(|_| ()),
                        Source::Stream(ref m) => $m.write_stream(&u.part.name, &mut slow(u, i), u.part.filename.as_deref(), m.clone()).map(|_| ()),
                    }
                    .map_err(|e| format!("writing field {}: {:?}", i, e))?;
                }
            };
        }
        if how == 0 {
            let mut m = client::Multipart::from_request(req).map_err(|e| format!("starting: {:?}", e))?;
            write_all!(m);
            m.send().map_err(|e| format!("sending: {:?}", e))?
        } else {
            let mut m = client::Multipart::from_request_sized(req).map_err(|e| format!("starting: {:?}", e))?;
            write_all!(m);
            m.send().map_err(|e| format!("sending: {:?}", e))?
        }
    } else {
        let mut c = hyper::Client::new();
        c.set_read_timeout(Some(Duration::from_secs(100)));
        let mut m = client::lazy::Multipart::new();
        for (i, u) in ups.iter().enumerate() {
            match u.src {
                Source::Text => m.add_text(&*u.part.name, text(u)),
                Source::File(ref p) => m.add_file(&*u.part.name, &**p),
                Source::Stream(ref t) => m.add_stream(&*u.part.name, slow(u, i), u.part.filename.as_deref(), t.clone()),
            };
        }
        match how {
            2 => m.client_request(&c, url).map_err(|e| format!("lazy request: {:?}", e))?,
            3 => m.client_request_mut(&c, url, |r| {
                use hyper::header::{Connection, ContentLength, ContentType, Headers, UserAgent};
                // what concerns the body is documented to be overwritten
                let mut h = Headers::new();
                h.set(UserAgent("mpcheck".into()));
                match seed % 6 {
                    0 => r.header(Connection::close()),
                    1 => r.header(Connection::close()).header(ContentType::plaintext()),
                    2 => {
                        h.set(ContentType::json());
                        h.set(Connection::close());
                        r.headers(h)
                    }
                    3 => r.header(Connection::close()).body("something else"),
                    4 => r.header(ContentLength(3)).header(Connection::close()),
                    _ => r.headers(h),
                }
            }).map_err(|e| format!("lazy request: {:?}", e))?,
            _ => {
                let mut p = m.prepare().map_err(|e| format!("preparing: {:?}", e))?;
                let ct = client::hyper::content_type(p.boundary());
                let mut req = c.post(url).header(ct);
                let len = p.content_len();
                let mut whole = vec![];
                match len {
                    Some(n) => {
                        req = req.body(hyper::client::Body::SizedBody(&mut p, n));
                    }
                    None => {
                        p.read_to_end(&mut whole).map_err(|e| format!("reading: {:?}", e))?;
                        req = req.body(&whole[..]);
                    }
                }
                req.send().map_err(|e| format!("sending: {:?}", e))?
            }
        }
    };
    let mut s = String::new();
    resp.read_to_string(&mut s).map_err(|e| format!("reading the response: {:?}", e))?;
    ensure_ok(&resp.status, &s)?;
    Ok(s)
}

fn ensure_ok(status: &hyper::status::StatusCode, s: &str) -> Res {
    ensure!(*status == hyper::status::StatusCode::Ok, "status {}: {}", status, s);
    Ok(())
}

pub fn c20(ctx: &Ctx) {
    ctx.expect(&["hyper_switch", "hyper_by_reference", "iron", "iron_intercept", "nickel", "tiny_http", "streamed", "sized", "lazy", "lazy_request_mut", "prepared", "overlapping_requests"]);
    ctx.assume("loopback connections; clients and servers in one process");
    let servers = match start_servers() {
        Ok(s) => s,
        Err(e) => {
            println!("{}", e);
            return;
        }
    };
    let dirs: Mutex<HashSet<String>> = Default::default();
    let retried = AtomicBool::new(false);
    ctx.cases_on("loopback", ctx.n(3000, 60_000), 24, |c| {
        let (name, to) = servers.addrs[c.idx % servers.addrs.len()];
        let how = c.idx / servers.addrs.len() % SENDERS.len();
        let dir = scratch::fresh("up");
        let ups = uploads_for(&mut c.r, &dir);
        let mut seed = c.r.u64();
        if seed % 6 == 4 && ups.iter().any(|u| matches!(u.src, Source::Stream(_))) {
            seed -= 1; // see "own_length"
        }
        c.count(name);
        c.count(SENDERS[how]);
        c.eval();
        c.distinct(format!("{} {} {:x}", name, how, seed).as_bytes());
        c.add("fields_sent", ups.len() as u64);
        c.add("bytes_sent", ups.iter().map(|u| u.part.content.len() as u64).sum());
        c.sample(|| format!("{} to {}: {} fields", SENDERS[how], name, ups.len()));
        let res = guard(|| -> Res {
            let text = match send(to, how, &ups, seed) {
                Ok(t) => t,
                Err(e) => {
                    // connections may be lost on an overloaded machine, but not again
                    retried.store(true, Ordering::SeqCst);
                    c.count("retried");
                    send(to, how, &ups, seed).map_err(|e2| format!("{}; again: {}", e, e2))?
                }
            };
            let mut lines: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
            ensure!(!lines.is_empty() && lines[0].starts_with("dir "), "the server reports {:?}", text);
            let d = lines.remove(0).to_string();
            ensure!(dirs.lock().unwrap().insert(d.clone()), "two requests were saved to {}", d);
            let dpath = PathBuf::from(&d[4..]);
            ensure!(dpath.parent() == Some(&scratch::tmp()), "saved to {:?}", dpath);
            let mut per: BTreeMap<&str, Vec<&Up>> = BTreeMap::new();
            for u in &ups {
                per.entry(&u.part.name).or_default().push(u);
            }
            // the lazy client reorders fields of different kinds: compare without the position there
            let ordered = how < 2;
            let strip = |l: &str| -> String {
                match l.split_once(' ') {
                    Some((_, rest)) if !ordered => rest.to_string(),
                    _ => l.to_string(),
                }
            };
            let mut want: Vec<String> = vec![];
            for us in per.values() {
                for (i, u) in us.iter().enumerate() {
                    want.push(strip(&line(&u.part.name, i, u.part.filename.as_deref(), u.part.ctype.as_deref(), &u.part.content)));
                }
            }
            let mut got: Vec<String> = lines.iter().map(|l| strip(l)).collect();
            want.sort();
            got.sort();
            ensure!(got == want, "the server saw\n  {}\nsent were\n  {}", got.join("\n  "), want.join("\n  "));
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        if MOST_ACTIVE.load(Ordering::SeqCst) > 1 {
            c.count("overlapping_requests");
        }
        c.max("most_requests_at_once", MOST_ACTIVE.load(Ordering::SeqCst) as u64);
        if res.is_err() {
            c.note(format!("{} to {}", SENDERS[how], name));
            for u in &ups {
                c.note(format!("name {:?} filename {:?} type {:?} content {}", u.part.name, u.part.filename, u.part.ctype, show(&u.part.content)));
            }
        }
        res
    });
    // the length the caller set does not survive, also where the real one is unknown
    ctx.cases_on("own_length", ctx.n(8, 100), 8, |c| {
        let (name, to) = servers.addrs[c.idx % servers.addrs.len()];
        let dir = scratch::fresh("up");
        let mut ups = uploads_for(&mut c.r, &dir);
        let content = c.r.bytes(50);
        ups.push(Up { part: Part { name: "last".into(), filename: None, ctype: None, content }, src: Source::Stream(None) });
        c.count("own_length");
        c.eval();
        let mut seed = c.r.u64() / 12 * 12 + 4;
        let mut res = send(to, 3, &ups, seed);
        if matches!(res, Err(ref e) if !e.contains("WriteZero")) {
            seed += 12;
            res = send(to, 3, &ups, seed);
        }
        scratch::done(&dir);
        match res {
            Ok(text) => {
                let n = text.lines().filter(|l| !l.is_empty()).count();
                ensure!(n == ups.len() + 1, "{} lines reported by {} for {} fields", n, name, ups.len());
                Ok(())
            }
            Err(ref e) if e.contains("WriteZero") && ctx.known("own-length-of-stream") => Ok(()),
            Err(e) => Err(format!("{}: {}", name, e)),
        }
    });
}
