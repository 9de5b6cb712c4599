//! C08–C11, C23: the client side.
use crate::core::{guard, Case, Ctx, Res};
use crate::gen::{self, diff, show, Part};
use crate::io::{Feed, Sink, WriteFault};
use crate::oracle;
use crate::rng::Rng;
use crate::scratch;
use crate::{ensure, fail};
use multipart::client::lazy;
use multipart::client::{HttpRequest, HttpStream, Multipart};
use multipart::mock::{ClientRequest, HttpBuffer};
use std::collections::HashSet;
use std::io::{self, ErrorKind, Read, Write};
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- requests

#[derive(Default, Debug, Clone)]
pub struct ReqLog {
    pub headers: Vec<(String, Option<u64>)>,
    pub opened: usize,
    pub finished: usize,
    /// bytes that had been written when the headers were applied
    pub out: Vec<u8>,
    pub calls: usize,
    pub hit: usize,
}

/// A request whose stream takes data in chosen portions and fails where told to.
pub struct Req {
    pub log: Arc<Mutex<ReqLog>>,
    pub accept: bool,
    pub open_fault: Option<ErrorKind>,
    pub finish_fault: Option<ErrorKind>,
    pub max: usize,
    pub seed: u64,
    pub faults: Vec<(usize, WriteFault)>,
}

impl Req {
    pub fn new(max: usize, seed: u64) -> (Req, Arc<Mutex<ReqLog>>) {
        let log: Arc<Mutex<ReqLog>> = Default::default();
        (Req { log: log.clone(), accept: true, open_fault: None, finish_fault: None, max, seed, faults: vec![] }, log)
    }
}

pub struct Out {
    sink: Sink,
    log: Arc<Mutex<ReqLog>>,
    finish_fault: Option<ErrorKind>,
}

impl HttpRequest for Req {
    type Stream = Out;
    type Error = io::Error;
    fn apply_headers(&mut self, boundary: &str, content_len: Option<u64>) -> bool {
        self.log.lock().unwrap().headers.push((boundary.to_string(), content_len));
        self.accept
    }
    fn open_stream(self) -> io::Result<Out> {
        if let Some(k) = self.open_fault {
            return Err(io::Error::new(k, "injected open fault"));
        }
        self.log.lock().unwrap().opened += 1;
        let mut sink = Sink::new(self.max, self.seed);
        sink.faults = self.faults;
        Ok(Out { sink, log: self.log, finish_fault: self.finish_fault })
    }
}

impl Out {
    fn publish(&mut self) {
        let mut l = self.log.lock().unwrap();
        l.out = std::mem::take(&mut self.sink.out);
        l.calls = self.sink.calls();
        l.hit = self.sink.hit;
    }
}

impl Drop for Out {
    fn drop(&mut self) {
        if self.log.lock().unwrap().finished == 0 {
            self.publish();
        }
    }
}

impl Write for Out {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.sink.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.sink.flush()
    }
}

impl HttpStream for Out {
    type Request = Req;
    type Response = u32;
    type Error = io::Error;
    fn finish(mut self) -> io::Result<u32> {
        self.publish();
        self.log.lock().unwrap().finished += 1;
        match self.finish_fault {
            Some(k) => Err(io::Error::new(k, "injected finish fault")),
            None => Ok(4711),
        }
    }
}

// ---------------------------------------------------------------- fields

#[derive(Clone, Debug)]
pub enum Kind {
    Text,
    File(PathBuf),
    Stream { mime: Option<mime::Mime>, max: usize, seed: u64, faults: Vec<(usize, ErrorKind)> },
}

#[derive(Clone, Debug)]
pub struct Fld {
    pub kind: Kind,
    /// what is asked to be sent
    pub name: String,
    pub filename: Option<String>,
    /// what must arrive
    pub part: Part,
}

impl Fld {
    fn new(kind: Kind, part: Part) -> Fld {
        Fld { kind, name: part.name.clone(), filename: part.filename.clone(), part: Part { name: escaped(&part.name), filename: part.filename.as_ref().map(|f| escaped(f)), ..part } }
    }
}

/// How names and filenames are written by browsers (HTML standard, multipart/form-data encoding).
fn escaped(s: &str) -> String {
    s.chars().fold(String::new(), |mut o, c| {
        match c {
            '"' => o.push_str("%22"),
            '\r' => o.push_str("%0D"),
            '\n' => o.push_str("%0A"),
            c => o.push(c),
        }
        o
    })
}

/// A name that would end its parameter, its header, or its part if it was written as it is.
fn breaking(r: &mut Rng) -> String {
    let pieces = [
        "\"", "\r\n", "\r", "\n", "\r\n\r\n", "\"; filename=\"x", "\r\nContent-Type: text/html", "\r\n--", "a", "b\\", "%22", "%0D", "é", ";", "\"\"",
    ];
    (0..r.range(1, 5)).map(|_| *r.pick(&pieces[..])).collect()
}

/// The registered types of well-known extensions; independent of the crate's lookup.
const EXTS: &[(&str, &str)] = &[
    ("png", "image/png"),
    ("jpg", "image/jpeg"),
    ("jpeg", "image/jpeg"),
    ("gif", "image/gif"),
    ("txt", "text/plain"),
    ("html", "text/html"),
    ("css", "text/css"),
    ("csv", "text/csv"),
    ("json", "application/json"),
    ("pdf", "application/pdf"),
    ("zip", "application/zip"),
    ("mp3", "audio/mpeg"),
    ("mp4", "video/mp4"),
    ("svg", "image/svg+xml"),
    ("PNG", "image/png"),
    ("Txt", "text/plain"),
    ("JSON", "application/json"),
    ("webmanifest", "application/manifest+json"),
    ("torrent", "application/x-bittorrent"),
    ("xhtml", "application/xhtml+xml"),
    ("markdown", "text/markdown"),
    ("docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"),
    ("epub", "application/epub+zip"),
    ("tiff", "image/tiff"),
    ("webp", "image/webp"),
    ("woff2", "font/woff2"),
    ("7z", "application/x-7z-compressed"),
    ("c", "text/plain"),
    ("averyveryverylongextensionthatnobodyknows", "application/octet-stream"),
    ("qqqq", "application/octet-stream"),
    ("bin", "application/octet-stream"),
];

const MIMES: &[&str] = &[
    "text/plain",
    "text/plain; charset=utf-8",
    "application/octet-stream",
    "image/png",
    "application/vnd.api+json",
    "multipart/mixed; boundary=abc",
    "application/x-www-form-urlencoded",
    "x-foo/x-bar",
];

fn name(r: &mut Rng) -> String {
    if r.chance(1, 30) {
        return String::new();
    }
    if r.chance(1, 12) {
        return breaking(r);
    }
    let wild = r.chance(1, 3);
    if r.chance(1, 60) {
        let n = match r.below(4) {
            0 => *r.pick(&[255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65_535, 65_536, 65_537]),
            1 => r.range(300, 20_000),
            _ => r.range(25, 300),
        };
        let mut s = String::new();
        while s.len() < n {
            let mut w = if r.chance(1, 10) { breaking(r) } else { gen::word(r, wild) };
            if s.len() + w.len() > n {
                w.retain(|c| c.is_ascii());
                w.truncate(n - s.len());
            }
            s.push_str(&w);
        }
        return s;
    }
    gen::word(r, wild)
}

fn text(r: &mut Rng, max: usize) -> String {
    let n = gen::len(r, max);
    match r.below(4) {
        0 => gen::utf8(r, n),
        1 => {
            let mut s = String::new();
            while s.len() < n {
                s.push_str(*r.pick(&["\r\n", "--", "\r", "\n", "a", "\r\n--", "Content-Disposition: form-data; name=\"x\"\r\n\r\n", "é", "\0"][..]));
            }
            s
        }
        2 => "x".repeat(n),
        _ => (0..n).map(|_| r.range(32, 126) as u8 as char).collect(),
    }
}

fn data(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = gen::len(r, max);
    let b = gen::plain_boundary(r);
    gen::content(r, &b, n)
}

fn file_field(r: &mut Rng, dir: &Path, i: usize, max: usize) -> Fld {
    let d = dir.join(if r.chance(1, 6) { format!("f{}.html", i) } else { format!("f{}", i) });
    std::fs::create_dir_all(&d).unwrap();
    let stem: String = match r.below(5) {
        0 => "arch.tar".into(),
        1 => "ü ;=.v1".into(),
        2 if r.chance(1, 4) => "line\r\nbreak \"quoted\"".into(),
        3 if r.chance(1, 6) => r.pick(&[".", ".x", "..", "...a", " ", "a ", "-", "a..b", "CON", "C:\\a\\b", "~", "%2e", "é"]).to_string(),
        // the longest a file can have
        3 if r.chance(1, 10) => {
            let n = r.range(190, 205);
            (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect()
        }
        _ => (0..r.range(1, 12)).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789_-") as char).collect(),
    };
    let (fname, ctype): (std::ffi::OsString, &str) = match r.below(8) {
        0 => ("noext".into(), "application/octet-stream"),
        1 => match r.below(6) {
            0 => (".png".into(), "application/octet-stream"),
            1 => (".hidden.png".into(), "image/png"),
            2 => ("photo.png.".into(), "application/octet-stream"),
            3 => ("photo.png ".into(), "application/octet-stream"),
            4 => ("photo.png~".into(), "application/octet-stream"),
            _ => (".hidden".into(), "application/octet-stream"),
        },
        2 => {
            let mut v = stem.clone().into_bytes();
            v.push(0xff);
            v.extend_from_slice(b".png");
            (std::ffi::OsString::from_vec(v), "image/png")
        }
        _ => {
            let (e, t) = *r.pick(EXTS);
            (format!("{}.{}", stem, e).into(), t)
        }
    };
    let path = d.join(&fname);
    let content = data(r, max);
    match r.below(8) {
        // reached through other names
        0 => {
            let real = dir.join(format!("real-{}", i));
            std::fs::write(&real, &content).unwrap();
            let _ = std::fs::remove_file(&path);
            std::os::unix::fs::symlink(&real, &path).unwrap();
        }
        1 => {
            std::fs::write(d.join("target with a long name"), &content).unwrap();
            for (a, b) in [("target with a long name", std::ffi::OsStr::new("l")), ("l", &fname)] {
                let _ = std::fs::remove_file(d.join(b));
                std::os::unix::fs::symlink(a, d.join(b)).unwrap();
            }
        }
        2 => {
            let real = d.join("other name");
            std::fs::write(&real, &content).unwrap();
            let _ = std::fs::remove_file(&path);
            std::fs::hard_link(&real, &path).unwrap();
        }
        _ => std::fs::write(&path, &content).unwrap(),
    }
    Fld::new(Kind::File(path), Part { name: name(r), filename: fname.to_str().map(|s| s.to_string()), ctype: Some(ctype.into()), content })
}

fn stream_field(r: &mut Rng, max: usize, interrupts: bool) -> Fld {
    let content = data(r, max);
    let mime: Option<mime::Mime> = if r.bool() { Some(r.pick(MIMES).parse().unwrap()) } else { None };
    let wild = r.chance(1, 3);
    let filename = if r.chance(1, 20) { Some(String::new()) } else if r.chance(1, 12) { Some(breaking(r)) } else if r.chance(1, 6) { Some(name(r)) } else if r.bool() { Some(gen::word(r, wild)) } else { None };
    let faults = if interrupts && r.chance(1, 3) { (0..r.range(1, 4)).map(|_| (r.below(6), ErrorKind::Interrupted)).collect() } else { vec![] };
    let step = *r.pick(&[0usize, 1, 3, 100, 1000, 8192, 20000]);
    // one byte at a time only for small ones
    let step = if content.len() > 5000 && step != 0 && step < 50 { 100 } else { step };
    let ctype = Some(mime.as_ref().map_or("application/octet-stream".into(), |m| m.to_string()));
    let name = name(r);
    Fld::new(Kind::Stream { mime, max: step, seed: r.u64(), faults }, Part { name, filename, ctype, content })
}

fn text_field(r: &mut Rng, max: usize) -> Fld {
    Fld::new(Kind::Text, Part { name: name(r), filename: None, ctype: None, content: text(r, max).into_bytes() })
}

#[derive(Clone, Copy, PartialEq)]
enum Mix {
    Any,
    NoStreams,
    StreamsNoFaults,
}

fn fields(r: &mut Rng, dir: &Path, max_n: usize, max_len: usize, mix: Mix) -> Vec<Fld> {
    let n = if r.chance(1, 12) { 0 } else { r.range(1, max_n) };
    let only = r.below(8);
    let mut fs: Vec<Fld> = (0..n)
        .map(|i| {
            let k = if only < 3 { only } else { r.below(3) };
            match k {
                0 => text_field(r, max_len),
                1 => file_field(r, dir, i, max_len),
                _ if mix == Mix::NoStreams => {
                    if r.bool() {
                        text_field(r, max_len)
                    } else {
                        file_field(r, dir, i, max_len)
                    }
                }
                _ => stream_field(r, max_len, mix == Mix::Any),
            }
        })
        .collect();
    // a field asked for twice is sent twice: the same one, or one that differs in its content only
    if n > 0 && r.chance(1, 6) {
        let i = r.below(n);
        let mut f = fs[i].clone();
        if r.chance(1, 3) && !matches!(f.kind, Kind::File(_)) {
            f.part.content = text_field(r, max_len).part.content;
        }
        let at = if r.chance(2, 3) { i + 1 } else { r.range(0, n) };
        fs.insert(at, f);
    }
    fs
}

/// how many files this process can have open
fn open_files() -> usize {
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) };
    (l.rlim_cur as usize).clamp(512, 20_000)
}

/// Many small fields, told apart by their content
fn many(r: &mut Rng, dir: &Path) -> Vec<Fld> {
    let n = *r.pick(&[257usize, 1000, 1025, 2050, 4100]);
    // out of 50; they are all open at once in a prepared request
    let files = r.below(if n < 2000 { 60 } else { 20 }).min(open_files() / 20 * 150 / n);
    let same = r.chance(1, 3);
    (0..n)
        .map(|i| {
            let content = format!("field {}", i);
            let name = if same { "f".into() } else { format!("f{}", i) };
            let p = |filename, ctype| Part { name: name.clone(), filename, ctype, content: content.clone().into_bytes() };
            if i % 50 < files / 3 {
                let path = dir.join(format!("m{}.txt", i));
                std::fs::write(&path, &content).unwrap();
                Fld::new(Kind::File(path), p(Some(format!("m{}.txt", i)), Some("text/plain".into())))
            } else if i % 3 == 0 {
                Fld::new(Kind::Stream { mime: None, max: 0, seed: 1, faults: vec![] }, p(None, Some("application/octet-stream".into())))
            } else {
                Fld::new(Kind::Text, p(None, None))
            }
        })
        .collect()
}

/// few fields, of a megabyte and more
fn huge(r: &mut Rng, dir: &Path, mix: Mix) -> Vec<Fld> {
    (0..r.range(1, 3))
        .map(|i| {
            let n = match r.below(10) {
                0 => 17 << 20,
                1 | 2 => 5 << 20,
                3 | 4 => (1 << 20) - r.below(3),
                _ => r.range(1 << 20, 4 << 20),
            } + r.below(5000);
            let block = r.bytes(1 << 16);
            let mut v: Vec<u8> = Vec::with_capacity(n + (1 << 16));
            while v.len() < n {
                let k = v.len() as u64;
                v.extend_from_slice(&block);
                let l = v.len();
                v[l - 8..].copy_from_slice(&k.to_le_bytes());
            }
            v.truncate(n);
            let p = |filename, ctype, content| Part { name: format!("huge{}", i), filename, ctype, content };
            match r.below(3) {
                0 => {
                    v.iter_mut().for_each(|b| *b = b' ' + *b % 90);
                    Fld::new(Kind::Text, p(None, None, v))
                }
                1 if mix != Mix::NoStreams => {
                    let kind = Kind::Stream { mime: None, max: *r.pick(&[0, 0, 8192, 100_000]), seed: r.u64(), faults: vec![] };
                    Fld::new(kind, p(None, Some("application/octet-stream".into()), v))
                }
                _ => {
                    let path = dir.join(format!("huge{}.txt", i));
                    std::fs::write(&path, &v).unwrap();
                    Fld::new(Kind::File(path), p(Some(format!("huge{}.txt", i)), Some("text/plain".into()), v))
                }
            }
        })
        .collect()
}

fn show_fields(c: &mut Case, f: &[Fld]) {
    for (i, f) in f.iter().enumerate().take(50) {
        c.note(format!("field {}: {:?} name {:?} filename {:?} type {:?} content {}", i, f.kind, f.name, f.filename, f.part.ctype, show(&f.part.content)));
    }
}

fn feed(f: &Fld) -> Feed {
    match f.kind {
        Kind::Stream { max, seed, ref faults, .. } => Feed::new(f.part.content.clone(), max, seed).with_faults(faults.clone()),
        _ => unreachable!(),
    }
}

fn write_fields<S: HttpStream>(mp: &mut Multipart<S>, fs: &[Fld], variant: usize) -> Result<(), S::Error> {
    for f in fs {
        match f.kind {
            Kind::Text => {
                let t = std::str::from_utf8(&f.part.content).unwrap();
                if variant % 2 == 0 {
                    mp.write_text(&f.name, t)?;
                } else {
                    mp.write_text(f.name.clone(), t.to_string())?;
                }
            }
            Kind::File(ref p) => {
                mp.write_file(&f.name, p)?;
            }
            Kind::Stream { ref mime, .. } => {
                mp.write_stream(&f.name, &mut feed(f), f.filename.as_ref().map(|s| &**s), mime.clone())?;
            }
        }
    }
    Ok(())
}

fn lazy_of<'n, 'd>(fs: &'n [Fld], variant: usize) -> lazy::Multipart<'n, 'd>
where
    'n: 'd,
{
    if fs.iter().map(|f| f.part.content.len() + 1).sum::<usize>() % 3 == 0 {
        return lazy_owned(fs, variant);
    }
    let mut m = lazy::Multipart::new();
    for f in fs {
        match f.kind {
            Kind::Text => {
                let t = std::str::from_utf8(&f.part.content).unwrap();
                if variant % 2 == 0 {
                    m.add_text(&*f.name, t);
                } else {
                    m.add_text(f.name.clone(), t.to_string());
                }
            }
            Kind::File(ref p) => {
                match variant % 3 {
                    0 => m.add_file(&*f.name, &**p),
                    1 => m.add_file(f.name.clone(), std::borrow::Cow::<Path>::Borrowed(p)),
                    _ => match p.to_str() {
                        Some(s) => m.add_file(&*f.name, s),
                        None => m.add_file(&*f.name, &**p),
                    },
                };
            }
            Kind::Stream { ref mime, .. } => {
                m.add_stream(&*f.name, feed(f), f.filename.as_ref().map(|s| &**s), mime.clone());
            }
        }
    }
    m
}

/// The same, nothing of it borrowed
fn lazy_owned(fs: &[Fld], variant: usize) -> lazy::Multipart<'static, 'static> {
    let mut m = lazy::Multipart::new();
    for f in fs {
        match f.kind {
            Kind::Text => {
                m.add_text(f.name.clone(), std::str::from_utf8(&f.part.content).unwrap().to_string());
            }
            Kind::File(ref p) => {
                match variant % 3 {
                    0 => m.add_file(f.name.clone(), p.clone()),
                    1 => m.add_file(f.name.clone(), std::borrow::Cow::<Path>::Owned(p.clone())),
                    _ => match p.to_str() {
                        Some(s) => m.add_file(f.name.clone(), s.to_string()),
                        None => m.add_file(f.name.clone(), p.clone()),
                    },
                };
            }
            Kind::Stream { ref mime, .. } => {
                m.add_stream(f.name.clone(), feed(f), f.filename.clone(), mime.clone());
            }
        }
    }
    m
}

fn same_part(got: &Part, want: &Part) -> Res {
    ensure!(got.name == want.name, "name {:?}, given {:?}", got.name, want.name);
    ensure!(got.filename == want.filename, "field {:?}: filename {:?}, expected {:?}", want.name, got.filename, want.filename);
    ensure!(got.ctype == want.ctype, "field {:?}: content type {:?}, expected {:?}", want.name, got.ctype, want.ctype);
    ensure!(got.content == want.content, "field {:?}: content: {}", want.name, diff(&got.content, &want.content));
    Ok(())
}

/// In order (streaming client)
fn same_ordered(body: &[u8], boundary: &str, fs: &[Fld]) -> Res {
    let p = oracle::parse(body, boundary)?;
    ensure!(p.parts.len() == fs.len(), "the body has {} parts, {} fields were given", p.parts.len(), fs.len());
    for (i, (g, w)) in p.parts.iter().zip(fs).enumerate() {
        same_part(g, &w.part).map_err(|e| format!("part {}: {}", i, e))?;
    }
    Ok(())
}

/// As a multiset (lazy client)
fn same_multiset(body: &[u8], boundary: &str, fs: &[Fld]) -> Res {
    let p = oracle::parse(body, boundary)?;
    ensure!(p.parts.len() == fs.len(), "the body has {} parts, {} fields were given", p.parts.len(), fs.len());
    let mut used = vec![false; fs.len()];
    for g in &p.parts {
        match (0..fs.len()).find(|&i| !used[i] && fs[i].part == *g) {
            Some(i) => used[i] = true,
            None => {
                let near = (0..fs.len()).find(|&i| !used[i] && fs[i].part.name == g.name);
                match near {
                    Some(i) => return same_part(g, &fs[i].part),
                    None => fail!("a part named {:?} was not asked for", g.name),
                }
            }
        }
    }
    Ok(())
}

fn sig(fs: &[Fld], extra: &[u64]) -> Vec<u8> {
    let mut v = vec![];
    for f in fs {
        v.push(match f.kind {
            Kind::Text => 0,
            Kind::File(_) => 1,
            Kind::Stream { .. } => 2,
        });
        v.extend_from_slice(f.part.name.as_bytes());
        v.extend_from_slice(&crate::rng::hash(&f.part.content).to_le_bytes());
    }
    for e in extra {
        v.extend_from_slice(&e.to_le_bytes());
    }
    v
}

fn count_kinds(c: &mut Case, fs: &[Fld]) {
    for f in fs {
        match f.kind {
            Kind::Text => c.count("text_fields"),
            Kind::File(_) => c.count("file_fields"),
            Kind::Stream { .. } => c.count("stream_fields"),
        }
        if f.name != f.part.name || f.filename != f.part.filename {
            c.count("names_escaped");
        }
        c.add("content_bytes", f.part.content.len() as u64);
    }
    if fs.is_empty() {
        c.count("requests_without_fields");
    }
}

fn interrupts(r: &mut Rng) -> Vec<(usize, WriteFault)> {
    if r.chance(1, 2) {
        return vec![];
    }
    (0..r.range(1, 12)).map(|_| (r.below(60), WriteFault::Err(ErrorKind::Interrupted))).collect()
}

fn sink_max(r: &mut Rng, fs: &[Fld]) -> usize {
    let total: usize = fs.iter().map(|f| f.part.content.len()).sum();
    let m = *r.pick(&[0usize, 0, 1, 2, 7, 50, 1000, 5000, 9000]);
    if m > 0 && total / m > 20000 {
        500
    } else {
        m
    }
}

// ---------------------------------------------------------------- hyper over captured connections

#[derive(Default)]
pub struct Wire {
    /// what was written to each connection
    pub conns: Vec<Vec<u8>>,
}

pub struct Capture {
    pub wire: Arc<Mutex<Wire>>,
    pub max: usize,
    pub seed: u64,
    /// connections fail after this many bytes
    pub fail_at: Option<usize>,
}

pub struct Conn {
    wire: Arc<Mutex<Wire>>,
    at: usize,
    max: usize,
    rng: Rng,
    fail_at: Option<usize>,
    reply: io::Cursor<Vec<u8>>,
}

impl hyper::net::NetworkConnector for Capture {
    type Stream = Conn;
    fn connect(&self, _: &str, _: u16, _: &str) -> hyper::Result<Conn> {
        let mut w = self.wire.lock().unwrap();
        w.conns.push(vec![]);
        Ok(Conn {
            wire: self.wire.clone(),
            at: w.conns.len() - 1,
            max: self.max,
            rng: Rng::new(self.seed),
            fail_at: self.fail_at,
            reply: io::Cursor::new(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok".to_vec()),
        })
    }
}

impl Write for Conn {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut w = self.wire.lock().unwrap();
        let out = &mut w.conns[self.at];
        let mut n = if self.max == 0 { buf.len() } else { self.rng.range(1, self.max).min(buf.len()) };
        if let Some(f) = self.fail_at {
            if out.len() >= f {
                return Err(io::Error::new(ErrorKind::BrokenPipe, "injected connection fault"));
            }
            n = n.min(f - out.len());
        }
        out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Read for Conn {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reply.read(buf)
    }
}

impl hyper::net::NetworkStream for Conn {
    fn peer_addr(&mut self) -> io::Result<std::net::SocketAddr> {
        Ok("127.0.0.1:80".parse().unwrap())
    }
    fn set_read_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Debug)]
pub struct RawReq {
    pub line: String,
    pub headers: Vec<(String, String)>,
    pub declared: Option<u64>,
    pub chunked: bool,
    pub body: Vec<u8>,
}

/// The header fields of a request, whatever follows them.
pub fn raw_head(b: &[u8]) -> Result<Vec<(String, String)>, String> {
    let end = gen::find(b, b"\r\n\r\n").ok_or_else(|| format!("no end of headers in {}", show(b)))?;
    let head = std::str::from_utf8(&b[..end]).map_err(|_| "header bytes")?;
    head.split("\r\n").skip(1).map(|l| l.split_once(':').map(|(a, b)| (a.trim().to_ascii_lowercase(), b.trim().to_string())).ok_or_else(|| format!("header line {:?}", l))).collect()
}

/// Parse exactly one HTTP request; anything left over or missing is an error.
pub fn raw_http(b: &[u8]) -> Result<RawReq, String> {
    let end = gen::find(b, b"\r\n\r\n").ok_or_else(|| format!("no end of headers in {}", show(b)))?;
    let head = std::str::from_utf8(&b[..end]).map_err(|_| "header bytes")?;
    let rest = &b[end + 4..];
    let mut lines = head.split("\r\n");
    let line = lines.next().unwrap().to_string();
    let headers: Vec<(String, String)> = lines
        .map(|l| l.split_once(':').map(|(a, b)| (a.trim().to_ascii_lowercase(), b.trim().to_string())).ok_or_else(|| format!("header line {:?}", l)))
        .collect::<Result<_, _>>()?;
    let get = |n: &str| headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect::<Vec<_>>();
    let cl = get("content-length");
    let te = get("transfer-encoding");
    ensure!(cl.len() <= 1 && te.len() <= 1, "repeated length headers in {:?}", headers);
    let declared = match cl.first() {
        Some(v) => Some(v.parse::<u64>().map_err(|_| format!("Content-Length {:?}", v))?),
        None => None,
    };
    let chunked = te.first().map_or(false, |t| t.eq_ignore_ascii_case("chunked"));
    ensure!(!(chunked && declared.is_some()), "both Content-Length and chunked");
    let body = if chunked {
        let mut out = vec![];
        let mut rest = rest;
        loop {
            let eol = gen::find(rest, b"\r\n").ok_or("unterminated chunk size")?;
            let n = usize::from_str_radix(std::str::from_utf8(&rest[..eol]).unwrap_or("?").trim(), 16).map_err(|_| format!("chunk size {}", show(&rest[..eol])))?;
            rest = &rest[eol + 2..];
            ensure!(rest.len() >= n + 2, "chunk of {} bytes cut off", n);
            out.extend_from_slice(&rest[..n]);
            ensure!(&rest[n..n + 2] == b"\r\n", "chunk not followed by CRLF");
            rest = &rest[n + 2..];
            if n == 0 {
                break;
            }
        }
        ensure!(rest.is_empty(), "{} bytes after the last chunk", rest.len());
        out
    } else {
        rest.to_vec()
    };
    Ok(RawReq { line, headers, declared, chunked, body })
}

/// The boundary announced in a Content-Type header value
pub fn announced(raw: &RawReq) -> Result<String, String> {
    let ct: Vec<&String> = raw.headers.iter().filter(|h| h.0 == "content-type").map(|h| &h.1).collect();
    ensure!(ct.len() == 1, "{} Content-Type headers", ct.len());
    let rest = ct[0].strip_prefix("multipart/form-data;").ok_or_else(|| format!("Content-Type {:?}", ct[0]))?;
    let b = rest.trim().strip_prefix("boundary=").ok_or_else(|| format!("Content-Type {:?}", ct[0]))?;
    Ok(b.trim_matches('"').to_string())
}

fn url() -> hyper::Url {
    hyper::Url::parse("http://check.test/upload").unwrap()
}

fn hyper_request(cap: &Capture) -> hyper::client::Request<hyper::net::Fresh> {
    hyper::client::Request::with_connector(hyper::method::Method::Post, url(), cap).unwrap()
}

// ---------------------------------------------------------------- C08

pub fn c08(ctx: &Ctx) {
    ctx.expect(&["names_escaped", "text_fields", "file_fields", "stream_fields", "requests_without_fields", "interrupted_writes", "sized_requests", "chunked_requests", "hyper_requests", "requests_of_megabytes"]);
    ctx.assume("names and filenames contain no control characters other than line breaks; files are regular and do not change while they are read");
    ctx.cases("mix", ctx.n(12_000, 250_000), |c| {
        let dir = scratch::fresh("c08");
        let res = mix(c, &dir);
        scratch::done(&dir);
        res
    });
    ctx.cases("exts", EXTS.len() * 4, |c| {
        let dir = scratch::fresh("c08e");
        let (e, t) = EXTS[c.idx / 4];
        let stem = ["a", "a.b", "ü", "x y"][c.idx % 4];
        let path = dir.join(format!("{}.{}", stem, e));
        std::fs::write(&path, b"data").unwrap();
        let fs = vec![Fld::new(
            Kind::File(path),
            Part { name: "f".into(), filename: Some(format!("{}.{}", stem, e)), ctype: Some(t.into()), content: b"data".to_vec() },
        )];
        let (req, log) = Req::new(0, 0);
        let mut mp = Multipart::from_request(req).map_err(|e| e.to_string())?;
        write_fields(&mut mp, &fs, 0).map_err(|e| e.to_string())?;
        mp.send().map_err(|e| e.to_string())?;
        let l = log.lock().unwrap().clone();
        c.eval();
        c.distinct(format!("{}.{}", stem, e).as_bytes());
        same_ordered(&l.out, &l.headers[0].0, &fs)?;
        // and through the lazy client
        let mut lz = lazy_of(&fs, 0);
        let mut p = lz.prepare().map_err(|e| e.to_string())?;
        let b = p.boundary().to_string();
        let mut out = vec![];
        p.read_to_end(&mut out).map_err(|e| e.to_string())?;
        scratch::done(&dir);
        same_multiset(&out, &b, &fs).map_err(|e| format!("lazy: {}", e))
    });
    ctx.cases("many", ctx.n(12, 200), |c| {
        let dir = scratch::fresh("c08m");
        let fs = many(&mut c.r, &dir);
        let sized = c.r.bool();
        let (req, log) = Req::new(sink_max(&mut c.r, &fs), c.r.u64());
        let res = guard(|| -> Res {
            let r = if sized {
                Multipart::from_request_sized(req).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                })
            } else {
                Multipart::from_request(req).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                })
            };
            r.map_err(|e| format!("failed without a fatal fault: {:?}", e))?;
            let l = log.lock().unwrap().clone();
            if sized {
                ensure!(l.headers[0].1 == Some(l.out.len() as u64), "announced length {:?}, body {}", l.headers[0].1, l.out.len());
            }
            same_ordered(&l.out, &l.headers[0].0, &fs)
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.max("most_fields_in_a_request", fs.len() as u64);
        c.distinct(&sig(&fs, &[sized as u64]));
        res.map_err(|e| format!("{} fields: {}", fs.len(), e))
    });
    ctx.cases("large", ctx.n(12, 200), |c| {
        let dir = scratch::fresh("c08l");
        let fs = huge(&mut c.r, &dir, Mix::Any);
        let sized = c.r.bool();
        let (req, log) = Req::new(*c.r.pick(&[0, 1000, 70_000]), c.r.u64());
        let res = guard(|| -> Res {
            let r = if sized {
                Multipart::from_request_sized(req).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                })
            } else {
                Multipart::from_request(req).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                })
            };
            r.map_err(|e| format!("failed without a fatal fault: {:?}", e))?;
            let l = log.lock().unwrap().clone();
            if sized {
                ensure!(l.headers[0].1 == Some(l.out.len() as u64), "announced length {:?}, body {}", l.headers[0].1, l.out.len());
            }
            same_ordered(&l.out, &l.headers[0].0, &fs)
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.max("most_bytes_in_a_request", total(&fs) as u64);
        c.count("requests_of_megabytes");
        c.distinct(&sig(&fs, &[sized as u64]));
        res.map_err(|e| format!("fields of {:?} bytes, sized {}: {}", fs.iter().map(|f| f.part.content.len()).collect::<Vec<_>>(), sized, e))
    });
    ctx.cases("hyper", ctx.n(1500, 30_000), |c| {
        let dir = scratch::fresh("c08h");
        let fs = fields(&mut c.r, &dir, 6, 20000, Mix::Any);
        let sized = c.r.bool();
        let res = hyper_wire(c, &fs, sized).and_then(|raw| {
            let b = announced(&raw)?;
            ensure!(raw.line.starts_with("POST "), "request line {:?}", raw.line);
            same_ordered(&raw.body, &b, &fs)
        });
        scratch::done(&dir);
        c.eval();
        c.count("hyper_requests");
        c.distinct(&sig(&fs, &[sized as u64]));
        if res.is_err() {
            show_fields(c, &fs);
            c.note(format!("hyper client, sized: {}", sized));
        }
        res
    });
}

fn hyper_wire(c: &mut Case, fs: &[Fld], sized: bool) -> Result<RawReq, String> {
    let wire: Arc<Mutex<Wire>> = Default::default();
    let cap = Capture { wire: wire.clone(), max: *c.r.pick(&[0, 0, 3, 700, 5000]), seed: c.r.u64(), fail_at: None };
    let req = hyper_request(&cap);
    let v = c.r.below(2);
    let sent = if sized {
        Multipart::from_request_sized(req).and_then(|mut mp| {
            write_fields(&mut mp, fs, v)?;
            mp.send()
        })
    } else {
        Multipart::from_request(req).and_then(|mut mp| {
            write_fields(&mut mp, fs, v)?;
            mp.send()
        })
    };
    let resp = sent.map_err(|e| format!("failed without a fault: {:?}", e))?;
    ensure!(resp.status == hyper::Ok, "status {:?}", resp.status);
    drop(resp);
    let w = wire.lock().unwrap();
    ensure!(w.conns.len() == 1, "{} connections", w.conns.len());
    raw_http(&w.conns[0])
}

fn mix(c: &mut Case, dir: &Path) -> Res {
    let big = c.r.chance(1, 10);
    let fs = fields(&mut c.r, dir, if big { 3 } else { 8 }, if big { 60000 } else { 9000 }, Mix::Any);
    count_kinds(c, &fs);
    let max = sink_max(&mut c.r, &fs);
    let sized = c.r.chance(1, 3);
    let faults = interrupts(&mut c.r);
    let v = c.r.below(4);
    let (mut req, log) = Req::new(max, c.r.u64());
    req.faults = faults.clone();
    let res = guard(|| -> Res {
        let r = if sized {
            Multipart::from_request_sized(req).and_then(|mut mp| {
                write_fields(&mut mp, &fs, v)?;
                ensure_io(log.lock().unwrap().opened == 0, "the wrapped request was opened before its length was known")?;
                mp.send()
            })
        } else {
            Multipart::from_request(req).and_then(|mut mp| {
                write_fields(&mut mp, &fs, v)?;
                mp.send()
            })
        };
        let resp = r.map_err(|e| format!("failed without a fatal fault: {:?}", e))?;
        ensure!(resp == 4711, "the response {} is not the stream's", resp);
        let l = log.lock().unwrap().clone();
        ensure!(l.headers.len() == 1 && l.opened == 1 && l.finished == 1, "headers applied {} times, opened {} times, finished {} times", l.headers.len(), l.opened, l.finished);
        let (ref b, len) = l.headers[0];
        if sized {
            ensure!(len == Some(l.out.len() as u64), "announced length {:?}, body {}", len, l.out.len());
        } else {
            ensure!(len.is_none(), "announced length {:?} for a chunked request", len);
        }
        same_ordered(&l.out, b, &fs)
    })
    .and_then(|x| x);
    let l = log.lock().unwrap();
    c.add("interrupted_writes", l.hit as u64);
    c.add("write_calls", l.calls as u64);
    drop(l);
    c.count(if sized { "sized_requests" } else { "chunked_requests" });
    c.eval();
    c.distinct(&sig(&fs, &[max as u64, sized as u64]));
    c.sample(|| format!("{} fields, sink takes up to {} bytes, sized {}, interrupted at {:?}", fs.len(), max, sized, faults));
    if res.is_err() {
        show_fields(c, &fs);
        c.note(format!("sink takes up to {} bytes at a time, sized {}, faults {:?}, variant {}", max, sized, faults, v));
        return res;
    }
    // the mock transport, which takes random portions
    if c.r.chance(1, 4) {
        let r = guard(|| -> Res {
            let buf: HttpBuffer = if sized {
                let mut mp = Multipart::from_request_sized(ClientRequest::default()).map_err(|e| e.to_string())?;
                write_fields(&mut mp, &fs, v).map_err(|e| e.to_string())?;
                mp.send().map_err(|e| e.to_string())?
            } else {
                let mut mp = Multipart::from_request(ClientRequest::default()).map_err(|e| e.to_string())?;
                write_fields(&mut mp, &fs, v).map_err(|e| e.to_string())?;
                mp.send().map_err(|e| e.to_string())?
            };
            same_ordered(&buf.buf, &buf.boundary, &fs)
        })
        .and_then(|x| x);
        c.eval();
        if r.is_err() {
            show_fields(c, &fs);
            c.note(format!("mock client request, sized {}", sized));
            return r;
        }
    }
    Ok(())
}

fn ensure_io(ok: bool, m: &str) -> io::Result<()> {
    if ok {
        Ok(())
    } else {
        Err(io::Error::new(ErrorKind::Other, m.to_string()))
    }
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Copy, Debug)]
enum Pattern {
    ToEnd,
    Fixed(usize),
    Random(u64, usize),
    /// with empty buffers in between
    Gaps(u64, usize),
    Copy(usize, u64),
    Bytes,
}

fn pattern(r: &mut Rng, total: usize) -> Pattern {
    match r.below(8) {
        0 => Pattern::ToEnd,
        1 if total < 30000 => Pattern::Bytes,
        2 if total < 60000 => Pattern::Fixed(*r.pick(&[1usize, 2, 3, 7, 16])),
        3 => Pattern::Fixed(*r.pick(&[60usize, 64, 100, 1000, 8192, 65536])),
        4 => Pattern::Random(r.u64(), *r.pick(&[100, 500, 9000])),
        5 => Pattern::Copy(*r.pick(&[0, 100, 5000]), r.u64()),
        _ => Pattern::Gaps(r.u64(), *r.pick(&[30, 200, 9000])),
    }
}

fn again(k: ErrorKind) -> bool {
    matches!(k, ErrorKind::Interrupted | ErrorKind::WouldBlock | ErrorKind::TimedOut)
}

fn read_prepared(p: &mut lazy::PreparedFields, pat: Pattern, cap: usize, retries: &mut u64) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut rng = Rng::new(match pat {
        Pattern::Random(s, _) | Pattern::Gaps(s, _) => s,
        _ => 0,
    });
    match pat {
        Pattern::ToEnd => loop {
            match (&mut *p).take(cap as u64 + 1).read_to_end(&mut out) {
                Ok(_) => break,
                Err(e) if again(e.kind()) => *retries += 1,
                Err(e) => fail!("reading: {:?}", e),
            }
        },
        Pattern::Copy(max, seed) => {
            let mut s = Sink::new(max, seed);
            loop {
                match io::copy(&mut (&mut *p).take(cap as u64 + 1), &mut s) {
                    Ok(_) => break,
                    Err(e) if again(e.kind()) => *retries += 1,
                    Err(e) => fail!("copying: {:?}", e),
                }
            }
            out = s.out;
        }
        _ => loop {
            let n = match pat {
                Pattern::Fixed(n) => n,
                Pattern::Random(_, m) => rng.range(1, m),
                Pattern::Gaps(_, m) => {
                    if rng.chance(1, 3) {
                        0
                    } else {
                        rng.range(1, m)
                    }
                }
                _ => 1,
            };
            let mut buf = vec![0x5a; n];
            match p.read(&mut buf) {
                Ok(k) => {
                    ensure!(k <= n, "read() returned {} for a buffer of {}", k, n);
                    out.extend_from_slice(&buf[..k]);
                    if k == 0 && n > 0 {
                        break;
                    }
                }
                Err(e) if again(e.kind()) => *retries += 1,
                Err(e) => fail!("reading: {:?}", e),
            }
            ensure!(out.len() <= cap, "the body does not end: {} bytes", out.len());
        },
    }
    ensure!(out.len() <= cap, "the body does not end: {} bytes", out.len());
    for n in [1usize, 100, 0, 5000] {
        let mut buf = vec![0; n];
        match p.read(&mut buf) {
            Ok(0) => {}
            other => fail!("reading after the end gave {:?}", other),
        }
    }
    Ok(out)
}

fn total(fs: &[Fld]) -> usize {
    fs.iter().map(|f| f.part.content.len() + f.part.name.len() + f.part.filename.as_ref().map_or(0, |n| n.len()) + 400).sum::<usize>() + 1000
}

fn stream_faults(r: &mut Rng, fs: &mut [Fld]) -> usize {
    let mut n = 0;
    for f in fs.iter_mut() {
        if let Kind::Stream { ref mut faults, .. } = f.kind {
            faults.clear();
            if r.chance(2, 3) {
                for _ in 0..r.range(1, 5) {
                    faults.push((r.below(12), *r.pick(&[ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::TimedOut])));
                    n += 1;
                }
            }
        }
    }
    n
}

pub fn c09(ctx: &Ctx) {
    ctx.expect(&["names_escaped", "text_fields", "file_fields", "stream_fields", "requests_without_fields", "reads_repeated_after_fault", "sent_requests", "requests_of_megabytes"]);
    ctx.assume("names and filenames contain no control characters other than line breaks; files are regular and do not change while they are read; streams fail with Interrupted, WouldBlock or TimedOut without losing data");
    ctx.cases("read", ctx.n(15_000, 300_000), |c| {
        let dir = scratch::fresh("c09");
        let mut fs = {
            let max_len = if c.r.chance(1, 10) { 50000 } else { 6000 };
            fields(&mut c.r, &dir, 8, max_len, Mix::Any)
        };
        stream_faults(&mut c.r, &mut fs);
        count_kinds(c, &fs);
        let pat = pattern(&mut c.r, total(&fs));
        let v = c.r.below(6);
        let mut retries = 0;
        let res = guard(|| -> Res {
            let mut lz = lazy_of(&fs, v);
            let mut p = lz.prepare().map_err(|e| format!("prepare: {:?}", e))?;
            let b = p.boundary().to_string();
            let body = read_prepared(&mut p, pat, total(&fs), &mut retries)?;
            ensure!(p.boundary() == b, "the boundary changed while reading");
            same_multiset(&body, &b, &fs)?;
            // the builder is empty now and can be used again
            drop(p);
            let mut p = lz.prepare().map_err(|e| format!("second prepare: {:?}", e))?;
            let b2 = p.boundary().to_string();
            let body = read_prepared(&mut p, Pattern::Fixed(3), 1000, &mut retries)?;
            same_multiset(&body, &b2, &[]).map_err(|e| format!("reused builder: {}", e))?;
            ensure!(b != b2, "the same boundary {:?} for two requests", b);
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.add("reads_repeated_after_fault", retries);
        c.distinct(&sig(&fs, &[v as u64]));
        c.sample(|| format!("{} fields read with {:?}, {} reads repeated", fs.len(), pat, retries));
        if res.is_err() {
            show_fields(c, &fs);
            c.note(format!("read with {:?}, variant {}", pat, v));
        }
        res
    });
    // every position of a buffer end relative to the joints between pieces
    ctx.cases("joints", ctx.n(400, 4000), |c| {
        let dir = scratch::fresh("c09j");
        let fs = fields(&mut c.r, &dir, 4, 60, Mix::StreamsNoFaults);
        let res = guard(|| -> Res {
            let n = total(&fs);
            for size in 1..=400usize.min(n) {
                let mut lz = lazy_of(&fs, 0);
                let mut p = lz.prepare().map_err(|e| format!("prepare: {:?}", e))?;
                let b = p.boundary().to_string();
                let mut r = 0;
                let body = read_prepared(&mut p, Pattern::Fixed(size), n, &mut r)?;
                same_multiset(&body, &b, &fs).map_err(|e| format!("read {} bytes at a time: {}", size, e))?;
            }
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        let n = total(&fs).min(400) as u64;
        c.obs.evaluations += n;
        c.add("buffer_sizes_tried", n);
        c.distinct(&sig(&fs, &[]));
        if res.is_err() {
            show_fields(c, &fs);
        }
        res
    });
    ctx.cases("many", ctx.n(12, 200), |c| {
        let dir = scratch::fresh("c09m");
        let fs = many(&mut c.r, &dir);
        let v = c.r.below(6);
        let pat = pattern(&mut c.r, total(&fs));
        let send = c.r.bool();
        let (req, log) = Req::new(0, 0);
        let res = guard(|| -> Res {
            let mut lz = lazy_of(&fs, v);
            if send {
                lz.send(req).map_err(|e| format!("send: {:?}", e))?;
                let l = log.lock().unwrap().clone();
                return same_multiset(&l.out, &l.headers[0].0, &fs);
            }
            let mut p = lz.prepare().map_err(|e| format!("prepare: {:?}", e))?;
            let b = p.boundary().to_string();
            let mut retries = 0;
            let body = read_prepared(&mut p, pat, total(&fs), &mut retries)?;
            same_multiset(&body, &b, &fs)
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.max("most_fields_in_a_request", fs.len() as u64);
        c.distinct(&sig(&fs, &[v as u64]));
        res.map_err(|e| format!("{} fields, variant {}, read with {:?}: {}", fs.len(), v, pat, e))
    });
    ctx.cases("large", ctx.n(12, 200), |c| {
        let dir = scratch::fresh("c09l");
        let fs = huge(&mut c.r, &dir, Mix::Any);
        let v = c.r.below(6);
        let pat = match c.r.below(4) {
            0 => Pattern::Fixed(*c.r.pick(&[20_000usize, 1 << 20, (1 << 20) + 1, 3 << 20, 50 << 20])),
            1 => Pattern::Random(c.r.u64(), 3 << 20),
            2 => Pattern::Gaps(c.r.u64(), 300_000),
            _ => Pattern::ToEnd,
        };
        let send = c.r.bool();
        let (req, log) = Req::new(0, 0);
        let res = guard(|| -> Res {
            let mut lz = lazy_of(&fs, v);
            if send {
                lz.send(req).map_err(|e| format!("send: {:?}", e))?;
                let l = log.lock().unwrap().clone();
                return same_multiset(&l.out, &l.headers[0].0, &fs);
            }
            let mut p = lz.prepare().map_err(|e| format!("prepare: {:?}", e))?;
            let b = p.boundary().to_string();
            let mut retries = 0;
            let body = read_prepared(&mut p, pat, total(&fs), &mut retries)?;
            same_multiset(&body, &b, &fs)
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.max("most_bytes_in_a_request", total(&fs) as u64);
        c.count("requests_of_megabytes");
        c.distinct(&sig(&fs, &[v as u64]));
        res.map_err(|e| format!("fields of {:?} bytes, variant {}, sent {}, read with {:?}: {}", fs.iter().map(|f| f.part.content.len()).collect::<Vec<_>>(), v, send, pat, e))
    });
    ctx.cases("send", ctx.n(5000, 100_000), |c| {
        let dir = scratch::fresh("c09s");
        let mut fs = fields(&mut c.r, &dir, 6, 20000, Mix::Any);
        for f in fs.iter_mut() {
            // send() gives up on errors other than Interrupted
            if let Kind::Stream { ref mut faults, .. } = f.kind {
                faults.iter_mut().for_each(|f| f.1 = ErrorKind::Interrupted);
            }
        }
        let (mut req, log) = Req::new(sink_max(&mut c.r, &fs), c.r.u64());
        req.faults = interrupts(&mut c.r);
        let v = c.r.below(6);
        let res = guard(|| -> Res {
            let mut lz = lazy_of(&fs, v);
            let r = lz.send(req).map_err(|e| format!("failed without a fatal fault: {:?}", e))?;
            ensure!(r == 4711, "response {}", r);
            let l = log.lock().unwrap().clone();
            ensure!(l.headers.len() == 1 && l.opened == 1 && l.finished == 1, "headers applied {} times, opened {}, finished {}", l.headers.len(), l.opened, l.finished);
            same_multiset(&l.out, &l.headers[0].0, &fs)
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.count("sent_requests");
        c.add("interrupted_writes", log.lock().unwrap().hit as u64);
        c.distinct(&sig(&fs, &[7]));
        if res.is_err() {
            show_fields(c, &fs);
        }
        res
    });
}

// ---------------------------------------------------------------- C10

pub fn c10(ctx: &Ctx) {
    ctx.expect(&["sized_of_megabytes", "lengths_beyond_32_bits", "bodies_beyond_4_gib", "lazy_with_length", "lazy_without_length", "sized_requests", "wire_with_length", "wire_chunked", "mock_requests"]);
    ctx.assume("files are regular and do not change between being measured and being read");
    // lengths beyond 32 bits, of sparse files; few are read, the others are compared to that of an empty file
    let unlimited = scratch::FileLimit::set(u64::MAX);
    ctx.cases("huge", ctx.n(60, 1000), |c| {
        let dir = scratch::fresh("c10h");
        let k = c.r.range(1, 3);
        let read = c.idx < 2;
        let paths: Vec<_> = (0..k).map(|i| dir.join(format!("f{}.bin", i))).collect();
        let sizes: Vec<u64> = (0..k)
            .map(|i| if read && i > 0 { 5 } else if read { (1 << 32) + c.r.below(100_000) as u64 } else { *c.r.pick(&[1u64 << 31, (1 << 32) - 1, 1 << 32, 3 << 32, 1 << 40, 1 << 53]) - 2 + c.r.below(5) as u64 })
            .collect();
        let res = guard(|| -> Res {
            let length = |sizes: &[u64]| -> Result<(Option<u64>, u64), String> {
                for (p, n) in paths.iter().zip(sizes) {
                    std::fs::File::create(p).and_then(|f| f.set_len(*n)).map_err(|e| format!("harness: {}", e))?;
                }
                let mut lz = lazy::Multipart::new();
                lz.add_text("t", "text");
                for p in &paths {
                    lz.add_file("f", &**p);
                }
                let mut pr = lz.prepare().map_err(|e| format!("{:?}", e))?;
                let l = pr.content_len();
                let mut got = 0u64;
                if read {
                    let mut buf = vec![0u8; 1 << 17];
                    loop {
                        match pr.read(&mut buf).map_err(|e| format!("{:?}", e))? {
                            0 => break,
                            n => got += n as u64,
                        }
                    }
                }
                Ok((l, got))
            };
            let (empty, _) = length(&vec![0; k])?;
            let (full, got) = length(&sizes)?;
            let want = empty.ok_or("no length")? + sizes.iter().sum::<u64>();
            ensure!(full == Some(want), "files of {:?} bytes: announced {:?}, expected {}", sizes, full, want);
            ensure!(!read || got == want, "files of {:?} bytes: announced {:?}, the body has {}", sizes, full, got);
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        if matches!(&res, Err(e) if e.starts_with("harness: ")) {
            // no room for such files here
            c.count("sparse_files_refused");
            return Ok(());
        }
        c.count("lengths_beyond_32_bits");
        if read {
            c.count("bodies_beyond_4_gib");
        }
        c.distinct(format!("{:?}", sizes).as_bytes());
        res
    });
    drop(unlimited);
    ctx.cases("lazy", ctx.n(8000, 150_000), |c| {
        let dir = scratch::fresh("c10");
        let mixk = if c.r.bool() { Mix::NoStreams } else { Mix::StreamsNoFaults };
        let fs = fields(&mut c.r, &dir, 6, 20000, mixk);
        let streams = fs.iter().any(|f| matches!(f.kind, Kind::Stream { .. }));
        let v = c.r.below(6);
        let pat = pattern(&mut c.r, total(&fs));
        let res = guard(|| -> Res {
            let mut lz = lazy_of(&fs, v);
            let mut p = lz.prepare().map_err(|e| format!("{:?}", e))?;
            let len = p.content_len();
            let body = read_prepared(&mut p, pat, total(&fs), &mut 0)?;
            ensure!(p.content_len() == len, "the length changed while reading");
            if streams {
                ensure!(len.is_none(), "length {:?} announced for a request with streams", len);
            } else {
                ensure!(len == Some(body.len() as u64), "announced {:?} bytes, the body has {}", len, body.len());
            }
            // the length given to a request on sending
            let (req, log) = Req::new(0, 1);
            lazy_of(&fs, v).send(req).map_err(|e| format!("{:?}", e))?;
            let l = log.lock().unwrap().clone();
            let sent = l.headers[0].1;
            if streams {
                ensure!(sent.is_none(), "length {:?} announced on sending a request with streams", sent);
            } else {
                ensure!(sent == Some(l.out.len() as u64), "announced {:?} bytes on sending, {} sent", sent, l.out.len());
            }
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.obs.evaluations += 2;
        c.count(if streams { "lazy_without_length" } else { "lazy_with_length" });
        c.distinct(&sig(&fs, &[]));
        c.sample(|| format!("{} fields (streams: {})", fs.len(), streams));
        if res.is_err() {
            show_fields(c, &fs);
        }
        res
    });
    ctx.cases("sized", ctx.n(6000, 100_000), |c| {
        let dir = scratch::fresh("c10s");
        let large = c.r.chance(1, 400);
        let fs = if large { huge(&mut c.r, &dir, Mix::Any) } else { fields(&mut c.r, &dir, 6, 20000, Mix::Any) };
        if large {
            c.count("sized_of_megabytes");
        }
        let (req, log) = Req::new(if large { 0 } else { sink_max(&mut c.r, &fs) }, c.r.u64());
        let mock = c.r.chance(1, 3);
        let v = c.r.below(6);
        let res = guard(|| -> Res {
            if mock {
                let mut mp = Multipart::from_request_sized(ClientRequest::default()).map_err(|e| e.to_string())?;
                write_fields(&mut mp, &fs, v).map_err(|e| e.to_string())?;
                let b = mp.send().map_err(|e| e.to_string())?;
                ensure!(b.content_len == Some(b.buf.len() as u64), "announced {:?}, sent {}", b.content_len, b.buf.len());
            } else {
                let mut mp = Multipart::from_request_sized(req).map_err(|e| e.to_string())?;
                write_fields(&mut mp, &fs, v).map_err(|e| e.to_string())?;
                mp.send().map_err(|e| e.to_string())?;
                let l = log.lock().unwrap().clone();
                ensure!(l.headers.len() == 1, "headers applied {} times", l.headers.len());
                ensure!(l.headers[0].1 == Some(l.out.len() as u64), "announced {:?}, sent {}", l.headers[0].1, l.out.len());
            }
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.count(if mock { "mock_requests" } else { "sized_requests" });
        c.distinct(&sig(&fs, &[mock as u64]));
        if res.is_err() {
            show_fields(c, &fs);
        }
        res
    });
    ctx.cases("wire", ctx.n(3000, 50_000), |c| {
        let dir = scratch::fresh("c10w");
        let how = c.r.below(4);
        let fs = if c.r.chance(1, 250) {
            let mut fs = many(&mut c.r, &dir);
            fs.truncate(c.r.range(50, 600));
            if how == 3 {
                fs.retain(|f| !matches!(f.kind, Kind::Stream { .. }));
            }
            fs
        } else {
            fields(&mut c.r, &dir, 5, 20000, if how == 3 { Mix::NoStreams } else { Mix::StreamsNoFaults })
        };
        let streams = fs.iter().any(|f| matches!(f.kind, Kind::Stream { .. }));
        let res = guard(|| -> Result<RawReq, String> {
            match how {
                0 | 1 => hyper_wire(c, &fs, how == 1),
                _ => {
                    let wire: Arc<Mutex<Wire>> = Default::default();
                    let cap = Capture { wire: wire.clone(), max: *c.r.pick(&[0, 100, 5000]), seed: c.r.u64(), fail_at: None };
                    let client = hyper::Client::with_connector(cap);
                    let resp = if c.r.bool() {
                        lazy_of(&fs, 0).client_request(&client, url())
                    } else {
                        lazy_of(&fs, 0).client_request_mut(&client, url(), |r| r.header(hyper::header::UserAgent("check".into())))
                    };
                    let resp = resp.map_err(|e| format!("failed without a fault: {:?}", e))?;
                    drop(resp);
                    let w = wire.lock().unwrap();
                    ensure!(w.conns.len() == 1, "{} connections", w.conns.len());
                    raw_http(&w.conns[0])
                }
            }
        })
        .and_then(|x| x)
        .and_then(|raw| {
            let want_len = match how {
                0 => false,
                1 => true,
                _ => !streams,
            };
            if want_len {
                c.count("wire_with_length");
                ensure!(raw.declared == Some(raw.body.len() as u64) && !raw.chunked, "Content-Length {:?}, chunked {}, body of {} bytes", raw.declared, raw.chunked, raw.body.len());
            } else {
                c.count("wire_chunked");
                ensure!(raw.chunked && raw.declared.is_none(), "Content-Length {:?}, chunked {} for a request of unknown length", raw.declared, raw.chunked);
            }
            let b = announced(&raw)?;
            same_multiset(&raw.body, &b, &fs)
        });
        scratch::done(&dir);
        c.eval();
        c.distinct(&sig(&fs, &[how as u64]));
        if res.is_err() {
            show_fields(c, &fs);
            c.note(format!("hyper: {}", ["streaming", "sized", "lazy", "lazy without streams"][how]));
        }
        res
    });
}

// ---------------------------------------------------------------- C11

fn describe_fault(c: &mut Case, fs: &[Fld], what: &str) {
    show_fields(c, fs);
    c.note(what.to_string());
}

pub fn c11(ctx: &Ctx) {
    ctx.expect(&["write_faults", "source_faults", "missing_files", "directories_as_files", "refused_headers", "open_faults", "finish_faults", "connection_faults", "lazy_write_faults"]);
    let kinds = [
        WriteFault::Err(ErrorKind::BrokenPipe),
        WriteFault::Zero,
        WriteFault::Err(ErrorKind::WouldBlock),
        WriteFault::Err(ErrorKind::ConnectionReset),
        WriteFault::Err(ErrorKind::TimedOut),
        WriteFault::Err(ErrorKind::UnexpectedEof),
        WriteFault::Err(ErrorKind::WriteZero),
        WriteFault::Err(ErrorKind::Other),
    ];
    // one fault at every write call
    ctx.cases("writes", ctx.n(500, 8000), |c| {
        let dir = scratch::fresh("c11");
        let fs = fields(&mut c.r, &dir, 4, 3000, Mix::StreamsNoFaults);
        let max = *c.r.pick(&[0usize, 0, 40, 700]);
        let seed = c.r.u64();
        let mode = c.idx % 3;
        let run = |fault: Option<(usize, WriteFault)>| -> Result<(bool, ReqLog), String> {
            let (mut req, log) = Req::new(max, seed);
            req.faults = fault.into_iter().collect();
            let ok = guard(|| match mode {
                0 => Multipart::from_request(req).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                }),
                1 => Multipart::from_request_sized(req).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                }),
                _ => lazy_of(&fs, 0).send(req).map_err(|e| e.error),
            })?
            .is_ok();
            let l = log.lock().unwrap().clone();
            Ok((ok, l))
        };
        let res = (|| -> Res {
            let (ok, clean) = run(None)?;
            ensure!(ok, "failed without a fault");
            let step = (clean.calls / 60).max(1);
            let mut k = if step > 1 { c.r.below(step) } else { 0 };
            let mut ki = c.r.below(kinds.len());
            while k < clean.calls {
                let f = kinds[ki % kinds.len()];
                ki += 1;
                let (ok, l) = run(Some((k, f)))?;
                c.eval();
                c.count(if mode == 2 { "lazy_write_faults" } else { "write_faults" });
                if ok {
                    // only acceptable if the body is complete nevertheless
                    let b = l.headers[0].0.clone();
                    same_multiset(&l.out, &b, &fs).map_err(|e| format!("success reported although write call {} of {} failed ({:?}); body: {}", k, clean.calls, f, e))?;
                }
                k += step;
            }
            c.distinct(&sig(&fs, &[mode as u64, max as u64]));
            c.sample(|| format!("a fault at every write of a request of {} fields, mode {}", fs.len(), mode));
            Ok(())
        })();
        scratch::done(&dir);
        if res.is_err() {
            describe_fault(c, &fs, &format!("{}; sink takes up to {} bytes", ["chunked", "sized", "lazy"][mode], max));
        }
        res
    });
    // the source of a field fails at every read call
    ctx.cases("sources", ctx.n(1500, 25_000), |c| {
        let dir = scratch::fresh("c11s");
        let mut fs = fields(&mut c.r, &dir, 3, 3000, Mix::StreamsNoFaults);
        let at = c.r.below(fs.len() + 1);
        let f = stream_field(&mut c.r, 3000, false);
        fs.insert(at, f);
        let kind = *c.r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::InvalidData]);
        let step = match fs[at].kind {
            Kind::Stream { max, .. } => max,
            _ => 0,
        };
        let calls = if step == 0 { 1 } else { (fs[at].part.content.len() / step).min(20) + 1 };
        let mode = c.r.below(3);
        let res = (|| -> Res {
            for k in 0..calls {
                if let Kind::Stream { ref mut faults, .. } = fs[at].kind {
                    *faults = vec![(k, kind)];
                }
                let (req, log) = Req::new(0, 1);
                let r = guard(|| match mode {
                    0 => Multipart::from_request(req).and_then(|mut mp| {
                        write_fields(&mut mp, &fs, 0)?;
                        mp.send()
                    }),
                    1 => Multipart::from_request_sized(req).and_then(|mut mp| {
                        write_fields(&mut mp, &fs, 0)?;
                        mp.send()
                    }),
                    _ => lazy_of(&fs, 0).send(req).map_err(|e| e.error),
                })?;
                c.eval();
                c.count("source_faults");
                match r {
                    Ok(_) => {
                        let l = log.lock().unwrap().clone();
                        let b = l.headers[0].0.clone();
                        same_multiset(&l.out, &b, &fs).map_err(|e| format!("success reported although read call {} of a stream failed with {:?}; body: {}", k, kind, e))?;
                    }
                    Err(e) => ensure!(e.kind() == kind, "the stream failed with {:?}, reported was {:?}", kind, e),
                }
            }
            c.distinct(&sig(&fs, &[mode as u64, kind as u64]));
        c.sample(|| format!("{} fields, mode {}, failing source of kind {}", fs.len(), mode, kind));
            Ok(())
        })();
        scratch::done(&dir);
        if res.is_err() {
            describe_fault(c, &fs, ["chunked", "sized", "lazy"][mode]);
        }
        res
    });
    // files that cannot be opened or read
    ctx.cases("files", ctx.n(2500, 30_000), |c| {
        let dir = scratch::fresh("c11f");
        let mut fs = fields(&mut c.r, &dir, 4, 2000, Mix::StreamsNoFaults);
        let bad = c.r.below(4);
        let at = c.r.below(fs.len() + 1);
        let path = match bad {
            0 => dir.join("missing.png"),
            1 => {
                let p = dir.join("directory.d");
                std::fs::create_dir_all(&p).unwrap();
                p
            }
            2 => {
                let p = dir.join("file");
                std::fs::write(&p, b"x").unwrap();
                p.join("below")
            }
            _ => {
                let p = dir.join("dangling");
                let _ = std::os::unix::fs::symlink(dir.join("nowhere"), &p);
                p
            }
        };
        let nm = if c.r.chance(1, 8) { breaking(&mut c.r) } else { format!("bad{}", c.r.below(1000)) };
        fs.insert(at, Fld::new(Kind::File(path), gen::mk(&nm, None, None, vec![])));
        let mode = c.r.below(4);
        c.eval();
        c.count(if bad == 1 { "directories_as_files" } else { "missing_files" });
        c.distinct(&sig(&fs, &[mode as u64, bad as u64]));
        let (req, _log) = Req::new(0, 1);
        let res = guard(|| -> Res {
            match mode {
                0 | 1 => {
                    let r = if mode == 0 {
                        Multipart::from_request(req).and_then(|mut mp| {
                            write_fields(&mut mp, &fs, 0)?;
                            mp.send()
                        })
                    } else {
                        Multipart::from_request_sized(req).and_then(|mut mp| {
                            write_fields(&mut mp, &fs, 0)?;
                            mp.send()
                        })
                    };
                    ensure!(r.is_err(), "success reported although a file could not be read");
                }
                2 => match lazy_of(&fs, 0).send(req) {
                    Ok(_) => fail!("success reported although a file could not be read"),
                    Err(e) => {
                        if bad != 1 {
                            ensure!(e.field_name.as_ref().map(|n| &**n) == Some(&*nm), "the error names the field {:?}, not {:?}", e.field_name, nm);
                            let want = if bad == 2 { ErrorKind::NotADirectory } else { ErrorKind::NotFound };
                            ensure!(e.error.kind() == want, "error {:?}", e.error);
                            ensure!(e.to_string().contains(&format!("{:?}", nm)) && format!("{:?}", e).contains(&format!("{:?}", nm)), "the message {:?} does not name the field", e.to_string());
                            let e: std::io::Error = e.into();
                            ensure!(e.kind() == want, "as an I/O error: {:?}", e);
                        }
                    }
                },
                _ => {
                    let mut lz = lazy_of(&fs, 0);
                    let r = lz.prepare();
                    match r {
                        Ok(mut p) => {
                            ensure!(bad == 1, "prepared although a file could not be opened");
                            ensure!(p.read_to_end(&mut vec![]).is_err(), "read to the end although a file could not be read");
                        }
                        Err(e) => ensure!(e.field_name.as_ref().map(|n| &**n) == Some(&*nm), "the error names the field {:?}, not {:?}", e.field_name, nm),
                    }
                }
            }
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        if res.is_err() {
            describe_fault(c, &fs, ["chunked", "sized", "lazy send", "lazy prepare"][mode]);
        }
        res
    });
    // opening, headers, finishing
    ctx.cases("stream", ctx.n(3000, 30_000), |c| {
        let dir = scratch::fresh("c11o");
        let fs = fields(&mut c.r, &dir, 3, 2000, Mix::StreamsNoFaults);
        let (mut req, log) = Req::new(0, 1);
        let kind = *c.r.pick(&[ErrorKind::ConnectionRefused, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::WouldBlock]);
        let mode = c.r.below(3);
        let what = c.r.below(3);
        match what {
            0 => {
                req.open_fault = Some(kind);
                c.count("open_faults");
            }
            1 => {
                req.finish_fault = Some(kind);
                c.count("finish_faults");
            }
            _ => {
                req.accept = mode != 1;
                if mode == 1 {
                    c.count("refused_headers");
                }
            }
        }
        let fault = what < 2 || mode == 1;
        let res = guard(|| -> Res {
            let r = match mode {
                0 => Multipart::from_request(req).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                }),
                1 => Multipart::from_request_sized(req).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                }),
                _ => match lazy_of(&fs, 0).send(req) {
                    Ok(r) => Ok(r),
                    Err(e) => {
                        ensure!(e.field_name.is_none(), "opening or finishing failed, but the error names field {:?}", e.field_name);
                        Err(e.error)
                    }
                },
            };
            if fault {
                match r {
                    Ok(_) => fail!("success reported"),
                    Err(e) => ensure!(what == 2 || e.kind() == kind, "the fault {:?} was reported as {:?}", kind, e),
                }
                if what == 2 {
                    ensure!(log.lock().unwrap().opened == 0, "the request was opened although it refused its headers");
                }
            } else {
                ensure!(r.is_ok(), "failed without a fault: {:?}", r);
            }
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(&sig(&fs, &[mode as u64, what as u64, kind as u64]));
        if res.is_err() {
            describe_fault(c, &fs, &format!("{}; {}", ["chunked", "sized", "lazy"][mode], ["opening fails", "finishing fails", "headers refused"][what]));
        }
        res
    });
    // connections of the hyper client that break
    ctx.cases("hyper", ctx.n(1500, 20_000), |c| {
        let dir = scratch::fresh("c11h");
        let fs = fields(&mut c.r, &dir, 4, 20000, Mix::StreamsNoFaults);
        let wire: Arc<Mutex<Wire>> = Default::default();
        let mode = c.r.below(4);
        let approx = total(&fs);
        let fail_at = match c.r.below(6) {
            0 => 0,
            1 => c.r.below(600),
            2 => approx.saturating_sub(c.r.below(1200)),
            _ => c.r.below(approx + 300),
        };
        let cap = Capture { wire: wire.clone(), max: *c.r.pick(&[0, 0, 700]), seed: c.r.u64(), fail_at: Some(fail_at) };
        let missing = mode == 3 && c.r.bool();
        let res = guard(|| -> Res {
            let r = match mode {
                0 => Multipart::from_request(hyper_request(&cap)).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                }),
                1 => Multipart::from_request_sized(hyper_request(&cap)).and_then(|mut mp| {
                    write_fields(&mut mp, &fs, 0)?;
                    mp.send()
                }),
                _ => {
                    let client = hyper::Client::with_connector(cap);
                    let mut lz = lazy_of(&fs, 0);
                    if missing {
                        lz.add_file("m", std::borrow::Cow::<Path>::Owned(dir.join("missing")));
                    }
                    lz.client_request(&client, url())
                }
            };
            if r.is_ok() {
                drop(r);
                ensure!(!missing, "success reported although a file was missing");
                let w = wire.lock().unwrap();
                let complete = w.conns.iter().any(|b| {
                    raw_http(b).and_then(|raw| {
                        let bd = announced(&raw)?;
                        ensure!(raw.declared.map_or(true, |d| d == raw.body.len() as u64), "length");
                        same_multiset(&raw.body, &bd, &fs)
                    })
                    .is_ok()
                });
                ensure!(complete, "success reported although the connection broke after {} bytes", fail_at);
            } else {
                c.count("connection_faults");
            }
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(&sig(&fs, &[mode as u64, fail_at as u64]));
        if res.is_err() {
            describe_fault(c, &fs, &format!("{}; connection breaks after {} bytes", ["streaming", "sized", "lazy", "lazy"][mode], fail_at));
        }
        res
    });
    // a GET request refuses the multipart headers; sized requests must report that
    ctx.cases("method", ctx.n(20, 200), |c| {
        let wire: Arc<Mutex<Wire>> = Default::default();
        let cap = Capture { wire: wire.clone(), max: 0, seed: 0, fail_at: None };
        let m = c.r.pick(&[hyper::method::Method::Get, hyper::method::Method::Put, hyper::method::Method::Delete]).clone();
        let req = hyper::client::Request::with_connector(m.clone(), url(), &cap).unwrap();
        let f = text_field(&mut c.r, 100);
        let r = guard(|| {
            Multipart::from_request_sized(req).and_then(|mut mp| {
                write_fields(&mut mp, &[f.clone()], 0)?;
                mp.send()
            })
        });
        c.eval();
        c.count("refused_headers");
        c.distinct(&[c.idx as u8]);
        // a panic is what the documentation announces, an error is what happens
        ensure!(!matches!(r, Ok(Ok(_))), "success reported for a {:?} request", m);
        Ok(())
    });
}

// ---------------------------------------------------------------- C23

/// Boundaries as every API makes them, `n` of each; printed by child processes.
pub fn some_boundaries(n: usize) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(via_stream(&[]));
        v.push(via_sized(&[]));
        v.push(lazy::Multipart::new().prepare().unwrap().boundary().to_string());
    }
    v
}

fn via_stream(fs: &[Fld]) -> String {
    let (req, log) = Req::new(0, 0);
    let mut mp = Multipart::from_request(req).unwrap();
    write_fields(&mut mp, fs, 0).unwrap();
    mp.send().unwrap();
    let b = log.lock().unwrap().headers[0].0.clone();
    b
}

fn via_sized(fs: &[Fld]) -> String {
    let (req, log) = Req::new(0, 0);
    let mut mp = Multipart::from_request_sized(req).unwrap();
    write_fields(&mut mp, fs, 0).unwrap();
    mp.send().unwrap();
    let b = log.lock().unwrap().headers[0].0.clone();
    b
}

fn is_token(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}

pub fn c23(ctx: &Ctx) {
    ctx.expect(&["boundaries", "threads", "child_processes", "lazy_bodies"]);
    let all: Mutex<HashSet<String>> = Default::default();
    let seqs: Mutex<Vec<Vec<String>>> = Default::default();
    let check = |c: &mut Case, b: &str| -> Res {
        c.eval();
        c.count("boundaries");
        c.distinct(b.as_bytes());
        ensure!(!b.is_empty() && b.len() <= 70, "boundary of {} characters: {:?}", b.len(), b);
        ensure!(b.bytes().all(is_token), "boundary {:?} needs quoting", b);
        ensure!(all.lock().unwrap().insert(b.to_string()), "boundary {:?} was generated twice", b);
        Ok(())
    };
    let per = ctx.n(3000, 40_000);
    // all threads run at the same time, on the same content
    let barrier = std::sync::Barrier::new(8);
    let fresh = std::sync::atomic::AtomicUsize::new(0);
    ctx.cases("threads", if ctx.only.is_some() { 1 } else { 8 }, |c| {
        if ctx.only.is_none() {
            let _ = fresh.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            // each worker takes one of the eight cases, as none returns before all have started
            barrier.wait();
        }
        c.count("threads");
        let fs = [Fld::new(Kind::Text, gen::mk("same", None, None, b"same content".to_vec()))];
        let mut seq = vec![];
        for i in 0..per {
            let b = match i % 3 {
                0 => via_stream(&fs),
                1 => via_sized(&fs),
                _ => lazy_of(&fs, 0).prepare().unwrap().boundary().to_string(),
            };
            check(c, &b)?;
            seq.push(b);
        }
        c.sample(|| format!("consecutive boundaries {:?}", &seq[..4]));
        seqs.lock().unwrap().push(seq);
        Ok(())
    });
    // short-lived threads: generators that start in a fixed state repeat themselves
    ctx.cases("new-threads", ctx.n(100, 1000), |c| {
        let v = std::thread::spawn(|| some_boundaries(3)).join().map_err(|_| "panic")?;
        c.count("threads");
        for b in v {
            check(c, &b)?;
        }
        Ok(())
    });
    // a lazy builder that is used again
    ctx.cases("reuse", ctx.n(200, 3000), |c| {
        let mut lz: lazy::Multipart = lazy::Multipart::new();
        for i in 0..10 {
            lz.add_text("a", format!("{}", i));
            let mut p = lz.prepare().map_err(|e| e.to_string())?;
            let b = p.boundary().to_string();
            let mut body = String::new();
            p.read_to_string(&mut body).map_err(|e| e.to_string())?;
            c.count("lazy_bodies");
            check(c, &b)?;
            oracle::parse(body.as_bytes(), &b)?;
        }
        Ok(())
    });
    // processes
    ctx.cases("processes", ctx.n(8, 60), |c| {
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("boundaries").output().map_err(|e| format!("CHECK: {}", e))?;
        if !out.status.success() {
            fail!("child process failed: {}", String::from_utf8_lossy(&out.stderr));
        }
        c.count("child_processes");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        ensure!(text.lines().count() >= 30, "child printed {} boundaries", text.lines().count());
        for b in text.lines() {
            check(c, b)?;
        }
        Ok(())
    });
    // what is common to all of them is not random; the rest must vary
    ctx.cases("spread", 1, |c| {
        let seqs = seqs.lock().unwrap();
        let flat: Vec<&[u8]> = seqs.iter().flatten().map(|s| s.as_bytes()).collect();
        if flat.len() < 100 {
            return Ok(()); // replay of one case
        }
        let len = flat.iter().map(|b| b.len()).min().unwrap();
        let mut bits = 0.0;
        let mut varying = 0;
        for i in 0..len {
            let set: HashSet<u8> = flat.iter().map(|b| b[i]).collect();
            bits += (set.len() as f64).log2();
            if set.len() > 1 {
                varying += 1;
            }
        }
        c.max("varying_positions", varying as u64);
        c.max("bits_upper_bound", bits as u64);
        ensure!(bits >= 48.0, "boundaries vary in {} positions only (at most {:.0} bits)", varying, bits);
        // consecutive ones differ in most of the varying positions, as guessable counters do not
        let mut same = 0usize;
        let mut pairs = 0usize;
        for s in seqs.iter() {
            for w in s.windows(2) {
                let (a, b) = (w[0].as_bytes(), w[1].as_bytes());
                same += (0..len).filter(|&i| a[i] == b[i]).count();
                pairs += 1;
            }
        }
        let changed = len as f64 - same as f64 / pairs as f64;
        c.eval();
        c.note(format!("on average {:.1} of {} positions change", changed, varying));
        ensure!(changed > varying as f64 * 0.5, "on average only {:.1} of {} varying positions change from one boundary to the next", changed, varying);
        Ok(())
    });
}
