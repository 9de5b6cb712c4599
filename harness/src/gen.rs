//! Generation of parts and bodies. The encoding is written here, independently of the client side
//! of the crate under test.
use crate::rng::Rng;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Part {
    pub name: String,
    pub filename: Option<String>,
    pub ctype: Option<String>,
    pub content: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Body {
    pub boundary: String,
    pub parts: Vec<Part>,
    pub bytes: Arc<Vec<u8>>,
    /// offset of each delimiter's "--" (the CRLF, if any, is before it)
    pub delims: Vec<usize>,
    /// offset of the content of each part
    pub content_at: Vec<usize>,
    /// offset just behind the closing delimiter's final "--"
    pub end: usize,
}

pub const CTYPES: &[&str] = &[
    "text/plain",
    "text/plain; charset=utf-8",
    "text/plain; charset=iso-8859-1",
    "text/plain; charset=\"utf-16\"; format=flowed",
    "text/x-custom+xml; version=1",
    "text/html",
    "application/octet-stream",
    "image/png",
    "application/json",
    "audio/ogg",
    "application/vnd.api+json",
    "multipart/mixed; boundary=xyz",
];

pub const BCHARS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.+'()/:=?,";
pub const BSAFE: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.+";

pub fn boundary(r: &mut Rng) -> String {
    let style = r.below(6);
    let len = match r.below(5) {
        0 => r.range(1, 4),
        1 => 70,
        2 => 16,
        _ => r.range(1, 70),
    };
    let mut b: Vec<u8> = (0..len)
        .map(|_| match style {
            0 => b'-',
            1 => *r.pick(b"-a"),
            2 => *r.pick(b"ab"),
            _ => *r.pick(BCHARS),
        })
        .collect();
    if style == 3 {
        for c in b.iter_mut().take(len * 2 / 3) {
            *c = b'-';
        }
    }
    String::from_utf8(b).unwrap()
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.is_empty() {
        return Some(0);
    }
    let first = needle[0];
    let mut i = 0;
    while i + needle.len() <= hay.len() {
        match hay[i..hay.len() - needle.len() + 1].iter().position(|&b| b == first) {
            None => return None,
            Some(p) => {
                i += p;
                if &hay[i..i + needle.len()] == needle {
                    return Some(i);
                }
                i += 1;
            }
        }
    }
    None
}

/// Length classes that matter to the buffering (1 KiB minimum, 8 KiB capacity) and the save stages.
pub fn len(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(12) {
        0 => 0,
        1 => r.range(1, 3),
        2 | 3 => r.range(0, 60),
        4 => r.range(0, 1000),
        5 => 1024 - 80 + r.below(160),
        6 => r.range(1000, 3000),
        7 => 8192 - 300 + r.below(400),
        8 => 2 * 8192 - 300 + r.below(400),
        9 => 10240 - 5 + r.below(10),
        10 => r.range(0, 12000),
        _ if max > 40_000 && r.bool() => r.range(0, max),
        _ => r.range(0, 40000),
    };
    n.min(max)
}

/// Content of about `len` bytes that does not contain the delimiter.
pub fn content(r: &mut Rng, bnd: &str, len: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(len + 80);
    let kind = r.below(7);
    let delim = [b"\r\n--", bnd.as_bytes()].concat();
    match kind {
        0 => v = r.bytes(len),
        1 => v.resize(len, *r.pick(b"x\r\n-\0\xff")),
        2 => {
            while v.len() < len {
                v.push(*r.pick(b"\r\n-"))
            }
        }
        3 => {
            while v.len() < len {
                v.push(r.range(32, 126) as u8)
            }
        }
        4 => {
            // runs of filler with delimiter-like pieces
            while v.len() < len {
                for _ in 0..r.below(200) {
                    v.push(b'a' + r.below(26) as u8)
                }
                let k = r.below(delim.len());
                v.extend_from_slice(&delim[..k]);
            }
        }
        _ => {
            while v.len() < len {
                match r.below(10) {
                    0 => v.push(b'\r'),
                    1 => v.push(b'\n'),
                    2 => v.extend_from_slice(b"\r\n"),
                    3 => v.extend_from_slice(b"--"),
                    4 => {
                        let k = r.below(delim.len());
                        v.extend_from_slice(&delim[..k])
                    }
                    5 => {
                        let k = 2 + r.below(delim.len() - 2);
                        v.extend_from_slice(&delim[2..k])
                    }
                    6 => v.extend_from_slice(b"\r\r\n"),
                    7 => v.extend_from_slice(bnd.as_bytes()),
                    8 => {
                        let n = r.below(40);
                        let b = r.bytes(n);
                        v.extend_from_slice(&b)
                    }
                    _ => v.push(r.byte()),
                }
            }
        }
    }
    v.truncate(len);
    if !v.is_empty() {
        // what somebody may take the content for
        if r.chance(1, 8) {
            let looks: [&[u8]; 18] = [b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\x1f\x8b\x08", b"%PDF-1.4", b"=3D=0A", b"PK\x03\x04", b"data:;base64,", b"%41%20", b"+", b" ", b"\t", b"\0", b"&amp;", b"Content-Type: text/html\r\n\r\n", b"#!/bin/sh\n", b"\xc2\x85", b"\xe2\x80\xa8"];
            let t = *r.pick(&looks);
            let k = t.len().min(v.len());
            let at = if r.bool() { 0 } else { v.len() - k };
            v[at..at + k].copy_from_slice(&t[..k]);
        }
        // interesting first and last bytes
        if r.chance(1, 3) {
            let tails: [&[u8]; 8] = [b"\r", b"\n", b"\r\n", b"-", b"\r\n-", b"\r\n--", b"\r\r", b"\r\n\r\n"];
            let t = r.pick(&tails).to_vec();
            let at = v.len().saturating_sub(t.len());
            v.truncate(at);
            v.extend_from_slice(&t);
            v.truncate(len);
        }
        if r.chance(1, 4) {
            let heads: [&[u8]; 6] = [b"\r\n", b"\n", b"\r", b"-", b"\r\n--", b"\r\n\r\n"];
            let h = *r.pick(&heads);
            let n = h.len().min(v.len());
            v[..n].copy_from_slice(&h[..n]);
        }
    }
    scrub(&mut v, bnd);
    v
}

/// Remove occurrences of "--boundary" by altering a byte of each.
pub fn scrub(v: &mut [u8], bnd: &str) {
    let d = [b"--", bnd.as_bytes()].concat();
    let mut from = 0;
    while let Some(i) = find(&v[from..], &d) {
        let at = from + i + d.len() - 1;
        v[at] = if v[at] == b'\t' { b'_' } else { b'\t' };
        from = (from + i).saturating_sub(d.len());
    }
}

/// A name or filename without quotes and line breaks.
pub fn word(r: &mut Rng, wild: bool) -> String {
    let n = r.range(1, 24);
    let pieces = [
        ";", "=", "; ", "name=", "filename=", "name=x;", "; filename=", " ", "é", "日本", "\\", "'", "/", "..", "%22", ",", ":", "*", "--", "ß.txt",
    ];
    let mut s = String::new();
    while s.chars().count() < n {
        if wild && r.chance(1, 3) {
            s.push_str(*r.pick(&pieces[..]));
        } else {
            s.push(*r.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.") as char);
        }
    }
    s
}

pub fn part(r: &mut Rng, bnd: &str, max: usize) -> Part {
    let wild = r.chance(1, 4);
    let n = len(r, max);
    if r.chance(1, 50) {
        // long names; together with everything else still below 900 bytes
        let long = |r: &mut Rng| {
            let n = r.range(25, 250);
            let mut s = String::new();
            loop {
                let w = word(r, wild);
                if s.len() + w.len() > n {
                    return if s.is_empty() { w } else { s };
                }
                s.push_str(&w);
            }
        };
        let name = long(r);
        return Part {
            name,
            filename: if r.bool() { Some(long(r)) } else { None },
            ctype: if r.chance(1, 2) { Some((*r.pick(CTYPES)).to_string()) } else { None },
            content: content(r, bnd, n),
        };
    }
    Part {
        name: if r.chance(1, 3) { (*r.pick(&["a", "b", "file", "field1"])).to_string() } else { word(r, wild) },
        filename: if r.chance(1, 2) { Some(word(r, wild)) } else { None },
        ctype: if r.chance(1, 2) { Some((*r.pick(CTYPES)).to_string()) } else { None },
        content: content(r, bnd, n),
    }
}

pub fn head(p: &Part) -> String {
    let mut h = format!("Content-Disposition: form-data; name=\"{}\"", p.name);
    if let Some(ref f) = p.filename {
        h.push_str(&format!("; filename=\"{}\"", f));
    }
    h.push_str("\r\n");
    if let Some(ref c) = p.ctype {
        h.push_str(&format!("Content-Type: {}\r\n", c));
    }
    h.push_str("\r\n");
    h
}

/// Varied but plain headers: order, case, extra headers.
pub fn head_varied(r: &mut Rng, p: &Part) -> String {
    let mut lines = vec![];
    let cd = *r.pick(&["Content-Disposition", "content-disposition", "CONTENT-DISPOSITION"]);
    let ct = *r.pick(&["Content-Type", "content-type", "Content-type"]);
    let mut l = format!("{}: form-data; name=\"{}\"", cd, p.name);
    if let Some(ref f) = p.filename {
        l.push_str(&format!("; filename=\"{}\"", f));
    }
    lines.push(l);
    if let Some(ref c) = p.ctype {
        lines.push(format!("{}: {}", ct, c));
    }
    if r.chance(1, 4) {
        lines.push("Content-Transfer-Encoding: binary".into());
    }
    if r.chance(1, 8) {
        lines.push(format!("X-Extra: {}", "v".repeat(r.below(300))));
    }
    r.shuffle(&mut lines);
    lines.join("\r\n") + "\r\n\r\n"
}

/// Replace words of header fields so that no header contains the delimiter (short boundaries).
fn clean_head(p: &mut Part, bnd: &str) {
    let d = format!("--{}", bnd);
    let mut n = 0;
    while head(p).contains(&d) {
        n += 1;
        p.name = p.name.replace('-', "_");
        p.filename = p.filename.take().map(|f| f.replace('-', "_"));
        if n > 1 {
            // the header names themselves hold single dashes only, so this cannot persist
            p.ctype = None;
        }
        if n > 3 {
            panic!("generator: cannot avoid delimiter {:?} in {:?}", d, head(p));
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub preamble: Vec<u8>,
    pub epilogue: Vec<u8>,
    pub varied: bool,
}

impl Layout {
    pub fn random(r: &mut Rng, bnd: &str) -> Layout {
        let mut pre = match r.below(8) {
            0 => b"\r\n".to_vec(),
            1 => {
                let n = len(r, 20000);
                let mut c = content(r, bnd, n);
                c.extend_from_slice(b"\r\n");
                c
            }
            _ => vec![],
        };
        scrub(&mut pre, bnd);
        let epi = match r.below(5) {
            0 => vec![],
            1 => b"\r\nepilogue\r\n".to_vec(),
            2 => format!("\r\n--{}\r\nContent-Disposition: form-data; name=\"no\"\r\n\r\nno\r\n--{}--", bnd, bnd).into_bytes(),
            _ => b"\r\n".to_vec(),
        };
        Layout { preamble: pre, epilogue: epi, varied: r.chance(1, 2) }
    }
    pub fn plain() -> Layout {
        Layout { preamble: vec![], epilogue: b"\r\n".to_vec(), varied: false }
    }
}

pub fn encode(r: &mut Rng, bnd: &str, mut parts: Vec<Part>, lay: &Layout) -> Body {
    let mut v = lay.preamble.clone();
    let mut delims = vec![];
    let mut content_at = vec![];
    for (i, p) in parts.iter_mut().enumerate() {
        clean_head(p, bnd);
        if i > 0 {
            v.extend_from_slice(b"\r\n");
        }
        delims.push(v.len());
        v.extend_from_slice(b"--");
        v.extend_from_slice(bnd.as_bytes());
        v.extend_from_slice(b"\r\n");
        let mut h = if lay.varied { head_varied(r, p) } else { head(p) };
        if h.contains(&format!("--{}", bnd)) {
            h = head(p);
        }
        v.extend_from_slice(h.as_bytes());
        content_at.push(v.len());
        v.extend_from_slice(&p.content);
    }
    if !parts.is_empty() {
        v.extend_from_slice(b"\r\n");
    }
    delims.push(v.len());
    v.extend_from_slice(format!("--{}--", bnd).as_bytes());
    let end = v.len();
    v.extend_from_slice(&lay.epilogue);
    Body { boundary: bnd.to_string(), parts, bytes: Arc::new(v), delims, content_at, end }
}

pub fn body(r: &mut Rng, max_parts: usize, max_len: usize) -> Body {
    let bnd = boundary(r);
    let n = r.range(0, max_parts);
    let parts = (0..n).map(|_| part(r, &bnd, max_len)).collect();
    let lay = Layout::random(r, &bnd);
    encode(r, &bnd, parts, &lay)
}

/// A body of the given parts with a plain layout and an ordinary boundary.
pub fn simple(r: &mut Rng, parts: Vec<Part>) -> Body {
    let bnd = plain_boundary(r);
    let parts = parts
        .into_iter()
        .map(|mut p| {
            scrub(&mut p.content, &bnd);
            p
        })
        .collect();
    encode(r, &bnd, parts, &Layout::plain())
}

pub fn plain_boundary(r: &mut Rng) -> String {
    (0..r.range(8, 40)).map(|_| *r.pick(BSAFE) as char).collect()
}

pub fn mk(name: &str, filename: Option<&str>, ctype: Option<&str>, content: Vec<u8>) -> Part {
    Part { name: name.into(), filename: filename.map(Into::into), ctype: ctype.map(Into::into), content }
}

/// Text with multi-byte characters of about `len` bytes
pub fn utf8(r: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    let dense = r.bool();
    if r.chance(1, 6) {
        s.push_str(*r.pick(&["\u{feff}", " ", "\n", "\r\n", "\0", "\t", "\u{a0}", "%41", "=?utf-8?q?a?="]));
    }
    while s.len() < len {
        if dense || r.chance(1, 10) {
            s.push(*r.pick(&['é', 'ß', '日', '€', '𝄞', '\u{10ffff}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{2028}', '\u{85}', '\u{d7ff}', '\u{e000}', '\u{10000}', '\u{301}', '\u{a0}', '\0', '\n', '\r', '\t', ' ']));
        } else {
            s.push(r.range(32, 126) as u8 as char);
        }
    }
    while s.len() > len {
        s.pop();
    }
    while s.len() < len {
        s.push('.');
    }
    s
}

pub fn show(b: &[u8]) -> String {
    let lossy = |b: &[u8]| -> String { b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect() };
    if b.len() <= 120 {
        format!("{} bytes \"{}\"", b.len(), lossy(b))
    } else {
        format!("{} bytes \"{}\"...\"{}\"", b.len(), lossy(&b[..60]), lossy(&b[b.len() - 40..]))
    }
}

/// Where two byte strings differ, for messages.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let ctx = |b: &[u8]| show(&b[at.saturating_sub(10).min(b.len())..(at + 20).min(b.len())]);
    format!("got {} bytes, want {}; first difference at {}: got {} want {}", got.len(), want.len(), at, ctx(got), ctx(want))
}
