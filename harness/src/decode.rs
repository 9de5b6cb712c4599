//! Driving the decoder under test in different ways.
use crate::gen::{diff, show, Body, Part};
use crate::rng::Rng;
use multipart::server::{FieldHeaders, Multipart, MultipartData};
use std::io::{self, BufRead, ErrorKind, Read};

/// How a consumer reads the data of a field.
#[derive(Clone, Debug)]
pub enum Style {
    ToEnd,
    Read(usize),
    ReadRandom(u64, usize),
    FillAll,
    FillSome(u64, usize),
    Mixed(u64),
    Bytes,
}

impl Style {
    pub fn random(r: &mut Rng) -> Style {
        match r.below(9) {
            0 => Style::ToEnd,
            1 => Style::Read(*r.pick(&[1, 2, 3, 7, 31, 64, 512])),
            2 => Style::Read(*r.pick(&[1023, 1024, 1025, 4096, 8191, 8192, 8193, 65536])),
            3 => Style::ReadRandom(r.u64(), *r.pick(&[4, 100, 2000, 9000])),
            4 | 5 => Style::FillAll,
            6 => Style::FillSome(r.u64(), *r.pick(&[3, 100, 2000, 9000])),
            7 => Style::Mixed(r.u64()),
            _ => Style::Bytes,
        }
    }
}

/// `true` if a caller is expected to just repeat the call
pub fn transient(k: ErrorKind) -> bool {
    matches!(k, ErrorKind::Interrupted | ErrorKind::WouldBlock | ErrorKind::TimedOut)
}

/// Read a field to its end, repeating calls that failed with a transient error (counted in `errs`).
/// `max` bounds the number of bytes (more is an error).
pub fn read_all<M: multipart::server::ReadEntry>(d: &mut MultipartData<M>, style: &Style, max: usize, errs: &mut Vec<ErrorKind>) -> Result<Vec<u8>, io::Error> {
    let mut out = vec![];
    macro_rules! again {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) if transient(e.kind()) => {
                    errs.push(e.kind());
                    continue;
                }
                Err(e) => return Err(e),
            }
        };
    }
    macro_rules! cap {
        () => {
            if out.len() > max {
                return Err(io::Error::new(ErrorKind::Other, format!("CHECK: more than {} bytes of data: {}", max, show(&out))));
            }
        };
    }
    let rd = |d: &mut MultipartData<M>, out: &mut Vec<u8>, n: usize| -> io::Result<usize> {
        let mut b = vec![0xAAu8; n];
        let k = d.read(&mut b)?;
        if k > n {
            return Err(io::Error::new(ErrorKind::Other, "CHECK: read() returned more than the buffer holds"));
        }
        out.extend_from_slice(&b[..k]);
        Ok(k)
    };
    match *style {
        Style::ToEnd => loop {
            // what was read before an error is kept by read_to_end
            let mut lim = d.take(max as u64 + 2);
            again!(lim.read_to_end(&mut out));
            cap!();
            break;
        },
        Style::Read(n) => loop {
            if again!(rd(d, &mut out, n)) == 0 {
                break;
            }
            cap!();
        },
        Style::ReadRandom(seed, m) => {
            let mut r = Rng::new(seed);
            loop {
                let n = r.range(1, m);
                if again!(rd(d, &mut out, n)) == 0 {
                    break;
                }
                cap!();
            }
        }
        Style::FillAll => loop {
            let n = {
                let b = again!(d.fill_buf());
                out.extend_from_slice(b);
                b.len()
            };
            if n == 0 {
                break;
            }
            d.consume(n);
            cap!();
        },
        Style::FillSome(seed, m) => {
            let mut r = Rng::new(seed);
            loop {
                let n = {
                    let b = again!(d.fill_buf());
                    if b.is_empty() {
                        break;
                    }
                    let n = r.range(0, m.min(b.len()));
                    out.extend_from_slice(&b[..n]);
                    n
                };
                d.consume(n);
                cap!();
            }
        }
        Style::Mixed(seed) => {
            let mut r = Rng::new(seed);
            loop {
                match r.below(3) {
                    0 => {
                        let n = r.range(1, 1500);
                        if again!(rd(d, &mut out, n)) == 0 {
                            break;
                        }
                    }
                    1 => {
                        let n = {
                            let b = again!(d.fill_buf());
                            if b.is_empty() {
                                break;
                            }
                            let n = r.range(1, b.len());
                            out.extend_from_slice(&b[..n]);
                            n
                        };
                        d.consume(n);
                    }
                    _ => {
                        // a peek that is not consumed, then an empty read
                        again!(d.fill_buf());
                        let k = again!(d.read(&mut []));
                        if k != 0 {
                            return Err(io::Error::new(ErrorKind::Other, "CHECK: read into an empty buffer returned data"));
                        }
                    }
                }
                cap!();
            }
        }
        Style::Bytes => loop {
            let mut b = [0u8];
            if again!(d.read(&mut b)) == 0 {
                break;
            }
            out.push(b[0]);
            cap!();
        },
    }
    Ok(out)
}

pub fn check_headers(h: &FieldHeaders, p: &Part) -> Result<(), String> {
    if *h.name != *p.name {
        return Err(format!("field name {:?}, sent {:?}", h.name, p.name));
    }
    if h.filename != p.filename {
        return Err(format!("filename {:?}, sent {:?} (field {:?})", h.filename, p.filename, p.name));
    }
    let ct = h.content_type.as_ref().map(|m| m.to_string());
    if ct != p.ctype {
        return Err(format!("content type {:?}, sent {:?} (field {:?})", ct, p.ctype, p.name));
    }
    Ok(())
}

pub fn check_part(h: &FieldHeaders, data: &[u8], p: &Part) -> Result<(), String> {
    check_headers(h, p)?;
    if data != &p.content[..] {
        return Err(format!("content of field {:?}: {}", p.name, diff(data, &p.content)));
    }
    Ok(())
}

/// Decode everything, comparing with the parts of `body`; errors are violations.
pub fn check_all<R: Read>(mp: &mut Multipart<R>, body: &Body, style: &mut dyn FnMut() -> Style) -> Result<(), String> {
    let mut errs = vec![];
    for (i, p) in body.parts.iter().enumerate() {
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                let st = style();
                let data = read_all(&mut f.data, &st, body.bytes.len(), &mut errs).map_err(|e| format!("reading part {} ({:?}): {:?}", i, st, e))?;
                check_part(&f.headers, &data, p).map_err(|e| format!("part {} of {} ({:?}): {}", i, body.parts.len(), st, e))?;
            }
            Ok(None) => return Err(format!("end of request instead of part {} of {}", i, body.parts.len())),
            Err(e) => return Err(format!("error instead of part {} of {}: {:?}", i, body.parts.len(), e)),
        }
    }
    for again in 0..2 {
        match mp.read_entry() {
            Ok(None) => {}
            Ok(Some(f)) => return Err(format!("extra entry {:?} after the last of {} parts", f.headers, body.parts.len())),
            Err(e) => return Err(format!("error instead of the end of the request (call {}): {:?}", again, e)),
        }
    }
    if !errs.is_empty() {
        return Err(format!("errors without a fault: {:?}", errs));
    }
    Ok(())
}
