//! Independent, strict parser of multipart bodies; the oracle for what the client side writes.
use crate::gen::{find, show, Part};

#[derive(Debug, Clone)]
pub struct Parsed {
    pub parts: Vec<Part>,
    pub headers: Vec<Vec<(String, String)>>,
}

/// Parse a complete body. The preamble must be empty or a single CRLF, the epilogue empty or CRLF.
pub fn parse(body: &[u8], boundary: &str) -> Result<Parsed, String> {
    let delim = [b"\r\n--", boundary.as_bytes()].concat();
    let mut rest = body;
    if let Some(r) = rest.strip_prefix(b"\r\n") {
        rest = r;
    }
    rest = rest
        .strip_prefix(&delim[2..])
        .ok_or_else(|| format!("body does not start with the delimiter: {}", show(body)))?;
    let mut parts = vec![];
    let mut headers = vec![];
    loop {
        if let Some(r) = rest.strip_prefix(b"--") {
            if !(r.is_empty() || r == b"\r\n") {
                return Err(format!("unexpected bytes after the closing delimiter: {}", show(r)));
            }
            return Ok(Parsed { parts, headers });
        }
        rest = rest
            .strip_prefix(b"\r\n")
            .ok_or_else(|| format!("delimiter {} followed by {}", parts.len(), show(&rest[..rest.len().min(10)])))?;
        let mut hdrs = vec![];
        loop {
            let eol = find(rest, b"\r\n").ok_or_else(|| format!("unterminated header: {}", show(rest)))?;
            let line = &rest[..eol];
            rest = &rest[eol + 2..];
            if line.is_empty() {
                break;
            }
            let line = std::str::from_utf8(line).map_err(|_| format!("header is not UTF-8: {}", show(line)))?;
            let (n, v) = line.split_once(": ").ok_or_else(|| format!("malformed header line {:?}", line))?;
            if n.is_empty() || !n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-') {
                return Err(format!("malformed header name {:?}", n));
            }
            hdrs.push((n.to_string(), v.to_string()));
        }
        let end = find(rest, &delim).ok_or_else(|| format!("part {} is not followed by the delimiter", parts.len()))?;
        let content = rest[..end].to_vec();
        rest = &rest[end + delim.len()..];
        let mut name = None;
        let mut filename = None;
        let mut ctype = None;
        for (n, v) in &hdrs {
            if n.eq_ignore_ascii_case("content-disposition") {
                if name.is_some() {
                    return Err("more than one Content-Disposition".into());
                }
                let v = v.strip_prefix("form-data; name=\"").ok_or_else(|| format!("Content-Disposition: {:?}", v))?;
                let q = v.find('"').ok_or("unterminated name")?;
                name = Some(v[..q].to_string());
                let v = &v[q + 1..];
                if !v.is_empty() {
                    let v = v.strip_prefix("; filename=\"").ok_or_else(|| format!("after name: {:?}", v))?;
                    let q = v.find('"').ok_or("unterminated filename")?;
                    filename = Some(v[..q].to_string());
                    if q + 1 != v.len() {
                        return Err(format!("after filename: {:?}", &v[q + 1..]));
                    }
                }
            } else if n.eq_ignore_ascii_case("content-type") {
                if ctype.is_some() {
                    return Err("more than one Content-Type".into());
                }
                ctype = Some(v.clone());
            } else {
                return Err(format!("unexpected header {:?}", n));
            }
        }
        headers.push(hdrs);
        parts.push(Part { name: name.ok_or("part without Content-Disposition")?, filename, ctype, content });
    }
}
