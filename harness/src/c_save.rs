//! C12–C17, C21, C22: saving.
use crate::c_decode::saved_bytes;
use crate::core::{guard, Case, Ctx, Res};
use crate::decode::{check_headers, read_all, Style};
use crate::gen::{self, diff, show, Body, Part};
use crate::io::{Fault, Plan, Sink, Src, WriteFault};
use crate::rng::Rng;
use crate::scratch;
use crate::{ensure, fail};
use multipart::server::save::{Entries, EntriesSaveResult, FieldSaveResult, PartialReason, SaveDir, SaveResult, SavedData};
use multipart::server::{Multipart, MultipartField, ReadEntryResult};
use std::collections::{BTreeMap, HashSet};
use std::io::{self, BufRead, ErrorKind, Read};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

// ---------------------------------------------------------------- saving one field

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Policy {
    Try,
    Force,
    Ignore,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Limit {
    /// not set: 8 MiB
    Default,
    /// `size_limit(None)`
    No,
    At(u64),
}

impl Limit {
    fn value(self) -> u64 {
        match self {
            Limit::Default => 8 << 20,
            Limit::No => u64::MAX,
            Limit::At(n) => n,
        }
    }
}

#[derive(Clone, Debug)]
struct Cfg {
    limit: Limit,
    threshold: u64,
    /// leave the threshold at its default
    default_threshold: bool,
    policy: Policy,
    /// which options are set first, and which are set to something else before
    order: u64,
}

/// What the observation says about each of the properties (Err: violated).
struct Verdict {
    /// C12
    conserve: Res,
    /// C13
    limit: Res,
    /// C15
    place: Res,
    /// C16
    text: Res,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Aspect {
    Conserve,
    Limit,
    Place,
    Text,
}

impl Verdict {
    fn take(self, a: Aspect) -> Res {
        match a {
            Aspect::Conserve => self.conserve,
            Aspect::Limit => self.limit,
            Aspect::Place => self.place,
            Aspect::Text => self.text,
        }
    }
}

fn variant(d: &SavedData) -> &'static str {
    match d {
        SavedData::Text(_) => "Text",
        SavedData::Bytes(_) => "Bytes",
        SavedData::File(..) => "File",
    }
}

fn outcome(r: &FieldSaveResult) -> String {
    match r {
        SaveResult::Full(d) => format!("Full({} of {} bytes)", variant(d), d.size()),
        SaveResult::Partial(d, why) => format!("Partial({} of {} bytes, {:?})", variant(d), d.size(), why),
        SaveResult::Error(e) => format!("Error({:?})", e),
    }
}

/// Judge the result of saving a field of the given content in a directory `dir` of its own, where
/// nothing interfered. `rest` is what could be read from the field afterwards.
fn judge(content: &[u8], cfg: &Cfg, res: &FieldSaveResult, rest: &[u8], files: &[(PathBuf, Option<u64>)], dir: &Path) -> Verdict {
    let n = content.len() as u64;
    let l = cfg.limit.value();
    let t = if cfg.default_threshold { 10 * 1024 } else { cfg.threshold };
    let valid = std::str::from_utf8(content);
    let utf8_fail = cfg.policy == Policy::Force && valid.is_err();
    let what = outcome(res);

    let conserve = (|| -> Res {
        match res {
            SaveResult::Full(d) => {
                let got = saved_bytes(d)?;
                ensure!(got == content, "{}: saved data: {}", what, diff(&got, content));
                ensure!(rest.is_empty(), "{}, but {} more bytes could be read", what, rest.len());
            }
            SaveResult::Partial(d, _) => {
                let got = saved_bytes(d)?;
                ensure!(content.starts_with(&got), "{}: not a prefix of the field: {}", what, diff(&got, content));
                ensure!(rest == &content[got.len()..], "{}: the rest of the field: {}", what, diff(rest, &content[got.len()..]));
            }
            SaveResult::Error(e) => {
                ensure!(rest == content, "{}: data was consumed: {}", what, diff(rest, content));
                ensure!(files.iter().all(|f| f.1.is_none()), "{}: left a file: {:?}", what, files);
                fail!("failed without a fault: {:?}", e);
            }
        }
        Ok(())
    })();

    let limit = (|| -> Res {
        let stored = match res {
            SaveResult::Full(d) | SaveResult::Partial(d, _) => (saved_bytes(d)?.len() as u64).max(d.size()),
            SaveResult::Error(_) => 0,
        };
        let on_disk = files.iter().filter_map(|f| f.1).max().unwrap_or(0);
        ensure!(stored.max(on_disk) <= l, "limit {}: {} bytes stored", l, stored.max(on_disk));
        match res {
            SaveResult::Full(_) => ensure!(n <= l, "limit {}: a field of {} bytes was reported as saved in full", l, n),
            SaveResult::Partial(d, PartialReason::SizeLimit) => {
                ensure!(n > l, "limit {}: a field of {} bytes was stopped by the size limit", l, n);
                let got = saved_bytes(d)?;
                ensure!(content.starts_with(&got), "{}: not a prefix", what);
            }
            SaveResult::Partial(_, PartialReason::Utf8Error(_)) if utf8_fail => {}
            _ => ensure!(false, "limit {}, field of {} bytes: {}", l, n, what),
        }
        Ok(())
    })();

    let place = (|| -> Res {
        let file = match res {
            SaveResult::Full(d) | SaveResult::Partial(d, _) => match d {
                SavedData::File(p, _) => Some(p.clone()),
                _ => None,
            },
            SaveResult::Error(_) => None,
        };
        let may_file = n > t && l > t;
        if !may_file {
            ensure!(file.is_none(), "threshold {}, limit {}, field of {} bytes: saved as {}", t, l, n, what);
            ensure!(files.is_empty(), "threshold {}, limit {}, field of {} bytes: created {:?}", t, l, n, files);
        }
        match res {
            SaveResult::Full(d) if n > t => {
                ensure!(file.is_some(), "threshold {}, field of {} bytes: saved as {}", t, n, what);
                let got = saved_bytes(d)?;
                ensure!(got == content, "the file of a field: {}", diff(&got, content));
            }
            _ => {}
        }
        match file {
            Some(p) => {
                let made: Vec<_> = files.iter().filter(|f| f.1.is_some()).collect();
                ensure!(made.len() == 1 && dir.join(&made[0].0) == p, "{}: at {:?}, created were {:?}", what, p, files);
            }
            None => ensure!(files.iter().all(|f| f.1.is_none()), "{}: but files were created: {:?}", what, files),
        }
        Ok(())
    })();

    let text = (|| -> Res {
        match res {
            SaveResult::Full(d) => {
                let bytes = saved_bytes(d)?;
                ensure!(bytes == content, "{}: data altered: {}", what, diff(&bytes, content));
                match d {
                    SavedData::Text(_) => {
                        ensure!(cfg.policy != Policy::Ignore, "text ignored, but the result is text");
                        ensure!(valid.is_ok(), "the result is text although the data is not valid UTF-8");
                    }
                    SavedData::Bytes(_) => {
                        ensure!(cfg.policy == Policy::Ignore || valid.is_err(), "valid UTF-8 was not returned as text: {}", show(content));
                        ensure!(cfg.policy != Policy::Force, "text was forced, but the result is raw bytes");
                    }
                    SavedData::File(..) => {
                        ensure!(!(utf8_fail && n <= t), "text was forced and the data is not valid UTF-8, but the result is {}", what);
                    }
                }
            }
            SaveResult::Partial(d, PartialReason::Utf8Error(_)) => {
                ensure!(cfg.policy == Policy::Force, "UTF-8 error although text was not forced");
                let e = match valid {
                    Ok(_) => fail!("UTF-8 error although the data is valid: {}", show(content)),
                    Err(e) => e,
                };
                match d {
                    SavedData::Text(s) => ensure!(s.as_bytes() == &content[..e.valid_up_to()], "the valid data before the UTF-8 error: {}", diff(s.as_bytes(), &content[..e.valid_up_to()])),
                    _ => fail!("{}: not text", what),
                }
                ensure!(rest == &content[e.valid_up_to()..], "the rest after a UTF-8 error: {}", diff(rest, &content[e.valid_up_to()..]));
            }
            SaveResult::Partial(d, _) => {
                let got = saved_bytes(d)?;
                ensure!(content.starts_with(&got), "{}: data altered", what);
                if let SavedData::Text(_) = d {
                    ensure!(cfg.policy != Policy::Ignore, "text ignored, but the result is text");
                }
                if let SavedData::Bytes(_) = d {
                    // cut off in memory: text as far as it goes
                    ensure!(cfg.policy == Policy::Ignore || l > t || std::str::from_utf8(&got).is_err(), "valid UTF-8 cut off at {} bytes was not returned as text: {}", got.len(), show(&got));
                }
                ensure!(!(utf8_fail && n <= t && n <= l), "text was forced and the data is not valid UTF-8, but the result is {}", what);
            }
            SaveResult::Error(e) => fail!("failed without a fault: {:?}", e),
        }
        Ok(())
    })();
    Verdict { conserve, limit, place, text }
}

/// A request with a target field between other fields.
struct Target {
    body: Body,
    at: usize,
}

fn around(r: &mut Rng, target: Part) -> Target {
    let bnd = gen::boundary(r);
    let mut target = target;
    gen::scrub(&mut target.content, &bnd);
    let before = r.below(2);
    let after = r.range(1, 2);
    let mut parts: Vec<Part> = (0..before).map(|_| gen::part(r, &bnd, 600)).collect();
    parts.push(target);
    for _ in 0..after {
        parts.push(gen::part(r, &bnd, 600));
    }
    let lay = gen::Layout { varied: r.bool(), ..gen::Layout::plain() };
    Target { body: gen::encode(r, &bnd, parts, &lay), at: before }
}

fn save_plan(r: &mut Rng, t: &Target) -> Plan {
    let c = t.body.content_at[t.at];
    let len = t.body.parts[t.at].content.len();
    match r.below(4) {
        0 => {
            // reads ending at chosen places of the field
            let mut cuts: Vec<usize> = (0..r.range(1, 6)).map(|_| c + r.below(len + 2)).collect();
            cuts.sort();
            cuts.dedup();
            Plan::Cuts(cuts)
        }
        1 if len < 4000 => Plan::Fixed(r.range(1, 4)),
        _ => Plan::random(r),
    }
}

/// Go to the target field and let `f` save it; afterwards check what follows.
fn at_field<T>(t: &Target, src: Src, f: impl FnOnce(&mut MultipartField<&mut Multipart<Src>>) -> Result<T, String>) -> Result<T, String> {
    let mut mp = Multipart::with_body(src, t.body.boundary.as_str());
    for i in 0..t.at {
        match mp.read_entry() {
            Ok(Some(mut e)) => {
                let d = read_all(&mut e.data, &Style::FillAll, t.body.bytes.len(), &mut vec![]).map_err(|e| e.to_string())?;
                crate::decode::check_part(&e.headers, &d, &t.body.parts[i])?;
            }
            o => fail!("part {} before the saved one: {:?}", i, o.map(|o| o.is_some())),
        }
    }
    let v = {
        let mut field = match mp.read_entry() {
            Ok(Some(e)) => e,
            o => fail!("the field to save: {:?}", o.map(|o| o.is_some())),
        };
        check_headers(&field.headers, &t.body.parts[t.at])?;
        f(&mut field)?
    };
    for p in &t.body.parts[t.at + 1..] {
        match mp.read_entry() {
            Ok(Some(mut e)) => {
                let d = read_all(&mut e.data, &Style::FillAll, t.body.bytes.len(), &mut vec![]).map_err(|e| e.to_string())?;
                crate::decode::check_part(&e.headers, &d, p).map_err(|e| format!("after the saved field: {}", e))?;
            }
            o => fail!("a part after the saved one: {:?}", o.map(|o| o.is_some())),
        }
    }
    match mp.read_entry() {
        Ok(None) => Ok(v),
        o => Err(format!("at the end: {:?}", o.map(|o| o.is_some()))),
    }
}

fn rest_of<M: multipart::server::ReadEntry>(f: &mut MultipartField<M>, max: usize) -> Result<Vec<u8>, String> {
    read_all(&mut f.data, &Style::FillAll, max, &mut vec![]).map_err(|e| format!("the rest of the saved field: {:?}", e))
}

/// The rest of the field, when a one-time fault of the transport may still come.
fn rest_past_faults<M: multipart::server::ReadEntry>(f: &mut MultipartField<M>, kind: ErrorKind) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    loop {
        match f.data.read_to_end(&mut out) {
            Ok(_) => return Ok(out),
            Err(ref e) if e.kind() == kind => continue,
            Err(e) => fail!("the rest of the saved field: {:?}", e),
        }
    }
}

/// Set the options in any order; what is set last counts.
macro_rules! configure {
    ($b:expr, $cfg:expr) => {{
        let cfg = &$cfg;
        let mut b = $b;
        let o = cfg.order;
        let decoy = o & 7 == 0;
        for step in 0..6 {
            // the decoys come first
            b = match (step, (step + (o >> 8) as usize) % 3) {
                (0, _) if decoy && cfg.limit != Limit::Default => b.size_limit([0, 1, 100, u64::MAX][(o >> 16) as usize % 4]),
                (1, _) if decoy && !cfg.default_threshold => b.memory_threshold([0, 1, 100, u64::MAX][(o >> 18) as usize % 4]),
                (2, _) if decoy => match (o >> 20) % 3 {
                    0 => b.force_text(),
                    1 => b.ignore_text(),
                    _ => b.try_text(),
                },
                (0..=2, _) => b,
                (_, 0) => match cfg.limit {
                    Limit::Default => b,
                    Limit::No => b.size_limit(None),
                    Limit::At(n) => b.size_limit(n),
                },
                (_, 1) if cfg.default_threshold => b,
                (_, 1) => b.memory_threshold(cfg.threshold),
                (_, _) => match cfg.policy {
                    Policy::Try if decoy || o & 8 != 0 => b.try_text(),
                    Policy::Try => b,
                    Policy::Force => b.force_text(),
                    Policy::Ignore => b.ignore_text(),
                },
            };
        }
        // writing cannot be turned off
        if o & 0x30 == 0 {
            b.mod_open_opts(|o| {
                o.write(false);
            })
        } else {
            b
        }
    }};
}

fn describe(c: &mut Case, t: &Target, plan: &Plan, more: String) {
    c.note(format!("boundary {:?}, field {} of {}", t.body.boundary, t.at, t.body.parts.len()));
    for (i, p) in t.body.parts.iter().enumerate() {
        c.note(format!("part {}: name {:?} filename {:?} type {:?} content {}", i, p.name, p.filename, p.ctype, show(&p.content)));
    }
    c.note(format!("reads: {:?}", plan));
    c.note(more);
}

/// Save one field to a directory and judge it.
fn save_one(c: &mut Case, t: &Target, plan: &Plan, cfg: &Cfg, aspect: Aspect) -> Res {
    let dir = scratch::fresh("save");
    // neither exists before
    let target = dir.join("in/ner");
    let by_path = c.r.chance(1, 4);
    let content = &t.body.parts[t.at].content;
    let res = guard(|| {
        at_field(t, Src::new(t.body.bytes.clone(), plan.clone()), |f| {
            let r = {
                let mut b = configure!(f.data.save(), cfg);
                if by_path {
                    b.with_path(target.join("chosen.name"))
                } else {
                    b.with_dir(&target)
                }
            };
            let files = scratch::list(&dir);
            let rest = rest_of(f, t.body.bytes.len())?;
            c.count(match r {
                SaveResult::Full(SavedData::File(..)) => "full_on_disk",
                SaveResult::Full(SavedData::Text(_)) => "full_text",
                SaveResult::Full(_) => "full_bytes",
                SaveResult::Partial(_, PartialReason::SizeLimit) => "stopped_by_size_limit",
                SaveResult::Partial(_, PartialReason::Utf8Error(_)) => "utf8_errors",
                _ => "others",
            });
            let v = judge(content, cfg, &r, &rest, &files, &dir);
            Ok(v)
        })
    });
    scratch::done(&dir);
    c.eval();
    let out = match res {
        Err(p) => Err(p),
        // the fields around it
        Ok(Err(e)) => {
            if aspect == Aspect::Conserve {
                Err(e)
            } else {
                Ok(())
            }
        }
        Ok(Ok(v)) => v.take(aspect),
    };
    c.distinct(format!("{} {:?} {:x} {:?} {}", t.body.boundary, cfg, crate::rng::hash(content), plan, by_path).as_bytes());
    if out.is_err() {
        describe(c, t, plan, format!("{:?}, saved by {}", cfg, if by_path { "path" } else { "directory" }));
    }
    out
}

/// Numbers that are small when cut to fewer bits
fn wide(r: &mut Rng, n: u64) -> u64 {
    let low = if r.bool() { r.below(n as usize + 2) as u64 } else { r.below(3) as u64 };
    *r.pick(&[1u64 << 31, 1 << 32, 1 << 32, 1 << 40, 1 << 63, u64::MAX - (1 << 20)]) + low
}

/// Thresholds and limits at and around the size of the field
fn cfg_for(r: &mut Rng, n: usize) -> Cfg {
    let n = n as u64;
    let near = |r: &mut Rng| -> u64 {
        match r.below(9) {
            0 => 0,
            1 => 1,
            2 => n.saturating_sub(1),
            3 => n,
            4 => n + 1,
            5 => n / 2,
            6 => n * 2 + 10,
            7 => r.below(n as usize + 2) as u64,
            _ if r.chance(1, 3) => wide(r, n),
            _ => *r.pick(&[10u64, 100, 1000, 1024, 8192, 10240]),
        }
    };
    let limit = match r.below(6) {
        0 => Limit::No,
        1 => Limit::At(u64::MAX),
        2 => Limit::Default,
        _ => Limit::At(near(r)),
    };
    let (threshold, default_threshold) = match r.below(6) {
        0 => (0, true),
        1 => (u64::MAX, false),
        _ => (near(r), false),
    };
    Cfg { limit, threshold, default_threshold, policy: *r.pick(&[Policy::Try, Policy::Try, Policy::Force, Policy::Ignore]), order: r.u64() }
}

/// Content that is text, nearly text, or anything
fn save_content(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = gen::len(r, max);
    match r.below(4) {
        0 => gen::utf8(r, n).into_bytes(),
        1 => {
            let mut v = gen::utf8(r, n).into_bytes();
            spoil(r, &mut v);
            v
        }
        2 => (0..n).map(|_| r.range(32, 126) as u8).collect(),
        _ => {
            let b = gen::plain_boundary(r);
            gen::content(r, &b, n)
        }
    }
}

const BAD: &[&[u8]] = &[
    b"\xff",
    b"\x80",
    b"\xc0\xaf",
    b"\xc3",
    b"\xe2\x82",
    b"\xf0\x9f\x98",
    b"\xed\xa0\x80",
    b"\xf5\x80\x80\x80",
    b"\xe2\x28\xa1",
    b"\xc3\x28",
    b"\xf0\x28\x8c\xbc",
];

/// Put an invalid sequence somewhere, often at the very end.
fn spoil(r: &mut Rng, v: &mut Vec<u8>) {
    let bad = *r.pick(BAD);
    let at = if r.chance(1, 3) { v.len() } else { r.below(v.len() + 1) };
    let mut tail = v.split_off(at);
    v.extend_from_slice(bad);
    v.append(&mut tail);
}

fn target(r: &mut Rng, max: usize) -> Target {
    let content = save_content(r, max);
    let wild = r.chance(1, 3);
    let p = Part {
        name: gen::word(r, wild),
        filename: if r.bool() { Some(gen::word(r, wild)) } else { None },
        ctype: if r.bool() { Some((*r.pick(gen::CTYPES)).to_string()) } else { None },
        content,
    };
    around(r, p)
}

// ---------------------------------------------------------------- saving whole requests

fn by_name(parts: &[Part]) -> BTreeMap<String, Vec<&Part>> {
    let mut m: BTreeMap<String, Vec<&Part>> = BTreeMap::new();
    for p in parts {
        m.entry(p.name.clone()).or_default().push(p);
    }
    m
}

/// The entries hold exactly these parts, in order of appearance per name.
fn same_entries(e: &Entries, parts: &[Part]) -> Res {
    let want = by_name(parts);
    let mut names: Vec<&str> = e.fields.keys().map(|k| &**k).collect();
    names.sort();
    ensure!(names == want.keys().map(|k| k.as_str()).collect::<Vec<_>>(), "field names {:?}, sent {:?}", names, want.keys());
    for (k, ps) in want {
        let got = &e.fields[&*k];
        ensure!(got.len() == ps.len(), "{} fields saved as {:?}, {} sent", got.len(), k, ps.len());
        for (g, p) in got.iter().zip(ps) {
            check_headers(&g.headers, p)?;
            let d = saved_bytes(&g.data)?;
            ensure!(d == p.content, "content of {:?}: {}", k, diff(&d, &p.content));
        }
    }
    Ok(())
}

/// Parts with some repeated names
fn request(r: &mut Rng, max_parts: usize, max_len: usize) -> Body {
    let bnd = gen::boundary(r);
    let n = r.range(0, max_parts);
    let mut parts: Vec<Part> = vec![];
    for _ in 0..n {
        let mut p = gen::part(r, &bnd, max_len);
        if r.chance(1, 3) {
            p.content = save_content(r, max_len);
            gen::scrub(&mut p.content, &bnd);
        }
        if r.chance(1, 3) && !parts.is_empty() {
            let k = r.below(parts.len());
            p.name = parts[k].name.clone();
        }
        parts.push(p);
    }
    let lay = gen::Layout { varied: r.bool(), ..gen::Layout::plain() };
    gen::encode(r, &bnd, parts, &lay)
}

fn describe_body(c: &mut Case, b: &Body, plan: &Plan, more: String) {
    c.note(format!("boundary {:?}", b.boundary));
    for (i, p) in b.parts.iter().enumerate() {
        c.note(format!("part {}: name {:?} filename {:?} type {:?} content {}", i, p.name, p.filename, p.ctype, show(&p.content)));
    }
    c.note(format!("reads: {:?}", plan));
    c.note(more);
}

fn is_text_part(p: &Part) -> bool {
    p.ctype.as_ref().map_or(true, |t| t.starts_with("text/"))
}

/// A new decoder over the body; by value and by reference behave alike, so both are used.
fn decoder(b: &Body, plan: &Plan) -> Multipart<Src> {
    Multipart::with_body(Src::new(b.bytes.clone(), plan.clone()), b.boundary.as_str())
}

// ---------------------------------------------------------------- C12

/// Files are opened as the caller wants.
fn open_options(c: &mut Case, dir: &Path) -> Res {
    use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
    let t = target(&mut c.r, 20_000);
    let plan = save_plan(&mut c.r, &t);
    let how = c.idx % 5;
    let content = &t.body.parts[t.at].content;
    let threshold = c.r.below(content.len() / 2 + 2) as u64;
    let old_len = c.r.below(30_000);
    let old = c.r.bytes(old_len);
    let path = dir.join("there");
    let mode = *c.r.pick(&[0o600, 0o640, 0o644, 0o755, 0o400]);
    c.note(format!("way {}, threshold {}, {} bytes of content over {} old ones", how, threshold, content.len(), old.len()));
    c.eval();
    c.distinct(format!("{} {} {} {}", how, threshold, content.len(), old.len()).as_bytes());
    if how == 4 {
        // a whole request; for the files of all fields
        let mut mp = Multipart::with_body(Src::new(t.body.bytes.clone(), plan.clone()), t.body.boundary.as_str());
        let r = mp.save().size_limit(None).memory_threshold(threshold).mod_open_opts(|o| {
            o.mode(mode);
        });
        let e = match r.with_dir(dir.join("req")) {
            SaveResult::Full(e) => e,
            SaveResult::Partial(_, why) => fail!("the request was saved in part: {:?}", why),
            SaveResult::Error(e) => fail!("the request was not saved: {:?}", e),
        };
        for f in e.fields.values().flat_map(|v| v.iter()) {
            if let SavedData::File(ref p, _) = f.data {
                let got = std::fs::metadata(p).map_err(|e| e.to_string())?.permissions().mode() & 0o7777;
                ensure!(got == mode, "{:?} has mode {:o}, asked for was {:o}", p, got, mode);
                c.count("files_with_chosen_mode");
            }
        }
        return same_entries(&e, &t.body.parts);
    }
    std::fs::write(&path, &old).unwrap();
    let r = at_field(&t, Src::new(t.body.bytes.clone(), plan), |f| {
        let b = f.data.save().size_limit(None).memory_threshold(threshold);
        let mut b = match how {
            0 => b.mod_open_opts(|o| {
                o.create_new(false);
            }),
            1 => b.mod_open_opts(|o| {
                o.create_new(false).create(true).truncate(true);
            }),
            2 => b.mod_open_opts(|o| {
                o.create_new(false).append(true);
            }),
            _ => b.mod_open_opts(|o| {
                o.write(false).append(false).truncate(false);
            }),
        };
        Ok(b.with_path(&path))
    })?;
    let now = std::fs::read(&path).map_err(|e| e.to_string())?;
    let n = content.len() as u64;
    if n <= threshold {
        ensure!(now == old, "the existing file was touched although the field fits in memory");
        return Ok(());
    }
    let want = match how {
        0 => [content, &old[content.len().min(old.len())..]].concat(),
        1 => content.clone(),
        2 => [&old[..], content].concat(),
        _ => {
            ensure!(now == old, "the existing file was modified");
            match r {
                SaveResult::Full(_) => fail!("a field was saved over an existing file"),
                SaveResult::Partial(_, PartialReason::IoError(ref e)) | SaveResult::Error(ref e) if e.kind() == ErrorKind::AlreadyExists => (),
                ref other => fail!("{:?} with a file that exists", other),
            }
            c.count("not_overwritten");
            return Ok(());
        }
    };
    ensure!(now == want, "the file holds {} bytes: {}", now.len(), diff(&now, &want));
    match r {
        SaveResult::Full(SavedData::File(ref p, size)) => ensure!(*p == path && size == n, "saved to {:?}, {} bytes", p, size),
        ref other => fail!("{:?}", other),
    }
    c.count("opened_with_chosen_options");
    Ok(())
}

pub fn c12(ctx: &Ctx) {
    ctx.expect(&[
        "fields_of_megabytes",
        "files_with_chosen_mode", "not_overwritten", "opened_with_chosen_options",
        "full_on_disk", "full_text", "full_bytes", "stopped_by_size_limit", "utf8_errors", "whole_requests_full", "whole_requests_partial", "transport_faults_hit",
        "writer_faults_hit", "files_cut_by_rlimit", "full_devices", "existing_files", "unusable_paths", "written_to_writer",
    ]);
    ctx.assume("process-wide file size limits stand in for full disks; runs as root, so permission failures are not exercised");
    ctx.cases("open-options", ctx.n(3000, 60_000), |c| {
        let dir = scratch::fresh("opts");
        let res = guard(|| open_options(c, &dir)).and_then(|x| x);
        scratch::done(&dir);
        res
    });
    ctx.cases("field", ctx.n(20_000, 400_000), |c| {
        let max = if c.r.chance(1, 5) { 40000 } else { 12000 };
        let t = target(&mut c.r, max);
        let plan = save_plan(&mut c.r, &t);
        let cfg = cfg_for(&mut c.r, t.body.parts[t.at].content.len());
        c.sample(|| format!("field of {} bytes, {:?}", t.body.parts[t.at].content.len(), cfg));
        save_one(c, &t, &plan, &cfg, Aspect::Conserve)
    });
    ctx.cases("crowd", ctx.n(2, 12), |c| {
        let (b, plan, dir) = crowd(c);
        let res = guard(|| match decoder(&b, &plan).save().count_limit(None).memory_threshold(u64::MAX).with_dir(&dir) {
            SaveResult::Full(e) => same_entries(&e, &b.parts),
            o => Err(format!("{:?}", o.into_opt_both().1)),
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.max("most_fields_in_a_request", b.parts.len() as u64);
        c.distinct(format!("crowd {} {}", b.parts.len(), c.idx).as_bytes());
        res.map_err(|e| format!("{} fields: {}", b.parts.len(), e))
    });
    ctx.cases("large", ctx.n(10, 150), |c| {
        let (t, plan, cfg) = large_field(c, 9);
        save_one(c, &t, &plan, &cfg, Aspect::Conserve)
    });
    // transports that fail in the middle
    ctx.cases("transport", ctx.n(8000, 150_000), |c| {
        // reading byte by byte, there is a read for each byte used
        let bytewise = c.r.chance(1, 4);
        let max = if bytewise { *c.r.pick(&[1, 2, 5, 100]) } else { 20000 };
        let t = target(&mut c.r, max);
        let content = t.body.parts[t.at].content.clone();
        let plan = Plan::Random(c.r.u64(), if bytewise { 1 } else { *c.r.pick(&[50, 500, 4000]) });
        let cfg = cfg_for(&mut c.r, content.len());
        let kind = *c.r.pick(&[ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::Interrupted]);
        // count the calls until the field is reached and until its end
        let probe = Src::new(t.body.bytes.clone(), plan.clone());
        let stats = probe.stats();
        let (lo, hi) = at_field(&t, probe, |f| {
            let lo = stats.calls.load(std::sync::atomic::Ordering::Relaxed);
            rest_of(f, t.body.bytes.len())?;
            Ok((lo, stats.calls.load(std::sync::atomic::Ordering::Relaxed)))
        })?;
        if hi <= lo {
            return Ok(());
        }
        let at = c.r.range(lo, hi - 1);
        let dir = scratch::fresh("tr");
        let src = Src::new(t.body.bytes.clone(), plan.clone()).with_faults(vec![Fault { at, kind }]);
        let stats = src.stats();
        let mode = c.r.below(3);
        let mut what = String::new();
        let res = guard(|| {
            at_field(&t, src, |f| {
                let hit = |s: &crate::io::SrcStats| s.faults.load(std::sync::atomic::Ordering::Relaxed) > 0;
                if mode == 2 {
                    let mut sink = Sink::new(0, 0);
                    let r = configure!(f.data.save(), cfg).write_to(&mut sink);
                    what = format!("write_to: {:?}", r);
                    let faulted = hit(&stats);
                    let rest = rest_past_faults(f, kind)?;
                    return judge_written(&content, &cfg, &r, &sink.out, &rest, faulted && kind != ErrorKind::Interrupted, kind);
                }
                let r = {
                    let mut b = configure!(f.data.save(), cfg);
                    if mode == 0 {
                        b.with_dir(&dir)
                    } else {
                        b.with_path(dir.join("p/q"))
                    }
                };
                what = outcome(&r);
                let files = scratch::list(&dir);
                let faulted = hit(&stats) && kind != ErrorKind::Interrupted;
                if hit(&stats) {
                    c.count("transport_faults_hit");
                }
                // later reads may still meet the fault if saving stopped earlier
                let rest = rest_past_faults(f, kind)?;
                match r {
                    SaveResult::Full(ref d) => {
                        ensure!(!faulted, "{}: the transport failed with {:?}", what, kind);
                        let got = saved_bytes(d)?;
                        ensure!(got == content && rest.is_empty(), "{}: {}; rest {}", what, diff(&got, &content), rest.len());
                    }
                    SaveResult::Partial(ref d, ref why) => {
                        let got = saved_bytes(d)?;
                        ensure!(content.starts_with(&got), "{}: not a prefix: {}", what, diff(&got, &content));
                        ensure!(rest == content[got.len()..], "{}: rest: {}", what, diff(&rest, &content[got.len()..]));
                        if faulted {
                            match why {
                                PartialReason::IoError(e) => ensure!(e.kind() == kind, "{}: the fault was {:?}", what, kind),
                                _ => fail!("{}: the transport failed with {:?}", what, kind),
                            }
                        } else {
                            ensure!(!matches!(why, PartialReason::IoError(_)), "{} without a fault", what);
                        }
                    }
                    SaveResult::Error(ref e) => {
                        ensure!(faulted && e.kind() == kind, "{}: the fault was {:?} (met: {})", what, kind, faulted);
                        ensure!(rest == content, "{}: data was consumed: {}", what, diff(&rest, &content));
                        ensure!(files.iter().all(|f| f.1.is_none()), "{}: left {:?}", what, files);
                    }
                }
                Ok(())
            })
        });
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?} {} {:?} {}", crate::rng::hash(&content), cfg, at, kind, mode).as_bytes());
        let res = res.and_then(|x| x);
        // a fault left over for a later field is not judged here
        let res = match res {
            Err(ref e) if e.contains("after the saved one") || e.contains("at the end") => Ok(()),
            r => r,
        };
        if res.is_err() {
            describe(c, &t, &plan, format!("{:?}; transport fails with {:?} at call {} (field: calls {}..{}); result {}", cfg, kind, at, lo, hi, what));
        }
        res
    });
    // a caller's writer that takes little, is interrupted or fails
    ctx.cases("writer", ctx.n(8000, 150_000), |c| {
        let t = target(&mut c.r, 20000);
        let content = t.body.parts[t.at].content.clone();
        let plan = save_plan(&mut c.r, &t);
        let cfg = cfg_for(&mut c.r, content.len());
        let step = if content.len() > 3000 { *c.r.pick(&[0usize, 100, 1000]) } else { *c.r.pick(&[0usize, 1, 3, 100]) };
        let mut sink = Sink::new(step, c.r.u64());
        let calls = if step == 0 { 1 + content.len() / 4096 } else { 1 + 2 * content.len() / (step + 1) };
        let fault = match c.r.below(3) {
            0 => None,
            1 => Some(WriteFault::Zero),
            _ => Some(WriteFault::Err(*c.r.pick(&[ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::TimedOut]))),
        };
        let fault_at = c.r.below(calls + 1);
        sink.faults = (0..c.r.below(4)).map(|_| (c.r.below(calls + 2), WriteFault::Err(ErrorKind::Interrupted))).filter(|f| f.0 != fault_at).collect();
        if let Some(f) = fault {
            sink.faults.push((fault_at, f));
        }
        let want_kind = match fault {
            Some(WriteFault::Zero) => ErrorKind::WriteZero,
            Some(WriteFault::Err(k)) => k,
            None => ErrorKind::Other,
        };
        let faults = sink.faults.clone();
        let interrupts = faults.iter().filter(|f| matches!(f.1, WriteFault::Err(ErrorKind::Interrupted))).count();
        let mut shown = String::new();
        let mut hit = false;
        let res = guard(|| {
            at_field(&t, Src::new(t.body.bytes.clone(), plan.clone()), |f| {
                let r = configure!(f.data.save(), cfg).write_to(&mut sink);
                shown = format!("{:?}", r);
                let rest = rest_of(f, t.body.bytes.len())?;
                // whether the fatal one was met: calls are counted one by one
                hit = fault.is_some() && sink.calls() > fault_at;
                judge_written(&content, &cfg, &r, &sink.out, &rest, hit, want_kind)
            })
        })
        .and_then(|x| x);
        c.eval();
        c.count("written_to_writer");
        if hit {
            c.count("writer_faults_hit");
        }
        c.add("writer_interrupts_planned", interrupts as u64);
        c.distinct(format!("{:x} {:?} {:?} {}", crate::rng::hash(&content), cfg, faults, step).as_bytes());
        if res.is_err() {
            describe(c, &t, &plan, format!("{:?}; writer takes up to {} bytes, faults {:?}; result {}", cfg, step, faults, shown));
        }
        res
    });
    // paths that cannot be used
    ctx.cases("paths", ctx.n(6000, 80_000), |c| {
        let t = target(&mut c.r, 15000);
        let content = t.body.parts[t.at].content.clone();
        let plan = save_plan(&mut c.r, &t);
        let mut cfg = cfg_for(&mut c.r, content.len());
        let dir = scratch::fresh("paths");
        let old = b"previous content of the file".to_vec();
        let kind = c.r.below(6);
        let other = dir.join("existing");
        std::fs::write(&other, &old).unwrap();
        std::fs::create_dir_all(dir.join("d")).unwrap();
        let path = match kind {
            0 => other.clone(),
            1 => other.join("below"),
            2 => dir.join("d"),
            3 => {
                let l = dir.join("link");
                std::os::unix::fs::symlink(&other, &l).unwrap();
                l
            }
            4 => {
                // a dangling link: exclusive creation must not follow it
                let l = dir.join("dangling");
                std::os::unix::fs::symlink(dir.join("nowhere"), &l).unwrap();
                l
            }
            _ => {
                // by way of a link of ours: whatever is done to the path is not done to the device
                let l = dir.join("full");
                std::os::unix::fs::symlink("/dev/full", &l).unwrap();
                l
            }
        };
        if kind == 5 && c.r.bool() {
            cfg.threshold = 0;
            cfg.default_threshold = false;
        }
        let before = scratch::list(&dir);
        let mut what = String::new();
        let res = guard(|| {
            at_field(&t, Src::new(t.body.bytes.clone(), plan.clone()), |f| {
                let r = {
                    let mut b = configure!(f.data.save(), cfg);
                    if kind == 5 {
                        b = b.mod_open_opts(|o| {
                            o.create_new(false);
                        });
                    }
                    b.with_path(&path)
                };
                what = outcome(&r);
                let rest = rest_of(f, t.body.bytes.len())?;
                ensure!(std::fs::read(&other).unwrap() == old, "{}: an existing file was modified", what);
                ensure!(scratch::list(&dir) == before, "{}: files before {:?}, after {:?}", what, before, scratch::list(&dir));
                c.count(match kind {
                    0 | 3 => "existing_files",
                    5 => "full_devices",
                    _ => "unusable_paths",
                });
                let n = content.len() as u64;
                let th = if cfg.default_threshold { 10240 } else { cfg.threshold };
                let wants_file = n > th && cfg.limit.value() > th;
                match r {
                    SaveResult::Full(ref d) => {
                        ensure!(d.is_memory(), "{}: although the file could not be written", what);
                        let got = saved_bytes(d)?;
                        ensure!(got == content && rest.is_empty(), "{}: {}", what, diff(&got, &content));
                        ensure!(!wants_file, "{}: not in memory but above the threshold", what);
                    }
                    SaveResult::Partial(ref d, ref why) => {
                        if let (SavedData::File(p, n), 5) = (d, kind) {
                            ensure!(p == &path && *n == 0, "{}: nothing can be written to {:?}", what, path);
                            match why {
                                PartialReason::IoError(_) => {}
                                // the data read first is over the limit: nothing was to be written
                                PartialReason::SizeLimit => ensure!(content.len() as u64 > cfg.limit.value(), "{}: {} bytes", what, content.len()),
                                _ => fail!("{}", what),
                            }
                            // the data read to memory before is lost, the rest is there
                            ensure!(content.ends_with(&rest), "{}: rest {}", what, show(&rest));
                        } else {
                            let got = saved_bytes(d)?;
                            ensure!(d.is_memory(), "{}: although the file could not be written", what);
                            ensure!(content.starts_with(&got), "{}: not a prefix", what);
                            ensure!(rest == content[got.len()..], "{}: rest: {}", what, diff(&rest, &content[got.len()..]));
                            if wants_file && !(cfg.policy == Policy::Force && std::str::from_utf8(&content).is_err()) {
                                ensure!(matches!(why, PartialReason::IoError(_)), "{}: the file could not be written", what);
                            }
                        }
                    }
                    SaveResult::Error(_) => {
                        ensure!(rest == content, "{}: data was consumed: {}", what, diff(&rest, &content));
                        ensure!(wants_file, "{}: although no file was needed", what);
                    }
                }
                Ok(())
            })
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?} {}", crate::rng::hash(&content), cfg, kind).as_bytes());
        if res.is_err() {
            let k = ["existing file", "below a file", "directory", "link to a file", "dangling link", "/dev/full"][kind];
            describe(c, &t, &plan, format!("{:?}; path: {}; result {}", cfg, k, what));
        }
        res
    });
    // a full disk, by way of the file size limit of the process; one at a time
    ctx.serial("disk", ctx.n(1500, 20_000), |c| {
        let t = target(&mut c.r, 30000);
        let content = t.body.parts[t.at].content.clone();
        let plan = save_plan(&mut c.r, &t);
        let mut cfg = cfg_for(&mut c.r, content.len());
        if c.r.bool() {
            cfg.threshold = c.r.below(content.len() / 2 + 1) as u64;
            cfg.default_threshold = false;
        }
        let cap = c.r.below(content.len() + 100) as u64;
        let dir = scratch::fresh("disk");
        let mut what = String::new();
        let res = guard(|| {
            at_field(&t, Src::new(t.body.bytes.clone(), plan.clone()), |f| {
                let r = {
                    let mut b = configure!(f.data.save(), cfg);
                    let _lim = scratch::FileLimit::set(cap);
                    b.with_dir(&dir)
                };
                what = outcome(&r);
                let files = scratch::list(&dir);
                let rest = rest_of(f, t.body.bytes.len())?;
                match r {
                    SaveResult::Full(ref d) => {
                        let got = saved_bytes(d)?;
                        ensure!(got == content && rest.is_empty(), "{}: {}", what, diff(&got, &content));
                    }
                    SaveResult::Partial(ref d, ref why) => {
                        let got = saved_bytes(d)?;
                        ensure!(got.len() as u64 == d.size(), "{}: {} bytes readable", what, got.len());
                        ensure!(content.starts_with(&got), "{}: not a prefix: {}", what, diff(&got, &content));
                        let flushed = matches!(why, PartialReason::IoError(_)) && !d.is_memory();
                        if flushed {
                            c.count("files_cut_by_rlimit");
                            ensure!(got.len() as u64 <= cap, "{}: only {} bytes fit", what, cap);
                        }
                        let mem = if cfg.default_threshold { 10240 } else { cfg.threshold };
                        if flushed && (got.len() as u64) < mem.min(cfg.limit.value()) {
                            // the flush itself may have failed
                            ensure!(content.ends_with(&rest) && rest.len() + got.len() <= content.len(), "{}: the rest is {}", what, show(&rest));
                        } else {
                            ensure!(rest == content[got.len()..], "{}: rest: {}", what, diff(&rest, &content[got.len()..]));
                        }
                    }
                    SaveResult::Error(ref e) => {
                        ensure!(rest == content, "{}: data was consumed: {}", what, diff(&rest, &content));
                        fail!("{:?} (files {:?})", e, files);
                    }
                }
                Ok(())
            })
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?} {}", crate::rng::hash(&content), cfg, cap).as_bytes());
        if res.is_err() {
            describe(c, &t, &plan, format!("{:?}; files hold up to {} bytes; result {}", cfg, cap, what));
        }
        res
    });
    ctx.cases("request", ctx.n(8000, 150_000), |c| {
        let b = request(&mut c.r, 7, 14000);
        let plan = Plan::random(&mut c.r);
        let mut cfg = cfg_for(&mut c.r, 4000);
        if c.r.bool() {
            cfg.limit = Limit::No;
        }
        let dir = scratch::fresh("req");
        let how = c.r.below(5);
        c.count(["saved_with_dir", "saved_to_temp", "saved_with_prefix", "saved_with_temp_dir", "saved_with_entries"][how]);
        let res = guard(|| -> Res {
            // by value or by reference
            if c.r.bool() {
                let mut mp = decoder(&b, &plan);
                let r = save_request(configure!(mp.save(), cfg), how, &dir);
                whole(c, &b, &cfg, r)
            } else {
                let mp = decoder(&b, &plan);
                let r = save_request(configure!(multipart::server::save::SaveBuilder::new(mp), cfg), how, &dir);
                whole(c, &b, &cfg, r)
            }
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?} {}", crate::rng::hash(&b.bytes), cfg, how).as_bytes());
        if res.is_err() {
            describe_body(c, &b, &plan, format!("{:?}, destination {}", cfg, how));
        }
        res
    });
}

fn save_request<M: multipart::server::ReadEntry>(b: multipart::server::save::SaveBuilder<M>, how: usize, dir: &Path) -> EntriesSaveResult<M> {
    match how {
        0 => b.with_dir(dir.join("a/b")),
        1 => b.temp(),
        2 => b.temp_with_prefix("pre"),
        3 => b.with_temp_dir(tempfile::Builder::new().tempdir_in(dir).unwrap()),
        _ => b.with_entries(Entries::new(SaveDir::Perm(dir.join("c")))),
    }
}

/// The result of saving a whole undisturbed request.
fn whole<M: multipart::server::ReadEntry>(c: &mut Case, b: &Body, cfg: &Cfg, r: EntriesSaveResult<M>) -> Res {
    match r {
        SaveResult::Full(e) => {
            c.count("whole_requests_full");
            same_entries(&e, &b.parts)
        }
        SaveResult::Partial(p, why) => {
            c.count("whole_requests_partial");
            let k = p.entries.fields_count() as usize;
            ensure!(k < b.parts.len(), "{:?} after all {} fields", why, k);
            same_entries(&p.entries, &b.parts[..k])?;
            let target = &b.parts[k];
            let part = p.partial.ok_or_else(|| format!("{:?}: field {} was dropped", why, k))?;
            let mut source = part.source;
            check_headers(&source.headers, target)?;
            let rest = rest_of(&mut source, b.bytes.len())?;
            let got = match part.dest {
                Some(ref d) => saved_bytes(d)?,
                None => vec![],
            };
            ensure!(target.content.starts_with(&got), "{:?}: saved of field {}: {}", why, k, diff(&got, &target.content));
            ensure!(rest == target.content[got.len()..], "{:?}: rest of field {}: {}", why, k, diff(&rest, &target.content[got.len()..]));
            // the fields after it
            let mut next = multipart::server::ReadEntry::read_entry(source.data.into_inner());
            for (i, p) in b.parts.iter().enumerate().skip(k + 1) {
                match next {
                    ReadEntryResult::Entry(mut f) => {
                        let d = rest_of(&mut f, b.bytes.len())?;
                        crate::decode::check_part(&f.headers, &d, p).map_err(|e| format!("field {} after field {} was stopped: {}", i, k, e))?;
                        next = f.next_entry();
                    }
                    ReadEntryResult::End(_) => fail!("end instead of field {}", i),
                    ReadEntryResult::Error(_, e) => fail!("{:?} instead of field {}", e, i),
                }
            }
            ensure!(matches!(next, ReadEntryResult::End(_)), "no end after the last field");
            match why {
                PartialReason::SizeLimit => {}
                PartialReason::Utf8Error(_) => ensure!(cfg.policy == Policy::Force && std::str::from_utf8(&target.content).is_err(), "UTF-8 error for {:?}", show(&target.content)),
                other => fail!("stopped by {:?}", other),
            }
            Ok(())
        }
        SaveResult::Error(e) => fail!("failed without a fault: {:?}", e),
    }
}

fn judge_written(content: &[u8], cfg: &Cfg, r: &SaveResult<u64, u64>, out: &[u8], rest: &[u8], faulted: bool, kind: ErrorKind) -> Res {
    let l = cfg.limit.value();
    ensure!(out.len() as u64 <= l, "limit {}: {} bytes written", l, out.len());
    match r {
        SaveResult::Full(n) => {
            ensure!(!faulted, "reported as full although the writer or the transport failed");
            ensure!(*n == out.len() as u64, "reported {} bytes, written {}", n, out.len());
            ensure!(out == content && rest.is_empty(), "reported as full: {}; rest {} bytes", diff(out, content), rest.len());
        }
        SaveResult::Partial(n, why) => {
            ensure!(*n == out.len() as u64, "reported {} bytes, written {}", n, out.len());
            ensure!(content.starts_with(out), "not a prefix: {}", diff(out, content));
            ensure!(rest == &content[out.len()..], "written {} bytes, rest: {}", out.len(), diff(rest, &content[out.len()..]));
            match why {
                PartialReason::SizeLimit => ensure!(content.len() as u64 > l, "stopped by the size limit {} in a field of {} bytes", l, content.len()),
                PartialReason::IoError(e) => ensure!(faulted && e.kind() == kind, "stopped by {:?}, the fault was {:?} (met: {})", e, kind, faulted),
                other => fail!("stopped by {:?}", other),
            }
        }
        SaveResult::Error(e) => {
            ensure!(faulted && e.kind() == kind, "{:?}, the fault was {:?} (met: {})", e, kind, faulted);
            ensure!(out.is_empty() && rest == content, "reported as failed at the start, but {} bytes were written and {} of {} are left", out.len(), rest.len(), content.len());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub fn c13(ctx: &Ctx) {
    ctx.expect(&["fields_beyond_4_gib", "fields_over_default_limit_unlimited", "stopped_by_size_limit", "full_on_disk", "full_text", "full_bytes", "written_to_writer", "default_limit_exact", "default_limit_exceeded", "whole_requests_full", "whole_requests_partial", "requests_continued_after_limit"]);
    ctx.cases("field", ctx.n(20_000, 400_000), |c| {
        let t = target(&mut c.r, 14000);
        let n = t.body.parts[t.at].content.len() as u64;
        let plan = save_plan(&mut c.r, &t);
        let mut cfg = cfg_for(&mut c.r, n as usize);
        // limits right at the size
        if c.r.bool() {
            cfg.limit = Limit::At(match c.r.below(5) {
                0 => n.saturating_sub(1),
                1 => n,
                2 => n + 1,
                3 => c.r.below(n as usize + 1) as u64,
                _ => n.saturating_sub(c.r.below(1500) as u64),
            });
        }
        c.sample(|| format!("field of {} bytes, {:?}", n, cfg));
        save_one(c, &t, &plan, &cfg, Aspect::Limit)
    });
    ctx.cases("writer", ctx.n(8000, 100_000), |c| {
        let t = target(&mut c.r, 20000);
        let content = t.body.parts[t.at].content.clone();
        let n = content.len() as u64;
        let plan = save_plan(&mut c.r, &t);
        let mut cfg = cfg_for(&mut c.r, n as usize);
        if c.r.bool() {
            cfg.limit = Limit::At((n + 1).saturating_sub(c.r.below(3) as u64));
        }
        let step = *c.r.pick(&[0usize, 100, 1000, 5000]);
        let mut sink = Sink::new(step, c.r.u64());
        let res = guard(|| {
            at_field(&t, Src::new(t.body.bytes.clone(), plan.clone()), |f| {
                let r = configure!(f.data.save(), cfg).write_to(&mut sink);
                let l = cfg.limit.value();
                ensure!(sink.out.len() as u64 <= l, "limit {}: {} bytes written", l, sink.out.len());
                match r {
                    SaveResult::Full(_) => ensure!(n <= l, "limit {}: a field of {} bytes was reported as written in full", l, n),
                    SaveResult::Partial(_, PartialReason::SizeLimit) => {
                        ensure!(n > l, "limit {}: a field of {} bytes was stopped", l, n);
                        ensure!(content.starts_with(&sink.out), "not a prefix");
                        c.count("stopped_by_size_limit");
                    }
                    o => fail!("{:?}", o),
                }
                Ok(())
            })
        })
        .and_then(|x| x);
        c.eval();
        c.count("written_to_writer");
        c.distinct(format!("{:x} {:?} w{}", crate::rng::hash(&content), cfg, step).as_bytes());
        if res.is_err() {
            describe(c, &t, &plan, format!("write_to, {:?}", cfg));
        }
        res
    });
    // per field of a request; after an over-limit field, go on with the next
    ctx.cases("request", ctx.n(6000, 100_000), |c| {
        let b = request(&mut c.r, 6, 12000);
        let plan = Plan::random(&mut c.r);
        let l = match c.r.below(4) {
            0 => 0,
            1 => b.parts.first().map_or(5, |p| p.content.len() as u64),
            2 => c.r.below(12000) as u64,
            _ => c.r.below(100) as u64,
        };
        let cfg = Cfg {
            limit: Limit::At(l),
            threshold: *c.r.pick(&[0, 1, 100, 3000, 10240, u64::MAX]),
            default_threshold: c.r.chance(1, 5),
            policy: *c.r.pick(&[Policy::Try, Policy::Ignore]),
            order: c.r.u64(),
        };
        let dir = scratch::fresh("limreq");
        let res = guard(|| -> Res {
            let mut mp = decoder(&b, &plan);
            let mut entries = Entries::new(SaveDir::Perm(dir.clone()));
            let mut done = 0;
            loop {
                match configure!(mp.save(), cfg).with_entries(entries) {
                    SaveResult::Full(e) => {
                        c.count("whole_requests_full");
                        for (i, p) in b.parts.iter().enumerate().skip(done) {
                            ensure!(p.content.len() as u64 <= l, "limit {}: full success, but field {} has {} bytes", l, i, p.content.len());
                        }
                        for v in e.fields.values() {
                            for f in v {
                                ensure!(f.data.size() <= l && saved_bytes(&f.data)?.len() as u64 <= l, "limit {}: {:?} holds {} bytes", l, f.headers.name, f.data.size());
                            }
                        }
                        break;
                    }
                    SaveResult::Partial(p, PartialReason::SizeLimit) => {
                        c.count("whole_requests_partial");
                        let stop = b.parts.iter().enumerate().skip(done).find(|(_, p)| p.content.len() as u64 > l).map(|x| x.0);
                        let part = p.partial.ok_or("the field that was stopped is not there")?;
                        let at = match stop {
                            Some(i) => i,
                            None => fail!("limit {}: field {:?} was stopped, but no further field is larger", l, part.source.headers.name),
                        };
                        check_headers(&part.source.headers, &b.parts[at]).map_err(|e| format!("field {} should have been stopped: {}", at, e))?;
                        let got = match part.dest {
                            Some(d) => saved_bytes(&d)?,
                            None => vec![],
                        };
                        ensure!(got.len() as u64 <= l && b.parts[at].content.starts_with(&got), "limit {}: {} bytes saved", l, got.len());
                        done = at + 1;
                        entries = p.entries;
                        c.count("requests_continued_after_limit");
                    }
                    o => fail!("{:?}", o.into_opt_both().1),
                }
            }
            Ok(())
        })
        .and_then(|x| x);
        let over = scratch::list(&dir).iter().filter_map(|f| f.1).max().unwrap_or(0);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?}", crate::rng::hash(&b.bytes), cfg).as_bytes());
        if res.is_err() {
            describe_body(c, &b, &plan, format!("{:?}", cfg));
        }
        res?;
        ensure!(over <= l, "limit {}: a file of {} bytes", l, over);
        Ok(())
    });
    // the default limit
    ctx.cases("default", ctx.n(18, 72), |c| {
        let d = 8usize << 20;
        let n = [d - 1, d, d + 1, d + 5000, d / 2, 2 * d][c.idx % 6];
        let cfg = Cfg { limit: Limit::Default, threshold: if c.idx % 12 < 6 { 0 } else { 1000 }, default_threshold: c.idx % 12 < 6, policy: if c.idx % 2 == 0 { Policy::Try } else { Policy::Ignore }, order: c.r.u64() };
        let mut content = c.r.bytes(4096).repeat(n / 4096 + 1);
        content.truncate(n);
        let p = gen::mk("big", Some("big.bin"), None, content);
        let t = around(&mut c.r, p);
        let plan = Plan::Random(c.r.u64(), 60000);
        if n <= d {
            c.count("default_limit_exact");
        } else {
            c.count("default_limit_exceeded");
        }
        save_one(c, &t, &plan, &cfg, Aspect::Limit)?;
        // and per field of a request
        let dir = scratch::fresh("dflt");
        let res = guard(|| -> Res {
            let mut mp = decoder(&t.body, &plan);
            match mp.save().with_dir(&dir) {
                SaveResult::Full(_) => ensure!(n <= d, "a field of {} bytes saved in full with the default limit", n),
                SaveResult::Partial(p, PartialReason::SizeLimit) => {
                    ensure!(n > d, "a field of {} bytes stopped by the default limit", n);
                    if let Some(part) = p.partial {
                        let s = part.dest.map_or(0, |d| d.size());
                        ensure!(s <= d as u64, "{} bytes stored", s);
                    }
                }
                o => fail!("{:?}", o.into_opt_both().1),
            }
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        res
    });
    // no limit: nothing is cut, also beyond the default limit
    ctx.cases("unlimited", ctx.n(24, 96), |c| {
        let n = (8usize << 20) + [1, 3000, 1 << 20][c.idx % 3];
        let mut content = c.r.bytes(4096).repeat(n / 4096 + 1);
        content.truncate(n);
        let b = gen::simple(&mut c.r, vec![gen::mk("big", Some("big.bin"), None, content), gen::mk("after", None, None, b"x".to_vec())]);
        let plan = Plan::Random(c.r.u64(), 60000);
        let none = c.idx % 2 == 0;
        let lim = || if none { None } else { Some(u64::MAX) };
        let threshold = *c.r.pick(&[0, 10240, 9 << 20, u64::MAX]);
        let way = c.idx / 2 % 4;
        let dir = scratch::fresh("nolim");
        let res = guard(|| -> Res {
            let mut mp = decoder(&b, &plan);
            match way {
                0 => match mp.save().size_limit(lim()).memory_threshold(threshold).with_dir(&dir) {
                    SaveResult::Full(e) => same_entries(&e, &b.parts),
                    o => Err(format!("{:?}: not saved in full: {:?}", lim(), o.into_opt_both().1)),
                },
                // cleared again after it was set
                1 => match mp.save().size_limit(5).memory_threshold(threshold).size_limit(lim()).with_dir(&dir) {
                    SaveResult::Full(e) => same_entries(&e, &b.parts),
                    o => Err(format!("5, then {:?}: not saved in full: {:?}", lim(), o.into_opt_both().1)),
                },
                _ => {
                    let mut f = mp.read_entry().map_err(|e| e.to_string())?.ok_or("no field")?;
                    if way == 2 {
                        match f.data.save().size_limit(lim()).memory_threshold(threshold).with_dir(&dir) {
                            SaveResult::Full(d) => ensure!(saved_bytes(&d)? == b.parts[0].content, "content differs"),
                            o => fail!("{:?}: {}", lim(), outcome(&o)),
                        }
                    } else {
                        let mut v = vec![];
                        match f.data.save().size_limit(lim()).write_to(&mut v) {
                            SaveResult::Full(k) => ensure!(k == n as u64 && v == b.parts[0].content, "content differs"),
                            o => fail!("{:?}: {:?}", lim(), o),
                        }
                    }
                    Ok(())
                }
            }
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.count("fields_over_default_limit_unlimited");
        c.distinct(&[c.idx as u8]);
        if res.is_err() {
            c.note(format!("field of {} bytes, threshold {}, way {}", n, threshold, way));
        }
        res
    });
    // sizes beyond 32 bits, generated on the fly and written where nothing is kept
    ctx.cases("huge", ctx.n(2, 12), |c| {
        let n = (1u64 << 32) + c.r.below(100_000) as u64;
        // cut or not, and never at what is left when counted in 32 bits
        let l = match c.idx % 3 {
            0 => n - 1 - c.r.below(5000) as u64,
            1 => n + c.r.below(3) as u64,
            _ => u64::MAX,
        };
        let mime = *c.r.pick(&["text/plain", "image/png"]);
        let head = format!("--bnd\r\nContent-Disposition: form-data; name=\"h\"\r\nContent-Type: {}\r\n\r\n", mime);
        let tail = "\r\n--bnd\r\nContent-Disposition: form-data; name=\"t\"\r\n\r\nthe next\r\n--bnd--\r\n";
        let body = io::Cursor::new(head).chain(io::repeat(b'x').take(n)).chain(io::Cursor::new(tail));
        let dir = scratch::fresh("huge");
        let sink = dir.join("sink");
        std::os::unix::fs::symlink("/dev/null", &sink).unwrap();
        let file = c.r.bool();
        let res = guard(|| -> Res {
            let mut mp = Multipart::with_body(body, "bnd");
            let stored = {
                let mut f = mp.read_entry().map_err(|e| e.to_string())?.ok_or("no field")?;
                let sb = f.data.save().size_limit(l);
                let (stored, full) = if file {
                    match sb.mod_open_opts(|o| {
                        o.create_new(false);
                    })
                    .with_path(&sink)
                    {
                        SaveResult::Full(d) => (d.size(), true),
                        SaveResult::Partial(d, PartialReason::SizeLimit) => (d.size(), false),
                        o => fail!("{}", outcome(&o)),
                    }
                } else {
                    let mut count = Count(0);
                    let r = match { sb }.write_to(&mut count) {
                        SaveResult::Full(k) => (k, true),
                        SaveResult::Partial(k, PartialReason::SizeLimit) => (k, false),
                        o => fail!("{:?}", o),
                    };
                    ensure!(r.0 == count.0, "{} bytes reported, {} written", r.0, count.0);
                    r
                };
                ensure!(full == (n <= l), "limit {}: a field of {} bytes, stored {}, full {}", l, n, stored, full);
                ensure!(stored <= l && (!full || stored == n), "limit {}: {} of {} bytes", l, stored, n);
                ensure!(full || l - stored < 1 << 16, "limit {}: only {} of {} bytes", l, stored, n);
                let rest = io::copy(&mut f.data, &mut io::sink()).map_err(|e| e.to_string())?;
                ensure!(stored + rest == n, "{} stored, {} left, of {}", stored, rest, n);
                stored
            };
            let mut f = mp.read_entry().map_err(|e| e.to_string())?.ok_or("the next field is missing")?;
            let mut s = String::new();
            f.data.read_to_string(&mut s).map_err(|e| e.to_string())?;
            ensure!(s == "the next" && &*f.headers.name == "t", "after {} bytes: {:?}", stored, s);
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.count("fields_beyond_4_gib");
        c.distinct(&n.to_le_bytes());
        if res.is_err() {
            c.note(format!("{} field of {} bytes, limit {}, to a file: {}", mime, n, l, file));
        }
        res
    });
}

/// Counts what is written to it
struct Count(u64);
impl io::Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- C14

pub fn c14(ctx: &Ctx) {
    ctx.expect(&["requests_of_hundreds_of_fields", "default_count_limit_kept", "default_count_limit_exceeded", "limit_hit", "limit_not_hit", "limit_exact", "resumed_after_raising", "resumed_after_removing", "unlimited", "handed_back_fields"]);
    ctx.cases("limit", ctx.n(20_000, 300_000), |c| {
        let b = request(&mut c.r, 9, 2500);
        let n = b.parts.len();
        let plan = Plan::random(&mut c.r);
        let (limit, none): (u32, bool) = match c.r.below(8) {
            0 => (0, false),
            1 => (n as u32, false),
            2 => (n as u32 + 1, false),
            3 => ((n as u32).saturating_sub(1), false),
            4 => (u32::MAX, c.r.bool()),
            _ => (c.r.below(n + 2) as u32, false),
        };
        let threshold = *c.r.pick(&[0u64, 100, 10240]);
        let how = c.r.below(4);
        let lim = || if none { None } else { Some(limit) };
        if limit == u32::MAX {
            c.count("unlimited");
        } else if limit as usize == n {
            c.count("limit_exact");
        }
        let dir = scratch::fresh("count");
        let res = guard(|| -> Res {
            let mut mp = decoder(&b, &plan);
            let sb = mp.save().size_limit(None).memory_threshold(threshold).count_limit(lim());
            let r = save_request(sb, if how == 3 { 4 } else { how }, &dir);
            match r {
                SaveResult::Full(e) => {
                    ensure!(n <= limit as usize, "limit {}: full success for {} fields", limit, n);
                    ensure!(e.fields_count() as usize == n, "{} fields counted, {} sent", e.fields_count(), n);
                    same_entries(&e, &b.parts)?;
                    c.count("limit_not_hit");
                }
                SaveResult::Partial(p, PartialReason::CountLimit) => {
                    c.count("limit_hit");
                    let l = limit as usize;
                    ensure!(n > l, "limit {}: hit by {} fields", l, n);
                    same_entries(&p.entries, &b.parts[..l]).map_err(|e| format!("the first {} fields: {}", l, e))?;
                    let part = p.partial.ok_or_else(|| format!("limit {}: the next field is lost", l))?;
                    ensure!(part.dest.is_none(), "limit {}: part of the next field was saved", l);
                    let mut src = part.source;
                    check_headers(&src.headers, &b.parts[l])?;
                    let d = rest_of(&mut src, b.bytes.len())?;
                    ensure!(d == b.parts[l].content, "the field handed back: {}", diff(&d, &b.parts[l].content));
                    c.count("handed_back_fields");
                    // the others follow
                    let mut next = src.next_entry();
                    for (i, p) in b.parts.iter().enumerate().skip(l + 1) {
                        match next {
                            ReadEntryResult::Entry(mut f) => {
                                let d = rest_of(&mut f, b.bytes.len())?;
                                crate::decode::check_part(&f.headers, &d, p).map_err(|e| format!("field {}: {}", i, e))?;
                                next = f.next_entry();
                            }
                            _ => fail!("field {} is missing", i),
                        }
                    }
                    ensure!(matches!(next, ReadEntryResult::End(_)), "no end");
                }
                SaveResult::Partial(_, why) => fail!("stopped by {:?}", why),
                SaveResult::Error(e) => fail!("{:?}", e),
            }
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {} {}", crate::rng::hash(&b.bytes), limit, threshold).as_bytes());
        c.sample(|| format!("{} fields, limit {:?}", n, lim()));
        if res.is_err() {
            describe_body(c, &b, &plan, format!("count limit {:?}, threshold {}, destination {}", lim(), threshold, how));
        }
        res
    });
    // more fields than any default
    ctx.cases("many", ctx.n(60, 600), |c| {
        let n = *c.r.pick(&[255, 256, 257, 300, 513, 1000]);
        let parts: Vec<Part> = (0..n).map(|i| gen::mk(&format!("n{}", i % 7), None, None, format!("{}", i).into_bytes())).collect();
        let b = gen::simple(&mut c.r, parts);
        let plan = Plan::Random(c.r.u64(), 6000);
        // not set at all: 256
        let unset = c.r.chance(1, 4);
        let limit: Option<u32> = match c.r.below(6) {
            _ if unset => Some(256),
            0 | 1 => None,
            2 => Some(u32::MAX),
            3 => Some(n as u32),
            4 => Some(n as u32 - 1),
            // small when cut to fewer bits
            _ if c.r.bool() => Some(*c.r.pick(&[1u32 << 8, 1 << 16, 1 << 16, 1 << 24, 1 << 31]) + c.r.below(4) as u32),
            _ => Some(c.r.range(200, 1100) as u32),
        };
        let again = c.r.bool();
        let dir = scratch::fresh("many");
        let res = guard(|| -> Res {
            let mut mp = decoder(&b, &plan);
            let mut sb = mp.save();
            if again && !unset {
                sb = sb.count_limit(3);
            }
            if !unset {
                sb = sb.count_limit(limit);
            }
            match sb.with_dir(&dir) {
                SaveResult::Full(e) => {
                    ensure!(limit.map_or(true, |l| n <= l as usize), "limit {:?}: full success for {} fields", limit, n);
                    same_entries(&e, &b.parts)
                }
                SaveResult::Partial(p, PartialReason::CountLimit) => {
                    ensure!(limit.map_or(false, |l| n > l as usize), "limit {:?}: hit by {} fields", limit, n);
                    same_entries(&p.entries, &b.parts[..limit.unwrap() as usize])
                }
                o => Err(format!("{:?}", o.into_opt_both().1)),
            }
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.count("requests_of_hundreds_of_fields");
        if unset {
            c.count(if n > 256 { "default_count_limit_exceeded" } else { "default_count_limit_kept" });
        }
        c.distinct(format!("{:x} {:?}", crate::rng::hash(&b.bytes), limit).as_bytes());
        res
    });
    ctx.cases("crowd", ctx.n(2, 15), |c| {
        let (b, plan, e) = crowd(c);
        let n = b.parts.len();
        let limit = match (c.idx / 2) % 4 {
            0 => None,
            1 => Some(n as u32),
            2 => Some(n as u32 - 1),
            _ => Some(*c.r.pick(&[1u32 << 16, (1 << 16) - 1, u32::MAX])),
        };
        let res = guard(|| match decoder(&b, &plan).save().count_limit(limit).memory_threshold(u64::MAX).with_dir(&e) {
            SaveResult::Full(e) => {
                ensure!(limit.map_or(true, |l| n <= l as usize), "limit {:?}: full success for {} fields", limit, n);
                same_entries(&e, &b.parts)
            }
            SaveResult::Partial(p, PartialReason::CountLimit) => {
                ensure!(limit.map_or(false, |l| n > l as usize), "limit {:?}: hit by {} fields", limit, n);
                same_entries(&p.entries, &b.parts[..limit.unwrap() as usize])
            }
            o => Err(format!("{:?}", o.into_opt_both().1)),
        })
        .and_then(|x| x);
        scratch::done(&e);
        c.eval();
        c.max("most_fields_in_a_request", n as u64);
        c.distinct(format!("{} {:?}", n, limit).as_bytes());
        res.map_err(|e| format!("{} fields, count limit {:?}: {}", n, limit, e))
    });
    // resuming: every field is delivered exactly once
    ctx.cases("resume", ctx.n(10_000, 150_000), |c| {
        let b = request(&mut c.r, 10, 1500);
        let n = b.parts.len();
        let plan = Plan::random(&mut c.r);
        let threshold = *c.r.pick(&[0u64, 100, 10240]);
        let dir = scratch::fresh("resume");
        let mut log: Vec<String> = vec![];
        let res = guard(|| -> Res {
            let mut mp = Some(decoder(&b, &plan));
            let mut entries = Entries::new(SaveDir::Perm(dir.clone()));
            let mut limit = c.r.below(4) as u32;
            let mut delivered: Vec<(String, Vec<u8>)> = vec![];
            for _round in 0..40 {
                let present = entries.fields.values().map(|v| v.len()).sum::<usize>();
                let before = delivered.len();
                let sb = multipart::server::save::SaveBuilder::new(mp.take().unwrap()).size_limit(None).memory_threshold(threshold).count_limit(limit);
                match sb.with_entries(entries) {
                    SaveResult::Full(e) => {
                        log.push(format!("limit {}, {} present: full", limit, present));
                        for (k, v) in &e.fields {
                            for f in v {
                                delivered.push((k.to_string(), saved_bytes(&f.data)?));
                            }
                        }
                        let mut want: Vec<(String, Vec<u8>)> = b.parts.iter().map(|p| (p.name.clone(), p.content.clone())).collect();
                        want.sort();
                        delivered.sort();
                        ensure!(e.fields_count() as usize <= limit as usize || present > limit as usize, "limit {}: {} fields", limit, e.fields_count());
                        ensure!(delivered.len() == n, "{} fields delivered, {} sent", delivered.len(), n);
                        ensure!(delivered == want, "delivered fields differ from those sent");
                        return Ok(());
                    }
                    SaveResult::Partial(p, PartialReason::CountLimit) => {
                        entries = p.entries;
                        let now = entries.fields.values().map(|v| v.len()).sum::<usize>();
                        log.push(format!("limit {}, {} present: stopped at {}", limit, present, now));
                        ensure!(now == present.max(limit as usize), "limit {}, {} fields present: stopped with {}", limit, present, now);
                        ensure!(entries.fields_count() as usize == now, "{} fields counted, {} present", entries.fields_count(), now);
                        let part = p.partial.ok_or("the next field is lost")?;
                        let mut src = part.source;
                        let at = before + now;
                        // fields taken out earlier are counted as delivered
                        ensure!(at < n, "stopped, but all {} fields were delivered", n);
                        check_headers(&src.headers, &b.parts[at]).map_err(|e| format!("field {}: {}", at, e))?;
                        let d = rest_of(&mut src, b.bytes.len())?;
                        delivered.push((src.headers.name.to_string(), d));
                        mp = Some(src.data.into_inner());
                        match c.r.below(3) {
                            0 => {
                                limit = now as u32 + c.r.range(0, 3) as u32;
                                c.count("resumed_after_raising");
                            }
                            1 => {
                                let all: Vec<_> = entries.fields.drain().collect();
                                for (k, v) in all {
                                    for f in v {
                                        delivered.push((k.to_string(), saved_bytes(&f.data)?));
                                    }
                                }
                                limit = limit.max(1);
                                c.count("resumed_after_removing");
                            }
                            _ => {
                                if let Some(k) = entries.fields.keys().min().cloned() {
                                    for f in entries.fields.remove(&k).unwrap() {
                                        delivered.push((k.to_string(), saved_bytes(&f.data)?));
                                    }
                                    c.count("resumed_after_removing");
                                } else {
                                    limit += 1;
                                }
                            }
                        }
                    }
                    SaveResult::Partial(_, why) => fail!("stopped by {:?}", why),
                    SaveResult::Error(e) => fail!("{:?}", e),
                }
            }
            fail!("not finished after 40 rounds")
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} r{}", crate::rng::hash(&b.bytes), log.len()).as_bytes());
        if res.is_err() {
            describe_body(c, &b, &plan, format!("threshold {}: {}", threshold, log.join("; ")));
        }
        res
    });
}

/// Thousands of tiny fields
fn crowd(c: &mut Case) -> (Body, Plan, std::path::PathBuf) {
    let n = if c.idx % 2 == 0 { *c.r.pick(&[65_537, 65_600, 70_000]) } else { *c.r.pick(&[1025, 2050, 4100, 9000]) };
    let names = *c.r.pick(&[1, 2, 7, 300, n]);
    let parts: Vec<Part> = (0..n).map(|i| gen::mk(&format!("n{}", i % names), None, None, format!("{}", i).into_bytes())).collect();
    let b = gen::encode(&mut c.r, "crowd", parts, &gen::Layout::plain());
    (b, Plan::Random(c.r.u64(), 8000), scratch::fresh("crowd"))
}

/// A field of one to `max` MiB with something around it, and how to save it
fn large_field(c: &mut Case, max: usize) -> (Target, Plan, Cfg) {
    let n = match c.r.below(4) {
        0 => (1 << 20) - 1 + c.r.below(3),
        1 => (max << 20) - 1 + c.r.below(3),
        _ => c.r.range(1 << 20, max << 20),
    };
    let text = c.r.bool();
    let mut v = c.r.bytes(n);
    if text {
        v.iter_mut().for_each(|b| *b = b' ' + *b % 90);
        for _ in 0..c.r.below(4) {
            let at = c.r.below(n - 4);
            v[at..at + 3].copy_from_slice("\u{20ac}".as_bytes());
        }
    }
    let t = around(&mut c.r, gen::mk("large", if text { None } else { Some("l.bin") }, if text { Some("text/plain") } else { None }, v));
    let cfg = Cfg {
        limit: match c.r.below(4) {
            0 => Limit::At(n as u64),
            1 => Limit::At(n as u64 - 1),
            _ => Limit::No,
        },
        threshold: *c.r.pick(&[0, 10240, 1 << 20, n as u64 - 1, n as u64, u64::MAX, u64::MAX]),
        default_threshold: false,
        policy: *c.r.pick(&[Policy::Try, Policy::Force, Policy::Ignore]),
        order: c.r.u64(),
    };
    let plan = match c.r.below(3) {
        0 => Plan::All,
        1 => Plan::Fixed(c.r.range(1000, 300_000)),
        _ => Plan::Random(c.r.u64(), 100_000),
    };
    c.count("fields_of_megabytes");
    (t, plan, cfg)
}

// ---------------------------------------------------------------- C15

pub fn c15(ctx: &Ctx) {
    ctx.expect(&["full_on_disk", "full_text", "full_bytes", "at_threshold", "above_threshold", "threshold_zero", "threshold_max", "fields_of_requests", "large_requests", "fields_of_megabytes"]);
    ctx.cases("field", ctx.n(20_000, 400_000), |c| {
        let t = target(&mut c.r, 14000);
        let n = t.body.parts[t.at].content.len() as u64;
        let plan = save_plan(&mut c.r, &t);
        let mut cfg = cfg_for(&mut c.r, n as usize);
        if c.r.chance(2, 3) {
            cfg.default_threshold = false;
            cfg.threshold = match c.r.below(7) {
                0 => 0,
                1 => u64::MAX,
                2 => n.saturating_sub(1),
                3 => n,
                4 => n + 1,
                _ => c.r.below(n as usize + 10) as u64,
            };
        }
        let th = if cfg.default_threshold { 10240 } else { cfg.threshold };
        if th == 0 {
            c.count("threshold_zero");
        } else if th == u64::MAX {
            c.count("threshold_max");
        } else if n == th {
            c.count("at_threshold");
        } else if n > th {
            c.count("above_threshold");
        }
        c.sample(|| format!("field of {} bytes, {:?}", n, cfg));
        save_one(c, &t, &plan, &cfg, Aspect::Place)
    });
    ctx.cases("large", ctx.n(8, 100), |c| {
        let (t, plan, cfg) = large_field(c, 5);
        save_one(c, &t, &plan, &cfg, Aspect::Place)
    });
    ctx.cases("request", ctx.n(6000, 100_000), |c| {
        let large = c.r.chance(1, 40);
        let max = if large { *c.r.pick(&[70_000, 300_000, 1_200_000]) } else { 13000 };
        let mut b = request(&mut c.r, if large { 3 } else { 6 }, max);
        if large {
            // at least one field beyond what is held in memory by habit
            let len = c.r.range(max / 2, max);
            let bytes = c.r.bytes(4096).repeat(len / 4096 + 1)[..len].to_vec();
            let text = c.r.bool();
            let mut parts = std::mem::take(&mut b.parts);
            parts.push(if text { gen::mk("large", None, None, vec![b'x'; len]) } else { gen::mk("large", Some("large.bin"), None, bytes) });
            b = gen::simple(&mut c.r, parts);
            c.count("large_requests");
        }
        let plan = if large { Plan::Random(c.r.u64(), 60_000) } else { Plan::random(&mut c.r) };
        let cfg = Cfg {
            limit: *c.r.pick(&[Limit::No, Limit::Default, Limit::At(u64::MAX), Limit::At(if large { 2 << 20 } else { 20000 })]),
            threshold: match c.r.below(4) {
                0 if !b.parts.is_empty() => {
                    let i = c.r.below(b.parts.len());
                    b.parts[i].content.len() as u64
                }
                1 => c.r.below(max) as u64,
                _ => *c.r.pick(&[0, 1, 1000, u64::MAX, u64::MAX, 2 << 20]),
            },
            default_threshold: c.r.chance(1, 5),
            policy: *c.r.pick(&[Policy::Try, Policy::Ignore]),
            order: c.r.u64(),
        };
        let th = if cfg.default_threshold { 10240 } else { cfg.threshold };
        let dir = scratch::fresh("place");
        let how = c.r.below(2);
        let res = guard(|| -> Res {
            let mut mp = decoder(&b, &plan);
            let r = save_request(configure!(mp.save(), cfg), how * 3, &dir);
            match r {
                SaveResult::Full(e) => {
                    // per name in order, as sent
                    let mut files = 0;
                    for (k, ps) in by_name(&b.parts) {
                        let got = e.fields.get(&*k).ok_or_else(|| format!("{:?} is missing", k))?;
                        for (g, p) in got.iter().zip(ps) {
                            c.count("fields_of_requests");
                            let n = p.content.len() as u64;
                            if n > th {
                                ensure!(!g.data.is_memory(), "threshold {}: a field of {} bytes in memory", th, n);
                                ensure!(saved_bytes(&g.data)? == p.content, "the file of {:?} does not hold its data", k);
                                files += 1;
                            } else if n > 0 {
                                ensure!(g.data.is_memory(), "threshold {}: a field of {} bytes on disk", th, n);
                            } else if !g.data.is_memory() {
                                files += 1;
                            }
                        }
                    }
                    let made = scratch::list(e.save_dir.as_path()).iter().filter(|f| f.1.is_some()).count();
                    ensure!(made == files, "{} files for {} fields on disk", made, files);
                    if files == 0 && how == 0 {
                        ensure!(!dir.join("a/b").exists(), "the directory was created although no field went to a file");
                    }
                    Ok(())
                }
                o => fail!("{:?}", o.into_opt_both().1),
            }
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?}", crate::rng::hash(&b.bytes), cfg).as_bytes());
        if res.is_err() {
            describe_body(c, &b, &plan, format!("{:?}", cfg));
        }
        res
    });
}

// ---------------------------------------------------------------- C16

pub fn c16(ctx: &Ctx) {
    ctx.expect(&["full_text", "full_bytes", "utf8_errors", "whole_requests", "split_positions", "fields_of_megabytes"]);
    ctx.cases("field", ctx.n(20_000, 400_000), |c| {
        let max = if c.r.chance(1, 4) { 14000 } else { 300 };
        let t = target(&mut c.r, max);
        let n = t.body.parts[t.at].content.len();
        let plan = save_plan(&mut c.r, &t);
        let mut cfg = cfg_for(&mut c.r, n);
        if c.r.chance(2, 3) {
            cfg.limit = Limit::No;
            cfg.threshold = *c.r.pick(&[n as u64, n as u64 + 1, 10240, u64::MAX]);
            cfg.default_threshold = false;
        }
        c.sample(|| format!("{} with {:?}", show(&t.body.parts[t.at].content), cfg));
        save_one(c, &t, &plan, &cfg, Aspect::Text)
    });
    ctx.cases("large", ctx.n(8, 100), |c| {
        let (t, plan, cfg) = large_field(c, 5);
        save_one(c, &t, &plan, &cfg, Aspect::Text)
    });
    // every split position of short texts with and without an invalid sequence
    ctx.cases("splits", ctx.n(600, 10_000), |c| {
        let n = c.r.range(1, 14);
        let mut v = gen::utf8(&mut c.r, n).into_bytes();
        if c.r.bool() {
            spoil(&mut c.r, &mut v);
        }
        let p = gen::mk("t", None, if c.r.bool() { Some("text/plain") } else { None }, v.clone());
        let t = around(&mut c.r, p);
        let at = t.body.content_at[t.at];
        let len = t.body.parts[t.at].content.len();
        for policy in [Policy::Try, Policy::Force, Policy::Ignore] {
            for cut in 0..=len {
                for second in [None, Some(cut + 1), Some(cut + 2)] {
                    let mut cuts = vec![at + cut];
                    cuts.extend(second.map(|s| at + s));
                    let cfg = Cfg { limit: Limit::No, threshold: 10240, default_threshold: true, policy, order: c.r.u64() };
                    c.count("split_positions");
                    save_one(c, &t, &Plan::Cuts(cuts), &cfg, Aspect::Text)?;
                }
            }
            let cfg = Cfg { limit: Limit::No, threshold: len as u64, default_threshold: false, policy, order: c.r.u64() };
            save_one(c, &t, &Plan::Fixed(1), &cfg, Aspect::Text)?;
        }
        Ok(())
    });
    // whole requests: only text fields are treated as text
    ctx.cases("request", ctx.n(8000, 120_000), |c| {
        let b = request(&mut c.r, 6, 3000);
        let plan = Plan::random(&mut c.r);
        let policy = *c.r.pick(&[Policy::Try, Policy::Force, Policy::Ignore]);
        let cfg = Cfg { limit: Limit::No, threshold: *c.r.pick(&[10240, u64::MAX]), default_threshold: false, policy, order: c.r.u64() };
        let dir = scratch::fresh("text");
        let res = guard(|| -> Res {
            let mut mp = decoder(&b, &plan);
            c.count("whole_requests");
            let bad = b.parts.iter().position(|p| is_text_part(p) && std::str::from_utf8(&p.content).is_err());
            let check = |e: &Entries, parts: &[Part]| -> Res {
                for (k, ps) in by_name(parts) {
                    let got = e.fields.get(&*k).ok_or_else(|| format!("{:?} is missing", k))?;
                    for (g, p) in got.iter().zip(ps) {
                        let text = is_text_part(p) && policy != Policy::Ignore && std::str::from_utf8(&p.content).is_ok();
                        match g.data {
                            SavedData::Text(ref s) => {
                                ensure!(text, "field {:?} of type {:?} ({:?}) is text: {}", k, p.ctype, policy, show(&p.content));
                                ensure!(s.as_bytes() == &p.content[..], "field {:?}: {}", k, diff(s.as_bytes(), &p.content));
                            }
                            SavedData::Bytes(ref d) => {
                                ensure!(!text, "field {:?} of type {:?} ({:?}) is not text: {}", k, p.ctype, policy, show(&p.content));
                                ensure!(d == &p.content, "field {:?}: {}", k, diff(d, &p.content));
                            }
                            SavedData::File(..) => ensure!(p.content.len() as u64 > cfg.threshold, "in a file"),
                        }
                    }
                }
                Ok(())
            };
            match configure!(mp.save(), cfg).with_dir(&dir) {
                SaveResult::Full(e) => {
                    ensure!(policy != Policy::Force || bad.is_none(), "text forced: full success although field {:?} is not valid UTF-8", bad);
                    check(&e, &b.parts)
                }
                SaveResult::Partial(p, PartialReason::Utf8Error(_)) => {
                    c.count("utf8_errors");
                    let at = bad.filter(|_| policy == Policy::Force).ok_or("UTF-8 error without reason")?;
                    check(&p.entries, &b.parts[..at])?;
                    let part = p.partial.ok_or("the field is lost")?;
                    let mut src = part.source;
                    check_headers(&src.headers, &b.parts[at])?;
                    let v = std::str::from_utf8(&b.parts[at].content).unwrap_err().valid_up_to();
                    match part.dest {
                        Some(SavedData::Text(ref s)) => ensure!(s.as_bytes() == &b.parts[at].content[..v], "the valid part: {}", diff(s.as_bytes(), &b.parts[at].content[..v])),
                        o => fail!("saved is {:?}", o),
                    }
                    let rest = rest_of(&mut src, b.bytes.len())?;
                    ensure!(rest == b.parts[at].content[v..], "the rest: {}", diff(&rest, &b.parts[at].content[v..]));
                    Ok(())
                }
                o => fail!("{:?}", o.into_opt_both().1),
            }
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?}", crate::rng::hash(&b.bytes), cfg).as_bytes());
        if res.is_err() {
            describe_body(c, &b, &plan, format!("{:?}", cfg));
        }
        res
    });
}

// ---------------------------------------------------------------- C17

const HOSTILE: &[&str] = &[
    "../../../escapedname",
    "/tmp/absolutename.extension",
    "..",
    ".",
    "sub/dir/innerfilename.longextension",
    "C:\\windows\\evilfilename",
    "-rf evilfilename",
    "~/evilfilename",
    "%2e%2e%2fevilfilename",
    "evilfilename%00.pngextension",
    "a/../../../../../../evilfilename",
    "CON",
    "evilfilename.phpextension",
];

fn hostile_parts(r: &mut Rng) -> Vec<Part> {
    (0..r.range(1, 5))
        .map(|_| {
            let n = r.range(1, 6000);
            Part {
                name: (*r.pick(HOSTILE)).to_string(),
                filename: if r.chance(3, 4) { Some((*r.pick(HOSTILE)).to_string()) } else { None },
                ctype: if r.bool() { Some("image/png".into()) } else { None },
                content: {
                    let b = gen::plain_boundary(r);
                    gen::content(r, &b, n)
                },
            }
        })
        .collect()
}

/// A generated name: nothing of the request in it, a single path component
fn check_fresh_name(p: &Path, parts: &[Part], within: &Path) -> Res {
    ensure!(p.parent() == Some(within), "file {:?} is not directly in {:?}", p, within);
    let name = p.file_name().and_then(|n| n.to_str()).ok_or_else(|| format!("file name of {:?}", p))?.to_string();
    ensure!(!name.is_empty() && name != "." && name != "..", "file name {:?}", name);
    for q in parts {
        for s in [Some(&q.name), q.filename.as_ref()].into_iter().flatten() {
            for piece in s.split(|c: char| !c.is_alphanumeric()).filter(|x| x.len() >= 8) {
                ensure!(!name.to_lowercase().contains(&piece.to_lowercase()), "file name {:?} contains {:?} of the request ({:?})", name, piece, s);
            }
            ensure!(*s != name, "file name {:?} is given by the request", name);
        }
    }
    Ok(())
}

pub fn c17(ctx: &Ctx) {
    ctx.expect(&["relative_paths", 
        "files_saved", "temp_dirs_dropped", "temp_dirs_kept", "temp_dirs_deleted", "perm_dirs_deleted", "existing_files_untouched", "fields_to_temp", "fields_with_filename", "concurrent_saves", "processes",
        "temp_dirs_turned_into_paths", "partial_saves_dropped",
    ]);
    ctx.assume("TMPDIR is a directory of the harness; the user can create files in it");
    let snapshot = || -> HashSet<PathBuf> { scratch::list(scratch::root()).into_iter().map(|x| x.0).collect() };
    let seen: Mutex<HashSet<std::ffi::OsString>> = Default::default();
    // everything that appears in the file system during one save, one at a time
    ctx.serial("places", ctx.n(2500, 40_000), |c| {
        let parts = hostile_parts(&mut c.r);
        let b = gen::simple(&mut c.r, parts);
        let plan = Plan::random(&mut c.r);
        let dir = scratch::fresh("place");
        let existing = dir.join("kept");
        std::fs::write(&existing, b"old").unwrap();
        let threshold = *c.r.pick(&[0u64, 0, 100]);
        let before = snapshot();
        let tmp = scratch::tmp();
        let how = c.r.below(8);
        // directories are also given relative to the current one, and in names that are not UTF-8
        let relative = c.r.chance(1, 3);
        let odd_name = |r: &mut Rng, s: &str| -> PathBuf {
            use std::os::unix::ffi::OsStringExt;
            let mut v = s.as_bytes().to_vec();
            if r.chance(1, 4) {
                v.extend_from_slice(b"-\xff\xfe \xc3");
            }
            std::ffi::OsString::from_vec(v).into()
        };
        let (load, one, two) = (odd_name(&mut c.r, "load"), odd_name(&mut c.r, "one"), odd_name(&mut c.r, "two"));
        let two = if relative && c.r.bool() { PathBuf::new() } else { two };
        let given = |p: PathBuf| if relative { p } else { dir.join(p) };
        // an absolute path replaces what it is joined to
        let abs = |p: &Path| dir.join(p);
        let home = std::env::current_dir().unwrap();
        if relative {
            std::env::set_current_dir(&dir).unwrap();
        }
        let mut what = String::new();
        let res = guard(|| -> Res {
            let root = scratch::root();
            let mut mp = decoder(&b, &plan);
            let new_files = |before: &HashSet<PathBuf>| -> Vec<PathBuf> { snapshot().difference(before).map(|p| root.join(p)).filter(|p| p.is_file()).collect() };
            let new_all = |before: &HashSet<PathBuf>| -> Vec<PathBuf> { snapshot().difference(before).map(|p| root.join(p)).collect() };
            if how < 4 {
                // whole requests
                let (mut want_dir, temp) = match how {
                    0 => (dir.join("up").join(&load), false),
                    1 | 2 => (tmp.clone(), true),
                    _ => (dir.clone(), true),
                };
                let long = format!("chosen-{}-", "p".repeat(c.r.below(120)));
                let prefix = ["", "multipart-rs", *c.r.pick(&["chosen-prefix", "", ".hidden ü", &long]), "xyz"][how];
                let sb = mp.save().memory_threshold(threshold).size_limit(if c.r.chance(1, 6) { Some(50) } else { None });
                let r = match how {
                    0 => sb.with_dir(given(Path::new("up").join(&load))),
                    1 => sb.temp(),
                    2 => sb.temp_with_prefix(prefix),
                    _ => sb.with_temp_dir(tempfile::Builder::new().prefix(prefix).tempdir_in(&dir).unwrap()),
                };
                let (e, partial) = match r {
                    SaveResult::Full(e) => (e, None),
                    SaveResult::Partial(p, _) => (p.entries, p.partial.and_then(|p| p.dest)),
                    SaveResult::Error(e) => fail!("{:?}", e),
                };
                let at = abs(e.save_dir.as_path());
                ensure!(e.save_dir.is_temporary() == temp, "is_temporary() is {} for {:?}", e.save_dir.is_temporary(), at);
                if temp {
                    ensure!(at.parent() == Some(&want_dir), "temporary directory {:?} is not in {:?}", at, want_dir);
                    let n = at.file_name().unwrap().to_str().unwrap();
                    ensure!(n.starts_with(prefix), "temporary directory {:?}, prefix {:?}", at, prefix);
                    ensure!(seen.lock().unwrap().insert(n.into()), "directory name {:?} was used twice", n);
                    want_dir = at.clone();
                } else {
                    ensure!(at == want_dir, "save_dir is {:?}, chosen was {:?}", at, want_dir);
                }
                for p in new_all(&before) {
                    ensure!(p.starts_with(&want_dir) || want_dir.starts_with(&p), "created {:?}, outside of {:?}", p, want_dir);
                }
                let mut paths: Vec<PathBuf> = vec![];
                for f in e.fields.values().flatten() {
                    if let SavedData::File(ref p, _) = f.data {
                        paths.push(abs(p));
                    }
                }
                if let Some(SavedData::File(ref p, _)) = partial {
                    paths.push(abs(p));
                }
                for p in &paths {
                    check_fresh_name(p, &b.parts, &want_dir)?;
                    ensure!(seen.lock().unwrap().insert(p.file_name().unwrap().into()), "file name {:?} was used twice", p);
                    c.count("files_saved");
                }
                let mut made = new_files(&before);
                made.sort();
                paths.sort();
                ensure!(made == paths, "files created {:?}, reported {:?}", made, paths);
                let contents: Vec<Vec<u8>> = paths.iter().map(|p| std::fs::read(p).unwrap()).collect();
                let intact = |paths: &[PathBuf]| paths.iter().zip(&contents).all(|(p, c)| std::fs::read(p).ok().as_ref() == Some(c));
                let mut e = e;
                let end = c.r.below(5);
                what = format!("end {}", end);
                match end {
                    0 => {
                        drop(e);
                        if temp {
                            ensure!(!at.exists(), "{:?} still exists after dropping the entries", at);
                            c.count("temp_dirs_dropped");
                            if partial.is_some() {
                                c.count("partial_saves_dropped");
                            }
                        } else {
                            ensure!(intact(&paths), "files of a permanent directory vanished with the entries");
                        }
                    }
                    1 => {
                        e.save_dir.keep();
                        ensure!(!e.save_dir.is_temporary() && abs(e.save_dir.as_path()) == at, "after keep(): {:?}", e.save_dir);
                        e.save_dir.keep();
                        ensure!(abs(e.save_dir.as_path()) == at, "after keep() again: {:?}", e.save_dir);
                        ensure!(intact(&paths), "keep() lost files");
                        drop(e);
                        ensure!(intact(&paths) && (at.exists() || paths.is_empty()), "{:?} did not stay", at);
                        if temp {
                            ensure!(at.exists(), "the kept directory {:?} is gone", at);
                            c.count("temp_dirs_kept");
                        }
                    }
                    2 => {
                        let Entries { save_dir, .. } = e;
                        let p = abs(&save_dir.into_path());
                        ensure!(p == at, "into_path() gave {:?} for {:?}", p, at);
                        ensure!(intact(&paths), "into_path() lost files");
                        if temp {
                            ensure!(at.exists(), "{:?} is gone", at);
                            c.count("temp_dirs_turned_into_paths");
                        }
                    }
                    3 => {
                        let Entries { save_dir, .. } = e;
                        let existed = at.exists();
                        let r = save_dir.delete();
                        ensure!(!at.exists(), "{:?} still exists after delete()", at);
                        ensure!(r.is_ok() || !existed, "delete() failed: {:?}", r);
                        ensure!(std::fs::read(&existing).unwrap() == b"old", "delete() removed other files");
                        // success means that nothing is left
                        let odd = dir.join("no-directory");
                        std::fs::write(&odd, b"a file").unwrap();
                        let r = SaveDir::Perm(odd.clone()).delete();
                        ensure!(r.is_err() || !odd.exists(), "delete() reported success, but {:?} is still there", odd);
                        let _ = std::fs::remove_file(&odd);
                        c.count(if temp { "temp_dirs_deleted" } else { "perm_dirs_deleted" });
                    }
                    _ => {
                        e.save_dir.keep();
                        let Entries { save_dir, .. } = e;
                        if at.exists() {
                            save_dir.delete().map_err(|e| format!("delete() after keep(): {:?}", e))?;
                        }
                        ensure!(!at.exists(), "{:?} still exists after keep() and delete()", at);
                    }
                }
                if at.starts_with(&tmp) {
                    let _ = std::fs::remove_dir_all(&at);
                }
            } else {
                // single fields
                let mut made_here: Vec<PathBuf> = vec![];
                loop {
                    let mut f = match mp.read_entry() {
                        Ok(Some(f)) => f,
                        Ok(None) => break,
                        Err(e) => fail!("{:?}", e),
                    };
                    let before = snapshot();
                    // a name or a path below
                    let sub = c.r.chance(1, 3).then(|| format!("sub-{}", c.r.u64()));
                    let chosen = match &sub {
                        Some(s) => format!("{}/{}chosen-{}.x", s, c.r.pick(&["", "a/", "..a/.b/"]), c.r.u64()),
                        None => format!("{}chosen-{}", c.r.pick(&["", ".", "..", "\u{e9} "]), c.r.u64()),
                    };
                    let r = {
                        let mut sb = f.data.save().memory_threshold(threshold);
                        match how {
                            4 => sb.temp(),
                            5 => sb.with_filename(&chosen),
                            6 => sb.with_dir(given(one.clone())),
                            _ => sb.with_path(given(two.join(&chosen))),
                        }
                    };
                    let created = new_files(&before);
                    match r {
                        SaveResult::Full(SavedData::File(p, _)) => {
                            let p = abs(&p);
                            if relative && how >= 6 {
                                c.count("relative_paths");
                            }
                            c.count("files_saved");
                            ensure!(created == [p.clone()], "saved at {:?}, created {:?}", p, created);
                            match how {
                                4 => {
                                    c.count("fields_to_temp");
                                    check_fresh_name(&p, &b.parts, &tmp)?;
                                }
                                5 => {
                                    c.count("fields_with_filename");
                                    ensure!(p == tmp.join(&chosen), "saved at {:?}, chosen was {:?} in {:?}", p, chosen, tmp);
                                }
                                6 => check_fresh_name(&p, &b.parts, &dir.join(&one))?,
                                _ => ensure!(p == dir.join(&two).join(&chosen), "saved at {:?}", p),
                            }
                            ensure!(seen.lock().unwrap().insert(p.file_name().unwrap().into()), "file name {:?} was used twice", p);
                            made_here.push(p);
                            if let (5, Some(s)) = (how, &sub) {
                                made_here.push(tmp.join(s));
                            }
                        }
                        SaveResult::Full(_) => ensure!(created.is_empty(), "in memory, but created {:?}", created),
                        o => fail!("{}", outcome(&o)),
                    }
                }
                for p in new_all(&before) {
                    let base = if how < 6 { tmp.clone() } else { dir.join(if how == 6 { &one } else { &two }) };
                    ensure!(p.starts_with(&base), "created {:?}, outside of {:?}", p, base);
                }
                for p in made_here {
                    let _ = if p.is_dir() { std::fs::remove_dir_all(p) } else { std::fs::remove_file(p) };
                }
            }
            ensure!(std::fs::read(&existing).unwrap() == b"old", "an existing file was changed");
            Ok(())
        })
        .and_then(|x| x);
        std::env::set_current_dir(&home).unwrap();
        c.eval();
        c.distinct(format!("{:x} {} {}", crate::rng::hash(&b.bytes), how, threshold).as_bytes());
        c.sample(|| format!("{} fields with names like {:?}, destination {}", b.parts.len(), b.parts[0].filename, how));
        if res.is_err() {
            describe_body(c, &b, &plan, format!("destination {}, threshold {}, {}", how, threshold, what));
        }
        // nothing may be left in TMPDIR
        let left = scratch::list(&tmp);
        if res.is_ok() && !left.is_empty() {
            scratch::done(&dir);
            describe_body(c, &b, &plan, format!("destination {}, {}", how, what));
            fail!("left behind in the temporary directory: {:?}", left);
        }
        scratch::done(&dir);
        res
    });
    // existing files, also through links
    ctx.cases("existing", ctx.n(2000, 30_000), |c| {
        let t = target(&mut c.r, 5000);
        let plan = save_plan(&mut c.r, &t);
        let dir = scratch::fresh("exist");
        let old = c.r.bytes(300);
        let path = dir.join("precious");
        std::fs::write(&path, &old).unwrap();
        let meta = std::fs::metadata(&path).unwrap();
        let link = dir.join("link");
        std::os::unix::fs::symlink(&path, &link).unwrap();
        let via = if c.r.bool() { link } else { path.clone() };
        let threshold = *c.r.pick(&[0u64, 0, 10, 10240]);
        let n = t.body.parts[t.at].content.len() as u64;
        let res = guard(|| {
            at_field(&t, Src::new(t.body.bytes.clone(), plan.clone()), |f| {
                let r = f.data.save().size_limit(None).memory_threshold(threshold).with_path(&via);
                if n > threshold {
                    ensure!(!matches!(r, SaveResult::Full(_)), "saved over an existing file: {}", outcome(&r));
                }
                rest_of(f, t.body.bytes.len())?;
                Ok(())
            })
        })
        .and_then(|x| x);
        let now = std::fs::metadata(&path).unwrap();
        let same = std::fs::read(&path).unwrap() == old && now.modified().unwrap() == meta.modified().unwrap() && now.len() == meta.len();
        scratch::done(&dir);
        c.eval();
        c.count("existing_files_untouched");
        c.distinct(&t.body.bytes);
        if res.is_err() || !same {
            describe(c, &t, &plan, format!("threshold {}", threshold));
        }
        res?;
        ensure!(same, "an existing file was modified");
        Ok(())
    });
    // many threads saving to the same places
    ctx.cases("threads", ctx.n(400, 6000), |c| {
        let shared = scratch::root().join("shared/dir");
        let parts = hostile_parts(&mut c.r);
        let b = gen::simple(&mut c.r, parts);
        let plan = Plan::random(&mut c.r);
        let res = guard(|| -> Res {
            let mut keep = vec![];
            for k in 0..3 {
                let mut mp = decoder(&b, &plan);
                let sb = mp.save().memory_threshold(0).size_limit(None);
                let e = match if k == 0 { sb.temp() } else { sb.with_dir(&shared) } {
                    SaveResult::Full(e) => e,
                    o => fail!("{:?}", o.into_opt_both().1),
                };
                same_entries(&e, &b.parts)?;
                if k == 0 {
                    ensure!(seen.lock().unwrap().insert(e.save_dir.as_path().file_name().unwrap().into()), "directory {:?} was used twice", e.save_dir);
                }
                keep.push(e);
                c.count("concurrent_saves");
            }
            // still the same after the other threads have gone on
            for e in &keep {
                same_entries(e, &b.parts).map_err(|e| format!("looked at again later: {}", e))?;
                for f in e.fields.values().flatten() {
                    if let SavedData::File(ref p, _) = f.data {
                        check_fresh_name(p, &b.parts, e.save_dir.as_path())?;
                        ensure!(seen.lock().unwrap().insert(p.file_name().unwrap().into()), "file name {:?} was used twice", p);
                        c.count("files_saved");
                    }
                }
            }
            let dirs: Vec<PathBuf> = keep.iter().filter(|e| e.save_dir.is_temporary()).map(|e| e.save_dir.as_path().to_path_buf()).collect();
            drop(keep);
            for d in dirs {
                ensure!(!d.exists(), "temporary directory {:?} still exists", d);
                c.count("temp_dirs_dropped");
            }
            Ok(())
        })
        .and_then(|x| x);
        c.eval();
        c.distinct(&b.bytes);
        if res.is_err() {
            describe_body(c, &b, &plan, "several threads".into());
        }
        res
    });
    // two processes saving to one directory at the same time
    ctx.serial("processes", ctx.n(3, 20), |c| {
        let dir = scratch::fresh("procs");
        let per = 150;
        let spawn = || {
            std::process::Command::new(std::env::current_exe().unwrap())
                .arg("save-many")
                .arg(&dir)
                .arg(per.to_string())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::piped())
                .spawn()
                .map_err(|e| format!("CHECK: {}", e))
        };
        let kids = [spawn()?, spawn()?, spawn()?];
        let mut names = HashSet::new();
        for k in kids {
            let out = k.wait_with_output().map_err(|e| e.to_string())?;
            ensure!(out.status.success(), "saving failed in a process: {}", String::from_utf8_lossy(&out.stderr));
            for l in String::from_utf8_lossy(&out.stdout).lines() {
                ensure!(names.insert(l.to_string()), "{} was used by two processes", l);
            }
            c.count("processes");
        }
        ensure!(names.len() == 3 * per, "{} names of {} saves", names.len(), 3 * per);
        let n = scratch::list(&dir).len();
        scratch::done(&dir);
        c.eval();
        c.distinct(&[c.idx as u8]);
        ensure!(n == 3 * per, "{} files of {} saves", n, 3 * per);
        Ok(())
    });
}

/// Run in a child process: save `n` fields to files in `dir`, print the paths.
pub fn save_many(dir: &Path, n: usize) -> Result<(), String> {
    let mut r = Rng::new(1);
    for _ in 0..n {
        let b = gen::simple(&mut r, vec![gen::mk("a", Some("b"), None, b"some data".to_vec())]);
        let mut mp = decoder(&b, &Plan::All);
        let mut f = mp.read_entry().map_err(|e| e.to_string())?.ok_or("no field")?;
        match f.data.save().memory_threshold(0).with_dir(dir) {
            SaveResult::Full(SavedData::File(p, _)) => println!("{}", p.display()),
            o => return Err(outcome(&o)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn read_patterns(c: &mut Case, d: &SavedData) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut rd = d.readable().map_err(|e| format!("readable(): {:?}", e))?;
    match c.r.below(3) {
        0 => {
            rd.read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        1 => loop {
            let n = {
                let b = rd.fill_buf().map_err(|e| e.to_string())?;
                let n = if b.is_empty() { 0 } else { c.r.range(1, b.len()) };
                out.extend_from_slice(&b[..n]);
                n
            };
            if n == 0 {
                break;
            }
            rd.consume(n);
        },
        _ => loop {
            let mut b = vec![0; c.r.range(1, 3000)];
            let n = rd.read(&mut b).map_err(|e| e.to_string())?;
            if n == 0 {
                break;
            }
            out.extend_from_slice(&b[..n]);
        },
    }
    Ok(out)
}

fn account(c: &mut Case, d: &SavedData) -> Res {
    let data = read_patterns(c, d)?;
    c.count("data_accounted");
    ensure!(d.size() == data.len() as u64, "size() is {}, {} bytes readable ({})", d.size(), data.len(), variant(d));
    match d {
        SavedData::File(p, n) => {
            let len = std::fs::metadata(p).map_err(|e| format!("{:?}: {}", p, e))?.len();
            ensure!(*n == len, "file {:?} has {} bytes, reported {}", p, len, n);
            ensure!(!d.is_memory(), "is_memory() for a file");
        }
        SavedData::Text(s) => ensure!(d.is_memory() && s.len() as u64 == d.size(), "text of {} bytes", s.len()),
        SavedData::Bytes(b) => ensure!(d.is_memory() && b.len() as u64 == d.size(), "bytes: {}", b.len()),
    }
    Ok(())
}

fn account_entries(c: &mut Case, e: &Entries) -> Res {
    let n: usize = e.fields.values().map(|v| v.len()).sum();
    ensure!(e.fields_count() as usize == n, "fields_count() is {}, {} fields are there", e.fields_count(), n);
    ensure!(e.is_empty() == (n == 0), "is_empty() is {} with {} fields", e.is_empty(), n);
    for (k, v) in &e.fields {
        for f in v {
            ensure!(*f.headers.name == **k, "field {:?} stored under {:?}", f.headers.name, k);
            account(c, &f.data)?;
        }
    }
    // the dump
    let mut dump = vec![];
    e.write_debug(&mut dump).map_err(|e| format!("write_debug: {:?}", e))?;
    for (k, v) in &e.fields {
        let line = format!("Field {:?} has {} entries:", k, v.len());
        ensure!(gen::find(&dump, line.as_bytes()).is_some(), "the debug dump lacks {:?}", line);
        let mut at = gen::find(&dump, line.as_bytes()).unwrap() + line.len();
        for f in v {
            let d = saved_bytes(&f.data)?;
            // in order, after the line of its name
            match gen::find(&dump[at..], &d) {
                Some(i) => at += i + d.len(),
                None => fail!("the debug dump lacks the content of a field {:?}: {}", k, show(&d)),
            }
        }
    }
    if !dump.is_empty() {
        let mut room = vec![0u8; c.r.below(dump.len())];
        ensure!(e.write_debug(&mut room[..]).is_err(), "the debug dump was cut off, but reported as written");
    }
    c.count("dumps_checked");
    Ok(())
}

/// Entries of one to four fields, and what they hold
fn dumped(seed: u64, dir: &std::path::Path) -> Result<(Entries, Vec<Vec<u8>>), String> {
    let mut r = Rng::new(seed);
    let parts: Vec<Part> = (0..r.range(1, 4))
        .map(|i| {
            let n = r.range(1, 3000);
            let v = if r.bool() { gen::utf8(&mut r, n).into_bytes() } else { r.bytes(n) };
            gen::mk(&format!("d{}", i % 3), if r.bool() { Some("x.bin") } else { None }, None, v)
        })
        .collect();
    let b = gen::encode(&mut r, "dumped", parts, &gen::Layout::plain());
    match Multipart::with_body(&b.bytes[..], "dumped").save().memory_threshold(1000).with_dir(dir) {
        SaveResult::Full(e) => Ok((e, b.parts.into_iter().map(|p| p.content).collect())),
        o => Err(format!("{:?}", o.into_opt_both().1)),
    }
}

/// In a child process: prints such entries to standard output. 0: reported as printed, 9: as failed
pub fn print_child(seed: u64, dir: &str) -> i32 {
    match dumped(seed, dir.as_ref()) {
        Ok((e, _)) => match e.print_debug() {
            Ok(()) => 0,
            Err(_) => 9,
        },
        Err(e) => {
            eprintln!("{}", e);
            3
        }
    }
}

pub fn c21(ctx: &Ctx) {
    ctx.expect(&["dumps_printed", "dumps_to_full_output", "data_accounted", "dumps_checked", "partials_kept", "partials_without_data", "recounted", "files_cut_by_rlimit", "resumed", "full_requests", "large_fields", "large_kept"]);
    ctx.cases("entries", ctx.n(12_000, 200_000), |c| {
        let b = request(&mut c.r, 7, 9000);
        let plan = Plan::random(&mut c.r);
        let cfg = Cfg {
            limit: match c.r.below(3) {
                0 => Limit::No,
                1 => Limit::At(c.r.below(9000) as u64),
                _ => Limit::At(c.r.below(300) as u64),
            },
            threshold: *c.r.pick(&[0, 1, 100, 2000, 10240, u64::MAX]),
            default_threshold: c.r.chance(1, 6),
            policy: *c.r.pick(&[Policy::Try, Policy::Force, Policy::Ignore]),
            order: c.r.u64(),
        };
        let count = if c.r.chance(1, 4) { Some(c.r.below(6) as u32) } else { None };
        let dir = scratch::fresh("acc");
        let how = c.r.below(5);
        let res = guard(|| -> Res {
            let mut mp = decoder(&b, &plan);
            let mut sb = configure!(mp.save(), cfg);
            sb = sb.count_limit(count);
            let mut e = match save_request(sb, how, &dir) {
                SaveResult::Full(e) => {
                    c.count("full_requests");
                    e
                }
                SaveResult::Partial(p, _) => {
                    account_entries(c, &p.entries)?;
                    let before = p.entries.fields_count();
                    let saved: usize = p.entries.fields.values().map(|v| v.len()).sum();
                    match p.partial {
                        Some(ref part) => {
                            let name = part.source.headers.name.clone();
                            let filename = part.source.headers.filename.clone();
                            let ctype = part.source.headers.content_type.clone();
                            let had = p.entries.fields.get(&*name).map_or(0, |v| v.len());
                            match part.dest {
                                Some(ref d) => {
                                    account(c, d)?;
                                    let data = saved_bytes(d)?;
                                    let var = variant(d);
                                    let e = p.keep_partial();
                                    let now = e.fields.get(&*name).map_or(0, |v| v.len());
                                    let added = e.fields.values().map(|v| v.len()).sum::<usize>() - saved;
                                    if !data.is_empty() {
                                        ensure!(added == 1 && now == had + 1, "keep_partial() added {} fields ({} named {:?})", added, now - had, name);
                                    } else {
                                        ensure!(added <= 1, "keep_partial() added {} fields", added);
                                    }
                                    if added == 1 {
                                        ensure!(e.fields_count() == before + 1, "keep_partial(): {} fields counted, {} before", e.fields_count(), before);
                                        let f = e.fields[&*name].last().unwrap();
                                        ensure!(saved_bytes(&f.data)? == data && variant(&f.data) == var, "keep_partial() altered the data");
                                        ensure!(f.headers.name == name && f.headers.filename == filename && f.headers.content_type == ctype, "keep_partial() altered the headers: {:?}, were {:?} {:?} {:?}", f.headers, name, filename, ctype);
                                    }
                                    c.count("partials_kept");
                                    e
                                }
                                None => {
                                    let e = p.keep_partial();
                                    ensure!(e.fields_count() == before, "keep_partial() without data added a field");
                                    c.count("partials_without_data");
                                    e
                                }
                            }
                        }
                        None => p.into(),
                    }
                }
                SaveResult::Error(e) => fail!("{:?}", e),
            };
            account_entries(c, &e)?;
            // changed by hand, then recounted
            if c.r.bool() {
                if let Some(k) = e.fields.keys().min().cloned() {
                    let how = c.r.below(5);
                    if how == 4 {
                        // an empty list is left behind
                        e.fields.get_mut(&k).unwrap().clear();
                        let n: usize = e.fields.values().map(|v| v.len()).sum();
                        let r = e.recount_fields();
                        ensure!(r as usize == n && e.fields_count() == r, "recount_fields() gave {}, {} fields are there, and an empty list", r, n);
                        e.fields.remove(&k);
                    } else if how == 0 {
                        e.fields.remove(&k);
                    } else if how == 1 {
                        e.fields.clear();
                    } else if how == 2 {
                        // moved to new entries, then put back in part
                        let mut fresh = Entries::new(SaveDir::Perm(dir.clone()));
                        ensure!(fresh.is_empty() && fresh.fields_count() == 0, "new entries are not empty");
                        let v = e.fields.remove(&k).unwrap();
                        fresh.fields.insert(k.clone(), v);
                        ensure!(!fresh.is_empty(), "is_empty() although a field was added by the caller");
                        fresh.recount_fields();
                        account_entries(c, &fresh)?;
                    } else {
                        e.fields.get_mut(&k).unwrap().pop();
                        if e.fields[&k].is_empty() {
                            e.fields.remove(&k);
                        }
                    }
                    let n: usize = e.fields.values().map(|v| v.len()).sum();
                    ensure!(e.is_empty() == (n == 0), "is_empty() is {} with {} fields left by the caller", e.is_empty(), n);
                    let r = e.recount_fields();
                    ensure!(r as usize == n && e.fields_count() == r, "recount_fields() gave {}, {} fields are there", r, n);
                    c.count("recounted");
                    account_entries(c, &e)?;
                }
            }
            // resume with what is left of the request
            let present: usize = e.fields.values().map(|v| v.len()).sum();
            match mp.save().size_limit(None).count_limit(None).memory_threshold(cfg.threshold).with_entries(e) {
                SaveResult::Full(e) => {
                    let n: usize = e.fields.values().map(|v| v.len()).sum();
                    ensure!(n >= present, "resuming lost fields: {} of {}", n, present);
                    c.count("resumed");
                    account_entries(c, &e)
                }
                o => fail!("resuming: {:?}", o.into_opt_both().1),
            }
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?} {:?}", crate::rng::hash(&b.bytes), cfg, count).as_bytes());
        c.sample(|| format!("{} fields, {:?}, count limit {:?}", b.parts.len(), cfg, count));
        if res.is_err() {
            describe_body(c, &b, &plan, format!("{:?}, count limit {:?}, destination {}", cfg, count, how));
        }
        res
    });
    ctx.cases("crowd", ctx.n(1, 6), |c| {
        let (b, plan, dir) = crowd(c);
        let n = b.parts.len();
        let res = guard(|| match decoder(&b, &plan).save().count_limit(None).memory_threshold(u64::MAX).with_dir(&dir) {
            SaveResult::Full(mut e) => {
                ensure!(e.fields_count() as usize == n, "fields_count() is {} of {} fields", e.fields_count(), n);
                ensure!(e.recount_fields() as usize == n && e.fields_count() as usize == n, "recounted to {} of {} fields", e.fields_count(), n);
                Ok(())
            }
            o => Err(format!("{:?}", o.into_opt_both().1)),
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.max("most_fields_counted", n as u64);
        c.distinct(format!("crowd {} {}", n, c.idx).as_bytes());
        res
    });
    // the dump to standard output, of a child process
    let exe = std::env::current_exe().unwrap();
    ctx.cases("printed", ctx.n(20, 200), |c| {
        let seed = c.r.u64();
        let dir = scratch::fresh("print");
        let full = c.r.chance(1, 3);
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["print-debug".to_string(), seed.to_string(), dir.join("child").display().to_string()]);
        if full {
            cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("(harness) {:?}", e))?);
        }
        let out = cmd.output().map_err(|e| format!("(harness) {:?}", e))?;
        let want = dumped(seed, &dir.join("own"));
        scratch::done(&dir);
        c.eval();
        c.distinct(&seed.to_le_bytes());
        let (_, contents) = want?;
        if full {
            c.count("dumps_to_full_output");
            ensure!(out.status.code() == Some(9), "a dump of {} fields to a full device was not reported (status {:?}, seed {}) {}", contents.len(), out.status, seed, String::from_utf8_lossy(&out.stderr));
        } else {
            c.count("dumps_printed");
            ensure!(out.status.code() == Some(0), "a dump to standard output failed (status {:?}, seed {}) {}", out.status, seed, String::from_utf8_lossy(&out.stderr));
            for d in &contents {
                ensure!(gen::find(&out.stdout, d).is_some(), "the printed dump lacks the content of a field (seed {}): {}", seed, show(d));
            }
        }
        Ok(())
    });
    // fields of several megabytes, in memory and in files
    ctx.cases("large", ctx.n(10, 300), |c| {
        let n = *c.r.pick(&[60_000usize, 300_000, 1 << 20, 3 << 20, 6 << 20]) + c.r.below(70_000);
        let mut v = c.r.bytes(n);
        let text = c.r.bool();
        if text {
            v.iter_mut().for_each(|b| *b = b' ' + *b % 90);
        }
        let t = around(&mut c.r, gen::mk("large", Some("l"), if text { Some("text/plain") } else { None }, v));
        let cfg = Cfg {
            limit: match c.r.below(3) {
                0 => Limit::No,
                1 => Limit::At(n as u64),
                _ => Limit::At(c.r.below(n) as u64),
            },
            threshold: *c.r.pick(&[0, 10240, 1 << 20, (1 << 20) + 5, n as u64, u64::MAX]),
            default_threshold: c.r.chance(1, 4),
            policy: *c.r.pick(&[Policy::Try, Policy::Force, Policy::Ignore]),
            order: c.r.u64(),
        };
        let plan = if c.r.bool() { Plan::All } else { Plan::Fixed(c.r.range(500, 100_000)) };
        let dir = scratch::fresh("large");
        let res = guard(|| -> Res {
            let mut mp = decoder(&t.body, &plan);
            let e = match configure!(mp.save(), cfg).with_dir(&dir) {
                SaveResult::Full(e) => e,
                SaveResult::Partial(p, _) => {
                    let part = p.partial.as_ref().ok_or("the field is lost")?;
                    if let Some(ref d) = part.dest {
                        account(c, d)?;
                    }
                    c.count("large_kept");
                    p.keep_partial()
                }
                SaveResult::Error(e) => fail!("{:?}", e),
            };
            c.count("large_fields");
            account_entries(c, &e)
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{} {:?} {:?}", n, cfg, plan).as_bytes());
        if res.is_err() {
            c.note(format!("a field of {} bytes (text: {}), {:?}, delivered as {:?}", n, text, cfg, plan));
        }
        res
    });
    // sizes after faults
    ctx.serial("faults", ctx.n(1500, 20_000), |c| {
        let t = target(&mut c.r, 30000);
        let content = t.body.parts[t.at].content.clone();
        let plan = save_plan(&mut c.r, &t);
        let cfg = Cfg { threshold: c.r.below(content.len() / 2 + 1) as u64, default_threshold: false, ..cfg_for(&mut c.r, content.len()) };
        let cap = c.r.below(content.len() + 100) as u64;
        let dir = scratch::fresh("accf");
        let whole = c.r.bool();
        let res = guard(|| -> Res {
            if whole {
                let mut mp = decoder(&t.body, &plan);
                let r = {
                    let sb = configure!(mp.save(), cfg);
                    let _lim = scratch::FileLimit::set(cap);
                    sb.with_dir(&dir)
                };
                match r {
                    SaveResult::Full(e) => account_entries(c, &e),
                    SaveResult::Partial(p, _) => {
                        let e = p.keep_partial();
                        account_entries(c, &e)
                    }
                    SaveResult::Error(e) => fail!("{:?}", e),
                }
            } else {
                at_field(&t, Src::new(t.body.bytes.clone(), plan.clone()), |f| {
                    let r = {
                        let mut sb = configure!(f.data.save(), cfg);
                        let _lim = scratch::FileLimit::set(cap);
                        sb.with_dir(&dir)
                    };
                    rest_of(f, t.body.bytes.len())?;
                    match r {
                        SaveResult::Full(d) => account(c, &d),
                        SaveResult::Partial(d, why) => {
                            if let (SavedData::File(..), PartialReason::IoError(_)) = (&d, &why) {
                                c.count("files_cut_by_rlimit");
                            }
                            account(c, &d)
                        }
                        SaveResult::Error(e) => fail!("{:?}", e),
                    }
                })
            }
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?} {}", crate::rng::hash(&content), cfg, cap).as_bytes());
        if res.is_err() {
            describe(c, &t, &plan, format!("{:?}; files hold up to {} bytes", cfg, cap));
        }
        res
    });
}

// ---------------------------------------------------------------- C22

#[derive(Debug, Clone, Copy, PartialEq)]
enum Shape {
    Full,
    Io,
    Size,
    Count,
    Utf8,
    Error,
}

const SHAPES: &[Shape] = &[Shape::Full, Shape::Io, Shape::Size, Shape::Count, Shape::Utf8, Shape::Error];

fn reason(s: Shape, kind: ErrorKind) -> PartialReason {
    match s {
        Shape::Io => PartialReason::IoError(io::Error::new(kind, "marker error")),
        Shape::Size => PartialReason::SizeLimit,
        Shape::Count => PartialReason::CountLimit,
        _ => PartialReason::Utf8Error(std::str::from_utf8(b"ab\xff").unwrap_err()),
    }
}

fn made<S, P>(s: Shape, kind: ErrorKind, full: S, partial: P) -> SaveResult<S, P> {
    match s {
        Shape::Full => SaveResult::Full(full),
        Shape::Error => SaveResult::Error(io::Error::new(kind, "marker error")),
        other => SaveResult::Partial(partial, reason(other, kind)),
    }
}

fn is_marker(e: &io::Error, kind: ErrorKind) -> bool {
    e.kind() == kind && e.to_string() == "marker error"
}

/// All conversions of one result; `make` makes it anew, `good` recognises the data that must survive.
fn conversions<S, P: Into<S>>(s: Shape, kind: ErrorKind, make: &dyn Fn() -> SaveResult<S, P>, good: &dyn Fn(&S) -> bool) -> Res {
    let has_data = s != Shape::Error;
    let has_io = matches!(s, Shape::Io | Shape::Error);
    // okish
    match make().okish() {
        Some(d) => ensure!(has_data && good(&d), "okish() of {:?} returned other data", s),
        None => ensure!(!has_data, "okish() of {:?} dropped the data", s),
    }
    // into_opt_both
    let (d, e) = make().into_opt_both();
    match d {
        Some(d) => ensure!(has_data && good(&d), "into_opt_both() of {:?} returned other data", s),
        None => ensure!(!has_data, "into_opt_both() of {:?} dropped the data", s),
    }
    match e {
        Some(e) => ensure!(has_io && is_marker(&e, kind), "into_opt_both() of {:?} returned the error {:?}", s, e),
        None => ensure!(!has_io, "into_opt_both() of {:?} dropped the error", s),
    }
    // into_result
    match make().into_result() {
        Ok(d) => ensure!(has_data && good(&d), "into_result() of {:?} returned other data", s),
        Err(e) => ensure!(!has_data && is_marker(&e, kind), "into_result() of {:?} is {:?}", s, e),
    }
    // into_result_strict
    match make().into_result_strict() {
        Ok(d) => ensure!(!has_io && good(&d), "into_result_strict() of {:?} is a success", s),
        Err(e) => ensure!(has_io && is_marker(&e, kind), "into_result_strict() of {:?} is {:?}", s, e),
    }
    // map
    let mut calls = 0;
    let m = make().map(|d| {
        calls += 1;
        good(&d)
    });
    ensure!(calls == has_data as u32, "map() of {:?} called the function {} times", s, calls);
    match m {
        SaveResult::Full(ok) => ensure!(s == Shape::Full && ok, "map() of {:?} is full", s),
        SaveResult::Partial(ok, r) => {
            ensure!(ok, "map() of {:?} was given other data", s);
            let same = match (s, &r) {
                (Shape::Io, PartialReason::IoError(e)) => is_marker(e, kind),
                (Shape::Size, PartialReason::SizeLimit) | (Shape::Count, PartialReason::CountLimit) => true,
                (Shape::Utf8, PartialReason::Utf8Error(e)) => e.valid_up_to() == 2,
                _ => false,
            };
            ensure!(same, "map() turned {:?} into {:?}", s, r);
        }
        SaveResult::Error(e) => ensure!(s == Shape::Error && is_marker(&e, kind), "map() of {:?} is {:?}", s, e),
    }
    Ok(())
}

pub fn c22(ctx: &Ctx) {
    ctx.expect(&["results_converted", "entries_results_converted", "read_results", "panics_as_documented", "saved_requests_converted"]);
    let kinds = [ErrorKind::Other, ErrorKind::NotFound, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::AlreadyExists, ErrorKind::UnexpectedEof];
    ctx.cases("saved", SHAPES.len() * kinds.len() * ctx.n(40, 400), |c| {
        let s = SHAPES[c.idx % SHAPES.len()];
        let kind = kinds[c.idx / SHAPES.len() % kinds.len()];
        let tag = c.r.u64();
        // what a full and what a partial result hold differ
        let data = |t: u64| match t % 3 {
            0 => SavedData::Text(format!("text {}", t)),
            1 => SavedData::Bytes(format!("bytes {}", t).into_bytes()),
            _ => SavedData::File(format!("/nowhere/{}", t).into(), t),
        };
        let same = |d: &SavedData, t: u64| format!("{:?}", d) == format!("{:?}", data(t));
        let wanted = if s == Shape::Full { tag } else { tag.wrapping_add(1) };
        let res = guard(|| -> Res {
            conversions::<SavedData, SavedData>(s, kind, &|| made(s, kind, data(tag), data(tag.wrapping_add(1))), &|d| same(d, wanted))?;
            conversions::<u64, u64>(s, kind, &|| made(s, kind, tag, tag.wrapping_add(1)), &|d| *d == wanted)?;
            // reasons
            if !matches!(s, Shape::Full | Shape::Error) {
                let u = guard(|| reason(s, kind).unwrap_err());
                let x = guard(|| reason(s, kind).expect_err("the given message"));
                if s == Shape::Io {
                    ensure!(u.map_or(false, |e| is_marker(&e, kind)) && x.map_or(false, |e| is_marker(&e, kind)), "unwrap_err() and expect_err() of an I/O error");
                } else {
                    ensure!(u.is_err(), "unwrap_err() of {:?} did not panic", s);
                    match x {
                        Ok(_) => fail!("expect_err() of {:?} did not panic", s),
                        Err(m) => ensure!(m.contains("the given message"), "expect_err() panicked with {:?}", m),
                    }
                    c.count("panics_as_documented");
                }
            }
            Ok(())
        })
        .and_then(|x| x);
        c.count("results_converted");
        c.obs.evaluations += 10;
        c.distinct(format!("{:?} {:?} {}", s, kind, tag % 3).as_bytes());
        c.sample(|| format!("{:?} with {:?}", s, kind));
        if res.is_err() {
            c.note(format!("{:?} {:?} tag {}", s, kind, tag));
        }
        res
    });
    // whole requests, as they come out of saving
    ctx.cases("entries", ctx.n(4000, 60_000), |c| {
        let b = request(&mut c.r, 6, 3000);
        let plan = Plan::Random(c.r.u64(), 400);
        let limit = if c.r.bool() { None } else { Some(c.r.below(1500) as u64) };
        let count = if c.r.chance(1, 3) { Some(c.r.below(4) as u32) } else { None };
        let policy = c.r.below(2);
        let fault = if c.r.chance(1, 3) { vec![Fault { at: c.r.below(40), kind: ErrorKind::ConnectionReset }] } else { vec![] };
        let bad_dir = c.r.chance(1, 6);
        let dir = scratch::fresh("conv");
        let conv = c.r.below(7);
        let threshold = *c.r.pick(&[0u64, 100, 10240]);
        let res = guard(|| -> Res {
            let fresh = |sub: &str| -> (Multipart<Src>, PathBuf) {
                let src = Src::new(b.bytes.clone(), plan.clone()).with_faults(fault.clone());
                let d = if bad_dir {
                    let f = dir.join("a-file");
                    std::fs::write(&f, b"x").unwrap();
                    f.join("below/dir")
                } else {
                    dir.join(sub)
                };
                (Multipart::with_body(src, b.boundary.as_str()), d)
            };
            macro_rules! run {
                ($sub:expr, $mp:ident) => {{
                    let (m, d) = fresh($sub);
                    $mp = m;
                    let mut sb = $mp.save().size_limit(limit).count_limit(count).memory_threshold(threshold);
                    if policy == 1 {
                        sb = sb.force_text();
                    }
                    sb.with_dir(d)
                }};
            }
            // what it is
            #[allow(unused_assignments)]
            let (shape, fields, io_kind) = {
                let mut _mp;
                match run!("ref", _mp) {
                    SaveResult::Full(e) => (Shape::Full, contents(&e)?, None),
                    SaveResult::Partial(p, r) => {
                        let (s, k) = match r {
                            PartialReason::IoError(e) => (Shape::Io, Some(e.kind())),
                            PartialReason::SizeLimit => (Shape::Size, None),
                            PartialReason::CountLimit => (Shape::Count, None),
                            PartialReason::Utf8Error(_) => (Shape::Utf8, None),
                        };
                        (s, contents(&p.entries)?, k)
                    }
                    SaveResult::Error(e) => (Shape::Error, vec![], Some(e.kind())),
                }
            };
            c.count(match shape {
                Shape::Full => "requests_full",
                Shape::Io => "requests_io_error",
                Shape::Size => "requests_size_limit",
                Shape::Count => "requests_count_limit",
                Shape::Utf8 => "requests_utf8_error",
                Shape::Error => "requests_error",
            });
            let good = |e: &Entries| -> Res {
                let got = contents(e)?;
                ensure!(got == fields, "converting kept {} fields of {}", got.len(), fields.len());
                Ok(())
            };
            let mut _mp;
            let r = run!("conv", _mp);
            let has_data = shape != Shape::Error;
            let has_io = matches!(shape, Shape::Io | Shape::Error);
            let check = |d: Option<Entries>, name: &str, want: bool| -> Res {
                match d {
                    Some(e) => {
                        ensure!(want, "{} of {:?} is a success", name, shape);
                        good(&e).map_err(|m| format!("{} of {:?}: {}", name, shape, m))
                    }
                    None => {
                        ensure!(!want, "{} of {:?} dropped the data", name, shape);
                        Ok(())
                    }
                }
            };
            match conv {
                0 => check(r.into_entries(), "into_entries()", has_data)?,
                1 => check(r.okish(), "okish()", has_data)?,
                2 => {
                    let (d, e) = r.into_opt_both();
                    ensure!(e.as_ref().map(|e| e.kind()) == if has_io { io_kind } else { None }, "into_opt_both() of {:?}: error {:?}", shape, e);
                    check(d, "into_opt_both()", has_data)?;
                }
                3 => match r.into_result() {
                    Ok(e) => check(Some(e), "into_result()", has_data)?,
                    Err(e) => ensure!(!has_data && Some(e.kind()) == io_kind, "into_result() of {:?}: {:?}", shape, e),
                },
                4 => match r.into_result_strict() {
                    Ok(e) => check(Some(e), "into_result_strict()", !has_io)?,
                    Err(e) => ensure!(has_io && Some(e.kind()) == io_kind, "into_result_strict() of {:?}: {:?}", shape, e),
                },
                5 => match r.map(|e| e) {
                    SaveResult::Full(e) => {
                        ensure!(shape == Shape::Full, "map() of {:?} is full", shape);
                        good(&e)?;
                    }
                    SaveResult::Partial(e, _) => {
                        ensure!(has_data && shape != Shape::Full, "map() of {:?} is partial", shape);
                        good(&e)?;
                    }
                    SaveResult::Error(_) => ensure!(!has_data, "map() of {:?} is an error", shape),
                },
                _ => match r {
                    SaveResult::Partial(p, _) => {
                        let e: Entries = p.into();
                        good(&e)?;
                    }
                    SaveResult::Full(e) => good(&e)?,
                    SaveResult::Error(_) => {}
                },
            }
            c.count("entries_results_converted");
            c.count("saved_requests_converted");
            Ok(())
        })
        .and_then(|x| x);
        scratch::done(&dir);
        c.eval();
        c.distinct(format!("{:x} {:?} {:?} {:?} {}", crate::rng::hash(&b.bytes), limit, count, fault, conv).as_bytes());
        if res.is_err() {
            describe_body(c, &b, &plan, format!("size limit {:?}, count limit {:?}, faults {:?}, unusable directory {}, conversion {}", limit, count, fault, bad_dir, conv));
        }
        res
    });
    // results of reading entries
    ctx.cases("read", ctx.n(3000, 30_000), |c| {
        let kind = c.idx % 3;
        let conv = c.idx / 3 % 6;
        let mut b = gen::body(&mut c.r, 3, 200);
        while kind == 0 && b.parts.is_empty() {
            b = gen::body(&mut c.r, 3, 200);
        }
        let bytes = match kind {
            0 => b.bytes.clone(),
            1 => {
                let bd = b.boundary.clone();
                b = gen::encode(&mut c.r, &bd, vec![], &gen::Layout::plain());
                b.bytes.clone()
            }
            _ => std::sync::Arc::new(format!("--{}\r\nX-No-Disposition: 1\r\n\r\ndata\r\n--{}--", b.boundary, b.boundary).into_bytes()),
        };
        let mk = || Multipart::with_body(Src::new(bytes.clone(), Plan::All), b.boundary.as_str()).into_entry();
        c.count("read_results");
        c.eval();
        c.distinct(format!("{} {} {:x}", kind, conv, crate::rng::hash(&bytes)).as_bytes());
        let mut docs = 0;
        let res = (|| -> Res {
            let check = |f: MultipartField<Multipart<Src>>, name: &str| -> Res {
                ensure!(kind == 0, "{} returned an entry", name);
                let mut f = f;
                let d = rest_of(&mut f, bytes.len())?;
                crate::decode::check_part(&f.headers, &d, &b.parts[0])
            };
            match conv {
                0 => match guard(|| mk().into_result())? {
                    Ok(Some(f)) => check(f, "into_result()")?,
                    Ok(None) => ensure!(kind == 1, "into_result() is None"),
                    Err(_) => ensure!(kind == 2, "into_result() is an error"),
                },
                1 | 2 => {
                    let r = guard(|| if conv == 1 { mk().unwrap() } else { mk().expect("the given message") });
                    match r {
                        Ok(f) => check(f, "unwrap()")?,
                        Err(m) => {
                            ensure!(kind != 0, "unwrap() of an entry panicked: {}", m);
                            if conv == 2 {
                                ensure!(m.contains("the given message"), "expect() panicked with {:?}", m);
                            }
                            docs += 1;
                        }
                    }
                }
                3 | 4 => {
                    let r = guard(|| if conv == 3 { mk().unwrap_opt() } else { mk().expect_opt("the given message") });
                    match r {
                        Ok(Some(f)) => check(f, "unwrap_opt()")?,
                        Ok(None) => ensure!(kind == 1, "unwrap_opt() is None"),
                        Err(m) => {
                            ensure!(kind == 2, "unwrap_opt() panicked: {}", m);
                            if conv == 4 {
                                ensure!(m.contains("the given message"), "expect_opt() panicked with {:?}", m);
                            }
                            docs += 1;
                        }
                    }
                }
                _ => {
                    let r = guard(|| mk().expect_alt("message at end", "message on error"));
                    match r {
                        Ok(f) => check(f, "expect_alt()")?,
                        Err(m) => {
                            let want = ["", "message at end", "message on error"][kind];
                            ensure!(kind != 0 && m.contains(want), "expect_alt() panicked with {:?}", m);
                            docs += 1;
                        }
                    }
                }
            }
            Ok(())
        })();
        c.add("panics_as_documented", docs);
        if res.is_err() {
            c.note(format!("{} on {}", ["into_result", "unwrap", "expect", "unwrap_opt", "expect_opt", "expect_alt"][conv], ["an entry", "the end", "an error"][kind]));
        }
        res
    });
}

/// Everything in the entries, comparable
fn contents(e: &Entries) -> Result<Vec<(String, Option<String>, Vec<u8>)>, String> {
    let mut v = vec![];
    for (k, fs) in &e.fields {
        for f in fs {
            v.push((k.to_string(), f.headers.filename.clone(), saved_bytes(&f.data)?));
        }
    }
    v.sort();
    Ok(v)
}

