//! C24: the mock transports.
use crate::core::{guard, Ctx, Res};
use crate::gen::{self, diff, show};
use crate::io::{Sink, WriteFault};
use crate::rng::{hash, Rng};
use crate::{ensure, fail};
use multipart::client::{HttpRequest as _, HttpStream};
use multipart::mock::{ClientRequest, HttpBuffer, ServerRequest, StdoutTee};
use multipart::server::HttpRequest as ServerHttpRequest;
use std::io::{self, ErrorKind, Read, Write};

fn drain(c_r: &mut Rng, rd: &mut dyn Read, data: &[u8]) -> Res {
    let mut out: Vec<u8> = vec![];
    let step = *c_r.pick(&[1usize, 2, 10, 100, 5000]);
    let step = if c_r.chance(1, 20) { step } else { step.max(data.len() / 300) };
    let mut idle = 0;
    while out.len() < data.len() {
        let n = if c_r.chance(1, 6) { 0 } else { c_r.range(1, step) };
        // what is not read must not be touched
        let mut buf = vec![0xa5u8; n];
        let k = rd.read(&mut buf).map_err(|e| format!("reading failed: {:?}", e))?;
        ensure!(k <= n, "read {} bytes to a buffer of {}", k, n);
        if n == 0 {
            continue;
        }
        ensure!(k > 0, "end after {} of {} bytes", out.len(), data.len());
        ensure!(buf[k..].iter().all(|b| *b == 0xa5), "bytes after the {} that were read were changed", k);
        let at = out.len();
        out.extend_from_slice(&buf[..k]);
        ensure!(data.get(at..at + k) == Some(&buf[..k]), "read {}", diff(&out, data));
        idle += 1;
        ensure!(idle <= data.len(), "no progress");
    }
    for n in [1usize, 0, 100, 8192] {
        let mut buf = vec![0; n];
        let k = rd.read(&mut buf).map_err(|e| format!("reading at the end failed: {:?}", e))?;
        ensure!(k == 0, "{} bytes after the end", k);
    }
    Ok(())
}

/// An inner writer for the tee: takes part of the data, is interrupted, and may fail for good.
fn tee_sink(r: &mut Rng) -> (Sink, bool) {
    let mut s = Sink::new(*r.pick(&[0usize, 1, 3, 100, 5000]), r.u64());
    s.faults = (0..r.below(4)).map(|_| (r.below(30), WriteFault::Err(ErrorKind::Interrupted))).collect();
    (s, false)
}

/// What the last write through the tee fails with; it may have gone to the standard output.
const UNACCEPTED: u8 = 0xee;

/// Child process whose standard output cannot be written to: some call has to say so
pub fn tee_full(seed: u64) -> io::Result<()> {
    let mut r = Rng::new(seed);
    let stdout = io::stdout();
    let mut inner: Vec<u8> = vec![];
    let mut data = vec![];
    let res = {
        let mut tee = StdoutTee::new(&mut inner, &stdout);
        let mut res = Ok(());
        for _ in 0..r.range(1, 6) {
            let n = r.range(1, 3000);
            let piece: Vec<u8> = if r.bool() { vec![b'x'; n] } else { r.bytes(n) };
            data.extend_from_slice(&piece);
            res = tee.write_all(&piece);
            if res.is_err() {
                break;
            }
        }
        res.and_then(|()| tee.flush())
    };
    if res.is_ok() {
        return Err(io::Error::new(ErrorKind::Other, format!("{} bytes could not be shown, but no call failed", data.len())));
    }
    if !data.starts_with(&inner) {
        return Err(io::Error::new(ErrorKind::Other, "the inner writer got other bytes than were written"));
    }
    Ok(())
}

/// Child process: write through a tee; the accepted bytes go to the file, what the inner writer has
/// to the second one; the parent has our standard output.
pub fn tee_child(seed: u64, accepted: &str, inner: &str) -> io::Result<()> {
    let mut r = Rng::new(seed);
    let stdout = io::stdout();
    let (sink, _) = tee_sink(&mut r);
    let sink = std::rc::Rc::new(std::cell::RefCell::new(sink));
    struct Shared(std::rc::Rc<std::cell::RefCell<Sink>>);
    impl Write for Shared {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.borrow_mut().write(b)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.0.borrow_mut().flush()
        }
    }
    let mut acc: Vec<u8> = vec![];
    {
        let mut tee = StdoutTee::new(Shared(sink.clone()), &stdout);
        for _ in 0..r.range(1, 40) {
            let n = gen::len(&mut r, 4000);
            let mut data = r.bytes(n);
            if r.bool() {
                for b in data.iter_mut() {
                    if *b < 60 {
                        *b = b'\n';
                    }
                }
            }
            match r.below(3) {
                0 => {
                    tee.write_all(&data)?;
                    acc.extend_from_slice(&data);
                }
                1 => match tee.write(&data) {
                    Ok(k) => acc.extend_from_slice(&data[..k]),
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(e) => return Err(e),
                },
                _ => {
                    io::copy(&mut &data[..], &mut tee)?;
                    acc.extend_from_slice(&data);
                }
            }
            if r.chance(1, 3) {
                tee.flush()?;
            }
        }
        tee.flush()?;
    }
    {
        // failures of what is wrapped are reported
        struct Failing(usize, Option<ErrorKind>);
        impl Write for Failing {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                if self.0 == 0 {
                    return self.1.map_or(Ok(0), |k| Err(k.into()));
                }
                let n = b.len().min(self.0);
                self.0 -= n;
                Ok(n)
            }
            fn flush(&mut self) -> io::Result<()> {
                self.1.map_or(Ok(()), |k| Err(k.into()))
            }
        }
        for _ in 0..r.range(1, 8) {
            let kind = *r.pick(&[Some(ErrorKind::BrokenPipe), Some(ErrorKind::ConnectionReset), Some(ErrorKind::TimedOut), Some(ErrorKind::WouldBlock), Some(ErrorKind::Other), Some(ErrorKind::UnexpectedEof), None]);
            let n = if r.bool() { r.range(1, 30) } else { r.range(1, 20_000) };
            let data = vec![UNACCEPTED; n];
            let mut tee = StdoutTee::new(Failing(if r.bool() { 0 } else { r.below(n) }, kind), &stdout);
            let how = r.below(3);
            let res = match how {
                0 => tee.write_all(&data),
                1 => tee.write(&data).and_then(|k| if k < n { tee.write_all(&data[k..]) } else { Ok(()) }),
                _ => io::copy(&mut &data[..], &mut tee).map(drop),
            };
            if res.map_err(|e| e.kind()) != Err(kind.unwrap_or(ErrorKind::WriteZero)) {
                return Err(io::Error::new(ErrorKind::Other, format!("a failure ({:?}) to write {} bytes was not reported (way {})", kind, n, how)));
            }
            drop(tee);
            if let Some(kind) = kind {
                if StdoutTee::new(Failing(9, Some(kind)), &stdout).flush().map_err(|e| e.kind()) != Err(kind) {
                    return Err(io::Error::new(ErrorKind::Other, format!("a failure ({:?}) to flush was not reported", kind)));
                }
            }
        }
    }
    std::fs::write(accepted, &acc)?;
    std::fs::write(inner, &sink.borrow().out)?;
    Ok(())
}

pub fn c24(ctx: &Ctx) {
    ctx.expect(&["buffers_written", "buffers_read", "empty_writes", "large_writes", "short_writes", "requests_through", "tees", "tees_to_full_output"]);
    ctx.cases("buffer", ctx.n(10_000, 100_000), |c| {
        let bnd = gen::boundary(&mut c.r);
        let len = if c.r.bool() { None } else { Some(c.r.u64()) };
        let n0 = gen::len(&mut c.r, 300);
        let initial = c.r.bytes(n0);
        let how = c.r.below(4);
        let mut r = c.r.clone();
        let (mut empty, mut short, mut large) = (0u64, 0u64, 0u64);
        let mut model: Vec<u8> = vec![];
        let res = guard(|| -> Res {
            let mut buf = match how {
                0 => HttpBuffer::new_empty(bnd.clone(), len),
                1 => {
                    model = initial.clone();
                    HttpBuffer::with_buf(initial.clone(), bnd.clone(), len)
                }
                _ => {
                    let mut q = ClientRequest::default();
                    if how == 3 {
                        ensure!(q.apply_headers("an-earlier-one", Some(1)), "headers refused");
                    }
                    ensure!(q.apply_headers(&bnd, len), "headers refused");
                    q.open_stream().map_err(|e| format!("open_stream: {:?}", e))?
                }
            };
            for _ in 0..r.range(0, 30) {
                let n = if r.chance(1, 6) {
                    0
                } else if r.chance(1, 2000) {
                    large += 1;
                    r.range(400_000, 3 << 20)
                } else {
                    gen::len(&mut r, 2000)
                };
                let data = r.bytes(n);
                match r.below(4) {
                    0 => {
                        buf.write_all(&data).map_err(|e| format!("write_all: {:?}", e))?;
                        model.extend_from_slice(&data);
                    }
                    1 => buf.flush().map_err(|e| format!("flush: {:?}", e))?,
                    _ => {
                        let k = buf.write(&data).map_err(|e| format!("write: {:?}", e))?;
                        ensure!(k <= n && (k > 0 || n == 0), "write of {} bytes returned {}", n, k);
                        model.extend_from_slice(&data[..k]);
                        empty += (n == 0) as u64;
                        short += (k < n) as u64;
                    }
                }
                ensure!(buf.buf == model, "the buffer: {}", diff(&buf.buf, &model));
            }
            ensure!(buf.boundary == bnd, "boundary {:?}, given {:?}", buf.boundary, bnd);
            ensure!(buf.content_len == len, "length {:?}, given {:?}", buf.content_len, len);
            let buf = if how >= 2 { HttpStream::finish(buf).map_err(|e| format!("finish: {:?}", e))? } else { buf };
            ensure!(buf.buf == model && buf.boundary == bnd && buf.content_len == len, "finishing changed the buffer");
            // several readers, independent of each other
            for k in 0..2 {
                let of_buf = k == 0 || r.bool();
                let mut s = if of_buf { buf.for_server() } else { ServerRequest::new(&buf.buf, &bnd) };
                ensure!(s.multipart_boundary() == Some(&*bnd), "multipart_boundary() is {:?}", s.multipart_boundary());
                let want = if of_buf { len } else { None };
                ensure!(s.content_len == want, "length {:?}, given {:?}", s.content_len, want);
                ensure!(s.data == &model[..] && s.boundary == bnd, "the request of the server differs from the buffer");
                if r.bool() {
                    drain(&mut r, &mut s.body(), &model)?;
                } else {
                    drain(&mut r, &mut s, &model)?;
                }
            }
            ensure!(buf.buf == model, "reading changed the buffer");
            Ok(())
        })
        .and_then(|x| x);
        c.eval();
        c.count("buffers_written");
        c.count("buffers_read");
        c.add("empty_writes", empty);
        c.add("large_writes", large);
        c.add("short_writes", short);
        c.distinct(format!("{:x} {}", hash(&model), how).as_bytes());
        c.sample(|| format!("{} bytes written, {} short writes, boundary {:?}, length {:?}", model.len(), short, bnd, len));
        if res.is_err() {
            c.note(format!("boundary {:?}, length {:?}, made in way {}, starts with {}", bnd, len, how, show(&initial)));
        }
        res
    });
    // whole requests, from the client to the server
    ctx.cases("through", ctx.n(3000, 30_000), |c| {
        let fields: Vec<(String, Vec<u8>)> = (0..c.r.range(0, 5))
            .map(|_| {
                let n = gen::len(&mut c.r, 5000);
                let b = gen::plain_boundary(&mut c.r);
                (gen::word(&mut c.r, false), gen::content(&mut c.r, &b, n))
            })
            .collect();
        let sized = c.r.bool();
        let res = guard(|| -> Res {
            macro_rules! go {
                ($m:expr) => {{
                    let mut m = $m.map_err(|e| format!("{:?}", e))?;
                    for (n, d) in &fields {
                        m.write_stream(n, &mut &d[..], Some("f.bin"), None).map_err(|e| format!("{:?}", e))?;
                    }
                    m.send().map_err(|e| format!("{:?}", e))?
                }};
            }
            let buf: HttpBuffer = if sized { go!(multipart::client::Multipart::from_request_sized(ClientRequest::default())) } else { go!(multipart::client::Multipart::from_request(ClientRequest::default())) };
            if sized {
                ensure!(buf.content_len == Some(buf.buf.len() as u64), "length {:?}, the buffer has {} bytes", buf.content_len, buf.buf.len());
            } else {
                ensure!(buf.content_len.is_none(), "length {:?} of a request of unknown length", buf.content_len);
            }
            let mut mp = match multipart::server::Multipart::from_request(buf.for_server()) {
                Ok(mp) => mp,
                Err(_) => fail!("the request of the mock is not multipart"),
            };
            let mut got = vec![];
            mp.foreach_entry(|mut f| {
                let mut d = vec![];
                f.data.read_to_end(&mut d).unwrap();
                got.push((f.headers.name.to_string(), d));
            })
            .map_err(|e| format!("{:?}", e))?;
            ensure!(got == fields, "{} fields arrived of {}, or they differ", got.len(), fields.len());
            Ok(())
        })
        .and_then(|x| x);
        c.eval();
        c.count("requests_through");
        if res.is_err() {
            for (n, d) in &fields {
                c.note(format!("{:?}: {}", n, show(d)));
            }
        }
        res
    });
    let exe = std::env::current_exe().unwrap();
    ctx.cases("tee", ctx.n(60, 300), |c| {
        let seed = c.r.u64();
        let dir = crate::scratch::fresh("tee");
        let (a, i) = (dir.join("accepted"), dir.join("inner"));
        if c.r.chance(1, 4) {
            let full = std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("(harness) {:?}", e))?;
            let out = std::process::Command::new(&exe).args(["tee-full".into(), seed.to_string()]).stdout(full).output().map_err(|e| format!("(harness) {:?}", e))?;
            crate::scratch::done(&dir);
            c.eval();
            c.count("tees_to_full_output");
            c.distinct(&seed.to_le_bytes());
            ensure!(out.status.success(), "writing through the tee to a full device (seed {}): {}", seed, String::from_utf8_lossy(&out.stderr));
            return Ok(());
        }
        let out = std::process::Command::new(&exe).args(["tee".into(), seed.to_string(), a.display().to_string(), i.display().to_string()]).output().map_err(|e| format!("(harness) {:?}", e))?;
        c.eval();
        c.count("tees");
        c.distinct(&seed.to_le_bytes());
        let res = (|| -> Res {
            ensure!(out.status.success(), "writing through the tee failed: {}", String::from_utf8_lossy(&out.stderr));
            let acc = std::fs::read(&a).map_err(|e| format!("(harness) {:?}", e))?;
            let inner = std::fs::read(&i).map_err(|e| format!("(harness) {:?}", e))?;
            ensure!(inner == acc, "the inner writer got other bytes than were accepted: {}", diff(&inner, &acc));
            let (shown, rest) = out.stdout.split_at(acc.len().min(out.stdout.len()));
            ensure!(rest.iter().all(|b| *b == UNACCEPTED), "standard output got {} bytes more than were accepted", rest.len());
            ensure!(shown == acc, "standard output got other bytes than were accepted: {}", diff(shown, &acc));
            Ok(())
        })();
        crate::scratch::done(&dir);
        if res.is_err() {
            c.note(format!("seed {}", seed));
        }
        res
    });
}
