mod alloc;
mod c_client;
mod c_decode;
mod c_http;
mod c_mock;
mod c_flow;
mod c_res;
mod c_save;
mod c_work;
mod core;
mod decode;
mod gen;
mod io;
mod oracle;
mod rng;
mod scratch;

use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub struct Info {
    pub run: fn(&core::Ctx),
    pub level: &'static str,
    pub rule: &'static str,
}

pub fn info(id: &str) -> Info {
    let (run, level, rule): (fn(&core::Ctx), _, _) = match id {
        "C01" => (c_decode::c01, "exploration", "a request body is encoded from random parts (0-8; content of all kinds: empty, random, text, CR/LF/dash soup, proper prefixes of the delimiter anywhere), a random boundary and layout, decoded by Multipart under a random schedule of read sizes and a random way of reading each field, and compared with what was encoded; distinct: different (body, schedule, way of reading)"),
        "C02" => (c_decode::c02, "exploration", "hostile bytes (random, token soup, mutated and truncated valid bodies, header soup) are decoded under random and pairs of schedules with step, call and heap monitors; distinct: different (bytes, boundary, schedule)"),
        "C03" => (c_decode::c03, "exploration", "large bodies are generated on the fly and read, skipped or saved while the counting allocator records the peak of live heap bytes of the decoding thread; distinct: different (way of reading, size, kind of content, schedule)"),
        "C04" => (c_decode::c04, "exploration", "fields are left in random states (unread, partly read, peeked, raised minimum, read past the end) and the request is advanced through a random API; every later field and every peek is compared with what was encoded; distinct: different (body, schedule, sequence of operations)"),
        "C05" => (c_decode::c05, "exploration", "valid bodies are cut at every (small bodies) or chosen positions, or damaged after a delimiter or in headers, then read or saved; the outcome must be an error and everything delivered a prefix; distinct: different (damaged body, schedule, way of reading)"),
        "C06" => (c_decode::c06, "fault_enumeration", "transient faults are injected at every read call (small bodies) or at chosen ones, the failed call is repeated, and the result compared with the undisturbed run; distinct: different (body, schedule, faults, way of reading)"),
        "C07" => (c_decode::c07, "exploration", "Content-Disposition and Content-Type headers are generated from a grammar with the values known, or spoiled in a known way, and the parsed headers compared; distinct: different header blocks"),
        "C08" => (c_client::c08, "exploration", "random field sequences are sent by the chunked and sized clients through writers that take part of the data or are interrupted, and the captured body is parsed by an independent parser; distinct: different (fields, writer behaviour, client)"),
        "C09" => (c_client::c09, "exploration", "random field sets are prepared by the lazy client and read with random buffer sizes, interruptions and stream chunking, and the body is parsed by an independent parser; distinct: different (fields, reading pattern, faults)"),
        "C10" => (c_client::c10, "exploration", "requests of every client are built from random fields and the announced length is compared with the bytes that followed; distinct: different (fields, client)"),
        "C11" => (c_client::c11, "fault_enumeration", "a fault is injected at every point (source open, source read, request open, header application, each write call, finishing) of random requests, and the client must report it; distinct: different (request, fault point, kind of error)"),
        "C23" => (c_client::c23, "exploration", "boundaries of all clients are collected across threads and processes and compared with each other and the allowed alphabet; distinct: different boundaries"),
        "C12" => (c_save::c12, "fault_enumeration", "fields and requests are saved under random limits, thresholds and policies, with transport faults, writer faults, unusable paths, full devices and file size limits, and data saved + data left is compared with what was encoded; distinct: different (content, configuration, fault)"),
        "C13" => (c_save::c13, "exploration", "fields of sizes at and around the limit are saved for random thresholds, policies and destinations, and stored bytes compared with the limit; distinct: different (content, configuration, schedule)"),
        "C14" => (c_save::c14, "exploration", "requests are saved with random count limits, resumed in random ways, and the delivered sequence of fields is compared with the sent one; distinct: different (request, sequence of limits)"),
        "C15" => (c_save::c15, "exploration", "fields of sizes at and around the threshold are saved into a directory of their own whose listing is compared with where the data must be; distinct: different (content, configuration, schedule)"),
        "C16" => (c_save::c16, "exploration", "text of all UTF-8 widths, valid or spoiled at chosen places, is saved under every text policy with reads ending inside characters; distinct: different (content, configuration, schedule)"),
        "C17" => (c_save::c17, "exploration", "requests with hostile names are saved to every kind of destination, alone, in threads and in several processes, and the file system below the harness's root is compared before, after, and after dropping; distinct: different (request, destination, end)"),
        "C21" => (c_save::c21, "exploration", "every result of random saves (full, partial, resumed, with kept partial fields, with faults) is recounted independently against memory and files; distinct: different (request, configuration, schedule)"),
        "C22" => (c_save::c22, "exploration", "every kind of result, made by hand and by saving real requests, goes through every conversion and is compared with its definition; distinct: different (result, conversion)"),
        "C18" => (c_http::c18, "exploration", "request heads with generated methods and content types (letter case, spacing, other parameters, quoted and bare boundaries; or one thing wrong) are parsed by the real server libraries and given to each integration; distinct: different (integration, method, content type)"),
        "C19" => (c_http::c19, "exploration", "uploads of random sizes are passed through the iron middleware with random limits at and around the sizes and counts, strict and lenient, well-formed, cut off and not multipart; distinct: different (request, limits, behavior)"),
        "C20" => (c_http::c20, "exploration", "24 client threads send random uploads over loopback connections with every client API to servers of every integration, which save them and answer with a digest of what they saved; distinct: different uploads"),
        "C24" => (c_mock::c24, "exploration", "random writes and reads of random sizes on the mock transports are compared with a byte vector after every step; the tee writes in a child process whose standard output is captured; distinct: different (bytes written, way of making)"),
        "C25" => (c_res::c25, "exploration", "large files and streams are sent by every client that is not documented to hold the body, while the counting allocator records the peak of live heap bytes of the sending thread; distinct: different (client, sizes, kinds of field, sizes of reads and writes)"),
        "C26" => (c_res::c26, "exploration", "random requests are sent, read and saved, with faults, and what the process has open, which sources were dropped, and the heap of the thread are watched during and after; distinct: different scenarios"),
        "C27" => (c_flow::c27, "exploration", "random histories of reading well-formed bodies over a transport that notes how much it had given before each read; every read is judged against the position reached; distinct: different (read plan, history, layout)"),
        "C28" => (c_flow::c28, "exploration", "requests of random fields are sent or read; the order of reads of the sources, writes and opening is recorded and judged; distinct: different (client, fields, sizes of reads and writes)"),
        "C29" => (c_work::c29, "exploration", "scenarios of reading, skipping, saving and sending with random content, schedules and ways run under valgrind at sizes n, 2n and 4n, and the growth of the number of executed instructions is judged; distinct: different (scenario, random choices)"),
        _ => panic!("unknown property {}", id),
    };
    Info { run, level, rule }
}

fn main() {
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) == 0 {
            l.rlim_cur = l.rlim_max.min(20_000).max(l.rlim_cur);
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        }
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id: &'static str = Box::leak(args[0].clone().into_boxed_str());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let only = match args.get(1).map(|s| s.as_str()) {
        Some("--case") => Some((args[2].clone(), args[3].parse().unwrap())),
        _ => None,
    };
    if id == "boundaries" {
        for b in c_client::some_boundaries(20) {
            println!("{}", b);
        }
        return;
    }
    if id == "tee" {
        if let Err(e) = c_mock::tee_child(args[1].parse().unwrap(), &args[2], &args[3]) {
            eprintln!("{}", e);
            std::process::exit(1);
        }
        return;
    }
    if id == "print-debug" {
        std::process::exit(c_save::print_child(args[1].parse().unwrap(), &args[2]));
    }
    if id == "tee-full" {
        if let Err(e) = c_mock::tee_full(args[1].parse().unwrap()) {
            eprintln!("{}", e);
            std::process::exit(1);
        }
        return;
    }
    if id == "work" {
        if let Err(e) = c_work::child(&args[1..]) {
            eprintln!("{}", e);
            std::process::exit(3);
        }
        return;
    }
    if id == "save-many" {
        if let Err(e) = c_save::save_many(args[1].as_ref(), args[2].parse().unwrap()) {
            eprintln!("{}", e);
            std::process::exit(1);
        }
        return;
    }
    scratch::init();
    core::install_hook();
    let root = std::env::var_os("MPCHECK_ROOT").map(Into::into).unwrap_or_else(|| std::path::PathBuf::from("/verif"));
    let ctx: &'static core::Ctx = Box::leak(Box::new(core::Ctx {
        id,
        seed,
        thorough,
        only,
        start: Instant::now(),
        budget: Duration::from_secs(if thorough { 6000 } else { 400 }),
        obs: Default::default(),
        known_said: Default::default(),
        violations: Default::default(),
        first: Default::default(),
        trouble: Default::default(),
        expect: Default::default(),
        assumptions: Default::default(),
        capped: Default::default(),
        root,
    }));
    let _ = core::CTX.set(ctx);
    (info(id).run)(ctx);
    ctx.finish_and_exit();
}
