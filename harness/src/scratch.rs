//! Scratch directories. Everything the checks let the code under test write lies below one
//! directory that is created at the start and removed at the end; TMPDIR points into it.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

static ROOT: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);

/// `<base>/mpcheck-<pid>/a/b/c/tmp` is the TMPDIR: several levels below the scratch root, so that a
/// path that escapes upwards by a few levels still ends inside the scratch root, where it is seen.
pub fn init() {
    let base = std::env::var_os("MPCHECK_SCRATCH").map(PathBuf::from).unwrap_or_else(|| {
        if Path::new("/dev/shm").is_dir() {
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        }
    });
    let mut root = base.join(format!("mpcheck-{}", std::process::id()));
    if std::fs::create_dir_all(&root).is_err() {
        root = std::env::temp_dir().join(format!("mpcheck-{}", std::process::id()));
    }
    let tmp = root.join("a/b/c/tmp");
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    std::env::set_var("TMPDIR", &tmp);
    std::env::set_current_dir(&root).unwrap();
    ROOT.set(root).unwrap();
    // a save that never ends must not fill the machine
    std::mem::forget(FileLimit::set(MAX_FILE));
}

/// No check needs a larger file, but for sparse ones.
const MAX_FILE: u64 = 256 << 20;

/// Sets the size of the largest file this process can write, until dropped
pub struct FileLimit(libc::rlimit);

impl FileLimit {
    pub fn set(n: u64) -> FileLimit {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
            let new = libc::rlimit { rlim_cur: (n as libc::rlim_t).min(old.rlim_max), rlim_max: old.rlim_max };
            libc::setrlimit(libc::RLIMIT_FSIZE, &new);
            FileLimit(old)
        }
    }
}

impl Drop for FileLimit {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
        }
    }
}

pub fn root() -> &'static Path {
    ROOT.get().unwrap()
}

pub fn tmp() -> PathBuf {
    root().join("a/b/c/tmp")
}

/// A fresh directory, nested so that small escapes stay inside.
pub fn fresh(tag: &str) -> PathBuf {
    let p = root().join(format!("w/{}-{}/x/y", tag, NEXT.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap();
    p
}

/// Remove what `fresh` made.
pub fn done(p: &Path) {
    let top = p.parent().and_then(|p| p.parent()).unwrap();
    assert!(top.starts_with(root().join("w")));
    let _ = std::fs::remove_dir_all(top);
}

pub fn cleanup() {
    if let Some(r) = ROOT.get() {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(r);
    }
}

/// All paths below `p`, relative, with file length (None for directories).
pub fn list(p: &Path) -> Vec<(PathBuf, Option<u64>)> {
    fn walk(base: &Path, p: &Path, out: &mut Vec<(PathBuf, Option<u64>)>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                let path = e.path();
                let rel = path.strip_prefix(base).unwrap().to_path_buf();
                match e.file_type() {
                    Ok(t) if t.is_dir() => {
                        out.push((rel, None));
                        walk(base, &path, out);
                    }
                    _ => {
                        let len = std::fs::symlink_metadata(&path).map(|m| m.len()).unwrap_or(0);
                        out.push((rel, Some(len)));
                    }
                }
            }
        }
    }
    let mut v = vec![];
    walk(p, p, &mut v);
    v.sort();
    v
}
