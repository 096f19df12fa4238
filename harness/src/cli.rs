//! Running the repository's command-line tools in scratch directories.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub struct Scratch(pub PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("mc-scratch-{:08}-{:09}", std::process::id(), NEXT.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn file(&self, name: &str, bytes: impl AsRef<[u8]>) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, bytes).expect("scratch file");
        p
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Ran {
    pub ok: bool,
    pub status: String,
    pub out: Vec<u8>,
    pub err: String,
}
impl Ran {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
}

pub fn bin(name: &str) -> PathBuf {
    let d = std::env::var("MC_BIN").unwrap_or_else(|_| "/repo/target/debug".into());
    Path::new(&d).join(name)
}

pub fn command(name: &str, threads: usize) -> Command {
    let mut c = Command::new(bin(name));
    c.stdin(Stdio::null()).env("POLARS_MAX_THREADS", threads.to_string()).env("RUST_BACKTRACE", "0");
    c
}

pub fn finish(mut c: Command) -> Ran {
    let o = c.output().expect("cannot run the command");
    Ran { ok: o.status.success(), status: o.status.to_string(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

pub fn run<S: AsRef<std::ffi::OsStr>>(name: &str, args: &[S]) -> Ran {
    let mut c = command(name, 1);
    c.args(args);
    finish(c)
}

/// The ending of the process is an ordinary one (not a panic, abort or signal).
pub fn refused(r: &Ran) -> bool {
    !r.ok
}

/// File names that shells, readers or writers might treat in some special way.
pub fn odd_names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "plain", "x.csv", "x.tsv", "x.txt", "x.json", "x.jsonl", "x.CSV", "x.gz", "x.csv.gz", "x.zst", "x.parquet", "x.trec", "qrels", "run", "true", "pred", "system_1", "System_2", ".hidden", "a b", " a", "a ", "a,b", "a;b", "a'b", "a\"b", "a\\b", "a|b", "a*b", "*.csv", "*", "a?", "a[1]", "[ab]", "{a,b}", "$HOME", "`x`", "#a",
        "a#b", "%20", "a:b", "a=b", "a@b", "~", "~a", "...", "0", "1", "-", "-o", "--help", "é", "漢字", "😀", "e\u{301}", "a\u{a0}b", "a\tb", "file.with.many.dots", "x.", "s3", "http", "stdin", "null",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.push(vec![b'n'; 255]);
    v.push(b"a\xff\xfeb".to_vec());
    v.push(b"a\nb".to_vec());
    v
}

pub const PLACES: u64 = 7;

/// Where a file of that name is, and how the command is told so; None when the command line cannot say it.
pub fn place(sc: &Scratch, name: &[u8], how: u64) -> Option<(std::ffi::OsString, PathBuf)> {
    use std::os::unix::ffi::OsStrExt;
    let n = std::ffi::OsStr::from_bytes(name);
    let sub = sc.path("sub dir");
    let real = if how < 3 { sc.0.join(n) } else { sub.join(n) };
    if how >= 3 {
        std::fs::create_dir_all(&sub).expect("scratch directory");
    }
    let arg = match how {
        0 => real.clone().into_os_string(),
        // A bare name that looks like an option is one.
        1 if name.starts_with(b"-") && name.len() > 1 => return None,
        // A bare tilde stands for the home directory to the CSV reader.
        1 if name.starts_with(b"~") => return None,
        1 => n.to_os_string(),
        2 => Path::new(".").join(n).into_os_string(),
        3 => Path::new("sub dir").join(n).into_os_string(),
        4 => Path::new("sub dir/../sub dir").join(n).into_os_string(),
        5 => real.clone().into_os_string(),
        _ => {
            let l = sc.0.join(format!("link{}", NEXT.fetch_add(1, SeqCst)));
            std::os::unix::fs::symlink(&real, &l).expect("scratch link");
            l.into_os_string()
        }
    };
    Some((arg, real))
}

/// Runs a command inside the scratch directory.
pub fn run_in<S: AsRef<std::ffi::OsStr>>(sc: &Scratch, name: &str, threads: usize, env: &[(&str, &str)], args: &[S]) -> Ran {
    let mut c = command(name, threads);
    if threads == 0 {
        c.env_remove("POLARS_MAX_THREADS");
    }
    c.current_dir(&sc.0).args(args).envs(env.iter().copied());
    finish(c)
}

/// Surroundings a command must not depend on.
pub const SURROUNDINGS: [&[(&str, &str)]; 12] = [
    &[],
    &[("LANG", "de_DE.UTF-8"), ("LC_ALL", "de_DE.UTF-8")],
    &[("LC_ALL", "C"), ("TZ", "Asia/Tokyo")],
    &[("COLUMNS", "10"), ("LINES", "3")],
    &[("TERM", "xterm-256color"), ("CLICOLOR_FORCE", "1")],
    &[("TERM", "dumb"), ("NO_COLOR", "1")],
    &[("POLARS_FMT_MAX_COLS", "2"), ("POLARS_FMT_MAX_ROWS", "2")],
    &[("POLARS_FMT_STR_LEN", "3"), ("POLARS_TABLE_WIDTH", "10")],
    &[("POLARS_FMT_TABLE_FORMATTING", "NOTHING"), ("POLARS_FMT_NUM_LEN", "2")],
    &[("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full")],
    &[("RUST_MIN_STACK", "1000000"), ("POLARS_VERBOSE", "0")],
    &[("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent")],
];

// ---------------------------------------------------------------- pipes for files

fn fifo(sc: &Scratch, name: &str) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let p = sc.path(name);
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0, "mkfifo");
    p
}

/// A named pipe and the thread at its other end.
pub struct Pipe {
    pub path: PathBuf,
    stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
    end: std::thread::JoinHandle<Vec<u8>>,
}
impl Pipe {
    /// The command has ended; what has come through to the reader.
    pub fn close(self) -> Vec<u8> {
        self.stop.store(true, SeqCst);
        self.end.join().expect("the other end of a pipe")
    }
    /// A pipe out of which the pieces come one by one: the next when the one before has been read.
    pub fn feed(sc: &Scratch, name: &str, pieces: Vec<Vec<u8>>) -> Pipe {
        use std::io::Write;
        use std::os::fd::AsRawFd;
        use std::os::unix::fs::OpenOptionsExt;
        let path = fifo(sc, name);
        let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (p, s) = (path.clone(), stop.clone());
        let end = std::thread::spawn(move || {
            let nap = || std::thread::sleep(std::time::Duration::from_micros(100));
            let mut f = loop {
                match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&p) {
                    Ok(f) => break f,
                    Err(_) if s.load(SeqCst) => return vec![],
                    Err(_) => nap(),
                }
            };
            for x in pieces {
                let mut x = &x[..];
                while !x.is_empty() && !s.load(SeqCst) {
                    match f.write(x) {
                        Ok(n) => x = &x[n..],
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => nap(),
                        Err(_) => return vec![],
                    }
                }
                let mut left: libc::c_int = 1;
                while !s.load(SeqCst) && unsafe { libc::ioctl(f.as_raw_fd(), libc::FIONREAD, &mut left) } == 0 && left > 0 {
                    std::thread::sleep(std::time::Duration::from_micros(20));
                }
            }
            vec![]
        });
        Pipe { path, stop, end }
    }
    /// A pipe for an output.
    pub fn drain(sc: &Scratch, name: &str) -> Pipe {
        use std::io::Read;
        use std::os::unix::fs::OpenOptionsExt;
        let path = fifo(sc, name);
        let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        // Open at both ends, so that the command finds a reader whenever it comes.
        let mut f = std::fs::OpenOptions::new().read(true).write(true).custom_flags(libc::O_NONBLOCK).open(&path).expect("pipe");
        let s = stop.clone();
        let end = std::thread::spawn(move || {
            let mut v = vec![];
            let mut b = [0; 65536];
            loop {
                let ended = s.load(SeqCst);
                match f.read(&mut b) {
                    Ok(n) if n > 0 => v.extend_from_slice(&b[..n]),
                    _ if ended => return v,
                    _ => std::thread::sleep(std::time::Duration::from_micros(100)),
                }
            }
        });
        Pipe { path, stop, end }
    }
}

/// The text cut into pieces: at one place, or all of one length.
pub fn pieces(t: &str, at: usize) -> Vec<Vec<u8>> {
    let b = t.as_bytes();
    if at <= b.len() {
        [&b[..at], &b[at..]].iter().filter(|x| !x.is_empty()).map(|x| x.to_vec()).collect()
    } else {
        b.chunks(at - b.len()).map(|x| x.to_vec()).collect()
    }
}
