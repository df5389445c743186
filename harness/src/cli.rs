//! Running the command line tool, in scratch directories.
use crate::run::Opts;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("cvh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn put(&self, name: &str, text: &str) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
    pub fn get(&self, name: &str) -> Option<String> {
        std::fs::read_to_string(self.0.join(name)).ok()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub struct Ran {
    /// None if it was ended by a signal
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
impl Ran {
    pub fn panicked(&self) -> bool {
        self.code.is_none() || self.code == Some(101) || self.err.contains("panicked at")
    }
    pub fn hung(&self) -> bool {
        self.code == Some(124)
    }
    pub fn last(&self) -> &str {
        self.out.lines().last().unwrap_or("")
    }
    pub fn show(&self) -> String {
        let cut = |s: &str| s.chars().take(1500).collect::<String>();
        format!("exit {:?}\nstdout: {}\nstderr: {}", self.code, cut(&self.out), cut(&self.err))
    }
}
pub fn bin() -> Option<String> {
    std::env::var("CVH_CLI").ok()
}
/// runs `carcara` in `dir`
pub fn run(dir: &Path, args: &[String], stdin: Option<&str>) -> Ran {
    run_bytes(dir, args, stdin.map(|s| s.as_bytes()))
}
pub fn run_bytes(dir: &Path, args: &[String], stdin: Option<&[u8]>) -> Ran {
    use std::io::Write;
    let mut c = Command::new("timeout");
    c.arg("120").arg(bin().expect("CVH_CLI")).args(args).current_dir(dir);
    c.env("RUST_BACKTRACE", "0");
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = c.spawn().unwrap();
    if let Some(s) = stdin {
        let _ = p.stdin.take().unwrap().write_all(s);
    }
    let o = p.wait_with_output().unwrap();
    Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
/// the options of the command line that say what `o` says
pub fn parsing_flags(o: &Opts) -> Vec<String> {
    let p = &o.parser;
    [
        (p.apply_function_defs, "--apply-function-defs"),
        (p.expand_lets, "--expand-let-bindings"),
        (p.allow_int_real_subtyping, "--allow-int-real-subtyping"),
        (p.strict, "--strict-parsing"),
        (p.parse_hole_args, "--parse-hole-args"),
    ]
    .iter()
    .filter(|(b, _)| *b)
    .map(|(_, s)| s.to_string())
    .collect()
}
pub fn checking_flags(o: &Opts) -> Vec<String> {
    let mut v = vec![];
    if o.checker.ignore_unknown_rules {
        v.push("--ignore-unknown-rules".into());
    }
    if o.checker.elaborated {
        v.push("--check-granularity".into());
        v.push("elaborated".into());
    }
    if !o.checker.allowed_rules.is_empty() {
        v.push("--allowed-rules".into());
        v.extend(o.checker.allowed_rules.iter().cloned());
    }
    v
}

/// runs `carcara` with a standard output that cannot be written to
pub fn run_full(dir: &Path, args: &[String]) -> Ran {
    let full = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
    let o = Command::new("timeout").arg("120").arg(bin().expect("CVH_CLI")).args(args).current_dir(dir).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(full).stderr(Stdio::piped()).output().unwrap();
    Ran { code: o.status.code(), out: String::new(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
