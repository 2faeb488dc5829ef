//! Compiling generated programs against the library in /repo's working tree.

use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

/// Seconds after which a program, which takes less than one, does not end.
const PROGRAM_S: &str = "60";

static DIR: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);

fn no_answer(msg: String) -> ! {
    eprintln!("{msg}");
    cleanup();
    std::process::exit(3)
}

/// How a program and the library are compiled.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Build {
    /// Overflow checks and debug assertions on, as in `cargo build`
    Checked,
    /// Both off, as in `cargo build --release`
    Plain,
}

impl Build {
    /// One of the two, as a function of some text of the case.
    pub fn of(text: &str) -> Build {
        let h = text
            .bytes()
            .fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        if (h >> 32) % 2 == 0 {
            Build::Checked
        } else {
            Build::Plain
        }
    }
    pub fn label(self) -> &'static str {
        match self {
            Build::Checked => "checked-build",
            Build::Plain => "plain-build",
        }
    }
    fn flags(self) -> [&'static str; 6] {
        match self {
            Build::Checked => {
                ["-C", "opt-level=1", "-C", "overflow-checks=on", "-C", "debug-assertions=on"]
            }
            Build::Plain => {
                ["-C", "opt-level=1", "-C", "overflow-checks=off", "-C", "debug-assertions=off"]
            }
        }
    }
    fn rlib(self, dir: &std::path::Path) -> PathBuf {
        let sub = dir.join(match self {
            Build::Checked => "checked",
            Build::Plain => "plain",
        });
        let _ = std::fs::create_dir_all(&sub);
        sub.join("libsqrid.rlib")
    }
}

/// Scratch directory with the compiled library.
fn dir() -> &'static PathBuf {
    DIR.get_or_init(|| {
        let programs = crate::verif_dir().join("target").join("programs");
        // What runs that were killed left behind
        for e in std::fs::read_dir(&programs).into_iter().flatten().flatten() {
            let pid = e.file_name().to_string_lossy().trim_start_matches('p').to_string();
            if !std::path::Path::new("/proc").join(pid).exists() {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        let d = programs.join(format!("p{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        if let Err(e) = std::fs::create_dir_all(&d) {
            no_answer(format!("cannot create {}: {e}", d.display()));
        }
        for build in [Build::Checked, Build::Plain] {
            let out = Command::new("rustc")
                .args([
                    "--edition",
                    "2021",
                    "--crate-type",
                    "rlib",
                    "--crate-name",
                    "sqrid",
                    "-A",
                    "warnings",
                ])
                .args(build.flags())
                .arg("/repo/src/lib.rs")
                .arg("-o")
                .arg(build.rlib(&d))
                .output();
            match out {
                Ok(o) if o.status.success() => {}
                Ok(o) => no_answer(format!(
                    "the library does not compile: {}",
                    String::from_utf8_lossy(&o.stderr)
                )),
                Err(e) => no_answer(format!("cannot run rustc: {e}")),
            }
        }
        d
    })
}

/// Remove the scratch directory.
pub fn cleanup() {
    if let Some(d) = DIR.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}

pub struct Compiled {
    pub ok: bool,
    pub stderr: String,
}

/// A directory of its own for each program: the compiler's intermediate files go there.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let d = dir().join(NEXT.fetch_add(1, Ordering::Relaxed).to_string());
        if let Err(e) = std::fs::create_dir_all(&d) {
            no_answer(format!("cannot create {}: {e}", d.display()));
        }
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn rustc(src: &str, scratch: &Scratch, build: Build, extra: &[&str]) -> Compiled {
    let file = scratch.0.join("program.rs");
    if let Err(e) = std::fs::write(&file, src) {
        no_answer(format!("cannot write {}: {e}", file.display()));
    }
    let out = Command::new("rustc")
        .args(["--edition", "2021", "-A", "warnings", "-C", "debuginfo=0", "--crate-type", "bin"])
        .args(["--crate-name", "program", "--color", "never"])
        .args(extra)
        .arg("--extern")
        .arg(format!("sqrid={}", build.rlib(dir()).display()))
        .arg(&file)
        .current_dir(&scratch.0)
        .stdin(Stdio::null())
        .output();
    match out {
        Ok(o) => match o.status.code() {
            Some(0) => Compiled { ok: true, stderr: String::new() },
            Some(1) => {
                Compiled { ok: false, stderr: String::from_utf8_lossy(&o.stderr).into_owned() }
            }
            c => {
                no_answer(format!("rustc ended with {c:?}: {}", String::from_utf8_lossy(&o.stderr)))
            }
        },
        Err(e) => no_answer(format!("cannot run rustc: {e}")),
    }
}

/// Compile a program to object code, which instantiates everything it uses.
pub fn compile(src: &str, build: Build) -> Compiled {
    // Not optimised, which is faster: only what the two builds differ in.
    let extra = &build.flags()[2..];
    rustc(src, &Scratch::new(), build, &[extra, &["--emit", "obj"]].concat())
}

/// Compile, link and run a program: its standard output, or what went wrong.
pub fn run(src: &str, build: Build) -> Result<String, String> {
    let scratch = Scratch::new();
    let exe = scratch.0.join("program");
    let c = rustc(
        src,
        &scratch,
        build,
        &[&build.flags()[..], &["-o", &exe.display().to_string()]].concat(),
    );
    if !c.ok {
        return Err(format!("does not compile: {}", c.stderr));
    }
    // timeout ends with 124 when it has to stop the program
    match Command::new("timeout")
        .args(["-k", "1", PROGRAM_S])
        .arg(&exe)
        .stdin(Stdio::null())
        .output()
    {
        Ok(o) if o.status.success() => Ok(String::from_utf8_lossy(&o.stdout).into_owned()),
        Ok(o) if o.status.code() == Some(124) => {
            Err(format!("the program did not end within {PROGRAM_S} s"))
        }
        Ok(o) => Err(format!(
            "the program ended with {:?}: {}{}",
            o.status,
            String::from_utf8_lossy(&o.stdout),
            String::from_utf8_lossy(&o.stderr)
        )),
        Err(e) => no_answer(format!("cannot run the program: {e}")),
    }
}
