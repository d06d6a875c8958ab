//! The command line tool and the faults of its environment (C30).

use crate::conform::{imp_plain, obs_text};
use crate::engine::{guard, Choices, Stop, V};
use jotdown::html::{Indentation, Renderer};
use jotdown::Render;
use std::fs::{self, File};
use std::io::{Read as _, Write as _};
use std::os::fd::FromRawFd;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn pipe2(fds: *mut [i32; 2], flags: i32) -> i32;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}

fn exe() -> PathBuf {
    std::env::var_os("MC_CLI").expect("MC_CLI").into()
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, SeqCst);
        let d = std::env::temp_dir().join(format!("mc-cli-{}-{n}", std::process::id()));
        fs::create_dir_all(&d).expect("scratch directory");
        Self(d)
    }

    fn file(&self, name: &str, content: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        fs::write(&p, content).expect("scratch file");
        p
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// A pipe, of which each written byte is read on its own if possible.
fn pipe(packets: bool) -> (File, File) {
    let mut fds = [0; 2];
    let cloexec = 0o2_000_000;
    let direct = 0o40_000;
    unsafe {
        if !packets || pipe2(&mut fds, cloexec | direct) != 0 {
            assert_eq!(pipe2(&mut fds, cloexec), 0, "pipe");
        }
        (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1]))
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum In {
    StdinFile,
    StdinPipe,
    StdinBytes,
    File,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Out {
    Pipe,
    StdoutFile,
    New,
    Existing,
    /// Same file as the input.
    Same,
}

struct Done {
    code: Option<i32>,
    out: Vec<u8>,
    stdout: Vec<u8>,
    err: String,
}

/// Run the tool, with a limit on the size of files.
fn run(content: &[u8], i: In, o: Out, opts: &[&str], limit: Option<usize>) -> Done {
    let dir = Scratch::new();
    let mut cmd = Command::new(exe());
    cmd.current_dir(&dir.0).stderr(Stdio::piped());
    let input = dir.file("in.dj", content);
    let mut feed = None;
    match i {
        In::StdinFile => {
            cmd.stdin(File::open(&input).expect("input"));
        }
        In::StdinPipe | In::StdinBytes => {
            let (r, w) = pipe(i == In::StdinBytes);
            cmd.stdin(r);
            feed = Some(w);
        }
        In::File => {
            cmd.arg(&input).stdin(Stdio::null());
        }
    }
    cmd.args(opts);
    let mut target = None;
    match o {
        Out::Pipe => {
            cmd.stdout(Stdio::piped());
        }
        Out::StdoutFile => {
            let p = dir.file("stdout", b"");
            cmd.stdout(File::create(&p).expect("stdout"));
            target = Some(p);
        }
        Out::New | Out::Existing | Out::Same => {
            let p = match o {
                Out::New => dir.0.join("out.html"),
                Out::Same => input.clone(),
                _ => dir.file("out.html", &[b'#'; 300_000]),
            };
            cmd.stdout(Stdio::piped());
            if o == Out::New {
                cmd.arg("--output").arg(&p);
            } else {
                cmd.arg("-o").arg(&p);
            }
            target = Some(p);
        }
    }
    if let Some(n) = limit {
        unsafe {
            cmd.pre_exec(move || {
                signal(25, 1); // SIGXFSZ is ignored, so that writes fail instead
                setrlimit(1, &[n as u64, n as u64]);
                Ok(())
            });
        }
    }
    let mut child = cmd.spawn().expect("tool");
    drop(cmd);
    let mut out = Vec::new();
    let mut stdout = Vec::new();
    let mut err = String::new();
    std::thread::scope(|s| {
        if let Some(mut w) = feed {
            s.spawn(move || {
                if i == In::StdinBytes {
                    for b in content {
                        if w.write_all(&[*b]).is_err() {
                            break;
                        }
                    }
                } else {
                    let _ = w.write_all(content);
                }
            });
        }
        let e = child.stderr.take().unwrap();
        let err = &mut err;
        s.spawn(move || {
            let mut b = Vec::new();
            let mut e = e;
            let _ = e.read_to_end(&mut b);
            *err = String::from_utf8_lossy(&b).into_owned();
        });
        if let Some(mut p) = child.stdout.take() {
            let _ = p.read_to_end(&mut stdout);
        }
    });
    let code = child.wait().expect("wait").code();
    match target {
        Some(p) => out = fs::read(p).unwrap_or_default(),
        None => std::mem::swap(&mut out, &mut stdout),
    }
    Done {
        code,
        out,
        stdout,
        err,
    }
}

const OPTS: [&[&str]; 14] = [
    &[],
    &["--minified"],
    &["--start-indent", "1"],
    &["--start-indent=3", "--indent-string", "\t"],
    &["--indent-string", "  "],
    &["--indent-string=\u{e9}-", "--start-indent", "2"],
    &["--indent-string", " ", "--start-indent", "0"],
    &["--minified", "--indent-string", "  "],
    &["--start-indent", "2", "--minified"],
    &["--minified", "--indent-string", "\t", "--start-indent", "2"],
    &["--indent-string", ""],
    &["--start-indent", "0"],
    &["--indent-string", "abc def"],
    &["--indent-string", "\t", "--start-indent", "40"],
];

fn value<'a>(opts: &[&'a str], key: &str) -> Option<&'a str> {
    opts.iter().enumerate().find_map(|(i, o)| {
        if *o == key {
            Some(opts[i + 1])
        } else {
            o.strip_prefix(key)?.strip_prefix('=')
        }
    })
}

fn library(doc: &str, opts: &[&str]) -> Result<String, String> {
    let evs = imp_plain(doc)?;
    let r = if opts.contains(&"--minified") {
        Renderer::minified()
    } else {
        Renderer::indented(Indentation {
            string: value(opts, "--indent-string").unwrap_or("").to_string(),
            initial_level: value(opts, "--start-indent").map_or(0, |s| s.parse().unwrap()),
        })
    };
    guard(|| {
        let mut s = String::new();
        let mut r = r;
        r.push_events(evs.into_iter(), &mut s).map(|()| s)
    })?
    .map_err(|e| e.to_string())
}

fn docs() -> Vec<String> {
    let mut v: Vec<String> = [
        "",
        "a",
        "a\u{e9}\u{1f600} *b*\n\n> c\n\n- d\n",
        "# h\n\n``` =html\n<p>\n```\n\nx[^a]\n\n[^a]: y\n",
        "|a|b|\n|-|:-|\n|c|d|\n\n::: x\n- e\n\n  f\n:::\n",
        "a\r\nb\tc\0d\n",
        "\n\n{.a}\n\n",
        "\u{feff}a",
        "a\n\n```\nb\n\n  c\n```\n",
    ]
    .map(String::from)
    .into();
    // more than a buffer
    v.push("abc *def* \u{e9}\n\n".repeat(3000));
    v.push("x".repeat(8192 - 7));
    v
}

const INPUTS: [In; 4] = [In::StdinFile, In::StdinPipe, In::StdinBytes, In::File];
const OUTPUTS: [Out; 5] = [
    Out::Pipe,
    Out::StdoutFile,
    Out::New,
    Out::Existing,
    Out::Same,
];

fn describe(doc: &str, i: In, o: Out, opts: &[&str]) -> String {
    let d: String = doc.chars().take(60).collect();
    format!(
        "input {d:?} ({} bytes) by {i:?}, output by {o:?}, options {opts:?}",
        doc.len()
    )
}

fn success(doc: &str, i: In, o: Out, opts: &[&str]) -> V {
    let want = library(doc, opts)?;
    let d = run(doc.as_bytes(), i, o, opts, None);
    let what = || describe(doc, i, o, opts);
    if d.code != Some(0) {
        return Err(format!("{}: exit {:?}, {}", what(), d.code, d.err).into());
    }
    if d.out != want.as_bytes() {
        return Err(format!(
            "{}: wrote {:.300?}, not {want:.300?}",
            what(),
            String::from_utf8_lossy(&d.out)
        )
        .into());
    }
    if !d.stdout.is_empty() {
        return Err(format!("{}: wrote also to standard output", what()).into());
    }
    Ok(obs_text(&want, want.is_empty()))
}

/// Every way of input and output, with all options.
pub fn options(c: &mut Choices, _: bool) -> V {
    let docs = docs();
    let doc = c.of(&docs);
    let i = *c.of(&INPUTS);
    let o = *c.of(&OUTPUTS);
    let opts = *c.of(&OPTS);
    if i == In::StdinBytes && doc.len() > 1000 || o == Out::Same && i != In::File {
        return Err(Stop::Skip);
    }
    success(doc, i, o, opts)
}

/// Documents that are larger than buffers of various sizes, with a long character or a block at the limit.
pub fn large(c: &mut Choices, thorough: bool) -> V {
    let n: usize = *c.of(&[
        4096,
        8192,
        32768,
        65536,
        131_072,
        1 << 20,
        if thorough { 1 << 26 } else { 1 << 24 },
    ]);
    let at = n - c.choose(4);
    let mut doc = match c.choose(2) {
        0 => "x".repeat(at),
        _ => "xyz *x*\n".repeat(at / 8) + &"x".repeat(at % 8),
    };
    doc.push_str(*c.of(&["", "\u{1f600}\n\n> a", "\n\n- a\n", "\n\n# a"]));
    let i = *c.of(&[In::StdinFile, In::StdinPipe, In::File]);
    let o = *c.of(&[Out::Pipe, Out::New]);
    if n > 1 << 20 && doc.contains('\n') && doc[..100].contains('\n') {
        return Err(Stop::Skip);
    }
    success(&doc, i, o, OPTS[0])
}

/// Documents of few tokens.
pub fn documents(c: &mut Choices, thorough: bool) -> V {
    let mut doc = String::new();
    for _ in 0..if thorough { 5 } else { 3 } {
        doc.push_str(c.of(&[
            "", "a", "\n", "- ", "\u{e9}", "```\n", "# ", "\r", "\0", "> ", "\u{feff}", "\r\n",
        ]));
    }
    let opts = *c.of(&[OPTS[0], OPTS[1], OPTS[3]]);
    success(&doc, In::StdinPipe, Out::Pipe, opts)
}

fn failed(d: &Done, want: &str, what: &str) -> Result<(), Stop> {
    match d.code {
        Some(0) => return Err(format!("{what}: exits successfully").into()),
        Some(101) => return Err(format!("{what}: panics: {}", d.err).into()),
        Some(_) => {}
        None => return Err(format!("{what}: ended by a signal").into()),
    }
    if d.err.trim().is_empty() {
        return Err(format!("{what}: no error is reported").into());
    }
    if !want.as_bytes().starts_with(&d.out) {
        return Err(format!("{what}: wrote something else").into());
    }
    Ok(())
}

/// Invalid bytes at every position of a document.
pub fn invalid_input(c: &mut Choices, _: bool) -> V {
    let doc = *c.of(&["", "ab", "\u{e9}\n\n# b\u{1f600}"]);
    let bad: &[u8] = *c.of(&[
        b"\xff".as_slice(),
        b"\x80",
        b"\xc3",
        b"\xed\xa0\x80",
        b"\xe2\x82",
        b"\xc0\xaf",
        b"\xf4\x90\x80\x80",
    ]);
    let at = c.choose(doc.len() + 1);
    let i = *c.of(&INPUTS);
    let opts = *c.of(&[OPTS[0], OPTS[1]]);
    let o = *c.of(&[Out::Pipe, Out::New]);
    let mut b = doc.as_bytes()[..at].to_vec();
    b.extend(bad);
    b.extend(&doc.as_bytes()[at..]);
    if std::str::from_utf8(&b).is_ok() {
        return Err(Stop::Skip);
    }
    let d = run(&b, i, o, opts, None);
    let what = format!("input {b:?} by {i:?}, output by {o:?}, options {opts:?}");
    failed(&d, "", &what)?;
    Ok(obs_text(&d.err, false))
}

/// Failures of reads and of opening files.
pub fn paths(c: &mut Choices, _: bool) -> V {
    let dir = Scratch::new();
    let input = dir.file("in.dj", b"a\n\nb");
    fs::create_dir(dir.0.join("dir")).expect("dir");
    let mut cmd = Command::new(exe());
    cmd.current_dir(&dir.0)
        .stdin(File::open(&input).unwrap())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let args: &[&str] = *c.of(&[
        ["missing.dj"].as_slice(),
        &["dir"],
        &["in.dj/x"],
        &[""],
        &["missing/in.dj"],
        &["in.dj", "-o", "dir"],
        &["in.dj", "-o", "missing/out"],
        &["in.dj", "-o", "in.dj/x"],
        &["-o", "dir"],
        &["-o", ""],
        &["--output", "missing/out"],
        &["in.dj", "--nonsense"],
        &["in.dj", "--start-indent", "x"],
        &["in.dj", "--start-indent=-1"],
        &["in.dj", "in.dj"],
        &["in.dj", "-o"],
        &["STDIN"],
    ]);
    cmd.args(c.of(&[&[] as &[&str], &["--minified"]]).iter());
    if args == ["STDIN"] {
        cmd.stdin(File::open(dir.0.join("dir")).unwrap());
    } else {
        cmd.args(args);
    }
    let out = cmd.output().expect("tool");
    let d = Done {
        code: out.status.code(),
        out: out.stdout,
        stdout: Vec::new(),
        err: String::from_utf8_lossy(&out.stderr).into_owned(),
    };
    failed(&d, "", &format!("arguments {args:?}"))?;
    if fs::read(&input).expect("input") != b"a\n\nb" {
        return Err(format!("arguments {args:?}: input is changed").into());
    }
    Ok(obs_text(&d.err, false))
}

/// The output has no more room at every position.
pub fn full(c: &mut Choices, thorough: bool) -> V {
    let docs = docs();
    let doc = c.of(&docs);
    let o = *c.of(&[Out::StdoutFile, Out::New, Out::Existing]);
    let opts = *c.of(&[OPTS[0], OPTS[1], OPTS[3]]);
    let want = library(doc, opts)?;
    let n = want.len();
    let mut at: Vec<usize> = (0..n).collect();
    if n > 400 && !thorough {
        at.retain(|k| *k < 20 || n - *k < 20 || (*k + 8) % 4096 < 16);
    } else if n > 400 {
        at.retain(|k| *k < 200 || n - *k < 200 || (*k + 32) % 4096 < 64);
    }
    at.push(n);
    let k = *c.of(&at);
    // the input file has to fit as well, it is made before
    let d = run(doc.as_bytes(), In::StdinFile, o, opts, Some(k));
    let what = format!(
        "{}, room for {k} of {n} bytes",
        describe(doc, In::StdinFile, o, opts)
    );
    if k == n {
        if d.code != Some(0) || d.out != want.as_bytes() {
            return Err(format!("{what}: exit {:?}, {}", d.code, d.err).into());
        }
    } else {
        failed(&d, &want, &what)?;
    }
    Ok(obs_text(&format!("{k}{:?}", d.code), false))
}

/// Outputs that accept nothing.
pub fn refused(c: &mut Choices, _: bool) -> V {
    let docs = docs();
    let doc = c.of(&docs);
    let opts = *c.of(&[OPTS[0], OPTS[1], OPTS[3]]);
    let how = c.choose(3);
    let want = library(doc, opts)?;
    let (r, w) = pipe(false);
    let mut cmd = Command::new(exe());
    cmd.args(opts)
        .stdin(r)
        .stderr(Stdio::piped())
        .stdout(Stdio::null());
    let dev = Path::new("/dev/full");
    match how {
        0 => {
            cmd.stdout(
                fs::OpenOptions::new()
                    .write(true)
                    .open(dev)
                    .expect("/dev/full"),
            );
        }
        1 => {
            cmd.arg("-o").arg(dev);
        }
        _ => {
            let (r, w) = pipe(false);
            drop(r);
            cmd.stdout(w);
        }
    }
    let child = cmd.spawn().expect("tool");
    drop(cmd);
    let mut w = w;
    let _ = w.write_all(doc.as_bytes());
    drop(w);
    let out = child.wait_with_output().expect("wait");
    let d = Done {
        code: out.status.code(),
        out: Vec::new(),
        stdout: Vec::new(),
        err: String::from_utf8_lossy(&out.stderr).into_owned(),
    };
    let what = format!(
        "input {:.60?} to {} with options {opts:?}",
        doc,
        ["/dev/full", "-o /dev/full", "a closed pipe"][how]
    );
    if want.is_empty() {
        if d.code != Some(0) {
            return Err(format!("{what}: nothing to write, but exit {:?}", d.code).into());
        }
    } else {
        failed(&d, &want, &what)?;
    }
    Ok(obs_text(&format!("{what}{:?}", d.code), false))
}
