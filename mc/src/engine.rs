//! Bounded exhaustive exploration: enumerates cases of groups on all cores, in an order where the
//! first failure is a shortest one, under a supervising process that survives crashes and hangs.

use std::collections::HashSet;
use std::fs;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Reason that a case does not simply hold.
#[derive(Debug)]
pub enum Stop {
    /// The property is violated.
    Bad(String),
    /// The case is outside of what the property talks about.
    Skip,
    /// The case deviates exactly as described by a known finding.
    Known(&'static str, String),
}

impl From<String> for Stop {
    fn from(s: String) -> Self {
        Stop::Bad(s)
    }
}

/// What was observed for a case.
#[derive(Clone, Copy, Debug, Default)]
pub struct Obs {
    /// Hash of the observed outcome.
    pub hash: u64,
    /// Nothing but plain text was recognised.
    pub trivial: bool,
}

pub type V = Result<Obs, Stop>;

/// Decides one case.
pub type Oracle = fn(&str) -> V;

pub struct Choices {
    preset: Vec<u32>,
    pub taken: Vec<u32>,
    arity: Vec<u32>,
}

impl Choices {
    fn new(preset: Vec<u32>) -> Self {
        Self {
            preset,
            taken: Vec::new(),
            arity: Vec::new(),
        }
    }

    /// Nondeterministic choice of a number less than `n`.
    pub fn choose(&mut self, n: usize) -> usize {
        let i = self.taken.len();
        let c = self.preset.get(i).copied().unwrap_or(0);
        assert!(
            (c as usize) < n,
            "replay diverged: choice {c} of {n} at {i}"
        );
        self.taken.push(c);
        self.arity.push(n as u32);
        c as usize
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
}

pub enum Cases {
    /// All sequences of tokens up to a depth, within a context.
    Strings {
        pre: String,
        post: String,
        toks: Vec<String>,
        depth: [usize; 2],
    },
    /// Explicit list.
    List(Vec<String>),
    /// All choice sequences of a driver, which gets the tier.
    Choices(fn(&mut Choices, bool) -> V),
}

pub struct Group {
    pub name: String,
    pub cases: Cases,
    pub oracle: Oracle,
    pub weight: f64,
}

/// Cases per unit of weight.
const UNIT: [f64; 2] = [250_000.0, 4_000_000.0];

pub fn tok(s: &str) -> String {
    match s {
        "NL" => "\n".into(),
        "SP" => " ".into(),
        "TAB" => "\t".into(),
        "CR" => "\r".into(),
        "CRNL" => "\r\n".into(),
        "FF" => "\x0c".into(),
        "PIPE" => "|".into(),
        _ => s
            .replace("<NL>", "\n")
            .replace("<SP>", " ")
            .replace("<TAB>", "\t")
            .replace("<PIPE>", "|"),
    }
}

fn depth(k: usize, budget: f64) -> usize {
    let mut d = 0;
    let mut n = 1.0;
    loop {
        n += (k as f64).powi(d as i32 + 1);
        if n > budget || d >= 40 {
            return d.max(1);
        }
        d += 1;
    }
}

/// Tokens separated by white space, enumerated as deep as the weight allows.
pub fn ctx(pre: &str, post: &str, toks: &str, weight: f64, oracle: Oracle) -> Group {
    let toks: Vec<String> = toks.split_whitespace().map(tok).collect();
    group(pre, post, toks, weight, oracle)
}

pub fn group(pre: &str, post: &str, toks: Vec<String>, weight: f64, oracle: Oracle) -> Group {
    // for experiments only, the registered commands do not set it
    let scale = std::env::var("MC_SCALE").map_or(1.0, |s| s.parse().expect("number"));
    let depth = UNIT.map(|u| depth(toks.len(), u * weight * scale));
    let mut name = format!("{toks:?}");
    if !pre.is_empty() || !post.is_empty() {
        name = format!("{pre:?} .. {post:?}: {name}");
    }
    Group {
        name,
        cases: Cases::Strings {
            pre: pre.into(),
            post: post.into(),
            toks,
            depth,
        },
        oracle,
        weight,
    }
}

pub fn sp(toks: &str, weight: f64, oracle: Oracle) -> Group {
    ctx("", "", toks, weight, oracle)
}

pub fn list(name: &str, cases: Vec<String>, oracle: Oracle) -> Group {
    Group {
        name: name.into(),
        cases: Cases::List(cases),
        oracle,
        weight: 1.0,
    }
}

pub fn choices(name: &str, f: fn(&mut Choices, bool) -> V) -> Group {
    fn unused(_: &str) -> V {
        unreachable!()
    }
    Group {
        name: name.into(),
        cases: Cases::Choices(f),
        oracle: unused,
        weight: 1.0,
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<String>,
    pub groups: Vec<Group>,
}

// ---- crash safe record of what is being run ----

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

const SLOT: usize = 16384;
const SLOTS: usize = 64;

struct Shared(*mut u8);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

impl Shared {
    fn open(path: &Path) -> Self {
        use std::os::fd::AsRawFd;
        let f = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slot file");
        f.set_len((SLOT * SLOTS) as u64).expect("slot file");
        let p = unsafe { mmap(std::ptr::null_mut(), SLOT * SLOTS, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Self(p)
    }

    fn slot(&self, i: usize) -> Slot {
        assert!(i < SLOTS);
        Slot(unsafe { self.0.add(i * SLOT) })
    }
}

/// Layout: seq (odd while active) u64, group u32, kind u32 (0: bytes, 1: list index), len u32.
#[derive(Clone, Copy)]
struct Slot(*mut u8);
unsafe impl Send for Slot {}

impl Slot {
    fn seq(self) -> &'static AtomicU64 {
        unsafe { &*self.0.cast::<AtomicU64>() }
    }

    fn begin(self, group: u32, kind: u32, case: &[u8]) {
        let n = case.len().min(SLOT - 32);
        unsafe {
            self.0.add(8).cast::<u32>().write_volatile(group);
            self.0.add(12).cast::<u32>().write_volatile(kind);
            self.0.add(16).cast::<u32>().write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(case.as_ptr(), self.0.add(24), n);
        }
        self.seq().fetch_add(1, SeqCst);
    }

    fn end(self) {
        self.seq().fetch_add(1, SeqCst);
    }

    fn read(self) -> Option<(usize, u32, Vec<u8>)> {
        if self.seq().load(SeqCst) % 2 == 0 {
            return None;
        }
        unsafe {
            let g = self.0.add(8).cast::<u32>().read_volatile();
            let k = self.0.add(12).cast::<u32>().read_volatile();
            let n = self.0.add(16).cast::<u32>().read_volatile();
            let mut v = vec![0; n as usize];
            std::ptr::copy_nonoverlapping(self.0.add(24), v.as_mut_ptr(), n as usize);
            Some((g as usize, k, v))
        }
    }
}

// ---- exploration ----

#[derive(Default)]
struct Local {
    runs: u64,
    skipped: u64,
    transitions: u64,
    outcomes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    capped_outcomes: bool,
    known: Vec<(&'static str, String, u64)>,
}

const MAX_OUTCOMES: usize = 2_000_000;

impl Local {
    fn add(&mut self, o: Obs) {
        if self.outcomes.len() < MAX_OUTCOMES {
            self.outcomes.insert(o.hash);
            if !o.trivial {
                self.nontrivial.insert(o.hash);
            }
        } else {
            self.capped_outcomes = true;
        }
    }

    fn merge(&mut self, o: Local) {
        self.runs += o.runs;
        self.skipped += o.skipped;
        self.transitions += o.transitions;
        self.outcomes.extend(o.outcomes);
        self.nontrivial.extend(o.nontrivial);
        self.capped_outcomes |= o.capped_outcomes;
        for (k, case, n) in o.known {
            self.known(k, case, n);
        }
    }

    fn known(&mut self, key: &'static str, case: String, n: u64) {
        match self.known.iter_mut().find(|k| k.0 == key) {
            Some(k) => {
                k.2 += n;
                if (case.len(), &case) < (k.1.len(), &k.1) {
                    k.1 = case;
                }
            }
            None => self.known.push((key, case, n)),
        }
    }
}

struct Failure {
    /// Position in the enumeration.
    at: u64,
    case: String,
    msg: String,
}

pub struct Run<'c> {
    check: &'c Check,
    thorough: bool,
    known: Vec<(String, String)>,
    shared: Shared,
    deadline: Instant,
    out: Mutex<Local>,
    /// Cases by length that are used as samples.
    samples: Mutex<Vec<String>>,
    capped: AtomicBool,
}

fn threads() -> usize {
    std::thread::available_parallelism()
        .map_or(8, |n| n.get())
        .min(SLOTS)
}

thread_local! {
    pub static IMPL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Run code of the implementation, panics are reported as violations.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IMPL.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IMPL.set(false);
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("implementation panicked: {m}")
    })
}

pub fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IMPL.get() {
            old(i);
        }
    }));
}

impl Run<'_> {
    fn verdict(&self, l: &mut Local, case: &str, v: V) -> Option<String> {
        l.runs += 1;
        match v {
            Ok(o) => l.add(o),
            Err(Stop::Skip) => l.skipped += 1,
            Err(Stop::Known(key, msg)) => {
                if self.known.iter().any(|(k, _)| k == key) {
                    l.known(key, case.to_string(), 1);
                } else {
                    return Some(msg);
                }
            }
            Err(Stop::Bad(m)) => return Some(m),
        }
        None
    }

    fn sample(&self, s: &str) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 {
            v.push(s.chars().take(200).collect());
        }
    }

    fn group(&self, gi: usize) -> (Option<Failure>, u64, String) {
        let g = &self.check.groups[gi];
        match &g.cases {
            Cases::Strings {
                pre,
                post,
                toks,
                depth,
            } => {
                let max = depth[usize::from(self.thorough)];
                let mut total = 0;
                for d in 0..=max {
                    let n = (toks.len() as u64).pow(d as u32);
                    let make = |i: u64, s: &mut String| {
                        s.clear();
                        s.push_str(pre);
                        let mut div = n;
                        let mut i = i;
                        for _ in 0..d {
                            div /= toks.len() as u64;
                            s.push_str(&toks[(i / div) as usize]);
                            i %= div;
                        }
                        s.push_str(post);
                    };
                    let f = self.indexed(gi, n, 0, &make);
                    total += n;
                    if f.is_some() || self.capped.load(SeqCst) {
                        return (f, total, format!("depth {d} (of {max})"));
                    }
                    if d == max {
                        let mut s = String::new();
                        make(n * 2 / 3, &mut s);
                        self.sample(&s);
                    }
                }
                (None, total, format!("depth {max}"))
            }
            Cases::List(v) => {
                let make = |i: u64, s: &mut String| {
                    s.clear();
                    s.push_str(&v[i as usize]);
                };
                if let Some(s) = v.get(v.len() / 2) {
                    self.sample(s);
                }
                let f = self.indexed(gi, v.len() as u64, 1, &make);
                (f, v.len() as u64, "list".into())
            }
            Cases::Choices(drive) => {
                let (f, n) = self.dfs(gi, *drive);
                (f, n, "all choices".into())
            }
        }
    }

    fn indexed(
        &self,
        gi: usize,
        n: u64,
        kind: u32,
        make: &(dyn Fn(u64, &mut String) + Sync),
    ) -> Option<Failure> {
        let oracle = self.check.groups[gi].oracle;
        let next = AtomicU64::new(0);
        let stop = AtomicU64::new(u64::MAX);
        let fail: Mutex<Option<Failure>> = Mutex::new(None);
        let chunk = if kind == 1 {
            1
        } else {
            (n / 256).clamp(16, 4096)
        };
        let work = |t: usize| {
            let slot = self.shared.slot(t);
            let mut l = Local::default();
            let mut s = String::new();
            'w: loop {
                let a = next.fetch_add(chunk, SeqCst);
                if a >= n.min(stop.load(SeqCst)) {
                    break;
                }
                if Instant::now() > self.deadline {
                    self.capped.store(true, SeqCst);
                    break;
                }
                for i in a..n.min(a + chunk) {
                    make(i, &mut s);
                    if kind == 1 {
                        slot.begin(gi as u32, 1, i.to_string().as_bytes());
                    } else {
                        slot.begin(gi as u32, 0, s.as_bytes());
                    }
                    let v = oracle(&s);
                    slot.end();
                    l.transitions += 1;
                    if let Some(msg) = self.verdict(&mut l, &s, v) {
                        stop.fetch_min(i, SeqCst);
                        let mut f = fail.lock().unwrap();
                        if f.as_ref().is_none_or(|f| f.at > i) {
                            *f = Some(Failure {
                                at: i,
                                case: s.clone(),
                                msg,
                            });
                        }
                        break 'w;
                    }
                }
            }
            self.out.lock().unwrap().merge(l);
        };
        if n < 64 && kind == 0 {
            work(0);
        } else {
            std::thread::scope(|sc| {
                for t in 0..threads() {
                    let work = &work;
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || work(t))
                        .unwrap();
                }
            });
        }
        fail.into_inner().unwrap()
    }

    fn dfs(&self, gi: usize, drive: fn(&mut Choices, bool) -> V) -> (Option<Failure>, u64) {
        let queue: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![Vec::new()]);
        let busy = AtomicU64::new(0);
        let fail: Mutex<Option<Failure>> = Mutex::new(None);
        let stop = AtomicBool::new(false);
        let count = AtomicU64::new(0);
        let sampled = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for t in 0..threads() {
                let (queue, busy, fail, stop, count, sampled) =
                    (&queue, &busy, &fail, &stop, &count, &sampled);
                let work = move || {
                    let slot = self.shared.slot(t);
                    let mut l = Local::default();
                    let mut stack: Vec<Vec<u32>> = Vec::new();
                    loop {
                        if stop.load(SeqCst) {
                            break;
                        }
                        if stack.is_empty() {
                            let mut q = queue.lock().unwrap();
                            match q.pop() {
                                Some(p) => {
                                    busy.fetch_add(1, SeqCst);
                                    stack.push(p);
                                }
                                None => {
                                    drop(q);
                                    if busy.load(SeqCst) == 0 {
                                        break;
                                    }
                                    std::thread::sleep(Duration::from_micros(200));
                                    continue;
                                }
                            }
                        }
                        while let Some(p) = stack.pop() {
                            if stop.load(SeqCst) || Instant::now() > self.deadline {
                                if !stop.load(SeqCst) {
                                    self.capped.store(true, SeqCst);
                                }
                                stop.store(true, SeqCst);
                                break;
                            }
                            let base = p.len();
                            let mut c = Choices::new(p);
                            slot.begin(gi as u32, 0, show(&c.preset).as_bytes());
                            let v = drive(&mut c, self.thorough);
                            slot.end();
                            count.fetch_add(1, SeqCst);
                            l.transitions += (c.taken.len() - base) as u64 + 1;
                            let case = if v.is_ok() {
                                String::new()
                            } else {
                                show(&c.taken)
                            };
                            if let Some(msg) = self.verdict(&mut l, &case, v) {
                                let mut f = fail.lock().unwrap();
                                let at = c.taken.iter().map(|x| u64::from(*x)).sum();
                                if f.as_ref().is_none_or(|f| f.at > at) {
                                    *f = Some(Failure { at, case, msg });
                                }
                                stop.store(true, SeqCst);
                                break;
                            }
                            if c.taken.len() > 3 && !sampled.swap(true, SeqCst) {
                                self.sample(&format!("choices {}", show(&c.taken)));
                            }
                            for i in base..c.taken.len() {
                                for alt in 1..c.arity[i] {
                                    let mut n = c.taken[..i].to_vec();
                                    n.push(alt);
                                    stack.push(n);
                                }
                            }
                            if stack.len() > 1 {
                                if let Ok(mut q) = queue.try_lock() {
                                    if q.is_empty() {
                                        let h = stack.len() / 2;
                                        q.extend(stack.drain(..h));
                                    }
                                }
                            }
                        }
                        busy.fetch_sub(1, SeqCst);
                    }
                    self.out.lock().unwrap().merge(l);
                };
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, work)
                    .unwrap();
            }
        });
        (fail.into_inner().unwrap(), count.load(SeqCst))
    }
}

fn show(c: &[u32]) -> String {
    c.iter().map(u32::to_string).collect::<Vec<_>>().join(",")
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\x7f' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// Listed findings of a property: key and description.
pub fn known(id: &str) -> Vec<(String, String)> {
    let f = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    f.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, l) = l.split_once(' ')?;
            let (key, what) = l.split_once(' ')?;
            (p == id).then(|| (key.to_string(), what.to_string()))
        })
        .collect()
}

fn replay_path(id: &str, group: &str, case: &str) -> PathBuf {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (group, case).hash(&mut h);
    root()
        .join("replays")
        .join(format!("{id}-{:016x}.json", h.finish()))
}

pub fn write_replay(id: &str, group: &str, case: &str, thorough: bool, msg: &str) -> PathBuf {
    let p = replay_path(id, group, case);
    fs::create_dir_all(p.parent().unwrap()).expect("replays");
    let hex: String = case.bytes().map(|b| format!("{b:02x}")).collect();
    let short: String = case.chars().take(2000).collect();
    fs::write(
        &p,
        format!(
            "{{\"property\":{},\"thorough\":{thorough},\"group\":{},\"case\":{},\"message\":{},\n\"case_hex\":\"{hex}\"}}\n",
            jstr(id), jstr(group), jstr(&short), jstr(&msg.chars().take(4000).collect::<String>())
        ),
    )
    .expect("replay");
    p
}

pub fn report(id: &str, path: &Path, case: &str, msg: &str) {
    let c: String = case.chars().take(400).collect();
    println!("  case: {c:?}");
    for l in msg.lines().take(60) {
        let l: String = l.chars().take(1500).collect();
        println!("  {l}");
    }
    println!("VIOLATION property={id} replay={}", path.display());
}

/// Decide a single case in this process.
pub fn one(check: &Check, group: &str, case: &str, thorough: bool) -> Option<String> {
    let g = check
        .groups
        .iter()
        .find(|g| g.name == group)
        .expect("group of replay");
    let v = match &g.cases {
        Cases::Choices(drive) => {
            let preset = case
                .split(',')
                .filter(|s| !s.is_empty())
                .map(|s| s.parse().unwrap())
                .collect();
            drive(&mut Choices::new(preset), thorough)
        }
        _ => (g.oracle)(case),
    };
    match v {
        Ok(_) => None,
        Err(Stop::Skip) => None,
        Err(Stop::Known(k, m)) => {
            let listed = known(check.id).iter().any(|(l, _)| l == k);
            if listed {
                println!("KNOWN-FINDING: property={} {k}", check.id);
            }
            (!listed).then_some(m)
        }
        Err(Stop::Bad(m)) => Some(m),
    }
}

/// Explore everything in this process.
pub fn work(check: &Check, thorough: bool, slots: &Path) -> i32 {
    let start = Instant::now();
    let cap = Duration::from_secs(if thorough { 6 * 3600 } else { 400 });
    let known = known(check.id);
    let mut run = Run {
        check,
        thorough,
        known,
        shared: Shared::open(slots),
        deadline: start + cap,
        out: Mutex::default(),
        samples: Mutex::default(),
        capped: AtomicBool::new(false),
    };
    watchdog(&run.shared);
    let mut groups = Vec::new();
    let mut failure = None;
    for (gi, g) in check.groups.iter().enumerate() {
        let t = Instant::now();
        let before = run.out.get_mut().unwrap().runs;
        let (f, _, bound) = run.group(gi);
        let n = run.out.get_mut().unwrap().runs - before;
        groups.push(format!(
            "{{\"cases\":{n},\"bound\":{},\"complete\":{},\"alphabet\":{}}}",
            jstr(&bound),
            f.is_none() && !run.capped.load(SeqCst),
            jstr(&g.name.chars().take(600).collect::<String>()),
        ));
        if std::env::var_os("MC_TIMES").is_some() {
            println!(
                "{:7.2}s {n:9} {bound} {:.100}",
                t.elapsed().as_secs_f64(),
                g.name
            );
        }
        if let Some(f) = f {
            failure = Some((gi, f));
            break;
        }
        if run.capped.load(SeqCst) {
            break;
        }
    }
    let complete = failure.is_none() && !run.capped.load(SeqCst);
    let out = run.out.into_inner().unwrap();
    let samples = run.samples.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let mut known_lines = Vec::new();
    for (key, what) in &run.known {
        if let Some(k) = out.known.iter().find(|k| k.0 == key) {
            println!(
                "KNOWN-FINDING: property={} {what} [{key}: {} of the cases explored, e.g. {:?}]",
                check.id,
                k.2,
                k.1.chars().take(80).collect::<String>()
            );
            known_lines.push(format!("{{\"key\":{},\"cases\":{}}}", jstr(key), k.2));
        }
    }
    evidence(
        check,
        thorough,
        wall,
        usize::from(failure.is_some()),
        complete,
        &format!(
            "\"inputs_skipped_outside_property\":{},\"outcome_count_capped\":{},\"samples\":[{}],\"known_findings\":[{}],\"groups\":[\n{}]",
            out.skipped,
            out.capped_outcomes,
            samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            known_lines.join(","),
            groups.join(",\n")
        ),
        [
            out.runs,
            out.outcomes.len() as u64,
            out.nontrivial.len() as u64,
            out.transitions,
            out.runs - out.skipped,
        ],
    );
    println!(
        "{}: {} cases ({} outside the property), {} distinct outcomes, {} groups, {:.1} s{}",
        check.id,
        out.runs,
        out.skipped,
        out.outcomes.len(),
        groups.len(),
        wall,
        if complete {
            ""
        } else if failure.is_some() {
            ", stopped at a violation"
        } else {
            ", time cap reached"
        }
    );
    if let Some((gi, f)) = failure {
        let g = &check.groups[gi].name;
        let p = write_replay(check.id, g, &f.case, thorough, &f.msg);
        report(check.id, &p, &f.case, &f.msg);
        return 1;
    }
    0
}

fn evidence(
    check: &Check,
    thorough: bool,
    wall: f64,
    violations: usize,
    complete: bool,
    extra: &str,
    [runs, outcomes, nontrivial, transitions, validated]: [u64; 5],
) {
    let counts = match check.level {
        "model_checking" => format!(
            "\"states\":{outcomes},\"transitions\":{transitions},\"traces_validated_against_impl\":{validated},\"rule\":\"states are the distinct outcomes (event streams or outputs) reached, transitions the steps by which the bounded space was enumerated (every node of the tree of inputs is run as a complete input), traces the executions of the implementation whose result was compared\",\"states_beyond_plain_text\":{nontrivial}"
        ),
        _ => format!(
            "\"evaluations\":{runs},\"distinct_nontrivial\":{nontrivial},\"rule\":\"exhaustive enumeration of the bounded spaces listed under groups; counted by distinct outcome that has more than plain text\""
        ),
    };
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let dir = root().join("evidence");
    fs::create_dir_all(&dir).expect("evidence");
    let a: Vec<String> = check.assumptions.iter().map(|s| jstr(s)).collect();
    let text = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{seed},\"level\":\"{}\",\"wall_s\":{wall:.2},\"violations\":{violations},\n\"assumptions\":[{}],\n\"coverage\":{{{counts},\"exhaustive\":{complete},{extra}}}}}\n",
        jstr(check.id),
        if thorough { "thorough" } else { "quick" },
        check.level,
        a.join(","),
    );
    fs::write(dir.join(format!("{}.json", check.id)), text).expect("evidence");
}

/// Abort when a single case makes no progress.
fn watchdog(shared: &Shared) {
    let base = shared.0 as usize;
    std::thread::spawn(move || {
        let sh = Shared(base as *mut u8);
        let mut last: Vec<(u64, u32)> = vec![(0, 0); SLOTS];
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for (i, l) in last.iter_mut().enumerate() {
                let s = sh.slot(i).seq().load(SeqCst);
                if s % 2 == 1 && s == l.0 {
                    l.1 += 1;
                    if l.1 == 2 && std::env::var_os("MC_TIMES").is_some() {
                        println!("slow case in slot {i}");
                    }
                    if l.1 > 45 {
                        eprintln!("no progress in slot {i}");
                        std::process::abort();
                    }
                } else {
                    *l = (s, 0);
                }
            }
        }
    });
}

fn limit(cmd: &mut std::process::Command) {
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(|| {
            setrlimit(9, &[20 << 30, 20 << 30]); // address space
            setrlimit(4, &[0, 0]); // no core dumps
            Ok(())
        });
    }
}

/// Run a command, `None` if it did not end in time.
pub fn run_for(cmd: &mut std::process::Command, secs: u64) -> Option<std::process::ExitStatus> {
    let mut c = cmd.spawn().expect("spawn");
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            return Some(s);
        }
        if t.elapsed().as_secs() > secs {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Run the exploration in a child, and find the case that is responsible if the child dies.
pub fn supervise(check: &Check, thorough: bool) -> i32 {
    let start = Instant::now();
    let dir = root().join("replays");
    fs::create_dir_all(&dir).expect("replays");
    let slots = dir.join(format!("slots-{}-{}", check.id, std::process::id()));
    let shared = Shared::open(&slots);
    let exe = std::env::current_exe().expect("exe");
    let tier = if thorough { "thorough" } else { "quick" };
    let mut cmd = std::process::Command::new(&exe);
    cmd.args(["work", check.id, tier]).arg(&slots);
    limit(&mut cmd);
    let st = cmd.status().expect("spawn");
    let _ = fs::remove_file(&slots);
    if let Some(c) = st.code() {
        return c;
    }
    println!("exploration ended by a signal ({st}), looking for the case");
    let _ = std::io::stdout().flush();
    for i in 0..SLOTS {
        let Some((gi, kind, bytes)) = shared.slot(i).read() else {
            continue;
        };
        let g = &check.groups[gi];
        let mut case = String::from_utf8_lossy(&bytes).to_string();
        if let (1, Cases::List(v)) = (kind, &g.cases) {
            case = v[case.parse::<usize>().unwrap()].clone();
        }
        let p = write_replay(check.id, &g.name, &case, thorough, "crash or hang");
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg("one").arg(&p).stdout(std::process::Stdio::null());
        cmd.stderr(std::process::Stdio::null());
        limit(&mut cmd);
        let st = run_for(&mut cmd, 60);
        let msg = match st {
            None => "implementation does not terminate".to_string(),
            Some(st) if st.code().is_none() => format!("implementation crashed ({st})"),
            Some(st) if st.code() == Some(1) => "violated".to_string(),
            Some(_) => {
                let _ = fs::remove_file(&p);
                continue;
            }
        };
        let p = write_replay(check.id, &g.name, &case, thorough, &msg);
        evidence(
            check,
            thorough,
            start.elapsed().as_secs_f64(),
            1,
            false,
            &format!(
                "\"samples\":[{}]",
                jstr(&case.chars().take(200).collect::<String>())
            ),
            [1, 1, 1, 1, 1],
        );
        report(check.id, &p, &case, &msg);
        return 1;
    }
    println!("no single case explains it");
    2
}
