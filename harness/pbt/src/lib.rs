//! A small property-based testing engine: every generated value is a pure function of a recorded
//! sequence of bounded choices, so a failing case shrinks by shrinking that sequence (deleting,
//! zeroing and lowering choices) and replays from it without a random generator.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

fn hash_words(words: &[u64]) -> u64 {
    let mut h = words.len() as u64;
    for w in words {
        h = mix(h ^ w.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    }
    h
}

static TRACING: AtomicBool = AtomicBool::new(false);
static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);

#[cold]
fn trace(v: u64) {
    use std::io::Write;
    if let Ok(mut g) = TRACE.lock() {
        if let Some(f) = g.as_mut() {
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
}

/// Source of choices.
pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    state: u64,
    index: u64,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64, index: u64) -> Self {
        Src {
            replay: None,
            pos: 0,
            state: mix(seed ^ mix(index)),
            index,
            rec: Vec::new(),
        }
    }

    pub fn replaying(choices: Vec<u64>) -> Self {
        Src {
            replay: Some(choices),
            pos: 0,
            state: 0,
            index: 0,
            rec: Vec::new(),
        }
    }

    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.state)
    }

    fn take(&mut self, bound: u64, fresh: impl FnOnce(&mut Self) -> u64) -> u64 {
        let v = if let Some(list) = &self.replay {
            let v = list.get(self.pos).copied().unwrap_or(0);
            if v > bound {
                bound
            } else {
                v
            }
        } else {
            fresh(self)
        };
        self.pos += 1;
        self.rec.push(v);
        if TRACING.load(Ordering::Relaxed) {
            trace(v);
        }
        v
    }

    /// 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1, "below(0)");
        self.take(n - 1, |s| ((u128::from(s.raw()) * u128::from(n)) >> 64) as u64)
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }

    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }

    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.idx(items.len())]
    }

    /// index by weight; earlier entries are simpler
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        weights.len() - 1
    }

    pub fn word(&mut self) -> u64 {
        self.take(u64::MAX, Src::raw)
    }

    /// A value of `bits` bits, biased to edges and small values.
    pub fn bits(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.below(8) {
            0..=2 => self.below(16).min(mask),
            3 => {
                let k = self.below(6);
                let edge = [
                    0,
                    mask,
                    mask >> 1,
                    (mask >> 1).wrapping_add(1),
                    mask.wrapping_sub(1),
                    1,
                ];
                edge[k as usize] & mask
            }
            4 => (1u64 << self.below(u64::from(bits))) & mask,
            5 => {
                let b = self.word() & 0xff;
                (b * 0x0101_0101_0101_0101) & mask
            }
            _ => self.word() & mask,
        }
    }

    /// Enumerates 0..n over successive cases in generation mode.
    pub fn case_index(&mut self, n: u64) -> u64 {
        let i = self.index % n;
        self.take(n - 1, |_| i)
    }

    /// A length with geometric tail, capped.
    /// A size at or next to a power of two, up to `max`.
    pub fn big(&mut self, max: usize) -> usize {
        let top = (usize::BITS - max.leading_zeros()) as u64;
        let p = 1usize << (4 + self.below(top.saturating_sub(4).max(1)));
        (p + self.idx(3)).saturating_sub(1).min(max)
    }

    pub fn len(&mut self, max: usize) -> usize {
        match self.below(10) {
            0 => 0,
            1..=6 => self.idx(max.min(4) + 1),
            7 | 8 => self.idx(max.min(12) + 1),
            _ => self.idx(max + 1),
        }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub want_sample: bool,
    pub sample: Option<String>,
    /// Extra executions counted inside one case (e.g. crash points).
    pub extra_evals: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

/// Err = property violated: (signature, message). The signature names the kind of failure.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !$c {
            return $crate::fail($sig, format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::fail($sig, format!("{}: got {:?}, expected {:?}", $sig, a, b));
        }
    }};
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::fail($sig, format!("{}: got {:?}, expected {:?} ({})", $sig, a, b, format!($($arg)*)));
        }
    }};
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Runs `f`, turning a panic into Err(message with location).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> R {
    match catch(|| f(src, ctx)) {
        Ok(r) => r,
        Err(m) => fail("panic", format!("panic: {m}")),
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" …");
        t
    }
}

#[derive(Default)]
struct Totals {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    known: BTreeMap<String, u64>,
}

struct Found {
    index: u64,
    rec: Vec<u64>,
    fail: Fail,
}

struct Known {
    entries: Vec<(String, String, String)>, // property, sub:sig, text
}

impl Known {
    fn load(root: &Path) -> Known {
        let mut entries = vec![];
        if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for line in text.lines() {
                let line = line.trim();
                if let Some(rest) = line.strip_prefix("known: property=") {
                    let mut it = rest.splitn(3, ' ');
                    if let (Some(p), Some(sig), Some(text)) = (it.next(), it.next(), it.next()) {
                        if let Some(sig) = sig.strip_prefix("sig=") {
                            entries.push((p.to_owned(), sig.to_owned(), text.to_owned()));
                        }
                    }
                }
            }
        }
        Known { entries }
    }
    fn find(&self, prop: &str, sub: &str, sig: &str) -> Option<&str> {
        let key = format!("{sub}:{sig}");
        self.entries
            .iter()
            .find(|(p, s, _)| p == prop && *s == key)
            .map(|(_, _, t)| t.as_str())
    }
}

fn shrink(f: CaseFn, start: Found, known: &Known, prop: &str, sub: &str) -> Found {
    let deadline = Instant::now() + Duration::from_secs(40);
    let mut best = start;
    let mut execs = 0u64;
    let mut attempt = |cand: Vec<u64>, best: &mut Found| -> bool {
        if execs > 20_000 || Instant::now() > deadline {
            return false;
        }
        execs += 1;
        let mut src = Src::replaying(cand);
        let mut ctx = Ctx::default();
        match run_case(f, &mut src, &mut ctx) {
            Err(fl) if known.find(prop, sub, &fl.sig).is_none() => {
                // keep only what was consumed
                let mut rec = src.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                let better = (rec.len(), &rec) < (best.rec.len(), &best.rec);
                if better {
                    best.rec = rec;
                    best.fail = fl;
                }
                better
            }
            _ => false,
        }
    };
    loop {
        let before = best.rec.clone();
        // delete chunks
        let mut k = (best.rec.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.rec.len() {
                let mut c = best.rec.clone();
                c.drain(i..i + k);
                if !attempt(c, &mut best) {
                    i += if k > 8 { k / 2 } else { 1 };
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero chunks
        let mut k = 16usize;
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.rec.len() {
                if best.rec[i..i + k].iter().any(|v| *v != 0) {
                    let mut c = best.rec.clone();
                    for v in &mut c[i..i + k] {
                        *v = 0;
                    }
                    attempt(c, &mut best);
                }
                i += k;
            }
            k /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.rec.len() {
            let mut lo = 0u64;
            let mut hi = best.rec[i];
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.rec.clone();
                c[i] = mid;
                if attempt(c, &mut best) {
                    if i >= best.rec.len() {
                        break;
                    }
                    hi = best.rec[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            // lower together with deleting the following choice (lengths)
            if i + 1 < best.rec.len() && best.rec[i] > 0 {
                let mut c = best.rec.clone();
                c[i] -= 1;
                c.remove(i + 1);
                attempt(c, &mut best);
            }
            i += 1;
        }
        if best.rec == before || Instant::now() > deadline {
            break;
        }
    }
    best
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn run_sub(
    prop: &Prop,
    sub: &Sub,
    seed: u64,
    thorough: bool,
    scale: f64,
    totals: &Mutex<Totals>,
    known: &Known,
) -> Option<Found> {
    let n = if thorough { sub.thorough } else { sub.quick };
    let n = ((n as f64) * scale).ceil() as u64;
    let subseed = mix(seed ^ hash_bytes(format!("{}/{}", prop.id, sub.name).as_bytes()));
    let next = AtomicU64::new(0);
    let fail_at = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let workers = std::env::var("VERIF_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |p| p.get()).min(8));
    let sub_no = prop.subs.iter().position(|x| x.name == sub.name).unwrap_or(0) as u64;
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, fail_at, found) = (&next, &fail_at, &found);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut local = Totals::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || i > fail_at.load(Ordering::Relaxed) {
                            slot_set(w, 0, 0);
                            break;
                        }
                        slot_set(w, sub_no + 1, i);
                        let mut src = Src::random(subseed, i);
                        let mut ctx = Ctx {
                            want_sample: i < 40 && local.samples.len() < 2,
                            ..Ctx::default()
                        };
                        let r = run_case(sub.run, &mut src, &mut ctx);
                        local.evals += 1 + ctx.extra_evals;
                        if ctx.nontrivial {
                            local.nontrivial += 1;
                            local.distinct.insert(hash_words(&src.rec) ^ hash_bytes(sub.name.as_bytes()));
                        }
                        for l in &ctx.labels {
                            *local.labels.entry(l).or_default() += 1;
                        }
                        if let Some(text) = ctx.sample {
                            if ctx.nontrivial {
                                local
                                    .samples
                                    .push((i, format!("{}#{}: {}", sub.name, i, clip(&text, 700))));
                            }
                        }
                        if let Err(f) = r {
                            if let Some(t) = known.find(prop.id, sub.name, &f.sig) {
                                *local.known.entry(t.to_owned()).or_default() += 1;
                                continue;
                            }
                            fail_at.fetch_min(i, Ordering::Relaxed);
                            let mut g = found.lock().unwrap();
                            if g.as_ref().map_or(true, |o| o.index > i) {
                                *g = Some(Found {
                                    index: i,
                                    rec: src.rec,
                                    fail: f,
                                });
                            }
                        }
                    }
                    let mut t = totals.lock().unwrap();
                    t.evals += local.evals;
                    t.nontrivial += local.nontrivial;
                    t.distinct.extend(local.distinct);
                    for (k, v) in local.labels {
                        *t.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in local.known {
                        *t.known.entry(k).or_default() += v;
                    }
                    t.samples.extend(local.samples);
                })
                .unwrap();
        }
    });
    found.into_inner().unwrap()
}

const SLOTS: usize = 64;
/// Longest time one case may take before it counts as not terminating.
const HANG_S: u64 = 120;
static SLOT_FD: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU64 = AtomicU64::new(0);
static SLOT_START: [AtomicU64; SLOTS] = [ZERO; SLOTS];
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn slot_set(w: usize, sub: u64, case: u64) {
    use std::os::unix::fs::FileExt;
    if w >= SLOTS {
        return;
    }
    if let Some(f) = SLOT_FD.get() {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&sub.to_le_bytes());
        b[8..].copy_from_slice(&case.to_le_bytes());
        let _ = f.write_at(&b, (w * 16) as u64);
    }
    let now = if sub == 0 {
        0
    } else {
        EPOCH.get_or_init(Instant::now).elapsed().as_secs() + 1
    };
    SLOT_START[w].store(now, Ordering::Relaxed);
}

fn start_monitor(slots: &Path) {
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open(slots) {
        let _ = SLOT_FD.set(f);
    }
    EPOCH.get_or_init(Instant::now);
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        let now = EPOCH.get_or_init(Instant::now).elapsed().as_secs() + 1;
        for s in &SLOT_START {
            let t = s.load(Ordering::Relaxed);
            if t != 0 && now > t + HANG_S {
                eprintln!("monitor: a case has been running for more than {HANG_S}s");
                std::process::abort();
            }
        }
    });
}

/// Code that reserves memory without end is to fail, not to take the machine down.
fn limit_memory(gigabytes: u64) {
    #[repr(C)]
    struct Limit {
        soft: u64,
        hard: u64,
    }
    extern "C" {
        fn setrlimit(resource: i32, limit: *const Limit) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let bytes = gigabytes << 30;
    // a failure leaves the process as it was
    let _ = unsafe { setrlimit(RLIMIT_AS, &Limit { soft: bytes, hard: bytes }) };
}

enum Died {
    No,
    Yes(String),
}

/// Runs one case in a process of its own; `Died::Yes` when it is killed by a signal or does not end.
fn probe(args: &[&str], trace: Option<&Path>, timeout: Duration) -> Died {
    use std::os::unix::process::ExitStatusExt;
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("exe"));
    cmd.args(args)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .env_remove("VERIF_CHILD");
    if let Some(t) = trace {
        cmd.env("VERIF_TRACE", t);
    }
    let Ok(mut ch) = cmd.spawn() else { return Died::No };
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                return match st.signal() {
                    Some(sig) => Died::Yes(format!("the process was ended by signal {sig}")),
                    None => Died::No,
                }
            }
            Ok(None) if t0.elapsed() > timeout => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Died::Yes(format!("the case did not end within {}s", timeout.as_secs()));
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(2)),
            Err(_) => return Died::No,
        }
    }
}

fn write_choices(path: &Path, rec: &[u64]) {
    let b: Vec<u8> = rec.iter().flat_map(|v| v.to_le_bytes()).collect();
    let _ = std::fs::write(path, b);
}

fn read_choices(path: &Path) -> Vec<u64> {
    std::fs::read(path)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

/// The check proper runs in a child process, so that code which aborts, overflows the stack or does
/// not end is reported with the case that made it do so.
fn supervise(p: &Prop, root: &Path, seed: u64, tier: &str) -> ! {
    let dir = std::env::temp_dir().join(format!("pbt-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let slots = dir.join("slots");
    let _ = std::fs::write(&slots, [0u8; SLOTS * 16]);
    let t0 = Instant::now();
    let status = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(["check", p.id])
        .env("VERIF_CHILD", &slots)
        .status();
    let clean = || {
        let _ = std::fs::remove_dir_all(&dir);
    };
    if let Ok(Some(code)) = status.as_ref().map(std::process::ExitStatus::code) {
        clean();
        std::process::exit(code);
    }
    let report = |sub: &str, case: u64, how: &str, text: &str| {
        let out = root.join("replays");
        let _ = std::fs::create_dir_all(&out);
        let path = out.join(format!("{}-{}.txt", p.id, sub));
        let _ = std::fs::write(&path, text);
        let _ = std::fs::create_dir_all(root.join("evidence"));
        let _ = std::fs::write(
            root.join("evidence").join(format!("{}.json", p.id)),
            format!(
                "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": 1,\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [],\n \"wall_s\": {:.3},\n \"violations\": 1\n}}\n",
                json_str(p.id),
                json_str(tier),
                seed,
                json_str(p.level),
                case + 1,
                json_str(p.rule),
                json_str(&format!("{}#{}: {}", sub, case, how)),
                t0.elapsed().as_secs_f64()
            ),
        );
        println!("[{}/{}] case {}: {}", p.id, sub, case, how);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    };
    if let Ok(text) = std::fs::read_to_string(dir.join("pending")) {
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_default().to_owned();
        report(&get("sub: "), get("case: ").parse().unwrap_or(0), &get("message: "), &text);
        clean();
        std::process::exit(1);
    }
    let bytes = std::fs::read(&slots).unwrap_or_default();
    for c in bytes.chunks_exact(16) {
        let sub = u64::from_le_bytes(c[..8].try_into().unwrap());
        let case = u64::from_le_bytes(c[8..].try_into().unwrap());
        if sub == 0 {
            continue;
        }
        let Some(sub) = p.subs.get(sub as usize - 1) else { continue };
        let tr = dir.join("trace");
        let case_s = case.to_string();
        let Died::Yes(mut how) = probe(
            &["case", p.id, sub.name, &case_s],
            Some(&tr),
            Duration::from_secs(60),
        ) else {
            continue;
        };
        let mut best = read_choices(&tr);
        let deadline = Instant::now() + Duration::from_secs(90);
        let cand_file = dir.join("cand");
        let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
            if Instant::now() > deadline {
                return false;
            }
            write_choices(&cand_file, &cand);
            match probe(
                &["choices", p.id, sub.name, &cand_file.to_string_lossy()],
                None,
                Duration::from_secs(20),
            ) {
                Died::Yes(h) => {
                    how = h;
                    *best = cand;
                    true
                }
                Died::No => false,
            }
        };
        if attempt(best.clone(), &mut best) {
            let mut k = (best.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    if !attempt(c, &mut best) {
                        i += k;
                    }
                }
                if k == 1 {
                    break;
                }
                k /= 2;
            }
            for i in 0..best.len() {
                if best[i] != 0 {
                    let mut c = best.clone();
                    c[i] = 0;
                    attempt(c, &mut best);
                }
            }
        }
        let choices = best.iter().map(u64::to_string).collect::<Vec<_>>().join(" ");
        report(
            sub.name,
            case,
            &how,
            &format!(
                "property: {}\nsub: {}\nseed: {}\ncase: {}\nsignature: died\nmessage: {}\nchoices: {}\n",
                p.id, sub.name, seed, case, how, choices
            ),
        );
        clean();
        std::process::exit(1);
    }
    eprintln!("[{}] the check process died ({status:?}) and no case reproduces it", p.id);
    clean();
    std::process::exit(3);
}

static QUIET: AtomicBool = AtomicBool::new(true);

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        let loc = info
            .location()
            .map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let text = format!("{msg}{loc}");
        if !QUIET.load(Ordering::Relaxed) {
            eprintln!("panic: {text}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

fn describe(f: CaseFn, rec: &[u64]) -> String {
    on_big_stack(|| {
        let mut src = Src::replaying(rec.to_vec());
        let mut ctx = Ctx {
            want_sample: true,
            ..Ctx::default()
        };
        let _ = run_case(f, &mut src, &mut ctx);
        ctx.sample.unwrap_or_default()
    })
}

/// Entry point of a check binary: `check <id>`, `replay <file>` or `list`.
pub fn main(props: Vec<Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = verif_root();
    let known = Known::load(&root);
    match args.iter().map(String::as_str).collect::<Vec<_>>().as_slice() {
        ["list"] => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        ["replay", file] => {
            let text = std::fs::read_to_string(file).expect("replay file");
            let get = |k: &str| {
                text.lines()
                    .find_map(|l| l.strip_prefix(k))
                    .map(str::trim)
                    .unwrap_or_default()
                    .to_owned()
            };
            let (pid, sub) = (get("property:"), get("sub:"));
            let rec: Vec<u64> = get("choices:").split_whitespace().map(|s| s.parse().unwrap()).collect();
            let Some(p) = props.iter().find(|p| p.id == pid) else {
                eprintln!("unknown property {pid}");
                std::process::exit(2);
            };
            let Some(s) = p.subs.iter().find(|s| s.name == sub) else {
                eprintln!("unknown sub-check {sub}");
                std::process::exit(2);
            };
            let run = s.run;
            let (r, sample) = on_big_stack(|| {
                let mut src = Src::replaying(rec);
                let mut ctx = Ctx {
                    want_sample: true,
                    ..Ctx::default()
                };
                let r = run_case(run, &mut src, &mut ctx);
                (r, ctx.sample)
            });
            if let Some(s) = sample {
                println!("case: {s}");
            }
            match r {
                Ok(()) => println!("replay: property holds on this case"),
                Err(f) => {
                    println!("replay: [{}] {}", f.sig, f.msg);
                    println!("VIOLATION property={pid} replay={file}");
                    std::process::exit(1);
                }
            }
        }
        ["case", id, sub, case] | ["choices", id, sub, case] => {
            let s = props
                .iter()
                .find(|p| p.id == *id)
                .and_then(|p| p.subs.iter().find(|s| s.name == *sub));
            let Some(s) = s else { std::process::exit(2) };
            limit_memory(12);
            if let Some(t) = std::env::var_os("VERIF_TRACE") {
                *TRACE.lock().unwrap() = std::fs::File::create(t).ok();
                TRACING.store(true, Ordering::Relaxed);
            }
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let subseed = mix(seed ^ hash_bytes(format!("{id}/{sub}").as_bytes()));
            let mut src = if args[0] == "case" {
                Src::random(subseed, case.parse().unwrap_or(0))
            } else {
                Src::replaying(read_choices(Path::new(case)))
            };
            let run = s.run;
            let r = on_big_stack(move || run_case(run, &mut src, &mut Ctx::default()));
            println!("{r:?}");
        }
        ["check", id] => {
            let Some(p) = props.iter().find(|p| p.id == *id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let thorough = tier == "thorough";
            match std::env::var_os("VERIF_CHILD") {
                Some(slots) => {
                    limit_memory(24);
                    start_monitor(Path::new(&slots));
                }
                None => supervise(p, &root, seed, if thorough { "thorough" } else { "quick" }),
            }
            let limit: u64 = if thorough { 4 * 3600 } else { 840 };
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(limit));
                eprintln!("watchdog: time budget exhausted, inconclusive");
                std::process::exit(3);
            });
            let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3.0 } else { 8.0 });
            let t0 = Instant::now();
            let totals = Mutex::new(Totals::default());
            let mut violations = 0;
            let mut per_sub = vec![];
            let only = std::env::var("VERIF_SUB").ok();
            for sub in &p.subs {
                if only.as_ref().map_or(false, |o| o != sub.name) {
                    continue;
                }
                let ts = Instant::now();
                let before = totals.lock().unwrap().evals;
                let found = run_sub(p, sub, seed, thorough, scale, &totals, &known);
                let after = totals.lock().unwrap().evals;
                per_sub.push((sub.name, after - before));
                eprintln!(
                    "[{}] {}: {} evaluations in {:.1}s",
                    p.id,
                    sub.name,
                    after - before,
                    ts.elapsed().as_secs_f64()
                );
                if let Some(f) = found {
                    violations += 1;
                    let run = sub.run;
                    let idx = f.index;
                    if let Some(slots) = std::env::var_os("VERIF_CHILD") {
                        let choices = f.rec.iter().map(u64::to_string).collect::<Vec<_>>().join(" ");
                        let _ = std::fs::write(
                            Path::new(&slots).with_file_name("pending"),
                            format!(
                                "property: {}\nsub: {}\nseed: {}\ncase: {}\nsignature: {}\nmessage: {}\nchoices: {}\n",
                                p.id,
                                sub.name,
                                seed,
                                idx,
                                f.fail.sig,
                                f.fail.msg.replace('\n', "\\n"),
                                choices
                            ),
                        );
                    }
                    let f = on_big_stack(|| shrink(run, f, &known, p.id, sub.name));
                    let case = describe(run, &f.rec);
                    let dir = root.join("replays");
                    let _ = std::fs::create_dir_all(&dir);
                    let path = dir.join(format!("{}-{}.txt", p.id, sub.name));
                    let choices = f.rec.iter().map(u64::to_string).collect::<Vec<_>>().join(" ");
                    let text = format!(
                        "property: {}\nsub: {}\nseed: {}\ncase: {}\nsignature: {}\nmessage: {}\nchoices: {}\n\nminimal case:\n{}\n",
                        p.id,
                        sub.name,
                        seed,
                        idx,
                        f.fail.sig,
                        f.fail.msg.replace('\n', "\\n"),
                        choices,
                        case
                    );
                    let _ = std::fs::write(&path, text);
                    println!("[{}/{}] {}", p.id, sub.name, clip(&f.fail.msg, 3000));
                    println!("minimal case: {}", clip(&case, 3000));
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    break;
                }
            }
            let wall = t0.elapsed().as_secs_f64();
            let mut t = totals.into_inner().unwrap();
            for (k, n) in &t.known {
                println!("KNOWN-FINDING: property={} {} ({} cases)", p.id, k, n);
            }
            t.samples.sort();
            let samples: Vec<String> = pick_samples(&t.samples, &p.subs);
            let mut o = String::new();
            let _ = write!(
                o,
                "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"nontrivial\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"sub_checks\": {{{}}},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
                json_str(p.id),
                json_str(if thorough { "thorough" } else { "quick" }),
                seed,
                json_str(p.level),
                t.evals,
                t.nontrivial,
                t.distinct.len(),
                json_str(p.rule),
                per_sub
                    .iter()
                    .map(|(k, v)| format!("{}: {}", json_str(k), v))
                    .collect::<Vec<_>>()
                    .join(", "),
                t.labels
                    .iter()
                    .map(|(k, v)| format!("{}: {}", json_str(k), v))
                    .collect::<Vec<_>>()
                    .join(", "),
                samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "),
                p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
                wall,
                violations
            );
            let dir = root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), o) {
                eprintln!("cannot write evidence: {e}");
                std::process::exit(4);
            }
            println!(
                "[{}] {} evaluations, {} distinct non-trivial, {:.1}s, violations: {}",
                p.id,
                t.evals,
                t.distinct.len(),
                wall,
                violations
            );
            std::process::exit(if violations > 0 { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage: check <id> | replay <file> | list");
            std::process::exit(2);
        }
    }
}

fn pick_samples(all: &[(u64, String)], subs: &[Sub]) -> Vec<String> {
    let mut out = vec![];
    for s in subs {
        let prefix = format!("{}#", s.name);
        out.extend(
            all.iter()
                .filter(|(_, t)| t.starts_with(&prefix))
                .take(2)
                .map(|(_, t)| t.clone()),
        );
    }
    out
}
