//! Case runner, verdicts, evidence, replay. Everything a case does derives from (seed, section, index).
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn hash(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
pub fn hash_s(s: &str) -> u64 {
    hash(s.as_bytes())
}

#[derive(Debug)]
pub enum Fail {
    /// the property is broken; the text is the witness
    V(String),
    /// the harness could not decide
    H(String),
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { return Err($crate::core::Fail::V(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::core::Fail::V(format!($($t)*))) } };
}
#[macro_export]
macro_rules! hfail {
    ($($t:tt)*) => { return Err($crate::core::Fail::H(format!($($t)*))) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Agg {
    evals: u64,
    distinct: HashSet<u64>,
    events: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    samples: Vec<(String, String)>,
}

pub struct Case {
    pub section: String,
    pub idx: u64,
    pub rng: Rng,
    pub tier: Tier,
    agg: Agg,
    pub trace: Vec<String>,
    want_sample: bool,
}
impl Case {
    /// a throw-away case that does what the case `idx` of `section` does
    pub fn sub(x: &Ctx, section: &str, idx: u64) -> Case {
        Case {
            section: section.to_string(),
            idx,
            rng: x.case_rng(section, idx),
            tier: x.tier,
            agg: Agg::default(),
            trace: vec![],
            want_sample: false,
        }
    }
    pub fn ev(&mut self, name: &str, n: u64) {
        if let Some(v) = self.agg.events.get_mut(name) {
            *v += n
        } else {
            self.agg.events.insert(name.to_string(), n);
        }
    }
    /// distinct values observed under a name
    pub fn seen(&mut self, name: &str, h: u64) {
        self.agg.sets.entry(name.to_string()).or_default().insert(h);
    }
    /// one evaluation; `fp` identifies a non-trivial distinct case
    pub fn eval(&mut self, fp: u64) {
        self.agg.evals += 1;
        self.agg.distinct.insert(fp);
    }
    pub fn eval_trivial(&mut self) {
        self.agg.evals += 1;
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample {
            self.want_sample = false;
            let s = trunc(&f(), 600);
            self.agg.samples.push((self.section.clone(), s));
        }
    }
    pub fn note<S: Into<String>>(&mut self, s: S) {
        self.trace.push(trunc(&s.into(), 4000));
    }
}
pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1
    }
    format!("{}...[{} bytes]", &s[..e], s.len())
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(600) {
        let _ = write!(s, "{:02x}", x);
    }
    if b.len() > 600 {
        let _ = write!(s, "...[{} bytes]", b.len());
    }
    s
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub start: Instant,
    pub budget: Duration,
    scale: AtomicU64,
    /// the most seconds one section may take, so that a slow one leaves the others their turn
    cap: AtomicU64,
    agg: Mutex<Agg>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    failed: Mutex<Option<(String, u64, String)>>,
    harness_err: Mutex<Option<String>>,
    stop: AtomicBool,
    sections_run: Mutex<BTreeMap<String, u64>>,
    known: Vec<Known>,
    known_printed: Mutex<Vec<String>>,
    /// set: sections are not run for their own verdict but repeated for what they leave behind
    pub leak: Mutex<Option<Leak>>,
}
/// how to repeat the sections of another monitor (see c29)
#[derive(Clone)]
pub struct Leak {
    pub module: &'static str,
    /// cases of each section to repeat
    pub per: u64,
    /// sections left out
    pub skip: &'static [&'static str],
    /// sections with several threads or sockets: the process is measured, one case at a time
    pub process: &'static [&'static str],
}
#[derive(Clone, Debug)]
pub struct Known {
    pub prop: String,
    pub key: String,
}

pub const VERIF: &str = "/verif";
pub fn verif_dir() -> String {
    std::env::var("WSMON_VERIF").unwrap_or_else(|_| VERIF.to_string())
}

// ---------------------------------------------------------------- journal / watchdog
pub struct Slot {
    pub active: AtomicBool,
    pub seq: AtomicU64,
    pub idx: AtomicU64,
    pub pthread: AtomicU64,
    pub section: Mutex<String>,
}
pub static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());

thread_local! {
    pub static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var("WSMON_TRACE").is_ok() {
            eprintln!("panic at {}: {}", loc, msg);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
/// Run library code; a panic located outside the harness's own sources is a violation.
pub fn guard<T, F: FnOnce() -> Result<T, Fail>>(f: F) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                Err(Fail::H(format!("harness panic at {}: {}", loc, msg)))
            } else {
                Err(Fail::V(format!("panicked at {}: {}", loc, msg)))
            }
        }
    }
}

fn thread_cpu(pthread: u64) -> Option<Duration> {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(pthread as libc::pthread_t, &mut clk) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32))
    }
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, only: Option<(String, u64)>) -> Ctx {
        let known = load_known();
        Ctx {
            scale: AtomicU64::new(1),
            cap: AtomicU64::new(if tier == Tier::Quick { 60 } else { 600 }),
            prop: prop.into(),
            tier,
            seed,
            only,
            threads: 8,
            start: Instant::now(),
            budget: Duration::from_secs(if tier == Tier::Quick { 400 } else { 600 }),
            agg: Mutex::new(Agg::default()),
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            failed: Mutex::new(None),
            harness_err: Mutex::new(None),
            stop: AtomicBool::new(false),
            sections_run: Mutex::new(BTreeMap::new()),
            known,
            known_printed: Mutex::new(vec![]),
            leak: Mutex::new(None),
        }
    }
    pub fn q(&self, quick: u64, thorough: u64) -> u64 {
        if self.tier == Tier::Quick {
            (quick * self.scale.load(Ordering::Relaxed)).min(thorough.max(quick))
        } else {
            thorough
        }
    }
    pub fn cap(&self, quick: u64, thorough: u64) {
        self.cap.store(if self.tier == Tier::Quick { quick } else { thorough }, Ordering::Relaxed);
    }
    /// multiply the quick tier's case counts given to `q` from here on
    pub fn scale(&self, k: u64) {
        if self.leak.lock().unwrap().is_some() {
            return;
        }
        self.scale.store(k, Ordering::Relaxed);
    }
    pub fn rule(&self, s: &str) {
        if self.leak.lock().unwrap().is_some() {
            return;
        }
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        if self.leak.lock().unwrap().is_some() {
            return;
        }
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn count(&self, name: &str) -> u64 {
        let a = self.agg.lock().unwrap();
        a.events.get(name).cloned().unwrap_or(0)
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    /// Inconclusive when an essential kind of observation never happened.
    pub fn need(&self, name: &str, min: u64) {
        if self.only.is_some() || self.stopped() || self.leak.lock().unwrap().is_some() {
            return;
        }
        let n = self.count(name);
        if n < min {
            self.harness(format!("observed only {} x {} (need {})", n, name, min));
        }
    }
    fn harness(&self, s: String) {
        let mut h = self.harness_err.lock().unwrap();
        if h.is_none() {
            *h = Some(s);
        }
        self.stop.store(true, Ordering::Relaxed);
    }
    fn case_rng(&self, section: &str, idx: u64) -> Rng {
        let mut x = self.seed ^ hash_s(section).rotate_left(17) ^ hash_s(&self.prop);
        let a = splitmix(&mut x);
        Rng::new(a ^ idx.wrapping_mul(0xD1342543DE82EF95))
    }
    pub fn run<F>(&self, section: &str, n: u64, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        self.run_t(section, n, self.threads, f)
    }
    pub fn run_t<F>(&self, section: &str, n: u64, threads: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        if self.stopped() {
            return;
        }
        let leak = self.leak.lock().unwrap().clone();
        if let Some(l) = leak {
            return crate::c29::repeat_section(self, &l, section, n, &f);
        }
        self.run_plain(section, n, threads, f)
    }
    pub fn run_plain<F>(&self, section: &str, n: u64, threads: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        if let Some((s, i)) = &self.only {
            if s == section {
                let i = *i;
                let slot = Arc::new(Slot {
                    active: AtomicBool::new(false),
                    seq: AtomicU64::new(0),
                    idx: AtomicU64::new(i),
                    pthread: AtomicU64::new(unsafe { libc::pthread_self() } as u64),
                    section: Mutex::new(section.to_string()),
                });
                SLOTS.lock().unwrap().push(slot.clone());
                self.one(section, i, &f, Some(&slot), false);
            }
            return;
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let begun = Instant::now();
        let cap = Duration::from_secs(self.cap.load(Ordering::Relaxed));
        let nthreads = threads.min(n.max(1) as usize);
        let timed_out = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for _ in 0..nthreads {
                sc.spawn(|| {
                    let slot = Arc::new(Slot {
                        active: AtomicBool::new(false),
                        seq: AtomicU64::new(0),
                        idx: AtomicU64::new(0),
                        pthread: AtomicU64::new(unsafe { libc::pthread_self() } as u64),
                        section: Mutex::new(section.to_string()),
                    });
                    SLOTS.lock().unwrap().push(slot.clone());
                    loop {
                        if self.stopped() {
                            break;
                        }
                        if self.start.elapsed() > self.budget || begun.elapsed() > cap {
                            timed_out.store(true, Ordering::Relaxed);
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        self.one(section, i, &f, Some(&slot), i < 2);
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    journal("", 0);
                    slot.active.store(false, Ordering::SeqCst);
                    SLOTS.lock().unwrap().retain(|s| !Arc::ptr_eq(s, &slot));
                });
            }
        });
        self.sections_run.lock().unwrap().insert(section.to_string(), done.load(Ordering::Relaxed));
        let _ = timed_out;
        if std::env::var("WSMON_TRACE").is_ok() {
            eprintln!("section {} {}/{} at {:.1}s", section, done.load(Ordering::Relaxed), n, self.start.elapsed().as_secs_f64());
        }
    }
    fn one<F>(&self, section: &str, idx: u64, f: &F, slot: Option<&Arc<Slot>>, want_sample: bool)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        let mut c = Case {
            section: section.to_string(),
            idx,
            rng: self.case_rng(section, idx),
            tier: self.tier,
            agg: Agg::default(),
            trace: vec![],
            want_sample,
        };
        if let Some(s) = slot {
            s.idx.store(idx, Ordering::SeqCst);
            s.seq.fetch_add(1, Ordering::SeqCst);
            s.active.store(true, Ordering::SeqCst);
            journal(section, idx);
        }
        let r = guard(|| f(&mut c));
        if let Some(s) = slot {
            s.active.store(false, Ordering::SeqCst);
        }
        {
            let mut a = self.agg.lock().unwrap();
            a.evals += c.agg.evals;
            if a.distinct.len() < 4_000_000 {
                a.distinct.extend(c.agg.distinct.drain());
            }
            for (k, v) in c.agg.events {
                *a.events.entry(k).or_insert(0) += v;
            }
            for (k, v) in c.agg.sets {
                let e = a.sets.entry(k).or_default();
                if e.len() < 1_000_000 {
                    e.extend(v)
                }
            }
            if a.samples.len() < 24 {
                a.samples.extend(c.agg.samples);
            }
        }
        match r {
            Ok(()) => {}
            Err(Fail::V(w)) => {
                let mut g = self.failed.lock().unwrap();
                if g.is_none() {
                    let mut full = w;
                    for t in &c.trace {
                        full.push_str("\n  | ");
                        full.push_str(t);
                    }
                    *g = Some((section.to_string(), idx, full));
                }
                self.stop.store(true, Ordering::Relaxed);
            }
            Err(Fail::H(w)) => self.harness(format!("[{} #{}] {} {:?}", section, idx, w, c.trace)),
        }
    }
    /// A listed finding was reproduced (true) / is not listed (false -> the caller reports a violation).
    pub fn known(&self, key: &str, what: &str) -> bool {
        if self.known.iter().any(|k| k.prop == self.prop && k.key == key) {
            let line = format!("KNOWN-FINDING: property={} {} ({})", self.prop, what, key);
            let mut p = self.known_printed.lock().unwrap();
            if !p.contains(&line) {
                println!("{}", line);
                p.push(line);
            }
            true
        } else {
            false
        }
    }
    pub fn finish(self) -> i32 {
        let a = self.agg.into_inner().unwrap();
        let failed = self.failed.into_inner().unwrap();
        let herr = self.harness_err.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        if self.only.is_none() {
            let mut j = String::new();
            let _ = write!(
                j,
                "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
                js(&self.prop),
                if self.tier == Tier::Quick { "quick" } else { "thorough" },
                self.seed,
                a.evals,
                a.distinct.len(),
                js(&self.rule.lock().unwrap())
            );
            j.push_str("\"observed_events\":{");
            let evs: Vec<String> = a.events.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            j.push_str(&evs.join(","));
            j.push_str("},\"distinct_observed\":{");
            let evs: Vec<String> = a.sets.iter().map(|(k, v)| format!("{}:{}", js(k), v.len())).collect();
            j.push_str(&evs.join(","));
            j.push_str("},\"sections\":{");
            let evs: Vec<String> =
                self.sections_run.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            j.push_str(&evs.join(","));
            j.push_str("},\"samples\":[");
            let mut evs: Vec<String> = a
                .samples
                .iter()
                .map(|(k, v)| format!("{{\"section\":{},\"case\":{}}}", js(k), js(v)))
                .collect();
            if let Some((s, i, w)) = &failed {
                evs.push(format!("{{\"section\":{},\"index\":{},\"violation\":{}}}", js(s), i, js(&trunc(w, 2000))));
            }
            j.push_str(&evs.join(","));
            let _ = write!(
                j,
                "]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
                self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                wall,
                if failed.is_some() { 1 } else { 0 }
            );
            let dir = format!("{}/evidence", verif_dir());
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(format!("{}/{}.json", dir, self.prop), j) {
                eprintln!("cannot write evidence: {}", e);
                return 2;
            }
        }
        if let Some((s, i, w)) = failed {
            let path = write_replay(&self.prop, self.tier, self.seed, &s, i, &w);
            println!("violation in section {} case {}: {}", s, i, trunc(&w, 6000));
            println!("VIOLATION property={} replay={}", self.prop, path);
            return 1;
        }
        if let Some(h) = herr {
            eprintln!("INCONCLUSIVE property={}: {}", self.prop, h);
            return 2;
        }
        println!(
            "OK property={} evaluations={} distinct={} wall={:.1}s",
            self.prop,
            a.evals,
            a.distinct.len(),
            wall
        );
        for (k, v) in &a.events {
            println!("   {} = {}", k, v);
        }
        0
    }
}

fn load_known() -> Vec<Known> {
    // lines "finding: property=Cxx key=... <text>"; "fixed:" lines suppress nothing
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut prop = String::new();
                let mut key = String::new();
                for w in r.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        prop = x.into()
                    }
                    if let Some(x) = w.strip_prefix("key=") {
                        key = x.into()
                    }
                }
                v.push(Known { prop, key });
            }
        }
    }
    v
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(prop: &str, tier: Tier, seed: u64, section: &str, idx: u64, w: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}-{}.txt", dir, prop, seed, section.replace('/', "_"), idx);
    let body = format!(
        "property={}\ntier={}\nseed={}\nsection={}\nindex={}\nrerun: bash /verif/check.sh replay {}\n\n{}\n",
        prop,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        section,
        idx,
        path,
        w
    );
    let _ = std::fs::write(&path, body);
    path
}

// journal of running cases so that an abort can be attributed
static JOURNAL: Mutex<Option<std::fs::File>> = Mutex::new(None);
static JSLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static MYSLOT: usize = JSLOT.fetch_add(1, Ordering::SeqCst) % 64; }
pub fn open_journal(path: &str) {
    if let Ok(f) = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(path) {
        use std::os::unix::io::AsRawFd;
        JFD.store(f.as_raw_fd() as usize, Ordering::SeqCst);
        *JOURNAL.lock().unwrap() = Some(f);
    }
}
static JFD: AtomicUsize = AtomicUsize::new(usize::MAX);
fn journal(section: &str, idx: u64) {
    let fd = JFD.load(Ordering::Relaxed);
    if fd == usize::MAX {
        return;
    }
    let mut b = [b' '; 96];
    b[95] = b'\n';
    let s = if section.is_empty() { String::new() } else { format!("{}|{}", section, idx) };
    let n = s.len().min(95);
    b[..n].copy_from_slice(&s.as_bytes()[..n]);
    let slot = MYSLOT.with(|s| *s);
    unsafe {
        libc::pwrite(fd as i32, b.as_ptr() as *const _, 96, (slot * 96) as i64);
    }
}

fn process_cpu() -> Duration {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
    }
}
/// Watchdog: a case that burns CPU without end is a violation; a wall-clock overrun is inconclusive.
pub fn start_watchdog(prop: String, tier: Tier, seed: u64) {
    let wall_limit = Duration::from_secs(if tier == Tier::Quick { 840 } else { 6 * 3600 });
    let cpu_limit = Duration::from_secs(if tier == Tier::Quick { 60 } else { 240 });
    let start = Instant::now();
    std::thread::spawn(move || {
        let mut base: std::collections::HashMap<u64, (u64, Duration)> = Default::default();
        // a case is deadlocked when the whole process has stood still for many consecutive ticks
        let mut still: (u64, u64, u32) = (0, 0, 0);
        let mut last_cpu = process_cpu();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now_cpu = process_cpu();
            let idle = now_cpu < last_cpu + Duration::from_millis(8);
            last_cpu = now_cpu;
            {
                let oldest = SLOTS
                    .lock()
                    .unwrap()
                    .iter()
                    .filter(|s| s.active.load(Ordering::SeqCst))
                    .map(|s| (s.pthread.load(Ordering::SeqCst), s.seq.load(Ordering::SeqCst)))
                    .collect::<Vec<_>>();
                if idle && oldest.contains(&(still.0, still.1)) {
                    still.2 += 1;
                } else {
                    still = match oldest.first() {
                        Some(&(p, q)) => (p, q, 0),
                        None => (0, 0, 0),
                    };
                }
                if still.2 >= 70 {
                    let slot = SLOTS.lock().unwrap().iter().find(|s| s.pthread.load(Ordering::SeqCst) == still.0).cloned();
                    if let Some(s) = slot {
                        if s.active.load(Ordering::SeqCst) && s.seq.load(Ordering::SeqCst) == still.1 {
                            let section = s.section.lock().unwrap().clone();
                            let idx = s.idx.load(Ordering::SeqCst);
                            let w = "deadlock: the case is unfinished and nothing in the process has run for 35 s".to_string();
                            let path = write_replay(&prop, tier, seed, &section, idx, &w);
                            println!("violation in section {} case {}: {}", section, idx, w);
                            println!("VIOLATION property={} replay={}", prop, path);
                            let _ = std::io::stdout().flush();
                            unsafe { libc::_exit(1) }
                        }
                    }
                }
            }
            if start.elapsed() > wall_limit {
                eprintln!("INCONCLUSIVE property={}: wall-clock watchdog", prop);
                let _ = std::io::stderr().flush();
                unsafe { libc::_exit(2) }
            }
            let slots: Vec<Arc<Slot>> = SLOTS.lock().unwrap().clone();
            for s in &slots {
                if !s.active.load(Ordering::SeqCst) {
                    continue;
                }
                let p = s.pthread.load(Ordering::SeqCst);
                let seq = s.seq.load(Ordering::SeqCst);
                if let Some(cpu) = thread_cpu(p) {
                    match base.get(&p) {
                        Some((q, c0)) if *q == seq => {
                            if cpu > *c0 + cpu_limit && s.active.load(Ordering::SeqCst) && s.seq.load(Ordering::SeqCst) == seq {
                                let section = s.section.lock().unwrap().clone();
                                let idx = s.idx.load(Ordering::SeqCst);
                                let w = format!(
                                    "no termination: the case has consumed {:?} of CPU time without returning",
                                    cpu - *c0
                                );
                                let path = write_replay(&prop, tier, seed, &section, idx, &w);
                                println!("violation in section {} case {}: {}", section, idx, w);
                                println!("VIOLATION property={} replay={}", prop, path);
                                let _ = std::io::stdout().flush();
                                unsafe { libc::_exit(1) }
                            }
                        }
                        _ => {
                            base.insert(p, (seq, cpu));
                        }
                    }
                }
            }
        }
    });
}
