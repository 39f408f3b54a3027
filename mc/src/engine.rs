//! Exhaustive-exploration engine: bounded enumeration over all cores, every case isolated against
//! panics, hangs (watchdog) and process death (parent/child), with known findings matched by key.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static SLOT: RefCell<usize> = RefCell::new(usize::MAX);
}

struct Slot {
    start: Mutex<Option<(Instant, String)>>,
}

pub struct Violation {
    pub key: String,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub root: std::path::PathBuf,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeSet<usize>>,
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub cases: AtomicU64,
    pub traces: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    bounds: Mutex<BTreeMap<String, String>>,
    assumptions: Mutex<Vec<String>>,
    start: Instant,
    slots: Vec<Slot>,
    slot_counter: AtomicUsize,
    pub case_limit: Mutex<Duration>,
    done: AtomicBool,
    pub only_key: Option<String>,
}

fn max_viol() -> usize {
    static M: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *M.get_or_init(|| std::env::var("MC_MAX_VIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(200))
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, root: std::path::PathBuf) -> Self {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for l in s.lines() {
                // finding: property=<id> key=<key> | <what>
                if let Some(r) = l.strip_prefix(&format!("finding: property={} key=", prop)) {
                    let (k, w) = r.split_once(" | ").unwrap_or((r, ""));
                    known.push((k.trim().to_string(), w.trim().to_string()));
                }
            }
        }
        Ctx {
            prop: prop.to_string(),
            thorough,
            root,
            known,
            known_hit: Default::default(),
            violations: Default::default(),
            nviol: AtomicUsize::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            counters: Default::default(),
            samples: Default::default(),
            bounds: Default::default(),
            assumptions: Default::default(),
            start: Instant::now(),
            slots: (0..64).map(|_| Slot { start: Mutex::new(None) }).collect(),
            slot_counter: AtomicUsize::new(0),
            case_limit: Mutex::new(Duration::from_secs(40)),
            done: AtomicBool::new(false),
            only_key: std::env::var("MC_ONLY").ok(),
        }
    }
    /// picks the quick or the thorough bound
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn full(&self) -> bool {
        self.nviol.load(SeqCst) >= max_viol()
    }
    pub fn count(&self, what: &str, n: u64) {
        *self.counters.lock().unwrap().entry(what.to_string()).or_insert(0) += n;
    }
    pub fn bound(&self, what: &str, v: impl std::fmt::Display) {
        self.bounds.lock().unwrap().insert(what.to_string(), v.to_string());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 8 {
            g.push(s());
        }
    }
    pub fn violation(&self, key: &str, msg: &str) {
        for (i, (k, _)) in self.known.iter().enumerate() {
            if k == key {
                self.known_hit.lock().unwrap().insert(i);
                return;
            }
        }
        if self.nviol.fetch_add(1, SeqCst) < max_viol() {
            self.violations.lock().unwrap().push(Violation { key: key.to_string(), msg: msg.to_string() });
        }
    }
    /// Runs one case; a panic or an Err is a violation identified by `key`.
    /// Returns the value if the case completed normally.
    pub fn case<R>(&self, key: impl Fn() -> String, f: impl FnOnce() -> Result<R, String>) -> Option<R> {
        if self.full() {
            return None;
        }
        if let Some(k) = &self.only_key {
            if &key() != k {
                return None;
            }
        }
        self.cases.fetch_add(1, SeqCst);
        let si = SLOT.with(|s| {
            let mut s = s.borrow_mut();
            if *s == usize::MAX {
                *s = self.slot_counter.fetch_add(1, SeqCst) % 64;
            }
            *s
        });
        let nested = {
            let mut g = self.slots[si].start.lock().unwrap();
            let nested = g.is_some();
            if !nested {
                *g = Some((Instant::now(), key()));
            }
            nested
        };
        let r = catch_unwind(AssertUnwindSafe(f));
        if !nested {
            *self.slots[si].start.lock().unwrap() = None;
        }
        match r {
            Ok(Ok(v)) => Some(v),
            Ok(Err(m)) => {
                self.violation(&key(), &m);
                None
            }
            Err(_) => {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                self.violation(&key(), &format!("panic: {}", m));
                None
            }
        }
    }
    /// Runs `f(i)` for every i in 0..n on all cores (dynamic chunks); exhaustive unless violations saturate.
    pub fn par(&self, n: u64, chunk: u64, f: impl Fn(u64) + Sync) {
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..THREADS {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= n || self.full() {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            f(i);
                        }
                    })
                    .unwrap();
            }
        });
    }
    fn json(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 32 => o.push(' '),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    /// Writes evidence and replay files, prints verdict lines; returns the exit code.
    pub fn finish(&self) -> i32 {
        self.done.store(true, SeqCst);
        let viol = self.violations.lock().unwrap();
        let code = if viol.is_empty() { 0 } else { 1 };
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut vjson = vec![];
        for (i, v) in viol.iter().enumerate().take(20) {
            let p = dir.join(format!("{}-{}.txt", self.prop, i));
            let _ = std::fs::write(
                &p,
                format!(
                    "property: {}\nkey: {}\nwhat: {}\nreplay: MC_ONLY='{}' /verif/check.sh {} {}\n",
                    self.prop,
                    v.key,
                    v.msg,
                    v.key,
                    self.prop,
                    if self.thorough { "thorough" } else { "quick" }
                ),
            );
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            if i < 5 {
                let m: String = v.msg.chars().take(1200).collect();
                println!("  key={}\n  {}", v.key, m);
            }
            vjson.push(format!("{{\"key\":{},\"what\":{}}}", Self::json(&v.key), Self::json(&v.msg)));
        }
        if std::env::var("MC_HIST").is_ok() {
            // debugging aid: violations by kind
            let mut h: BTreeMap<String, (usize, String)> = BTreeMap::new();
            for v in viol.iter() {
                let k: String = v.msg.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
                let e = h.entry(k).or_insert((0, v.key.clone()));
                e.0 += 1;
                if v.key.len() < e.1.len() {
                    e.1 = v.key.clone();
                }
            }
            for (k, (n, key)) in h {
                println!("  {} x {} e.g. {}", n, k, key);
            }
        }
        if viol.len() > 20 {
            println!("  ... {} violations in total", self.nviol.load(SeqCst));
        }
        for i in self.known_hit.lock().unwrap().iter() {
            let (k, w) = &self.known[*i];
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, w, k);
        }
        let counters = self.counters.lock().unwrap();
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"exhaustive\": true,\n  \"bounds\": {{{}}},\n  \"counters\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"violation_details\": [{}],\n \"wall_s\": {:.3}\n}}\n",
            Self::json(&self.prop),
            Self::json(if self.thorough { "thorough" } else { "quick" }),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.traces.load(SeqCst),
            self.cases.load(SeqCst),
            self.bounds.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", Self::json(k), Self::json(v))).collect::<Vec<_>>().join(", "),
            counters.iter().map(|(k, v)| format!("{}: {}", Self::json(k), v)).collect::<Vec<_>>().join(", "),
            self.samples.lock().unwrap().iter().map(|s| Self::json(s)).collect::<Vec<_>>().join(", "),
            self.assumptions.lock().unwrap().iter().map(|s| Self::json(s)).collect::<Vec<_>>().join(", "),
            viol.len(),
            vjson.join(", "),
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::fs::create_dir_all(self.root.join("evidence"));
        let _ = std::fs::write(self.root.join("evidence").join(format!("{}.json", self.prop)), ev);
        println!(
            "{} {}: states={} transitions={} cases={} traces={} violations={} in {:.1}s",
            self.prop,
            if self.thorough { "thorough" } else { "quick" },
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.cases.load(SeqCst),
            self.traces.load(SeqCst),
            viol.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in counters.iter() {
            println!("  {} = {}", k, v);
        }
        code
    }
    /// Watchdog: a case running longer than the limit is a violation (non-termination).
    pub fn watchdog(&'static self) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if self.done.load(SeqCst) {
                return;
            }
            let lim = *self.case_limit.lock().unwrap();
            for s in &self.slots {
                let g = s.start.lock().unwrap();
                if let Some((t, k)) = &*g {
                    if t.elapsed() > lim {
                        let k = k.clone();
                        drop(g);
                        if self.known.iter().all(|(kk, _)| kk != &k) {
                            self.violation(&k, &format!("no result within {:?}: operation does not terminate", lim));
                            let c = self.finish();
                            std::process::exit(c);
                        }
                        break;
                    }
                }
            }
        });
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", msg.chars().take(400).collect::<String>(), loc));
        if std::env::var("MC_TRACE").is_ok() {
            eprintln!("panic: {} at {}", msg, loc);
        }
    }));
}

/// Runs `f`, returning Err(message) on panic.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

/// Parent side: run the child, map abnormal death to a violation.
pub fn supervise(prop: &str, tier: &str, root: &std::path::Path) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe).arg(prop).arg(tier).env("MC_CHILD", "1").stdout(std::process::Stdio::piped()).spawn().and_then(|mut c| {
        // the library's own diagnostics on rejected input are not part of our report
        use std::io::BufRead;
        for l in std::io::BufReader::new(c.stdout.take().unwrap()).lines() {
            match l {
                Ok(l) if !l.starts_with("Triangle area: ") => println!("{}", l),
                Ok(_) => {}
                Err(_) => {}
            }
        }
        c.wait()
    });
    match st {
        Ok(s) if s.code() == Some(0) || s.code() == Some(1) => s.code().unwrap(),
        other => {
            let dir = root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join(format!("{}-abnormal.txt", prop));
            let _ = std::fs::write(
                &p,
                format!("property: {}\nthe process exploring the code died abnormally: {:?}\nreplay: /verif/check.sh {} {}\n", prop, other, prop, tier),
            );
            println!("VIOLATION property={} replay={}", prop, p.display());
            println!("  exploration process died abnormally: {:?}", other);
            let _ = std::fs::create_dir_all(root.join("evidence"));
            let _ = std::fs::write(
                root.join("evidence").join(format!("{}.json", prop)),
                format!("{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":1,\"level\":\"model_checking\",\"coverage\":{{\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":0,\"samples\":[\"abnormal death\"],\"exhaustive\":false}},\"violations\":1,\"wall_s\":0.1}}\n", prop, tier),
            );
            1
        }
    }
}
