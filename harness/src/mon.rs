//! The monitor framework: workload cases, oracles, observation counters, evidence, replay.
use rand::{RngExt, SeedableRng};
use rand_pcg::Pcg64Mcg;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Case {
    pub rng: Pcg64Mcg,
    pub idx: u64,
    pub thorough: bool,
    pub params: Vec<(String, Value)>,
    obs: BTreeMap<String, u64>,
    viol: Vec<(String, String)>,
    checks: u64,
    nontrivial: bool,
    skipped: Option<String>,
    worst: BTreeMap<String, f64>,
}

impl Case {
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        if hi <= lo { lo } else { self.rng.random_range(lo..hi) }
    }
    pub fn u(&mut self, lo: usize, hi_incl: usize) -> usize {
        self.rng.random_range(lo..=hi_incl)
    }
    pub fn i(&mut self, lo: i64, hi_incl: i64) -> i64 {
        self.rng.random_range(lo..=hi_incl)
    }
    pub fn rng_u128(&mut self) -> u128 {
        self.rng.random()
    }
    pub fn b(&mut self, p: f64) -> bool {
        self.rng.random_bool(p)
    }
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        self.f(lo.ln(), hi.ln()).exp()
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.rng.random_range(0..v.len())].clone()
    }
    pub fn gauss(&mut self) -> f64 {
        let u1: f64 = self.f(1e-12, 1.0);
        let u2: f64 = self.f(0.0, 1.0);
        (-2.0 * u1.ln()).sqrt() * (std::f64::consts::TAU * u2).cos()
    }
    /// Records a parameter of the case (used for distinctness, samples and replay).
    pub fn p<T: std::fmt::Debug>(&mut self, name: &str, v: T) {
        self.params.push((name.into(), Value::String(format!("{v:?}"))));
    }
    /// Counts an event that a monitor observed.
    pub fn obs(&mut self, name: &str, n: u64) {
        *self.obs.entry(name.into()).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn skip(&mut self, why: &str) {
        self.skipped = Some(why.into());
    }
    pub fn failed(&self) -> bool {
        !self.viol.is_empty()
    }
    pub fn check(&mut self, label: &str, ok: bool, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            self.viol.push((label.into(), detail()));
        }
        ok
    }
    pub fn fail(&mut self, label: &str, detail: impl Into<String>) {
        self.checks += 1;
        self.viol.push((label.into(), detail.into()));
    }
    /// |got - want| <= tol, NaN fails.
    pub fn near(&mut self, label: &str, got: f64, want: f64, tol: f64) -> bool {
        let err = (got - want).abs();
        let r = if tol > 0.0 { err / tol } else if err == 0.0 { 0.0 } else { f64::INFINITY };
        let w = self.worst.entry(label.into()).or_insert(0.0);
        if r.is_nan() || r > *w {
            *w = if r.is_nan() { f64::INFINITY } else { r };
        }
        self.check(label, err <= tol, || format!("got {got:e} want {want:e} err {err:e} tol {tol:e}"))
    }
    /// Vector version, with an absolute tolerance on the norm of the difference
    pub fn vnear(&mut self, label: &str, got: &[f64], want: &[f64], tol: f64) -> bool {
        let err = got.iter().zip(want).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt();
        let ok = got.len() == want.len() && err <= tol;
        let r = if tol > 0.0 { err / tol } else if err == 0.0 { 0.0 } else { f64::INFINITY };
        let w = self.worst.entry(label.into()).or_insert(0.0);
        if r.is_nan() || r > *w {
            *w = if r.is_nan() { f64::INFINITY } else { r };
        }
        self.check(label, ok, || format!("got {got:?} want {want:?} err {err:e} tol {tol:e}"))
    }
    pub fn ok<T, E: std::fmt::Display>(&mut self, label: &str, r: Result<T, E>) -> Option<T> {
        self.checks += 1;
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                let m: String = format!("unexpected error: {e}").chars().take(600).collect();
                self.viol.push((label.into(), m));
                None
            }
        }
    }
}

/// Unwraps or leaves the case (the failure is recorded as a violation).
#[macro_export]
macro_rules! ok {
    ($c:expr, $label:expr, $e:expr) => {
        match $c.ok($label, $e) {
            Some(v) => v,
            None => return,
        }
    };
}

#[derive(Clone)]
struct Viol {
    group: String,
    idx: u64,
    label: String,
    detail: String,
    params: Vec<(String, Value)>,
}

#[derive(Default)]
struct Acc {
    cases: u64,
    skipped: BTreeMap<String, u64>,
    nontrivial: u64,
    checks: u64,
    distinct: HashSet<u64>,
    obs: BTreeMap<String, u64>,
    worst: BTreeMap<String, f64>,
    samples: Vec<Value>,
    viols: Vec<Viol>,
    groups: BTreeMap<String, (u64, u64)>,
}

pub struct Mon {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    replay: Option<(String, u64)>,
    only: Option<String>,
    acc: Mutex<Acc>,
    t0: Instant,
    rule: String,
    level: String,
    assumptions: Vec<String>,
    scale: f64,
    verbose: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static ANY_PANIC: Mutex<Option<String>> = Mutex::new(None);

struct Slot {
    started_ms: AtomicU64,
    tid: AtomicU64,
    cpu0: AtomicU64,
    idx: AtomicU64,
}

fn thread_cpu_ms(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ut: u64 = f.get(11)?.parse().ok()?;
    let st: u64 = f.get(12)?.parse().ok()?;
    Some((ut + st) * 10)
}

fn rss_gb() -> f64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|p| p.parse::<f64>().ok()))
        .unwrap_or(0.0)
        * 4096.0
        / 1e9
}

fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl Mon {
    pub fn new(prop: &str, rule: &str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut replay = None;
        let mut tier = thorough;
        let mut sd = seed;
        let args: Vec<String> = std::env::args().collect();
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
            let v: Value = serde_json::from_str(&txt).expect("replay json");
            sd = v["seed"].as_u64().unwrap();
            tier = v["tier"] == "thorough";
            replay = Some((v["group"].as_str().unwrap().to_string(), v["index"].as_u64().unwrap()));
        }
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let m: String = format!("panic at {loc}: {msg}").chars().take(800).collect();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(m.clone()));
            if let Ok(mut a) = ANY_PANIC.lock() {
                *a = Some(m);
            }
        }));
        Mon {
            prop: prop.into(),
            seed: sd,
            thorough: tier,
            replay,
            only: std::env::var("MON_GROUP").ok(),
            acc: Mutex::new(Acc::default()),
            t0: Instant::now(),
            rule: rule.into(),
            level: "exploration".into(),
            assumptions: vec![],
            scale: std::env::var("MON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            verbose: std::env::var("MON_VERBOSE").is_ok(),
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    /// Runs `quick` (or `thorough`) cases of this group over all cores.
    pub fn group(&self, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case) + Sync) {
        let workers = std::env::var("MON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
        self.group_w(name, quick, thorough, workers, f)
    }

    pub fn group_w(&self, name: &str, quick: u64, thorough: u64, workers: usize, f: impl Fn(&mut Case) + Sync) {
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        let n = (if self.thorough { thorough } else { quick } as f64 * self.scale).ceil() as u64;
        let (lo, hi) = match &self.replay {
            Some((g, i)) if g == name => (*i, *i + 1),
            Some(_) => return,
            None => (0, n),
        };
        let next = AtomicU64::new(lo);
        let done = AtomicBool::new(false);
        let live = AtomicUsize::new(workers);
        let slots: Vec<Slot> = (0..workers)
            .map(|_| Slot {
                started_ms: AtomicU64::new(0),
                tid: AtomicU64::new(0),
                cpu0: AtomicU64::new(0),
                idx: AtomicU64::new(0),
            })
            .collect();
        let tg = Instant::now();
        std::thread::scope(|s| {
            for slot in &slots {
                let (next, live, done, f) = (&next, &live, &done, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        slot.tid.store(gettid(), Ordering::SeqCst);
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= hi {
                                break;
                            }
                            slot.idx.store(i, Ordering::SeqCst);
                            slot.cpu0.store(thread_cpu_ms(slot.tid.load(Ordering::SeqCst)).unwrap_or(0), Ordering::SeqCst);
                            slot.started_ms.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            self.one(name, i, f);
                            slot.started_ms.store(0, Ordering::SeqCst);
                        }
                        if live.fetch_sub(1, Ordering::SeqCst) == 1 {
                            done.store(true, Ordering::SeqCst);
                        }
                    })
                    .unwrap();
            }
            // Watchdog: a case which burns over 150 s of CPU (they take at most a few seconds), or is
            // blocked for over 400 s, does not terminate.
            let (slots, done) = (&slots, &done);
            s.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    // A run needs a few hundred megabytes: one which takes over 20 GB never stops growing.
                    if rss_gb() > 20.0 {
                        if let Some(sl) = slots.iter().filter(|s| s.started_ms.load(Ordering::SeqCst) != 0).min_by_key(|s| s.started_ms.load(Ordering::SeqCst)) {
                            self.acc.lock().unwrap().viols.push(Viol {
                                group: name.into(),
                                idx: sl.idx.load(Ordering::SeqCst),
                                label: "unbounded-memory".into(),
                                detail: format!("the cases in progress use {:.1} GB", rss_gb()),
                                params: vec![],
                            });
                            std::process::exit(self.finish_inner());
                        }
                    }
                    for sl in slots {
                        let st = sl.started_ms.load(Ordering::SeqCst);
                        if st == 0 {
                            continue;
                        }
                        let wall = (self.t0.elapsed().as_millis() as u64).saturating_sub(st);
                        if wall < 60_000 {
                            continue;
                        }
                        let cpu = thread_cpu_ms(sl.tid.load(Ordering::SeqCst))
                            .unwrap_or(0)
                            .saturating_sub(sl.cpu0.load(Ordering::SeqCst));
                        if cpu > 150_000 || wall > 400_000 {
                            let idx = sl.idx.load(Ordering::SeqCst);
                            if sl.started_ms.load(Ordering::SeqCst) != st {
                                continue;
                            }
                            self.acc.lock().unwrap().viols.push(Viol {
                                group: name.into(),
                                idx,
                                label: "no-termination".into(),
                                detail: format!("case used {cpu} ms CPU, {wall} ms wall without finishing"),
                                params: vec![],
                            });
                            std::process::exit(self.finish_inner());
                        }
                    }
                }
            });
        });
        if self.verbose {
            eprintln!("[{}] group {name}: {:.1}s", self.prop, tg.elapsed().as_secs_f64());
        }
    }

    fn one(&self, group: &str, idx: u64, f: &(impl Fn(&mut Case) + Sync)) {
        let s = fnv(&format!("{}/{}/{}/{}", self.seed, self.prop, group, idx));
        let mut c = Case {
            rng: Pcg64Mcg::seed_from_u64(s),
            idx,
            thorough: self.thorough,
            params: vec![],
            obs: BTreeMap::new(),
            viol: vec![],
            checks: 0,
            nontrivial: false,
            skipped: None,
            worst: BTreeMap::new(),
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        if r.is_err() {
            let m = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .or_else(|| ANY_PANIC.lock().ok().and_then(|mut a| a.take()))
                .unwrap_or_default();
            c.viol.push(("panic".into(), m));
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        group.hash(&mut h);
        for (k, v) in &c.params {
            k.hash(&mut h);
            v.to_string().hash(&mut h);
        }
        if c.params.is_empty() {
            idx.hash(&mut h);
        }
        let mut a = self.acc.lock().unwrap();
        a.cases += 1;
        a.checks += c.checks;
        let g = a.groups.entry(group.into()).or_insert((0, 0));
        g.0 += 1;
        g.1 += c.checks;
        if let Some(w) = c.skipped {
            *a.skipped.entry(format!("{group}: {w}")).or_insert(0) += 1;
        } else if c.nontrivial && a.distinct.insert(h.finish()) {
            a.nontrivial += 1;
            if g_first(&a.samples, group) {
                let smp = json!({"group": group, "index": idx, "params": c.params.iter().map(|(k,v)| (k.clone(), v.clone())).collect::<serde_json::Map<_,_>>(), "observed": c.obs});
                a.samples.push(smp);
            }
        }
        for (k, v) in c.obs {
            *a.obs.entry(k).or_insert(0) += v;
        }
        for (k, v) in c.worst {
            let w = a.worst.entry(format!("{group}/{k}")).or_insert(0.0);
            if v > *w {
                *w = v;
            }
        }
        for (label, detail) in c.viol {
            if self.verbose {
                eprintln!("VIOL {group}#{idx} {label}: {detail}");
            }
            a.viols.push(Viol { group: group.into(), idx, label, detail, params: c.params.clone() });
        }
    }

    fn finish_inner(&self) -> i32 {
        let dir = verif_dir();
        let a = self.acc.lock().unwrap();
        let known = known_findings(&dir, &self.prop);
        let mut viols = a.viols.clone();
        viols.sort_by(|x, y| (&x.group, x.idx, &x.label).cmp(&(&y.group, y.idx, &y.label)));
        let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
        let mut fresh = vec![];
        for v in &viols {
            let sig = format!("{}/{}", v.group, v.label);
            if let Some((k, d)) = known.iter().find(|(k, _)| *k == sig) {
                *seen_known.entry(format!("{k} {d}")).or_insert(0) += 1;
            } else {
                fresh.push(v);
            }
        }
        for k in seen_known.keys() {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        let mut code = 0;
        if self.replay.is_none() {
            let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
        }
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        for v in &fresh {
            *labels.entry(format!("{}/{}", v.group, v.label)).or_insert(0) += 1;
        }
        let mut printed: HashSet<String> = HashSet::new();
        for v in &fresh {
            code = 1;
            let sig = format!("{}/{}", v.group, v.label);
            if !printed.insert(sig.clone()) || printed.len() > 12 {
                continue;
            }
            let path = format!("{dir}/evidence/replay/{}-{}-{}-{}.json", self.prop, v.group, v.idx, v.label.replace(['/', ' '], "_"));
            let j = json!({"property": self.prop, "group": v.group, "index": v.idx, "seed": self.seed,
                "tier": if self.thorough {"thorough"} else {"quick"}, "label": v.label, "detail": v.detail,
                "params": v.params.iter().map(|(k,v)| (k.clone(), v.clone())).collect::<serde_json::Map<_,_>>()});
            if self.replay.is_none() {
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            }
            println!("  {} case #{} ({} hits): {}", sig, v.idx, labels[&sig], v.detail);
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        let wall = self.t0.elapsed().as_secs_f64();
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": a.cases,
                "distinct_nontrivial": a.nontrivial,
                "rule": self.rule,
                "oracle_evaluations": a.checks,
                "monitor_events": a.obs,
                "groups": a.groups.iter().map(|(k,(n,c))| (k.clone(), json!({"cases": n, "oracle_evaluations": c}))).collect::<serde_json::Map<_,_>>(),
                "skipped": a.skipped,
                "worst_error_over_tolerance": a.worst,
                "samples": a.samples,
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": fresh.len(),
        });
        if self.replay.is_none() {
            let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
            std::fs::write(format!("{dir}/evidence/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap())
                .expect("evidence");
        }
        if code == 0 && self.replay.is_none() && self.only.is_none() && a.nontrivial == 0 {
            println!("INCONCLUSIVE: no non-trivial case was observed");
            code = 2;
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} oracle evaluations, {} new violations, {:.1} s",
            self.prop,
            a.cases,
            a.nontrivial,
            a.checks,
            fresh.len(),
            wall
        );
        if self.verbose {
            for (k, v) in &a.worst {
                eprintln!("  worst err/tol {k}: {v:.3e}");
            }
            for (k, v) in &a.skipped {
                eprintln!("  skipped {k}: {v}");
            }
            for (k, v) in &a.obs {
                eprintln!("  obs {k}: {v}");
            }
        }
        code
    }

    pub fn finish(self) -> ! {
        std::process::exit(self.finish_inner())
    }
}

fn g_first(samples: &[Value], group: &str) -> bool {
    samples.iter().filter(|s| s["group"] == group).count() < 2
}

fn known_findings(dir: &str, prop: &str) -> Vec<(String, String)> {
    // Lines: `finding: property=<id> case=<group>/<label> <text>`; `fixed:` lines suppress nothing.
    let Ok(txt) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) else {
        return vec![];
    };
    txt.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let l = l.strip_prefix(&format!("property={prop} "))?;
            let l = l.strip_prefix("case=")?;
            let (c, d) = l.split_once(' ')?;
            Some((c.to_string(), d.to_string()))
        })
        .collect()
}
