//! Exploration engine: enumerated cases, deterministic randomness per case, parallel execution,
//! crash/hang containment, known findings, evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// FNV-1a, stable across runs (std's hasher is stable too with fixed keys, but this is explicit).
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z ^= z >> 33;
        z = z.wrapping_mul(0xff51afd7ed558ccd);
        z ^ (z >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

pub struct Failure {
    pub key: String,
    pub msg: String,
}

/// What one case reports.
#[derive(Default)]
pub struct Rec {
    pub case: String,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub fails: Vec<Failure>,
    pub sample: Option<Value>,
    pub slot: Option<Arc<Mutex<Slot>>>,
}

pub struct Slot {
    pub since: Instant,
    pub what: String,
    pub busy: bool,
}

impl Rec {
    /// Count one evaluation; `sig` identifies it, `nontrivial` says whether it exercises the rule.
    pub fn eval<T: Hash + ?Sized>(&mut self, sig: &T, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash64(&(self.case.as_str(), hash64(sig))));
        }
    }
    pub fn outcome(&mut self, o: impl Into<String>) {
        *self.outcomes.entry(o.into()).or_default() += 1;
    }
    pub fn fail(&mut self, sub: impl AsRef<str>, msg: impl Into<String>) {
        if self.fails.len() < 50 {
            let key = if sub.as_ref().is_empty() {
                self.case.clone()
            } else {
                format!("{}/{}", self.case, sub.as_ref())
            };
            self.fails.push(Failure { key, msg: msg.into() });
        }
    }
    pub fn check(&mut self, cond: bool, sub: impl AsRef<str>, msg: impl FnOnce() -> String) -> bool {
        if !cond {
            self.fail(sub, msg());
        }
        cond
    }
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T) -> bool {
        self.states.insert(hash64(s))
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.sample.is_none() {
            self.sample = Some(v());
        }
    }
    /// Heartbeat for the hang watchdog, naming the evaluation being run.
    pub fn begin(&mut self, what: &str) {
        if let Some(s) = &self.slot {
            let mut s = s.lock().unwrap_or_else(|e| e.into_inner());
            s.since = Instant::now();
            s.what.clear();
            s.what.push_str(what);
        }
    }
    /// Run `f`, turning a panic into Err(message).
    pub fn guarded<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        guarded(f)
    }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub struct Case {
    pub key: String,
    pub f: Box<dyn Fn(&mut Rec) + Send + Sync>,
}

pub struct Plan {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: String,
    pub exhaustive: bool,
    pub assumptions: Vec<String>,
    pub bounds: Value,
    /// how many spellings of identifiers the exploration is repeated under
    pub namings: u8,
    pub cases: Vec<Case>,
}

pub struct Env {
    pub tier: Tier,
    pub seed: u64,
}
impl Env {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

impl Plan {
    pub fn new(id: &'static str, level: &'static str, rule: impl Into<String>) -> Plan {
        Plan {
            id,
            level,
            rule: rule.into(),
            exhaustive: true,
            assumptions: vec![],
            bounds: json!({}),
            namings: 1,
            cases: vec![],
        }
    }
    pub fn case(&mut self, key: impl Into<String>, f: impl Fn(&mut Rec) + Send + Sync + 'static) {
        self.cases.push(Case { key: key.into(), f: Box::new(f) });
    }
}

pub struct Outcome {
    pub fails: Vec<Failure>,
    pub evidence: Value,
}

/// Explores the plan under every spelling of identifiers it asks for.
pub fn run_all(mk: &dyn Fn() -> Option<Plan>, env: &Env, only: Option<&str>, state_dir: &str) -> Option<Outcome> {
    let naming = |n: u8| crate::world::NAMING.store(n, Ordering::SeqCst);
    let t0 = Instant::now();
    let of = |o: &str| o.strip_prefix('n').and_then(|r| r.split_once(':')).and_then(|x| x.0.parse::<u8>().ok());
    let from = only.and_then(of).unwrap_or(0);
    naming(from);
    let mut plan = mk()?;
    let upto = if only.is_some() { from + 1 } else { plan.namings };
    let mut total = Rec::default();
    let mut samples = vec![];
    let mut cases = 0;
    for n in from..upto {
        if n != from {
            naming(n);
            plan = mk()?;
        }
        if n > 0 {
            plan.cases.iter_mut().for_each(|c| c.key = format!("n{n}:{}", c.key));
        }
        cases += run(&plan, env, only, state_dir, &mut total, &mut samples);
    }
    Some(finish(plan, env, only, total, samples, cases, t0))
}

fn run(plan: &Plan, env: &Env, only: Option<&str>, state_dir: &str, sum: &mut Rec, all_samples: &mut Vec<Value>) -> usize {
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    {
        let mut keys = HashSet::new();
        for c in &plan.cases {
            assert!(keys.insert(c.key.clone()), "duplicate case key {}", c.key);
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let sel: Vec<&Case> = plan
        .cases
        .iter()
        .filter(|c| only.map(|o| o == c.key || o.starts_with(&format!("{}/", c.key))).unwrap_or(true))
        .collect();
    let next = AtomicUsize::new(0);
    let total: Mutex<Rec> = Mutex::new(Rec::default());
    let samples: Mutex<BTreeMap<usize, Value>> = Mutex::new(BTreeMap::new());
    let limit = Duration::from_secs(
        std::env::var("DCHK_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120),
    );
    let done = std::sync::atomic::AtomicBool::new(false);
    let slots: Vec<Arc<Mutex<Slot>>> = (0..nthreads)
        .map(|_| Arc::new(Mutex::new(Slot { since: Instant::now(), what: String::new(), busy: false })))
        .collect();
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..nthreads {
            let (next, sel, total, samples) = (&next, &sel, &total, &samples);
            let slot = slots[w].clone();
            let file = format!("{state_dir}/w{w}");
            let b = std::thread::Builder::new().stack_size(64 << 20);
            hs.push(
                b.spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= sel.len() {
                        let _ = std::fs::remove_file(&file);
                        break;
                    }
                    let c = sel[i];
                    let _ = std::fs::write(&file, &c.key);
                    {
                        let mut sl = slot.lock().unwrap_or_else(|e| e.into_inner());
                        sl.busy = true;
                        sl.since = Instant::now();
                        sl.what = c.key.clone();
                    }
                    let mut rec = Rec { case: c.key.clone(), slot: Some(slot.clone()), ..Default::default() };
                    askar_crypto::random::standin::reseed(hash64(&(env.seed, c.key.as_str())));
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| (c.f)(&mut rec))) {
                        rec.fail("", format!("panicked: {}", panic_text(p)));
                    }
                    slot.lock().unwrap_or_else(|e| e.into_inner()).busy = false;
                    if let Some(v) = rec.sample.take() {
                        samples.lock().unwrap().insert(i, v);
                    }
                    let mut t = total.lock().unwrap();
                    t.evals += rec.evals;
                    t.transitions += rec.transitions;
                    t.traces += rec.traces;
                    t.distinct.extend(rec.distinct);
                    t.states.extend(rec.states);
                    for (k, v) in rec.outcomes {
                        *t.outcomes.entry(k).or_default() += v;
                    }
                    t.fails.extend(rec.fails);
                })
                .unwrap(),
            );
        }
        // hang watchdog
        let (slots, done, id) = (&slots, &done, plan.id);
        s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for sl in slots {
                    let sl = sl.lock().unwrap_or_else(|e| e.into_inner());
                    if sl.busy && sl.since.elapsed() > limit {
                        // reported by the parent as a hang of this case
                        eprintln!("HANG {} {}", id, sl.what);
                        let _ = std::fs::write(format!("{state_dir}/hang"), &sl.what);
                        std::process::exit(77);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let _ = std::panic::take_hook();
    let mut r = total.into_inner().unwrap();
    r.states.drain().for_each(|s| {
        sum.states.insert(s);
    });
    sum.evals += r.evals;
    sum.transitions += r.transitions;
    sum.traces += r.traces;
    sum.distinct.extend(r.distinct);
    for (k, v) in r.outcomes {
        *sum.outcomes.entry(k).or_default() += v;
    }
    sum.fails.extend(r.fails);
    all_samples.extend(samples.into_inner().unwrap().into_values());
    sel.len()
}

fn finish(plan: Plan, env: &Env, only: Option<&str>, mut total: Rec, all_samples: Vec<Value>, cases: usize, t0: Instant) -> Outcome {
    total.fails.sort_by(|a, b| (a.key.len(), &a.key).cmp(&(b.key.len(), &b.key)));
    // a spread of samples, not only the first ones
    let n = all_samples.len();
    let samples: Vec<Value> = if n <= 6 {
        all_samples
    } else {
        (0..6).map(|i| all_samples[i * (n - 1) / 5].clone()).collect()
    };
    let mut cov = match plan.level {
        "model_checking" => json!({
            "states": total.states.len(), "transitions": total.transitions,
            "traces_validated_against_impl": total.traces, "samples": samples,
            "evaluations": total.evals,
        }),
        _ => json!({
            "evaluations": total.evals, "distinct_nontrivial": total.distinct.len(),
            "rule": plan.rule, "samples": samples,
        }),
    };
    cov["rule"] = json!(plan.rule);
    cov["exhaustive"] = json!(plan.exhaustive && only.is_none());
    cov["cases"] = json!(cases);
    cov["outcomes"] = json!(total.outcomes);
    cov["bounds"] = plan.bounds.clone();
    let evidence = json!({
        "property": plan.id,
        "tier": if env.thorough() { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": plan.level,
        "coverage": cov,
        "assumptions": plan.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": total.fails.len(),
    });
    Outcome { fails: total.fails, evidence }
}

/// Known findings: lines `known: property=<id> key=<case key> <description>`.
pub fn load_known(path: &str, id: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("known: ")?;
            let rest = l.strip_prefix(&format!("property={id} "))?;
            let rest = rest.strip_prefix("key=")?;
            let (k, d) = rest.split_once(' ').unwrap_or((rest, ""));
            Some((k.to_string(), d.to_string()))
        })
        .collect()
}

/// Parent/child driver: the child explores; the parent turns crashes and hangs of the code under
/// test into violations that name the case.
pub fn main_entry(
    id: &str,
    env: Env,
    only: Option<String>,
    root: &str,
    plan: &dyn Fn(&str, &Env) -> Option<Plan>,
) -> ! {
    let state = format!("{root}/state/{id}");
    if std::env::var("DCHK_CHILD").is_ok() {
        let Some(out) = run_all(&|| plan(id, &env), &env, only.as_deref(), &state) else {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        };
        std::process::exit(report(id, &env, only.as_deref(), root, out));
    }
    let child = |only: Option<&str>| {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.arg(id).env("DCHK_CHILD", "1");
        if let Some(o) = only {
            c.arg("--only").arg(o);
        }
        c.status().expect("spawn")
    };
    let _ = std::fs::remove_dir_all(&state);
    std::fs::create_dir_all(&state).unwrap();
    let st = child(only.as_deref());
    match st.code() {
        Some(77) => {
            let what = std::fs::read_to_string(format!("{state}/hang")).unwrap_or_default();
            let out = Outcome {
                fails: vec![Failure { key: what, msg: "hangs (no progress within the watchdog limit)".into() }],
                evidence: crash_evidence(id, &env),
            };
            std::process::exit(report(id, &env, only.as_deref(), root, out))
        }
        Some(c) => std::process::exit(c),
        None => {}
    }
    // killed by a signal: find the case that does it
    let mut keys: Vec<String> = std::fs::read_dir(&state)
        .unwrap()
        .filter_map(|e| std::fs::read_to_string(e.unwrap().path()).ok())
        .collect();
    keys.sort();
    eprintln!("explorer died ({st}); rerunning cases in flight: {keys:?}");
    for k in keys {
        let s = child(Some(&k));
        if s.code().is_none() {
            let out = Outcome {
                fails: vec![Failure { key: k, msg: format!("crashes the process ({s})") }],
                evidence: crash_evidence(id, &env),
            };
            std::process::exit(report(id, &env, only.as_deref(), root, out))
        }
    }
    std::process::exit(3)
}

/// A case key without the mark of the spelling it ran under.
fn plain_key(k: &str) -> &str {
    match k.split_once(':') {
        Some((n, r)) if n.len() == 2 && n.starts_with('n') && n.as_bytes()[1].is_ascii_digit() => r,
        _ => k,
    }
}

fn crash_evidence(id: &str, env: &Env) -> Value {
    json!({"property": id, "tier": if env.thorough() {"thorough"} else {"quick"}, "seed": env.seed,
        "level": "other", "coverage": {"explanation": "exploration ended at a crash or hang of the code under test"},
        "wall_s": 0.0, "violations": 1})
}

fn report(id: &str, env: &Env, only: Option<&str>, root: &str, mut out: Outcome) -> i32 {
    let known = load_known(&format!("{root}/known-findings.txt"), id);
    let mut seen = HashSet::new();
    let mut bad = vec![];
    for f in out.fails {
        if let Some((k, d)) = known.iter().find(|(k, _)| *k == plain_key(&f.key)) {
            if seen.insert(k.clone()) {
                println!("KNOWN-FINDING: property={id} {k} {d}");
            }
        } else {
            bad.push(f);
        }
    }
    out.evidence["violations"] = json!(bad.len());
    if only.is_none() {
        out.evidence["coverage"]["known_findings_seen"] = json!(seen.len());
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        std::fs::write(
            format!("{root}/evidence/{id}.json"),
            serde_json::to_string_pretty(&out.evidence).unwrap() + "\n",
        )
        .expect("write evidence");
    }
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let show = std::env::var("DCHK_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(25usize);
    for (i, f) in bad.iter().take(show).enumerate() {
        let path = format!("{root}/replays/{id}-{i}.json");
        let v = json!({"property": id, "key": f.key, "message": f.msg, "seed": env.seed,
            "tier": if env.thorough() {"thorough"} else {"quick"},
            "replay": format!("cd {root} && ./check.sh {id} {} '{}'", if env.thorough() {"thorough"} else {"quick"}, f.key)});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("write replay");
        let msg: String = f.msg.chars().take(600).collect();
        println!("  {}: {}", f.key, msg.replace('\n', " "));
        println!("VIOLATION property={id} replay={path}");
    }
    if bad.len() > show {
        println!("  ... and {} more", bad.len() - show);
    }
    let c = &out.evidence["coverage"];
    println!(
        "{id}: {} evaluations={} distinct={} states={} transitions={} violations={} {:.1}s",
        out.evidence["tier"], c["evaluations"], c["distinct_nontrivial"], c["states"], c["transitions"],
        bad.len(), out.evidence["wall_s"].as_f64().unwrap_or(0.0)
    );
    if bad.is_empty() { 0 } else { 1 }
}
