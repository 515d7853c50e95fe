//! Monitoring core: runs generated cases on worker threads, observes every one of them (panics,
//! oracle verdicts, event counts), keeps evidence, filters listed findings and writes replays.
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub stage: String,
    pub index: u64,
    pub sig: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Obs {
    pub evaluations: u64,
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub violation_count: u64,
}

impl Obs {
    fn merge(&mut self, o: Obs) {
        self.evaluations += o.evaluations;
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
        self.violation_count += o.violation_count;
        self.violations.extend(o.violations);
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_monitor() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if !QUIET.with(|q| q.get()) {
            old(info);
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub obs: &'a mut Obs,
    stage: &'static str,
    per_case: usize,
    inputs: u64,
    /// Only panics of the library are judged, not what it returned.
    panics_only: bool,
}

impl Case<'_> {
    /// Run a workload of another property, judging nothing but panics out of the library.
    pub fn only_panics(&mut self, label: &str, f: fn(&mut Case)) {
        self.panics_only = true;
        if let Err(p) = quiet_catch(|| f(self)) {
            self.fail("panic:in operations", format!("{label}: panicked: {p}"));
        }
        self.panics_only = false;
    }
    /// Run a workload of another property while what it asks the system for is watched. If it asks for
    /// anything, it is run again with other answers, which must not be observed.
    pub fn other_answers(&mut self, label: &str, f: fn(&mut Case)) {
        let index = self.rng.u64() >> 16;
        let (rng, stage) = (self.rng.clone(), self.stage);
        let run = |mode: u64| {
            let mut obs = Obs::default();
            let mut case = Case { rng: rng.clone(), index, obs: &mut obs, stage, per_case: 0, inputs: 0, panics_only: false };
            let (r, n, first) = crate::asked::watch(mode, || quiet_catch(|| f(&mut case)).err());
            (obs, r, n, first)
        };
        let (obs, panic, n, first) = run(1);
        self.event(label);
        self.event_n("questions to the system", n);
        self.event("workloads watched");
        if obs.distinct.is_empty() {
            self.event("workloads without an input");
        }
        self.obs.distinct.extend(&obs.distinct);
        self.obs.evaluations += obs.evaluations;
        let text = |o: &Obs| o.violations.iter().map(|v| format!("{}: {}", v.sig, v.detail)).collect::<Vec<_>>();
        if n == 0 {
            return;
        }
        for mode in 2..14 {
            let (other, p, _, _) = run(mode);
            self.event("workloads with other answers");
            let (a, b) = (text(&obs), text(&other));
            if a != b || panic != p || obs.events != other.events || obs.samples != other.samples {
                let detail = b.iter().find(|x| !a.contains(x)).cloned().unwrap_or_else(|| format!("{:?} {p:?} {:?}", other.samples, other.events));
                return self.fail("answers", format!("{label}: asked for {first}; with another answer: {detail}"));
            }
        }
    }
    /// Count an observed event.
    pub fn event(&mut self, kind: &str) {
        self.event_n(kind, 1);
    }
    pub fn event_n(&mut self, kind: &str, n: u64) {
        if let Some(v) = self.obs.events.get_mut(kind) {
            *v += n;
        } else {
            self.obs.events.insert(kind.to_owned(), n);
        }
    }
    /// Record an input and whether it was met before; the first of a case is counted with the case.
    pub fn seen<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.stage.hash(&mut h);
        t.hash(&mut h);
        self.obs.distinct.insert(h.finish());
        self.inputs += 1;
        self.obs.evaluations += u64::from(self.inputs > 1);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.obs.samples.len() < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push('…');
            }
            self.obs.samples.push(format!("[{}#{}] {}", self.stage, self.index, s));
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let (sig, detail) = (sig.into(), detail.into());
        if self.panics_only {
            // paths of this crate's own sources are relative, those of the library are not
            let own = detail.rsplit(" at ").next().is_some_and(|l| l.starts_with("src/"));
            if !sig.starts_with("panic:") || own {
                return;
            }
        }
        self.obs.violation_count += 1;
        self.per_case += 1;
        if self.per_case > 8 || self.obs.violations.len() > 400 {
            return;
        }
        self.obs.violations.push(Violation {
            stage: self.stage.to_owned(),
            index: self.index,
            sig,
            detail,
        });
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    /// Run code under test, turning a panic into a violation with signature `panic:<label>`.
    pub fn guard<T>(&mut self, label: &str, input: &str, f: impl FnOnce() -> T) -> Option<T> {
        match quiet_catch(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.fail(format!("panic:{label}"), format!("input {input:?}: panicked: {p}"));
                None
            }
        }
    }
}

pub fn quiet_catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| last_panic())
}

pub struct Stage {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case),
}

pub struct Prop {
    pub id: &'static str,
    pub stages: Vec<Stage>,
    pub assumptions: &'static [&'static str],
}

pub struct RunCfg {
    pub seed: u64,
    pub tier: Tier,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub slot_dir: Option<std::path::PathBuf>,
    pub case_timeout: Duration,
    pub scale: f64,
}

pub struct RunOut {
    pub obs: Obs,
    pub per_stage: Vec<(String, u64, u64, String)>,
    pub hung: Option<(String, u64)>,
}

/// What each worker is executing, for the watchdog and the crash supervisor.
struct Slot {
    stage: AtomicUsize,
    index: AtomicU64,
    started_ms: AtomicU64,
    active: AtomicBool,
}

pub fn run(prop: &Prop, cfg: &RunCfg) -> RunOut {
    let mut total = Obs::default();
    let mut per_stage = Vec::new();
    let t0 = Instant::now();
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..cfg.threads)
            .map(|_| Slot {
                stage: AtomicUsize::new(0),
                index: AtomicU64::new(0),
                started_ms: AtomicU64::new(0),
                active: AtomicBool::new(false),
            })
            .collect(),
    );
    let hung: Arc<Mutex<Option<(String, u64)>>> = Arc::new(Mutex::new(None));
    let names: Vec<String> = prop.stages.iter().map(|s| s.name.to_owned()).collect();
    let stop = Arc::new(AtomicBool::new(false));
    {
        // Watchdog: a case that runs longer than the limit is a hang; report and end the process.
        let slots = Arc::clone(&slots);
        let hung = Arc::clone(&hung);
        let stop = Arc::clone(&stop);
        let names = names.clone();
        let limit = cfg.case_timeout.as_millis() as u64;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if stop.load(Ordering::Relaxed) {
                return;
            }
            let now = t0.elapsed().as_millis() as u64;
            for s in slots.iter() {
                if s.active.load(Ordering::Acquire)
                    && now.saturating_sub(s.started_ms.load(Ordering::Relaxed)) > limit
                {
                    let st = names[s.stage.load(Ordering::Relaxed)].clone();
                    let ix = s.index.load(Ordering::Relaxed);
                    *hung.lock().unwrap() = Some((st.clone(), ix));
                    println!("HANG stage={st} index={ix}");
                    std::process::exit(77);
                }
            }
        });
    }
    for (si, stage) in prop.stages.iter().enumerate() {
        if let Some((s, _)) = &cfg.only {
            if s != stage.name {
                continue;
            }
        }
        let n = match cfg.tier {
            Tier::Quick => stage.quick,
            Tier::Thorough => stage.thorough,
        };
        let n = ((n as f64) * cfg.scale).ceil() as u64;
        let indices: Vec<u64> = match &cfg.only {
            Some((_, i)) => vec![*i],
            None => Vec::new(),
        };
        let n = if cfg.only.is_some() { 1 } else { n };
        let next = AtomicU64::new(0);
        let base = mix(cfg.seed ^ hash_str(prop.id) ^ hash_str(stage.name).rotate_left(17));
        let collected = Mutex::new(Obs::default());
        std::thread::scope(|scope| {
            for (t, slot) in slots.iter().enumerate().take(cfg.threads) {
                let next = &next;
                let collected = &collected;
                let indices = &indices;
                let slot_file = cfg.slot_dir.as_ref().map(|d| {
                    std::fs::OpenOptions::new()
                        .create(true)
                        .write(true)
                        .truncate(true)
                        .open(d.join(format!("slot{t}")))
                        .expect("slot file")
                });
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(scope, move || {
                        use std::os::unix::fs::FileExt;
                        let mut obs = Obs::default();
                        loop {
                            let k = next.fetch_add(1, Ordering::Relaxed);
                            if k >= n {
                                break;
                            }
                            let index = if indices.is_empty() { k } else { indices[0] };
                            if let Some(f) = &slot_file {
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(si as u64).to_le_bytes());
                                b[8..].copy_from_slice(&index.to_le_bytes());
                                let _ = f.write_all_at(&b, 0);
                            }
                            slot.stage.store(si, Ordering::Relaxed);
                            slot.index.store(index, Ordering::Relaxed);
                            slot.started_ms
                                .store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                            slot.active.store(true, Ordering::Release);
                            let rng = Rng::new(base ^ mix(index));
                            obs.evaluations += 1;
                            let mut case = Case {
                                rng,
                                index,
                                obs: &mut obs,
                                stage: stage.name,
                                per_case: 0,
                                inputs: 0,
                                panics_only: false,
                            };
                            if let Err(p) = quiet_catch(|| (stage.run)(&mut case)) {
                                case.fail(
                                    "panic:uncaught",
                                    format!("the case panicked: {p}"),
                                );
                            }
                            slot.active.store(false, Ordering::Release);
                        }
                        if let Some(f) = &slot_file {
                            let _ = f.set_len(0);
                        }
                        collected.lock().unwrap().merge(obs);
                    })
                    .expect("spawn");
            }
        });
        let o = collected.into_inner().unwrap();
        per_stage.push((
            stage.name.to_owned(),
            o.evaluations,
            o.distinct.len() as u64,
            stage.rule.to_owned(),
        ));
        // keep at most two samples per stage overall
        let mut o = o;
        let keep: Vec<String> = o.samples.drain(..).take(2).collect();
        let mut all = std::mem::take(&mut total.samples);
        all.extend(keep);
        total.merge(o);
        total.samples = all;
    }
    stop.store(true, Ordering::Relaxed);
    let h = hung.lock().unwrap().clone();
    RunOut {
        obs: total,
        per_stage,
        hung: h,
    }
}
