#![recursion_limit = "1024"]
#![allow(dead_code, clippy::type_complexity)]
mod alloc;
mod asked;
mod checks;
mod dict;
mod docs;
mod driven;
mod types;
mod written;
mod mon;
mod recog;
mod rng;
mod strs;

use mon::{Prop, RunCfg, Tier};
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Monitor = alloc::Monitor;

const ADDRESS_SPACE: u64 = 10 << 30;

fn verif_dir() -> PathBuf {
    std::env::var_os("CS_VERIF").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn find(id: &str) -> Prop {
    checks::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 2 && args[1] == "--list" {
        for p in checks::all() {
            println!("{}", p.id);
        }
        return;
    }
    if args.len() >= 2 && args[1] == "--dict" {
        dict::listing().iter().for_each(|l| println!("{l}"));
        return;
    }
    if args.len() >= 2 && args[1] == "--helper" {
        checks::helper(&args[2..]);
        return;
    }
    if args.len() >= 3 && args[1] == "--child" {
        child(&args[2]);
        return;
    }
    if args.len() >= 3 && args[1] == "--replay" {
        std::process::exit(replay(&args[2]));
    }
    if args.len() < 2 {
        eprintln!("usage: cs_monitor <property> | --replay FILE | --list");
        std::process::exit(3);
    }
    std::process::exit(supervise(&args[1]));
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

// ---- child: runs the cases, writes a report file ------------------------------------------
fn child(id: &str) {
    mon::install_panic_monitor();
    let prop = find(id);
    let dir = PathBuf::from(std::env::var_os("CS_DIR").expect("CS_DIR"));
    let only = std::env::var("CS_ONLY").ok().map(|s| {
        let (a, b) = s.rsplit_once(':').expect("stage:index");
        (a.to_owned(), b.parse().expect("index"))
    });
    let threads = env_u64(
        "CS_THREADS",
        std::thread::available_parallelism().map_or(4, |n| n.get() as u64).min(8),
    ) as usize;
    let cfg = RunCfg {
        seed: env_u64("VERIF_SEED", 1),
        tier: tier(),
        threads: if only.is_some() { 1 } else { threads },
        only,
        slot_dir: Some(dir.clone()),
        case_timeout: Duration::from_secs(env_u64("CS_CASE_TIMEOUT", 60)),
        scale: std::env::var("CS_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0),
    };
    let out = mon::run(&prop, &cfg);
    let v: Vec<serde_json::Value> = out
        .obs
        .violations
        .iter()
        .map(|v| serde_json::json!({"stage": v.stage, "index": v.index, "sig": v.sig, "detail": v.detail}))
        .collect();
    let stages: Vec<serde_json::Value> = out
        .per_stage
        .iter()
        .map(|(n, e, d, r)| serde_json::json!({"stage": n, "evaluations": e, "distinct_nontrivial": d, "rule": r}))
        .collect();
    let rep = serde_json::json!({
        "evaluations": out.obs.evaluations,
        "distinct": out.obs.distinct.len(),
        "events": out.obs.events,
        "samples": out.obs.samples,
        "violations": v,
        "violation_count": out.obs.violation_count,
        "stages": stages,
    });
    std::fs::write(dir.join("report.json"), serde_json::to_vec(&rep).unwrap()).expect("report");
}

enum Ended {
    Report(serde_json::Value),
    Died(String, Vec<(u64, u64)>),
}

fn run_child(id: &str, only: Option<(&str, u64)>, threads: Option<u64>, timeout: Duration, case_timeout: u64) -> Ended {
    let dir = std::env::temp_dir().join(format!(
        "cs_monitor.{}.{}",
        std::process::id(),
        std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos()
    ));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("--child").arg(id).env("CS_DIR", &dir).env("CS_CASE_TIMEOUT", case_timeout.to_string());
    if let Some((s, i)) = only {
        c.env("CS_ONLY", format!("{s}:{i}"));
    }
    if let Some(t) = threads {
        c.env("CS_THREADS", t.to_string());
    }
    c.stdin(Stdio::null()).stdout(Stdio::null());
    let err = std::fs::File::create(dir.join("stderr")).expect("stderr file");
    c.stderr(err);
    // SAFETY: setrlimit is async-signal-safe.
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: ADDRESS_SPACE, rlim_max: ADDRESS_SPACE };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    let t0 = Instant::now();
    let mut ch = c.spawn().expect("spawn child");
    let status = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if t0.elapsed() > timeout => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(10)),
        }
    };
    let report = std::fs::read(dir.join("report.json")).ok().and_then(|b| serde_json::from_slice(&b).ok());
    let mut cands = Vec::new();
    if let Ok(rd) = std::fs::read_dir(&dir) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with("slot") {
                if let Ok(b) = std::fs::read(e.path()) {
                    if b.len() == 16 {
                        cands.push((
                            u64::from_le_bytes(b[..8].try_into().unwrap()),
                            u64::from_le_bytes(b[8..].try_into().unwrap()),
                        ));
                    }
                }
            }
        }
    }
    let stderr = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    match (status, report) {
        (Some(s), Some(r)) if s.success() => Ended::Report(r),
        (Some(s), _) => {
            let why = match (s.code(), s.signal()) {
                (Some(77), _) => "a case did not terminate".to_owned(),
                (Some(c), _) => format!("exit code {c}"),
                (_, Some(sig)) => format!("signal {sig}"),
                _ => "unknown".to_owned(),
            };
            let tail: String = stderr.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect();
            Ended::Died(format!("{why}: {tail}"), cands)
        }
        (None, _) => Ended::Died("time limit of the run".to_owned(), cands),
    }
}

struct Known {
    sigs: BTreeMap<String, String>,
}

fn known(id: &str) -> Known {
    let mut sigs = BTreeMap::new();
    if let Ok(b) = std::fs::read(verif_dir().join("known_findings.json")) {
        if let Ok(v) = serde_json::from_slice::<serde_json::Value>(&b) {
            for f in v["findings"].as_array().into_iter().flatten() {
                if f["property"] == id {
                    sigs.insert(
                        f["signature"].as_str().unwrap_or_default().to_owned(),
                        f["what"].as_str().unwrap_or_default().to_owned(),
                    );
                }
            }
        }
    }
    Known { sigs }
}

fn write_replay(dir: &Path, id: &str, n: usize, v: &serde_json::Value) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    let p = dir.join(format!("{id}-{n}.json"));
    let _ = std::fs::write(&p, serde_json::to_vec_pretty(v).unwrap());
    p
}

fn supervise(id: &str) -> i32 {
    let t0 = Instant::now();
    let prop = find(id);
    let seed = env_u64("VERIF_SEED", 1);
    let tier = tier();
    let limit = Duration::from_secs(match tier {
        Tier::Quick => 780,
        Tier::Thorough => env_u64("CS_THOROUGH_LIMIT", 6 * 3600),
    });
    let mut crashes: Vec<serde_json::Value> = Vec::new();
    let mut report = None;
    for attempt in 0..2 {
        let left = limit.saturating_sub(t0.elapsed());
        match run_child(id, None, (attempt == 1).then_some(2), left, 60) {
            Ended::Report(r) => {
                report = Some(r);
                break;
            }
            Ended::Died(why, cands) => {
                let mut confirmed = false;
                for (si, ix) in cands.iter().take(8) {
                    let Some(st) = prop.stages.get(*si as usize) else { continue };
                    if let Ended::Died(w, _) = run_child(id, Some((st.name, *ix)), Some(1), Duration::from_secs(60), 30) {
                        confirmed = true;
                        crashes.push(serde_json::json!({
                            "stage": st.name, "index": ix, "sig": format!("crash:{}", st.name),
                            "detail": format!("the case ends the process: {w}"),
                        }));
                    }
                }
                if confirmed {
                    break;
                }
                if attempt == 1 {
                    crashes.push(serde_json::json!({
                        "stage": "", "index": 0, "sig": "crash:run",
                        "detail": format!("the run ended twice without a report: {why}"),
                    }));
                }
            }
        }
    }
    let rep = report.unwrap_or_else(|| {
        serde_json::json!({"evaluations": 0, "distinct": 0, "events": {}, "samples": [], "violations": [], "stages": []})
    });
    let kn = known(id);
    let mut seen: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    for v in crashes.iter().chain(rep["violations"].as_array().into_iter().flatten()) {
        let sig = v["sig"].as_str().unwrap_or_default().to_owned();
        if kn.sigs.contains_key(&sig) {
            *known_hit.entry(sig).or_default() += 1;
            continue;
        }
        seen.entry(sig).or_insert_with(|| v.clone());
    }
    for (sig, what) in &kn.sigs {
        if known_hit.contains_key(sig) {
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
    let replays = verif_dir().join("replays");
    for (n, (sig, v)) in seen.iter().enumerate() {
        if n >= 10 {
            break;
        }
        let doc = serde_json::json!({
            "property": id, "seed": seed, "tier": format!("{tier:?}").to_lowercase(),
            "stage": v["stage"], "index": v["index"], "signature": sig, "detail": v["detail"],
        });
        let p = write_replay(&replays, id, n, &doc);
        let d: String = v["detail"].as_str().unwrap_or_default().chars().take(700).collect();
        println!("  [{}#{}] {sig}: {d}", v["stage"].as_str().unwrap_or_default(), v["index"]);
        println!("VIOLATION property={id} replay={}", p.display());
    }
    let rules: Vec<String> = prop.stages.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect();
    let ev = serde_json::json!({
        "property": id,
        "tier": match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep["evaluations"],
            "distinct_nontrivial": rep["distinct"],
            "rule": rules.join(" | "),
            "samples": rep["samples"],
            "observed_events": rep["events"],
            "stages": rep["stages"],
            "known_findings_observed": known_hit,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": seen.len(),
    });
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{id}: {} evaluations, {} distinct non-trivial, {} violation signature(s), {:.1} s",
        rep["evaluations"], rep["distinct"], seen.len(), t0.elapsed().as_secs_f64()
    );
    i32::from(!seen.is_empty())
}

fn replay(file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap().to_owned();
    std::env::set_var("VERIF_SEED", v["seed"].to_string());
    std::env::set_var("VERIF_TIER", v["tier"].as_str().unwrap_or("quick"));
    let stage = v["stage"].as_str().unwrap().to_owned();
    let ix = v["index"].as_u64().unwrap();
    match run_child(&id, Some((&stage, ix)), Some(1), Duration::from_secs(120), 60) {
        Ended::Report(r) => {
            let n = r["violations"].as_array().map_or(0, Vec::len);
            for x in r["violations"].as_array().into_iter().flatten() {
                println!("{}: {}", x["sig"].as_str().unwrap(), x["detail"].as_str().unwrap());
            }
            i32::from(n > 0)
        }
        Ended::Died(w, _) => {
            println!("the case ends the process: {w}");
            1
        }
    }
}
