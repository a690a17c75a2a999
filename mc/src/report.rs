//! Running the jobs of one property, confirming violations, writing evidence and replay files.
use crate::{
    explore::{self, Oracle, Scen},
    rt,
};
use serde_json::{json, Value};
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub const THREADS: usize = 8;

/// A finite list of cases, each executed on the real program and judged.
pub struct Cases {
    pub name: String,
    /// what is enumerated, and the bound
    pub rule: String,
    pub n: usize,
    pub label: Box<dyn Fn(usize) -> String + Send + Sync>,
    /// Ok: class of the outcome; Err: the property is violated
    pub check: Box<dyn Fn(usize) -> Result<&'static str, String> + Send + Sync>,
}

pub enum Job {
    Scen(Scen, usize, Oracle, bool),
    Cases(Box<dyn Fn(Tier) -> Cases>),
}

pub struct CasesOut {
    pub n: usize,
    pub exhaustive: bool,
    pub outcomes: Vec<(String, usize)>,
    pub samples: Vec<String>,
    pub viol: Option<(String, usize, String)>,
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

pub fn run_case(c: &Cases, i: usize) -> Result<&'static str, String> {
    match catch_unwind(AssertUnwindSafe(|| (c.check)(i))) {
        Ok(r) => r,
        Err(p) => Err(format!("panic while judging: {}", panic_text(p))),
    }
}

pub fn run_cases(c: &Cases, deadline: Instant) -> CasesOut {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let viol: Mutex<Option<(usize, String)>> = Mutex::new(None);
    let tally: Mutex<std::collections::BTreeMap<&'static str, (usize, usize)>> = Mutex::new(Default::default());
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..THREADS {
            s.spawn(|| {
                let mut mine: std::collections::BTreeMap<&'static str, (usize, usize)> = Default::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= c.n || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if i % 64 == 0 && Instant::now() > deadline {
                        timed_out.store(true, Ordering::Relaxed);
                        break;
                    }
                    match run_case(c, i) {
                        Ok(k) => {
                            let e = mine.entry(k).or_insert((0, i));
                            e.0 += 1;
                        }
                        Err(m) => {
                            let mut g = viol.lock().unwrap();
                            if g.as_ref().map_or(true, |v| v.0 > i) {
                                *g = Some((i, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    done.fetch_add(1, Ordering::Relaxed);
                }
                let mut t = tally.lock().unwrap();
                for (k, v) in mine {
                    let e = t.entry(k).or_insert((0, v.1));
                    e.0 += v.0;
                    if v.1 < e.1 {
                        e.1 = v.1;
                    }
                }
            });
        }
    });
    let t = tally.into_inner().unwrap();
    let viol = viol.into_inner().unwrap().map(|(i, m)| ((c.label)(i), i, m));
    CasesOut {
        n: done.load(Ordering::Relaxed),
        exhaustive: viol.is_none() && !timed_out.load(Ordering::Relaxed),
        outcomes: t.iter().map(|(k, v)| (k.to_string(), v.0)).collect(),
        samples: t.iter().map(|(k, v)| format!("{k}: {}", (c.label)(v.1))).collect(),
        viol,
    }
}

fn strs<T: std::fmt::Debug>(v: &[T]) -> Vec<String> {
    v.iter().map(|a| format!("{a:?}")).collect()
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// replays a scenario path given as strings, against the alphabet offered in each state
pub fn replay_strs(s: &Scen, path: &[String], oracle: Oracle, probe: bool) -> Result<(), (usize, String)> {
    let (env, mut n) = explore::root(s);
    if !probe {
        n.probe.clear();
    }
    for (i, p) in path.iter().enumerate() {
        let a = match s.prefix.get(i).filter(|a| format!("{a:?}") == *p) {
            Some(a) => a.clone(),
            None => match s.alpha.acts(&n, i - s.prefix.len().min(i)).into_iter().find(|a| format!("{a:?}") == *p) {
                Some(a) => a,
                None => return Err((i, format!("replay: {p} is not offered here"))),
            },
        };
        let (r, nx, _, _) = explore::step(&env, &n, &a, oracle, probe);
        if let Err(m) = r {
            return Err((i, m));
        }
        match nx {
            Some(x) => n = x,
            None => return if i + 1 == path.len() { Ok(()) } else { Err((i, "replay: history ends early".into())) },
        }
    }
    Ok(())
}

pub fn run(id: &str, tier: Tier, seed: u64, jobs: Vec<Job>, assumptions: Vec<String>) -> i32 {
    let t0 = Instant::now();
    let cap = Duration::from_secs(match tier {
        Tier::Quick => 420,
        Tier::Thorough => 7200,
    });
    let deadline = t0 + cap;
    let (mut states, mut transitions, mut traces) = (0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut bounds: Vec<Value> = vec![];
    let mut exhaustive = true;
    let mut found: Option<Value> = None;
    for j in &jobs {
        let tj = Instant::now();
        match j {
            Job::Scen(s, depth, oracle, probe) => {
                let (st, v) = explore::explore(s, *depth, *oracle, *probe, deadline, THREADS);
                states += st.states;
                transitions += st.transitions;
                traces += st.histories;
                for x in st.samples.iter().take(2) {
                    samples.push(json!({"scenario": s.name, "history": x}));
                }
                if st.completed_depth < *depth && v.is_none() {
                    exhaustive = false;
                }
                bounds.push(json!({
                    "scenario": s.name, "users": s.users, "prefix_operations": s.prefix.len(), "depth_asked": depth,
                    "depth_completed": st.completed_depth, "distinct_states": st.states, "transitions": st.transitions,
                    "histories": st.histories, "refused_operations": st.rejected, "not_followed": st.diverged,
                    "wall_s": tj.elapsed().as_secs_f64(),
                }));
                println!(
                    "{id} {} depth {}/{}: {} states, {} transitions, {} histories, {} refused, {} not followed, {:.1}s",
                    s.name, st.completed_depth, depth, st.states, st.transitions, st.histories, st.rejected, st.diverged, tj.elapsed().as_secs_f64()
                );
                if let Some(v) = v {
                    found = Some(json!({"property": id, "kind": "scenario", "scenario": s.name, "history": strs(&v.path), "message": v.msg}));
                }
            }
            Job::Cases(g) => {
                let c = g(tier);
                let o = run_cases(&c, deadline);
                states += o.outcomes.len() as u64;
                transitions += o.n as u64;
                traces += o.n as u64;
                exhaustive &= o.exhaustive;
                for x in o.samples.iter().take(4) {
                    samples.push(json!({"enumeration": c.name, "case": x}));
                }
                println!("{id} {}: {} of {} cases, outcomes {:?}, {:.1}s", c.name, o.n, c.n, o.outcomes, tj.elapsed().as_secs_f64());
                bounds.push(json!({
                    "enumeration": c.name, "rule": c.rule, "cases": c.n, "executed": o.n,
                    "outcomes": o.outcomes.iter().map(|(k, v)| json!({"outcome": k, "cases": v})).collect::<Vec<_>>(),
                    "wall_s": tj.elapsed().as_secs_f64(),
                }));
                if let Some((l, i, m)) = o.viol {
                    found = Some(json!({"property": id, "kind": "cases", "enumeration": c.name, "case": l, "index": i, "message": m}));
                }
            }
        }
        if found.is_some() {
            exhaustive = false;
            break;
        }
    }
    let around = crate::around::TRIED.load(Ordering::Relaxed);
    if around > 0 {
        transitions += around;
        println!("{id} around the transitions: {around} variants");
        bounds.push(json!({"enumeration": "variants around every transition of the scenarios", "executed": around}));
    }
    // a violation counts only if it happens again from scratch
    let mut code = 0;
    if let Some(f) = &mut found {
        f["tier"] = json!(tier.name());
        f["reproduce"] = json!(format!("/verif/check.sh replay <this file>"));
        let again = replay_value(f, &jobs, tier);
        match again {
            Err(m) => {
                let dir = format!("{}/replays", verif_dir());
                let _ = std::fs::create_dir_all(&dir);
                let file = format!("{dir}/{id}.json");
                f["message_on_replay"] = json!(m);
                let _ = std::fs::write(&file, serde_json::to_string_pretty(f).unwrap());
                println!("{}", f["message"].as_str().unwrap_or(""));
                println!("VIOLATION property={id} replay={file}");
                code = 1;
            }
            Ok(()) => {
                println!("not reproducible, checker error: {f}");
                code = 2;
            }
        }
    }
    let ev = json!({
        "property": id, "tier": tier.name(), "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": traces,
            "exhaustive": exhaustive,
            "samples": samples.iter().take(24).collect::<Vec<_>>(),
            "bounds": bounds,
            "explanation": "every history is executed on the real program (linked natively, under a small Solana runtime) in lock-step with the reference model; states are distinct joint states of accounts and model, counted by 128-bit hash; enumerated cases are single transactions or fixed histories executed on the real program, whose states are the distinct outcome classes",
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("cannot write evidence: {e}");
        return 2;
    }
    println!("{id}: {} in {:.1}s", if code == 0 { "held on everything explored" } else { "failed" }, t0.elapsed().as_secs_f64());
    code
}

static ID: std::sync::OnceLock<(String, String)> = std::sync::OnceLock::new();

/// Properties that say which instructions are accepted: a proper instruction refused while the
/// states are set up is a violation of theirs. The others have nothing to say about it.
fn by_fixtures(id: &str) -> bool {
    ["C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C21", "C22"].contains(&id)
}
fn unset(f: impl Fn()) -> Option<String> {
    catch_unwind(AssertUnwindSafe(f)).err().map(panic_text)
}

/// a transaction that never ends, or an abort in the program
fn fatal(m: &str) {
    let (id, tier) = ID.get().cloned().unwrap_or_default();
    println!("{m}");
    if id == "replay" {
        println!("violation reproduced");
        std::process::exit(1);
    }
    let file = format!("{}/replays/{id}.json", verif_dir());
    let _ = std::fs::create_dir_all(format!("{}/replays", verif_dir()));
    let f = json!({"property": id, "kind": "all", "tier": tier, "message": m, "reproduce": "/verif/check.sh replay <this file>"});
    let _ = std::fs::write(&file, serde_json::to_string_pretty(&f).unwrap());
    println!("VIOLATION property={id} replay={file}");
    std::process::exit(1);
}

/// Err: the recorded violation happens (again)
pub fn replay_value(f: &Value, jobs: &[Job], tier: Tier) -> Result<(), String> {
    match f["kind"].as_str() {
        Some("scenario") => {
            let path: Vec<String> = f["history"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            for j in jobs {
                if let Job::Scen(s, _, o, p) = j {
                    if Some(s.name) == f["scenario"].as_str() {
                        return replay_strs(s, &path, *o, *p).map_err(|(i, m)| format!("step {i}: {m}"));
                    }
                }
            }
            Ok(())
        }
        _ => {
            for j in jobs {
                if let Job::Cases(g) = j {
                    let c = g(tier);
                    if Some(c.name.as_str()) == f["enumeration"].as_str() {
                        let i = f["index"].as_u64().unwrap_or(0) as usize;
                        if i >= c.n || Some((c.label)(i).as_str()) != f["case"].as_str() {
                            return Err("replay: the enumeration has changed".into());
                        }
                        return run_case(&c, i).map(|_| ());
                    }
                }
            }
            Ok(())
        }
    }
}

pub fn cli(jobs_of: impl Fn(&str, Tier) -> Option<(Vec<Job>, Vec<String>)>) -> i32 {
    rt::init();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        println!("usage: mc <property> [quick|thorough] | mc replay <file>");
        return 2;
    }
    let _ = ID.set((a[1].clone(), a.get(2).cloned().unwrap_or_default()));
    let _ = rt::FATAL.set(fatal);
    rt::watch(40);
    if a[1] == "replay" {
        let f: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("cannot read the replay file")).expect("bad replay file");
        let tier = if f["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        let Some((jobs, asm)) = jobs_of(f["property"].as_str().unwrap_or(""), tier) else { return 2 };
        if f["kind"] == "all" {
            // the whole check has to be run again
            return run(f["property"].as_str().unwrap_or(""), tier, 1, jobs, asm);
        }
        return match replay_value(&f, &jobs, tier) {
            Err(m) => {
                println!("violation reproduced: {m}");
                1
            }
            Ok(()) => {
                println!("no violation");
                0
            }
        };
    }
    let tier = match a.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let broken = unset(|| {
        crate::fix::fixtures();
    });
    if let Some(m) = &broken {
        if by_fixtures(&a[1]) {
            fatal(m);
        }
        println!("{m}: enumerations from these states are left out");
    }
    match jobs_of(&a[1], tier) {
        Some((mut jobs, asm)) => {
            jobs.retain(|j| match j {
                Job::Cases(_) => broken.is_none(),
                Job::Scen(s, ..) => match unset(|| {
                    explore::root(s);
                }) {
                    None => true,
                    Some(m) => {
                        if by_fixtures(&a[1]) {
                            fatal(&m);
                        }
                        println!("{m}: scenario {} is left out", s.name);
                        false
                    }
                },
            });
            run(&a[1], tier, seed, jobs, asm)
        }
        None => {
            println!("unknown property {}", a[1]);
            2
        }
    }
}
