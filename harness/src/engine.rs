use crate::props;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One concrete input. `main` is the document (or the string the property is about), `files` further
/// files next to it, `args` numbers or strings the oracle needs to know about how it was made.
#[derive(Clone, Debug, Default, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct Case {
    pub main: String,
    #[serde(default)]
    pub files: Vec<(String, String)>,
    #[serde(default)]
    pub args: Vec<String>,
}

impl Case {
    pub fn text(s: impl Into<String>) -> Case {
        Case { main: s.into(), ..Default::default() }
    }
}

pub enum Verdict {
    /// the property holds here; true when the case exercised what the property is about
    Holds(bool),
    /// the property does not speak about this case (e.g. the input is rejected)
    Skip,
    Fails(String),
    /// a violation already listed in known_findings
    Known(String),
}

#[derive(Serialize, Deserialize)]
pub struct Failure {
    pub property: String,
    pub message: String,
    pub kind: String,
    pub case: Case,
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// i-th case; small i are the fixed and exhaustive ones
    fn case(&self, i: u64, rng: &mut Rng) -> Case;
    fn check(&self, c: &Case) -> Verdict;
    /// does the property promise an answer, so that a panic or a hang is a violation
    fn total(&self) -> bool {
        false
    }
    /// may parts of `main` be dropped when a failing case is made smaller
    fn shrinkable(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str;
}

pub fn run_case(p: &dyn Prop, c: &Case) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| p.check(c))) {
        Ok(v) => v,
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            if let Some(rest) = msg.strip_prefix("ORACLE: ") {
                return Verdict::Fails(rest.to_string());
            }
            if p.total() { Verdict::Fails(format!("panics: {msg}")) } else { Verdict::Skip }
        }
    }
}

fn arg<'a>(args: &'a [String], name: &str, default: &'a str) -> &'a str {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str()).unwrap_or(default)
}

fn shrink(p: &dyn Prop, c: Case) -> Case {
    let deadline = Instant::now() + Duration::from_secs(5);
    let fails = |c: &Case| matches!(run_case(p, c), Verdict::Fails(_));
    let mut best = c;
    if !p.shrinkable() {
        return best;
    }
    loop {
        let mut improved = false;
        let lines: Vec<String> = best.main.split_inclusive('\n').map(|s| s.to_string()).collect();
        let mut n = lines.len().max(1);
        while n >= 1 && Instant::now() < deadline {
            let mut i = 0;
            let mut cur: Vec<String> = best.main.split_inclusive('\n').map(|s| s.to_string()).collect();
            while i < cur.len() && Instant::now() < deadline {
                let mut cand = cur.clone();
                cand.drain(i..(i + n).min(cand.len()));
                let t = Case { main: cand.concat(), ..best.clone() };
                if fails(&t) {
                    best = t;
                    cur = cand;
                    improved = true;
                } else {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        let mut i = 0;
        while i < best.main.chars().count() && best.main.len() < 400 && Instant::now() < deadline {
            let cand: String = best.main.chars().enumerate().filter(|(k, _)| *k != i).map(|(_, c)| c).collect();
            let t = Case { main: cand, ..best.clone() };
            if fails(&t) {
                best = t;
                improved = true;
            } else {
                i += 1;
            }
        }
        if !improved || Instant::now() >= deadline {
            return best;
        }
    }
}

fn write_failure(out: &str, f: &Failure) {
    let _ = std::fs::create_dir_all(out);
    std::fs::write(format!("{out}/fail.json"), serde_json::to_string_pretty(f).unwrap()).unwrap();
}

pub fn search(id: &str, args: &[String]) -> i32 {
    let Some(p) = props::get(id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    let p: &'static dyn Prop = p;
    let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
    let cases: u64 = arg(args, "--cases", "200000").parse().unwrap();
    let secs: u64 = arg(args, "--secs", "60").parse().unwrap();
    let skip: u64 = arg(args, "--skip", "0").parse().unwrap();
    let threads: u64 = arg(args, "--threads", "4").parse().unwrap();
    let out = arg(args, "--out", "/tmp/harness-out").to_string();
    let _ = std::fs::create_dir_all(&out);
    std::panic::set_hook(Box::new(|_| {}));
    let started = Instant::now();
    let deadline = started + Duration::from_secs(secs);
    let next = Arc::new(AtomicU64::new(skip));
    let stop = Arc::new(AtomicBool::new(false));
    let failure: Arc<Mutex<Option<(u64, Failure)>>> = Arc::new(Mutex::new(None));
    let counts: Arc<[AtomicU64; 4]> = Arc::new(Default::default());
    let known: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
    let distinct: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<Case>>> = Arc::new(Mutex::new(vec![]));
    type Slot = Mutex<Option<(Instant, u64, Case)>>;
    let slots: Arc<Vec<Slot>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let mut handles = vec![];
    for t in 0..threads as usize {
        let (next, stop, failure, counts, known, distinct, samples, slots) = (
            next.clone(), stop.clone(), failure.clone(), counts.clone(), known.clone(), distinct.clone(), samples.clone(), slots.clone(),
        );
        let out = out.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut local: HashSet<u64> = HashSet::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases || stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                            break;
                        }
                        let mut rng = Rng::new(seed.wrapping_mul(0x1_0000_0001).wrapping_add(i));
                        let c = match catch_unwind(AssertUnwindSafe(|| p.case(i, &mut rng))) {
                            Ok(c) => c,
                            Err(_) => continue,
                        };
                        // for the supervisor, should the code under test end the process
                        if props::may_exit(p.id()) {
                            let _ = std::fs::write(
                                format!("{out}/current.{t}.json"),
                                serde_json::to_string(&(i, &c)).unwrap(),
                            );
                        }
                        *slots[t].lock().unwrap() = Some((Instant::now(), i, c.clone()));
                        counts[0].fetch_add(1, Ordering::Relaxed);
                        let v = run_case(p, &c);
                        *slots[t].lock().unwrap() = None;
                        match v {
                            Verdict::Holds(nontrivial) => {
                                if nontrivial {
                                    counts[1].fetch_add(1, Ordering::Relaxed);
                                    let mut h = DefaultHasher::new();
                                    c.hash(&mut h);
                                    if local.insert(h.finish()) {
                                        let mut s = samples.lock().unwrap();
                                        if s.len() < 3 && i >= 20 && c.main.len() < 600 {
                                            s.push(c);
                                        }
                                    }
                                }
                            }
                            Verdict::Skip => {
                                counts[2].fetch_add(1, Ordering::Relaxed);
                            }
                            Verdict::Known(k) => {
                                counts[3].fetch_add(1, Ordering::Relaxed);
                                known.lock().unwrap().insert(k);
                            }
                            Verdict::Fails(message) => {
                                let mut f = failure.lock().unwrap();
                                if f.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                                    *f = Some((i, Failure { property: p.id().into(), message, kind: "input".into(), case: c }));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    distinct.lock().unwrap().extend(local);
                })
                .unwrap(),
        );
    }
    // watchdog
    let limit = Duration::from_secs(8);
    let mut hang: Option<Case> = None;
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.iter() {
            if let Some((t0, _, c)) = &*s.lock().unwrap() {
                if t0.elapsed() > limit {
                    hang = Some(c.clone());
                }
            }
        }
        if hang.is_some() {
            break;
        }
    }
    let mut code = 0;
    if let Some((_, f)) = failure.lock().unwrap().take() {
        let case = shrink(p, f.case.clone());
        let message = match run_case(p, &case) {
            Verdict::Fails(m) => m,
            _ => f.message.clone(),
        };
        write_failure(&out, &Failure { property: f.property, message, kind: "input".into(), case });
        code = 1;
    } else if let Some(c) = hang {
        if p.total() {
            write_failure(
                &out,
                &Failure { property: id.into(), message: "no answer within 8 s".into(), kind: "hang".into(), case: c },
            );
            code = 1;
        }
    }
    let report = serde_json::json!({
        "property": id, "seed": seed, "evaluations": counts[0].load(Ordering::Relaxed),
        "nontrivial": counts[1].load(Ordering::Relaxed), "skipped": counts[2].load(Ordering::Relaxed),
        "known_hits": counts[3].load(Ordering::Relaxed),
        "distinct_nontrivial": distinct.lock().unwrap().len(),
        "known": known.lock().unwrap().iter().collect::<Vec<_>>(),
        "next": next.load(Ordering::Relaxed),
        "rule": p.rule(), "samples": *samples.lock().unwrap(), "wall_s": started.elapsed().as_secs_f64(),
    });
    std::fs::write(format!("{out}/report.json"), serde_json::to_string_pretty(&report).unwrap()).unwrap();
    code
}

pub fn replay(file: &str) -> i32 {
    let f: Failure = match std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(f) => f,
        None => {
            eprintln!("no recorded input in {file}");
            return 2;
        }
    };
    let Some(p) = props::get(&f.property) else { return 2 };
    let p: &'static dyn Prop = p;
    println!("property {}\ninput:\n{}", f.property, f.case.main);
    for (n, t) in &f.case.files {
        println!("file {n}:\n{t}");
    }
    if !f.case.args.is_empty() {
        println!("args: {:?}", f.case.args);
    }
    let c = f.case.clone();
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_case(p, &c)).unwrap();
    let t0 = Instant::now();
    while !h.is_finished() {
        if t0.elapsed() > Duration::from_secs(10) {
            println!("FAILS: no answer within 10 s");
            return 1;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    match h.join().unwrap() {
        Verdict::Fails(m) => {
            println!("FAILS: {m}");
            1
        }
        Verdict::Known(m) => {
            println!("known finding: {m}");
            0
        }
        _ => {
            println!("holds");
            0
        }
    }
}
