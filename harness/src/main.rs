//! Replays property violations on the real crates: a bounded, seeded search
//! for a failing input of one property, and the replay of a found one.
//!
//!   vharness search --prop P01 --seed 1 --secs 10 --out report.json
//!   vharness replay report-or-replay.json
mod assume;
mod big;
mod build;
mod crash;
mod fault;
mod gen;
mod hist;
mod ids;
mod jsonlaw;
mod lin;
mod keys;
mod model;
mod plugin;
mod proto;
mod runner;
mod server;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Outcome {
    pub nontrivial: bool,
    pub sample: String,
    pub fail: Option<(String, Value)>,
}
impl Outcome {
    pub fn ok(nontrivial: bool, sample: String) -> Outcome {
        Outcome { nontrivial, sample, fail: None }
    }
    pub fn fail(text: String, extra: Value) -> Outcome {
        Outcome { nontrivial: true, sample: String::new(), fail: Some((text, extra)) }
    }
    pub fn of(r: Result<(bool, String), String>) -> Outcome {
        match r {
            Ok((n, s)) => Outcome::ok(n, s),
            Err(t) => Outcome::fail(t, Value::Null),
        }
    }
}

/// Shortens long runs of one character in printed cases.
pub fn short(s: &str) -> String {
    let mut out = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let mut j = i;
        while j < c.len() && c[j] == c[i] {
            j += 1;
        }
        if j - i > 12 {
            out += &format!("{}{{x{}}}", c[i], j - i);
        } else {
            out.extend(&c[i..j]);
        }
        i = j;
    }
    if out.len() > 3000 {
        out = out.chars().take(3000).collect::<String>() + "...";
    }
    out
}

/// The modules that look for failing inputs of a property.
fn modules(prop: &str) -> &'static [&'static str] {
    match prop {
        "P09" => &["keys", "hist", "keys", "hist", "keys", "big"],
        "P10" => &["hist", "fault", "refused", "hist", "fault", "refused", "hist", "fault", "refused", "big"],
        "P12" => &["hist", "fault", "hist", "fault", "hist", "fault", "hist", "big"],
        "P14" => &["ids"],
        "P15" => &["json"],
        "P16" => &["proto"],
        "P17" => &["server"],
        "P18" => &["build"],
        "P19" => &["plugin"],
        "P20" => &["uuid"],
        "P22" => &["lin"],
        "P23" => &["crash", "crash", "crash", "fault"],
        _ => &["hist", "hist", "hist", "hist", "hist", "hist", "hist", "big"],
    }
}

fn run_module(module: &str, prop: &str, seed: u64, case: u64) -> Outcome {
    let f = || match module {
        "hist" => hist::case(prop, seed, case),
        "big" => big::case(prop, seed, case),
        "keys" => Outcome::of(keys::case(seed, case)),
        "uuid" => Outcome::of(keys::uuid_case(seed, case)),
        "ids" => Outcome::of(ids::case(seed, case)),
        "json" => Outcome::of(jsonlaw::case(seed, case)),
        "build" => Outcome::of(build::case(seed, case)),
        "proto" => Outcome::of(proto::case(seed, case)),
        "server" => Outcome::of(server::case(seed, case)),
        "plugin" => Outcome::of(plugin::case(seed, case)),
        "lin" => Outcome::of(lin::case(seed, case)),
        "refused" => Outcome::of(crash::refused(seed, case)),
        "crash" => Outcome::of(crash::case(seed, case)),
        "fault" => fault::case(prop, seed, case),
        _ => panic!("unknown module {}", module),
    };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(p) => {
            let t = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Outcome::fail(format!("panicked: {}", t), Value::Null)
        }
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).map(|s| s.parse().unwrap()).unwrap_or(d)
}

struct Shared {
    stop: AtomicBool,
    next: AtomicU64,
    evals: AtomicU64,
    seen: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    found: Mutex<Option<Value>>,
    running: Mutex<Vec<Option<(Instant, &'static str, u64)>>>,
}

fn search() {
    let prop: &'static str = Box::leak(arg("--prop").expect("--prop").into_boxed_str());
    let seed = num("--seed", 1);
    let secs = num("--secs", 10);
    let max = num("--cases", u64::MAX);
    let threads = num("--threads", 8) as usize;
    let hang = num("--hang", 60);
    let out = arg("--out").unwrap_or_else(|| "/dev/stdout".to_string());
    let mods = modules(prop);
    let dict: Value = arg("--dict").map(|s| serde_json::from_str(&s).unwrap()).unwrap_or(Value::Null);
    gen::set_dict(&dict);
    let dict = Arc::new(dict);
    let sh = Arc::new(Shared {
        stop: AtomicBool::new(false),
        next: AtomicU64::new(0),
        evals: AtomicU64::new(0),
        seen: Mutex::new(HashSet::new()),
        samples: Mutex::new(vec![]),
        found: Mutex::new(None),
        running: Mutex::new(vec![None; threads]),
    });
    let t0 = Instant::now();
    let mut hs = vec![];
    // what each thread is working on, for when the process dies
    let slots = Arc::new(arg("--slots").map(|p| std::fs::File::create(p).unwrap()));
    for t in 0..threads {
        let sh = sh.clone();
        let slots = slots.clone();
        let dict = dict.clone();
        // for a while one thread works alone: what a process keeps for all
        // datastores is then not disturbed by the others
        let alone = if t > 0 && matches!(prop, "P01" | "P07" | "P11" | "P17") { secs * 1000 / 10 } else { 0 };
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            std::thread::sleep(Duration::from_millis(alone));
            loop {
            let n = sh.next.fetch_add(1, SeqCst);
            if sh.stop.load(SeqCst) || n >= max || t0.elapsed().as_secs() >= secs {
                break;
            }
            let module = mods[(n % mods.len() as u64) as usize];
            let slot = n as usize % mods.len();
            let same = |l: &[&str]| l.iter().filter(|m| **m == module).count() as u64;
            let case = n / mods.len() as u64 * same(mods) + same(&mods[..slot]);
            sh.running.lock().unwrap()[t] = Some((Instant::now(), module, case));
            if let Some(f) = slots.as_ref() {
                let _ = std::os::unix::fs::FileExt::write_all_at(f, format!("{:<15} {:>40}\n", module, case).as_bytes(), t as u64 * 57);
            }
            let o = run_module(module, prop, seed, case);
            sh.running.lock().unwrap()[t] = None;
            sh.evals.fetch_add(1, SeqCst);
            if o.nontrivial {
                let mut h = DefaultHasher::new();
                (module, &o.sample, if o.sample.len() < 40 { case } else { 0 }).hash(&mut h);
                sh.seen.lock().unwrap().insert(h.finish());
            }
            let mut s = sh.samples.lock().unwrap();
            if s.len() < 5 && o.nontrivial && o.fail.is_none() {
                s.push(short(&format!("{} case {}: {}", module, case, o.sample)));
            }
            drop(s);
            if let Some((text, extra)) = o.fail {
                let mut f = sh.found.lock().unwrap();
                if f.is_none() {
                    *f = Some(json!({"property": prop, "module": module, "seed": seed, "case": case, "extra": extra, "dict": *dict, "text": short(&text)}));
                }
                sh.stop.store(true, SeqCst);
            }
            }
        }).unwrap());
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let stuck = sh.running.lock().unwrap().iter().flatten().find(|r| r.1 != "big" && r.0.elapsed().as_secs() > hang).cloned();
        if let Some((_, module, case)) = stuck {
            let mut f = sh.found.lock().unwrap();
            if f.is_none() {
                *f = Some(json!({"property": prop, "module": module, "seed": seed, "case": case, "extra": Value::Null, "dict": *dict, "hang": hang,
                    "text": format!("{} case {} does not finish within {} s (deadlock or endless loop)", module, case, hang)}));
            }
            break;
        }
        if t0.elapsed().as_secs() > secs + 40.max(if sh.stop.load(SeqCst) { 0 } else { hang + 10 }) {
            break;
        }
    }
    let found = sh.found.lock().unwrap().clone();
    let rep = json!({
        "property": prop, "seed": seed, "evaluations": sh.evals.load(SeqCst),
        "distinct_nontrivial": sh.seen.lock().unwrap().len(),
        "samples": *sh.samples.lock().unwrap(),
        "modules": mods, "wall_s": t0.elapsed().as_secs_f64(), "found": found,
    });
    std::fs::write(&out, serde_json::to_string_pretty(&rep).unwrap() + "\n").unwrap();
    std::process::exit(if found.is_some() { 1 } else { 0 });
}

fn replay() {
    let path = std::env::args().nth(2).expect("replay FILE");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let v = match v.get("found") {
        Some(f) => f.clone(),
        None => v,
    };
    let prop = v["property"].as_str().unwrap().to_string();
    gen::set_dict(&v["dict"]);
    let module = v["module"].as_str().unwrap().to_string();
    let (seed, case, extra) = (v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap(), v["extra"].clone());
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            if module == "hist" {
                hist::replay(&prop, seed, case, &extra)
            } else if module == "lin" {
                // a race may need some tries
                let t0 = Instant::now();
                loop {
                    let f = run_module(&module, &prop, seed, case).fail.map(|f| f.0);
                    if f.is_some() || t0.elapsed().as_secs() > 40 {
                        break f;
                    }
                }
            } else {
                run_module(&module, &prop, seed, case).fail.map(|f| f.0)
            }
        })
        .unwrap();
    let t0 = Instant::now();
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        if t0.elapsed().as_secs() > 200 {
            println!("REPRODUCED: does not finish within 200 s");
            std::process::exit(1);
        }
    }
    match h.join() {
        Ok(None) => println!("not reproduced"),
        Ok(Some(t)) => {
            println!("REPRODUCED: {}", short(&t));
            std::process::exit(1);
        }
        Err(_) => {
            println!("REPRODUCED: panicked");
            std::process::exit(1);
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    if std::env::args().nth(1).map_or(false, |a| a.ends_with("child")) {
        let d = std::env::var("VH_DICT").unwrap_or_default();
        gen::set_dict(&serde_json::from_str(&d).unwrap_or(Value::Null));
    }
    match std::env::args().nth(1).as_deref() {
        Some("search") => search(),
        Some("replay") => replay(),
        Some("known") => fault::known(),
        Some("assume") => println!("{}", assume::run(num("--seed", 1), num("--secs", 0))),
        Some("crashchild") => crash::crashchild(),
        Some("syncchild") => fault::syncchild(),
        _ => {
            eprintln!("usage: vharness search|replay|known|assume");
            std::process::exit(2);
        }
    }
}
