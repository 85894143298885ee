#![allow(dead_code)]
#[cfg(feature = "direct")]
mod direct;

mod checks;
mod client;
mod sdk;
mod engine;
mod cli;
mod deploy;
mod evm;
mod gen;
mod gov;
mod layout;
mod model;
mod programs;
mod quoter;
mod svm;
mod world;
use checks::{find, Part};
use engine::*;
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    time::{Duration, Instant},
};

fn case_of<'a>(p: &'a Part) -> Box<CaseFn<'a>> {
    Box::new(move |s: &mut Src, o: &mut Obs| {
        let r = (p.run)(s, o);
        o.nontrivial = p.rule.iter().all(|g| g.iter().any(|c| o.classes.contains_key(c)));
        r
    })
}

fn rule_text(p: &Part) -> String {
    let g: Vec<String> = p
        .rule
        .iter()
        .map(|g| g.iter().map(|c| format!("'{c}'")).collect::<Vec<_>>().join(" or "))
        .collect();
    if g.is_empty() {
        "any case".into()
    } else {
        g.join(", and ")
    }
}

fn trace_of(c: &Check, choices: &[u64]) -> (CaseRes, Vec<String>) {
    let mut src = Src::replay(choices.to_vec());
    let mut obs = Obs { trace: Some(vec![]), ..Default::default() };
    let r = run_one(c.case, &mut src, &mut obs);
    (r, obs.trace.unwrap_or_default())
}

fn usage() -> ! {
    eprintln!("usage: ntt-verif check <property> | replay <file> | debug <property> <part> <cases> <seed>");
    std::process::exit(2)
}

fn main() {
    svm::global_init();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 3 => check(&a[2]),
        Some("replay") if a.len() == 3 => replay(&a[2]),
        Some("debug") if a.len() == 6 => debug(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()),
        _ => usage(),
    }
}

fn check(id: &str) {
    let Some(ch) = find(id) else { usage() };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let start = Instant::now();
    let wall = Duration::from_secs(if thorough { 5400 } else { 420 });
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut evals = 0;
    let (mut ops, mut txs) = (0, 0);
    let mut fps: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut parts: Vec<Value> = vec![];
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation = None;
    for p in &ch.parts {
        let case = case_of(p);
        let c = Check { id: ch.id, part: p.name, case: &*case };
        let n = ((if thorough { p.cases * 40 } else { p.cases * 5 }) as f64 * scale) as u64;
        let left = wall.saturating_sub(start.elapsed());
        let out = match explore(&c, seed, n.max(1), threads, Some(left)) {
            Ok(o) => o,
            Err(e) => {
                eprintln!("ERROR: {e}");
                std::process::exit(2);
            }
        };
        evals += out.cases;
        ops += out.ops;
        txs += out.txs;
        parts.push(json!({
            "driver": p.name,
            "what": p.what,
            "cases": out.cases,
            "distinct_nontrivial": out.fps.len(),
            "non_trivial_if": rule_text(p),
            "operations": out.ops,
            "transactions": out.txs,
            "situations": out.classes,
            "wall_s": out.wall,
        }));
        samples.extend(out.samples.iter().map(|s| format!("[{}] {}", p.name, s)));
        fps.extend(out.fps.iter().map(|f| f ^ hash_bytes(p.name.as_bytes())));
        for (k, v) in out.foreign {
            *foreign.entry(k).or_insert(0) += v;
        }
        if let Some((i, choices, fail)) = out.failure {
            eprintln!("{} {} case {}: {} ({})", ch.id, p.name, i, fail.site, fail.msg);
            let (best, f, runs) = shrink(&c, choices.clone(), fail.clone(), Duration::from_secs(60));
            let (r, trace) = trace_of(&c, &best);
            let f = if let CaseRes::Fail(x) = r { x } else { f };
            let _ = std::fs::create_dir_all(format!("{dir}/replays"));
            let path = format!("{dir}/replays/{}-{}-{}-{}.json", ch.id, p.name.replace(' ', "_"), seed, i);
            let v = json!({
                "property": ch.id, "driver": p.name, "seed": seed, "case": i,
                "site": f.site, "properties_broken": f.tags, "message": f.msg,
                "history": trace, "choices": best, "unshrunk_choices": choices.len(), "shrink_runs": runs,
            });
            if std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).is_err() {
                eprintln!("ERROR: cannot write {path}");
            }
            println!("minimal history ({} choices, from {}):", best.len(), choices.len());
            for l in v["history"].as_array().unwrap() {
                println!("  {}", l.as_str().unwrap_or(""));
            }
            println!("{}", v["message"].as_str().unwrap_or(""));
            violation = Some(path);
            break;
        }
    }
    let ev = json!({
        "property": ch.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": fps.len(),
            "rule": format!(
                "A case is one generated input or call history, a pure function of (seed, property, driver, case number). Non-trivial: {}. Distinct: different fingerprint of the sequence of calls and outcomes (histories) or of the generated values (direct drivers).",
                ch.parts.iter().map(|p| format!("in '{}': {}", p.name, rule_text(p))).collect::<Vec<_>>().join("; ")),
            "samples": samples,
            "operations": ops,
            "transactions": txs,
            "drivers": parts,
            "mismatches_of_other_properties": foreign,
            "direct_drivers_built": cfg!(feature = "direct"),
        },
        "assumptions": [
            "Programs run as native code under the real Solana program runtime, not as BPF; compute and heap limits are not modelled",
            "The harness's reference model and byte layouts state the intended behaviour",
            "Mismatches that break only other properties end a case and are counted, not reported, here",
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u64,
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", ch.id), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("ERROR: cannot write evidence: {e}");
        std::process::exit(2);
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} transactions, {:.1} s{}",
        ch.id,
        evals,
        fps.len(),
        txs,
        start.elapsed().as_secs_f64(),
        if foreign.is_empty() { String::new() } else { format!(", mismatches of other properties: {foreign:?}") }
    );
    if let Some(p) = violation {
        println!("VIOLATION property={} replay={}", ch.id, p);
        std::process::exit(1);
    }
}

fn replay(path: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let ch = find(v["property"].as_str().unwrap()).unwrap();
    let p = ch.parts.iter().find(|p| p.name == v["driver"].as_str().unwrap()).expect("driver");
    let case = case_of(p);
    let c = Check { id: ch.id, part: p.name, case: &*case };
    let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let (r, trace) = trace_of(&c, &choices);
    for l in trace {
        println!("  {l}");
    }
    match r {
        CaseRes::Ok => println!("property held on this case"),
        CaseRes::Panic(p) => {
            println!("harness panic: {p}");
            std::process::exit(2)
        }
        CaseRes::Fail(f) => {
            println!("{} {:?}: {}", f.site, f.tags, f.msg);
            if f.tags.contains(&ch.id) {
                println!("VIOLATION property={} replay={}", ch.id, path);
                std::process::exit(1);
            }
        }
    }
}

/// all mismatches of a driver, whichever property they break
fn debug(id: &str, part: &str, n: u64, seed: u64) {
    let Some(ch) = find(id) else { usage() };
    for p in ch.parts.iter().filter(|p| part == "all" || p.name == part) {
        let case = case_of(p);
        let mut seen = BTreeMap::new();
        let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
        let t = Instant::now();
        let (mut bad, mut nt) = (0, 0);
        for i in 0..n {
            let mut src = Src::random(case_seed(seed, ch.id, p.name, i));
            let mut obs = Obs { trace: Some(vec![]), ..Default::default() };
            match run_one(&*case, &mut src, &mut obs) {
                CaseRes::Ok => {}
                CaseRes::Fail(f) => {
                    bad += 1;
                    let e = seen.entry(f.site.clone()).or_insert(0);
                    *e += 1;
                    if *e == 1 {
                        println!("case {i}: {} {:?} {}\n", f.site, f.tags, f.msg);
                    }
                }
                CaseRes::Panic(p) => {
                    println!("case {i} PANIC {p}");
                    bad += 1;
                }
            }
            nt += obs.nontrivial as u64;
            for k in obs.classes.keys() {
                *classes.entry(k).or_insert(0) += 1;
            }
        }
        println!("{id} {}: {n} cases {nt} non-trivial {bad} bad {:?} {:?}", p.name, t.elapsed(), seen);
        for (k, v) in classes {
            println!("    {:6.2}% {k}", v as f64 * 100.0 / n as f64);
        }
    }
}
