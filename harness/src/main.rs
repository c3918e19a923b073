// each feature set uses a part of the shared modules
#![cfg_attr(not(feature = "full"), allow(dead_code))]

mod corpus;
#[cfg(feature = "v2")]
mod dynser;
mod engine;
mod gen_text;
mod gen_tree;
mod gen_v1;
mod mutate;
mod props;
mod refkdl;
mod tree;

use engine::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

thread_local! {
    /// Bytes this thread has asked the allocator for.
    static ALLOCATED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCATED.try_with(|a| a.set(a.get() + l.size() as u64));
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = ALLOCATED.try_with(|a| a.set(a.get() + n as u64));
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

fn opt<'a>(args: &'a [String], k: &str) -> Option<&'a str> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("explore") => {
            explore(&args);
            0
        }
        Some("run") => run(&args),
        Some("replay") => replay(&args),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("worker") => props::worker(&args[1..]),
        _ => {
            eprintln!("usage: kdlcheck run --property ID [--tier quick|thorough] [--seed N] | replay FILE | explore --property ID | list");
            2
        }
    };
    std::process::exit(code);
}

/// The directory this framework lives in (`/verif`).
fn home() -> PathBuf {
    std::env::var_os("KDLCHECK_HOME").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// `finding: property=P04 sig=... :: text` lines of the known-findings file.
/// Lines that start with `fixed:` suppress nothing.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(home().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let Some(rest) = rest.strip_prefix(&format!("property={id} sig=")) else { continue };
        if let Some((sig, desc)) = rest.split_once(" :: ") {
            out.push((sig.to_string(), desc.to_string()));
        }
    }
    out
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}… ({} bytes)", s.chars().take(n).collect::<String>(), s.len())
    }
}

fn run(args: &[String]) -> i32 {
    let started = std::time::Instant::now();
    let id = opt(args, "--property").expect("--property").to_string();
    let tier = opt(args, "--tier").unwrap_or("quick").to_string();
    let seed: u64 = opt(args, "--seed").unwrap_or("1").parse().unwrap_or(1);
    let scale: f64 = opt(args, "--scale").unwrap_or("1").parse().unwrap();
    let thorough = tier == "thorough";
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    let known = known_findings(&id);
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    let mut violations = vec![];
    let mut parts_json = vec![];
    let mut samples = vec![];
    let (mut evals, mut distinct) = (0u64, 0u64);
    let mut harness_error = false;
    let mut exhaustive_all = true;
    for part in (p.parts)() {
        if !violations.is_empty() {
            // Whatever is broken may make the other parts take forever.
            println!("{id} {}: left out", part.name);
            continue;
        }
        let st = run_part(&part, seed, thorough, scale, 8, Some(&known));
        evals += st.cases;
        distinct += st.nontrivial_distinct;
        exhaustive_all &= st.exhaustive;
        for s in &st.samples {
            samples.push(json!({"part": st.name, "case": clip(s, 600)}));
        }
        println!(
            "{id} {}: {} cases, {} distinct non-trivial, {} failing, {:.1}s",
            st.name, st.cases, st.nontrivial_distinct, st.fail_count, st.wall_s
        );
        parts_json.push(json!({
            "part": st.name, "evaluations": st.cases, "distinct_nontrivial": st.nontrivial_distinct,
            "skipped": st.skipped, "exhaustive": st.exhaustive, "failing_cases": st.fail_count,
            "classes": st.labels, "wall_s": st.wall_s,
        }));
        let mut shrunk = 0;
        for f in &st.failures {
            if f.sig == "HARNESS" {
                eprintln!("HARNESS ERROR in {id} {}: {} on {:?}", f.part, f.msg, clip(&f.input, 400));
                harness_error = true;
                continue;
            }
            if let Some((sig, desc)) = known.iter().find(|(s, _)| *s == f.sig) {
                known_hit.insert(sig.clone(), desc.clone());
                continue;
            }
            if shrunk >= 4 {
                continue;
            }
            shrunk += 1;
            violations.push(if st.exhaustive { f.clone() } else { shrink(part.run, f, 3000) });
        }
    }
    for (sig, desc) in &known_hit {
        println!("KNOWN-FINDING: property={id} {sig}: {desc}");
    }
    let replay_dir = home().join("replays");
    for (n, v) in violations.iter().enumerate() {
        let path = replay_dir.join(format!("{id}-{}-{n}.json", v.part));
        let body = json!({
            "property": id, "part": v.part, "signature": v.sig, "message": v.msg,
            "input": v.input, "tape": v.tape, "seed": seed, "case_index": v.index,
            "replay": format!("bash run.sh replay {}", path.display()),
        });
        let _ = std::fs::create_dir_all(&replay_dir);
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()) {
            eprintln!("cannot write {}: {e}", path.display());
        }
        println!("VIOLATION property={id} replay={}", path.display());
        println!("  [{}] {}", v.sig, clip(&v.msg, 1500));
        println!("  input: {:?}", clip(&v.input, 800));
    }
    let evidence = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": p.rule,
            "samples": samples, "exhaustive": exhaustive_all, "parts": parts_json,
            "known_findings_seen": known_hit.len(),
        },
        "assumptions": p.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let ev = home().join("evidence").join(format!("{id}.json"));
    let _ = std::fs::create_dir_all(ev.parent().unwrap());
    if let Err(e) = std::fs::write(&ev, serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        eprintln!("cannot write {}: {e}", ev.display());
        return 2;
    }
    if !violations.is_empty() {
        1
    } else if harness_error {
        2
    } else {
        println!("OK property={id} {evals} cases in {:.1}s", started.elapsed().as_secs_f64());
        0
    }
}

fn replay(args: &[String]) -> i32 {
    let Some(path) = args.get(1) else {
        eprintln!("usage: kdlcheck replay FILE");
        return 2;
    };
    let v: serde_json::Value = match std::fs::read_to_string(Path::new(path)).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let (id, pname) = (v["property"].as_str().unwrap_or(""), v["part"].as_str().unwrap_or(""));
    let tape: Vec<u32> = v["tape"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as u32).collect()).unwrap_or_default();
    for p in props::all().into_iter().filter(|p| p.id == id) {
        for part in (p.parts)() {
            if part.name != pname {
                continue;
            }
            let out = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, || run_case(part.run, Src::replay(tape.clone())))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            println!("input: {:?}", out.case.input);
            return match out.res {
                Ok(()) => {
                    println!("holds");
                    0
                }
                Err(f) => {
                    println!("VIOLATION property={id} replay={path}\n  [{}] {}", f.sig, f.msg);
                    1
                }
            };
        }
    }
    eprintln!("no such property/part: {id}/{pname}");
    2
}

/// Development aid: run a property and list every distinct failure, shrunk.
fn explore(args: &[String]) {
    let id = opt(args, "--property").expect("--property");
    let seed: u64 = opt(args, "--seed").unwrap_or("1").parse().unwrap();
    let scale: f64 = opt(args, "--scale").unwrap_or("1").parse().unwrap();
    let only = opt(args, "--part");
    let msglen: usize = opt(args, "--msg").unwrap_or("300").parse().unwrap();
    let max: usize = opt(args, "--max").unwrap_or("12").parse().unwrap();
    for p in props::all().into_iter().filter(|p| p.id == id) {
        for part in (p.parts)() {
            if only.is_some_and(|o| o != part.name) {
                continue;
            }
            let st = run_part(&part, seed, false, scale, 8, None);
            println!(
                "{} {}: {} cases, {} distinct non-trivial, {} skipped, {} failing, {:.1}s",
                p.id, st.name, st.cases, st.nontrivial_distinct, st.skipped, st.fail_count, st.wall_s
            );
            println!("  labels: {:?}", st.labels);
            for s in st.samples.iter().take(2) {
                println!("  sample: {:?}", clip(s, 200));
            }
            let mut seen = std::collections::BTreeSet::new();
            for f in st.failures.iter() {
                let g = shrink(part.run, f, 3000);
                if !seen.insert((g.sig.clone(), g.input.clone())) {
                    continue;
                }
                if seen.len() > max {
                    break;
                }
                println!("  FAIL sig={:?}\n    input={:?}\n    {}", g.sig, g.input, clip(&g.msg, msglen));
            }
        }
    }
}
