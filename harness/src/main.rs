mod checks;
mod fw;
mod gen;
mod model;
mod probe_core;
mod probe_key;
mod probe_text;
mod seg;
mod vif;

use fw::*;
use serde_json::{json, Value};
use std::process::{Command, ExitCode};
use std::time::{Duration, Instant};

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn known_keys(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut p = l.splitn(3, ' ');
            let prop_ = p.next()?.strip_prefix("property=")?;
            let key = p.next()?.strip_prefix("key=")?;
            (prop_ == prop).then(|| (key.to_string(), p.next().unwrap_or("").to_string()))
        })
        .collect()
}

pub fn pbe() -> bool {
    cfg!(feature = "plaintext-before-extension")
}

fn find(name: &str) -> Space {
    checks::spaces().into_iter().find(|s| s.name == name).unwrap_or_else(|| {
        eprintln!("no such space {name}");
        std::process::exit(2)
    })
}

fn exe_for(cfg: &str) -> String {
    if cfg == "pbe" {
        std::env::var("MC_PBE").unwrap_or_else(|_| "/verif/target-pbe/debug/mc".into())
    } else {
        std::env::current_exe().unwrap().to_string_lossy().into_owned()
    }
}

fn child(args: &[String]) -> ExitCode {
    let space = find(&args[0]);
    let thorough = args[1] == "thorough";
    let cap = Duration::from_secs(args[2].parse().unwrap());
    let inflight: &'static Inflight = Box::leak(Box::new(Inflight::open(&args[3]).unwrap()));
    let keys: Vec<String> = known_keys(space.prop).into_iter().map(|k| k.0).collect();
    let mut rep = explore(&space, thorough, cap, inflight, &keys);
    let mut confirmed = json!(null);
    let mut input = String::new();
    if let Some((choices, key, _)) = rep.failure.clone() {
        // replay twice to make sure the outcome depends on the choices alone
        let mut same = 0;
        for _ in 0..2 {
            let (r, notes) = replay(space.case, &choices, thorough);
            input = notes.join(" ");
            if matches!(r, Ran::Failed(f) if f.key == key) {
                same += 1;
            }
        }
        confirmed = json!(same == 2);
    }
    if let Some(e) = rep.engine.take() {
        eprintln!("engine error in {}: {e}", space.name);
        return ExitCode::from(2);
    }
    let v = json!({
        "executions": rep.executions, "transitions": rep.transitions, "states": rep.states,
        "nontrivial": rep.nontrivial, "compared": rep.compared, "exhaustive": rep.exhaustive,
        "wall": rep.wall, "samples": rep.samples,
        "known": rep.known.iter().map(|(k, v)| json!({"key": k, "count": v.0, "choices": v.1, "message": v.2})).collect::<Vec<_>>(),
        "failure": rep.failure.map(|(c, k, m)| json!({"choices": c, "key": k, "message": m, "input": input, "reproduced": confirmed})),
    });
    std::fs::write(&args[4], v.to_string()).unwrap();
    ExitCode::SUCCESS
}

/// Runs one choice vector alone. Exit 0 holds, 1 fails, anything else is a crash or an error.
fn one(space: &str, tier: &str, choices: &str) -> ExitCode {
    let space = find(space);
    let choices: Vec<u32> = choices.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let case = space.case;
    let thorough = tier == "thorough";
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || replay(case, &choices, thorough)).unwrap();
    let (r, notes) = h.join().unwrap();
    println!("input: {}", notes.join(" "));
    match r {
        Ran::Fine(_) => {
            println!("holds");
            ExitCode::SUCCESS
        }
        Ran::Failed(f) => {
            println!("FAILS key={} {}", f.key, f.msg);
            ExitCode::from(1)
        }
        Ran::Engine(m) => {
            println!("engine error: {m}");
            ExitCode::from(2)
        }
    }
}

/// Runs `mc one` with a time limit. None: timed out.
fn one_limited(exe: &str, space: &str, tier: &str, choices: &str, secs: u64) -> Option<(Option<i32>, String)> {
    use std::io::Read;
    let mut c = Command::new(exe).args(["one", space, tier, choices]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok()?;
    let start = Instant::now();
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            let mut s = String::new();
            if let Some(mut o) = c.stdout.take() {
                let _ = o.read_to_string(&mut s);
            }
            return Some((st.code(), s));
        }
        if start.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn write_replay(prop: &str, space: &str, cfg: &str, tier: &str, choices: &[u64], key: &str, msg: &str, input: &str) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{dir}/{prop}-{space}-{cfg}.json");
    let v = json!({"property": prop, "space": space, "config": cfg, "tier": tier, "choices": choices,
        "key": key, "message": msg, "input": input,
        "how_to_replay": format!("bash {}/run.sh replay {path}", verif_dir())});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

fn check(prop: &str, tier: &str) -> ExitCode {
    let start = Instant::now();
    let cap: u64 = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 500 } else { 3600 });
    let dir = verif_dir();
    let scratch = format!("{dir}/evidence/tmp-{}-{prop}", std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    struct Clean(String);
    impl Drop for Clean {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let _clean = Clean(scratch.clone());
    let (mut states, mut trans, mut execs, mut nontriv, mut compared) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut exhaustive = true;
    let mut samples: Vec<Value> = Vec::new();
    let mut per: Vec<Value> = Vec::new();
    let mut rules: Vec<String> = Vec::new();
    let mut violation: Option<String> = None;
    let mut known_seen: std::collections::BTreeMap<String, u64> = Default::default();
    let filter = std::env::var("MC_SPACE").ok();
    'all: for space in checks::spaces().into_iter().filter(|s| s.prop == prop) {
        if space.thorough_only && tier == "quick" {
            continue;
        }
        if filter.as_ref().is_some_and(|f| f != space.name) {
            continue;
        }
        let cfgs: &[&str] = match space.cfg {
            Cfg::Std => &["std"],
            Cfg::Pbe => &["pbe"],
            Cfg::Both => &["std", "pbe"],
        };
        rules.push(format!("{}: {}", space.name, space.desc));
        for cfg in cfgs {
            let exe = exe_for(cfg);
            let left = cap.saturating_sub(start.elapsed().as_secs()).max(5);
            let inflight = format!("{scratch}/inflight");
            let result = format!("{scratch}/result");
            let _ = std::fs::remove_file(&inflight);
            let _ = std::fs::remove_file(&result);
            let st = Command::new(&exe).args(["child", space.name, tier, &left.to_string(), &inflight, &result]).status();
            let st = match st {
                Ok(s) => s,
                Err(e) => {
                    eprintln!("cannot run {exe}: {e}");
                    return ExitCode::from(2);
                }
            };
            if st.code() == Some(2) {
                return ExitCode::from(2);
            }
            if !st.success() {
                // the child died: find out which of the cases in flight did it
                let inf = match Inflight::open(&inflight) {
                    Ok(i) => i,
                    Err(e) => {
                        eprintln!("{e}");
                        return ExitCode::from(2);
                    }
                };
                for slot in 0..SLOTS {
                    let Some(ch) = inf.get(slot) else { continue };
                    let text = ch.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
                    let bad = |r: &Option<(Option<i32>, String)>| match r {
                        None => Some("does not return within 40 s".to_string()),
                        Some((Some(0), _)) | Some((Some(2), _)) => None,
                        Some((Some(1), s)) => Some(s.clone()),
                        Some((code, _)) => Some(format!("process ended abnormally ({code:?})")),
                    };
                    let first = bad(&one_limited(&exe, space.name, tier, &text, 40));
                    if let Some(why) = first {
                        if bad(&one_limited(&exe, space.name, tier, &text, 40)).is_some() {
                            let c: Vec<u64> = ch.iter().map(|c| u64::from(*c)).collect();
                            let p = write_replay(prop, space.name, cfg, tier, &c, "crash", &why, "");
                            eprintln!("{}: {why}", space.name);
                            violation = Some(p);
                            exhaustive = false;
                            break 'all;
                        }
                    }
                }
                eprintln!("child for {} ({cfg}) ended with {st} and no case in flight reproduces it", space.name);
                return ExitCode::from(2);
            }
            let v: Value = match std::fs::read_to_string(&result).ok().and_then(|t| serde_json::from_str(&t).ok()) {
                Some(v) => v,
                None => {
                    eprintln!("no result from {} ({cfg})", space.name);
                    return ExitCode::from(2);
                }
            };
            let n = |k: &str| v[k].as_u64().unwrap_or(0);
            states += n("states");
            trans += n("transitions");
            execs += n("executions");
            nontriv += n("nontrivial");
            compared += n("compared");
            exhaustive &= v["exhaustive"].as_bool().unwrap_or(false);
            for s in v["samples"].as_array().into_iter().flatten() {
                samples.push(json!({"space": space.name, "config": cfg, "case": s}));
            }
            println!(
                "{} [{cfg}] executions={} transitions={} distinct={} nontrivial={} compared={} exhaustive={} {:.1}s",
                space.name,
                n("executions"),
                n("transitions"),
                n("states"),
                n("nontrivial"),
                n("compared"),
                v["exhaustive"],
                v["wall"].as_f64().unwrap_or(0.0)
            );
            per.push(json!({"space": space.name, "config": cfg, "executions": n("executions"), "transitions": n("transitions"),
                "distinct_outcomes": n("states"), "compared": n("compared"), "exhaustive": v["exhaustive"], "wall_s": v["wall"]}));
            for k in v["known"].as_array().into_iter().flatten() {
                *known_seen.entry(k["key"].as_str().unwrap_or("").to_string()).or_default() += k["count"].as_u64().unwrap_or(0);
            }
            if !v["failure"].is_null() {
                let f = &v["failure"];
                let c: Vec<u64> = f["choices"].as_array().into_iter().flatten().filter_map(|c| c.as_u64()).collect();
                let msg = f["message"].as_str().unwrap_or("");
                let p = write_replay(prop, space.name, cfg, tier, &c, f["key"].as_str().unwrap_or(""), msg, f["input"].as_str().unwrap_or(""));
                println!("{}: key={} {}", space.name, f["key"].as_str().unwrap_or(""), msg);
                println!("input: {}", f["input"].as_str().unwrap_or(""));
                if f["reproduced"] != json!(true) {
                    println!("note: the case alone does not repeat this result; it depends on what ran before");
                }
                violation = Some(p);
                break 'all;
            }
        }
    }
    for (key, text) in known_keys(prop) {
        println!("KNOWN-FINDING: property={prop} key={key} hits={} {text}", known_seen.get(&key).copied().unwrap_or(0));
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": compared,
            "evaluations": execs, "distinct_nontrivial": nontriv,
            "rule": format!("every path of each choice tree is executed; states are distinct observed outcomes, transitions are edges of the choice trees, evaluations are executions, traces_validated_against_impl counts comparisons of an implementation result with the reference model; an outcome is non-trivial when the input was accepted. {}", rules.join(" | ")),
            "exhaustive": exhaustive, "samples": samples, "spaces": per,
        },
        "assumptions": checks::assumptions(prop),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let path = format!("{dir}/evidence/{prop}.json");
    if filter.is_none() {
        std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!(
        "{prop} {tier}: states={states} transitions={trans} executions={execs} compared={compared} exhaustive={exhaustive} wall={:.1}s",
        start.elapsed().as_secs_f64()
    );
    // An exploration that sees a single outcome, or accepts nothing, decides nothing.
    if violation.is_none() && filter.is_none() && (states < 2 || nontriv == 0) {
        eprintln!("vacuous exploration: {states} distinct outcomes, {nontriv} non-trivial");
        return ExitCode::from(2);
    }
    if let Some(p) = violation {
        println!("VIOLATION property={prop} replay={p}");
        return ExitCode::from(1);
    }
    if execs == 0 {
        eprintln!("nothing was explored for {prop}");
        return ExitCode::from(2);
    }
    ExitCode::SUCCESS
}

/// Caps the memory of this process, so that a runaway allocation ends it instead of the machine.
fn cap_memory() {
    let l = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("check") if args.len() == 3 => check(&args[1], &args[2]),
        Some("child") if args.len() == 6 => {
            install_panic_hook();
            cap_memory();
            child(&args[1..])
        }
        Some("one") if args.len() == 4 => {
            install_panic_hook();
            cap_memory();
            one(&args[1], &args[2], &args[3])
        }
        Some("history") if args.len() == 2 => {
            checks::api::history(&args[1]);
            ExitCode::SUCCESS
        }
        Some("replay") if args.len() == 2 => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let c: Vec<String> = v["choices"].as_array().unwrap().iter().map(|c| c.to_string()).collect();
            let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
            match one_limited(&exe_for(&s("config")), &s("space"), &s("tier"), &c.join(","), 120) {
                Some((code, text)) => {
                    print!("{text}");
                    ExitCode::from(code.unwrap_or(134) as u8)
                }
                None => {
                    println!("timed out");
                    ExitCode::from(1)
                }
            }
        }
        Some("list") => {
            for s in checks::spaces() {
                println!("{} {} {}", s.prop, s.name, s.desc);
            }
            ExitCode::SUCCESS
        }
        Some("rec") => {
            match m_bus_parser::decode_data_records_hex(&args[1]) {
                Ok(r) => println!("{}", serde_json::to_string_pretty(&r).unwrap()),
                Err(e) => println!("ERR {} {e}", e.code()),
            }
            ExitCode::SUCCESS
        }
        Some("show") => {
            let f = args[1].parse().unwrap();
            match m_bus_parser::render_hex(&args[2], f, &Default::default()) {
                Ok(s) => println!("{s}"),
                Err(e) => println!("ERR {} {e}", e.code()),
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: mc check <property> quick|thorough | one <space> <tier> <choices> | replay <file> | list");
            ExitCode::from(2)
        }
    }
}
