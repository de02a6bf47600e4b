//! Runtime monitors for uwplse/ruler. See /verif/DESIGN.md.
mod checks;
mod eg;
mod fw;
mod langs;
mod model;
mod term;
mod worker;

use fw::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Args {
    id: String,
    thorough: bool,
    seed: u64,
    scratch: PathBuf,
    verif: PathBuf,
    only: Option<(String, u64, u64)>,
    /// this process runs the cases whose number is .0 modulo .1
    shard: (u64, u64),
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    match argv.get(1).map(|s| s.as_str()) {
        Some("run") => std::process::exit(parent(&argv[2..])),
        Some("child") => child(&argv[2..]),
        Some("worker") => worker::main(&argv[2..]),
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        _ => {
            eprintln!("usage: rv run ID [--tier quick|thorough] [--seed N] [--replay FILE] | rv list");
            std::process::exit(2);
        }
    }
}

fn opt(argv: &[String], name: &str) -> Option<String> {
    argv.iter().position(|a| a == name).and_then(|i| argv.get(i + 1)).cloned()
}

fn parse(argv: &[String]) -> Args {
    let verif = PathBuf::from(opt(argv, "--verif").unwrap_or_else(|| "/verif".into()));
    let only = opt(argv, "--only").map(|s| {
        let p: Vec<&str> = s.split(':').collect();
        (p[0].to_string(), p[1].parse().unwrap(), p[2].parse().unwrap())
    });
    Args {
        id: argv[0].clone(),
        thorough: opt(argv, "--tier").map_or(false, |t| t == "thorough"),
        seed: opt(argv, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        scratch: PathBuf::from(opt(argv, "--scratch").unwrap_or_default()),
        verif,
        only,
        shard: opt(argv, "--shard")
            .and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())))
            .unwrap_or((0, 1)),
    }
}

fn child(argv: &[String]) {
    let args = parse(argv);
    install_panic_hook();
    std::env::set_current_dir(&args.scratch).expect("scratch");
    let def = checks::all().into_iter().find(|c| c.id == args.id).expect("unknown check");
    let inflight = Inflight::new(args.scratch.join("inflight").to_str().unwrap());
    let progress = args.scratch.join("outcome.json");
    let progress = progress.to_str().unwrap();
    if let Some((section, seed, idx)) = &args.only {
        let s = def.sections.iter().find(|s| s.name == section).expect("section");
        let (seed, idx, thorough) = (*seed, *idx, args.thorough);
        let limit = Duration::from_secs(REPLAY_LIMIT_S);
        std::thread::spawn(move || {
            std::thread::sleep(limit);
            std::process::exit(stuck(16));
        });
        let mut o = Outcome { cases: 1, evaluations: 1, ..Default::default() };
        let r = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || run_case(s, seed, idx, thorough).1)
                .unwrap()
                .join()
                .unwrap()
        });
        match r {
            Ok(Ok(())) => (),
            Ok(Err(v)) => o.viols.push((s.name.to_string(), seed, idx, v)),
            Err(e) => o.harness_errors.push(e),
        }
        write_outcome(&o, progress, false);
        std::process::exit(0);
    }
    let mut def = def;
    if let Ok(only) = std::env::var("RV_SECTION") {
        def.sections.retain(|s| s.name == only); // development only
    }
    let cfg = RunCfg {
        seed: args.seed,
        thorough: args.thorough,
        workers: if args.shard.1 > 1 { 1 } else { 8 },
        shard: args.shard,
        budget: Duration::from_secs(if args.thorough { 3000 } else { 420 }),
        case_limit: Duration::from_secs(if args.thorough { 400 } else { 240 }),
        max_viols: if args.shard.1 > 1 { 3 } else { 12 },
    };
    let o = run_check(&def, &cfg, &inflight, progress);
    write_outcome(&o, progress, false);
    let _ = std::fs::write(args.scratch.join("complete"), "1");
    // exit without running destructors of caches in thread locals
    std::process::exit(0);
}

const REPLAY_LIMIT_S: u64 = 120;

enum Ended {
    Done,
    Crashed(String),
    Hung,
    TimedOut,
}

fn spawn_child(args: &Args, extra: &[String], limit: Duration, scratch: &Path) -> Ended {
    let _ = std::fs::remove_file(scratch.join("outcome.json"));
    let _ = std::fs::remove_file(scratch.join("complete"));
    let err = std::fs::File::create(scratch.join("stderr")).expect("stderr file");
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("child")
        .arg(&args.id)
        .args(["--tier", if args.thorough { "thorough" } else { "quick" }])
        .args(["--seed", &args.seed.to_string()])
        .arg("--scratch")
        .arg(scratch)
        .arg("--verif")
        .arg(&args.verif)
        .args(extra)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::from(err));
    let mut ch = cmd.spawn().expect("spawn child");
    let t0 = Instant::now();
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                use std::os::unix::process::ExitStatusExt;
                return match (st.code(), st.signal()) {
                    (Some(0), _) => Ended::Done,
                    (Some(4), _) => Ended::Hung,
                    (Some(5), _) => Ended::TimedOut,
                    (Some(c), _) => Ended::Crashed(format!("exit status {c}")),
                    (None, s) => Ended::Crashed(format!("signal {}", s.unwrap_or(0))),
                };
            }
            None => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Ended::TimedOut;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}

/// Add up the outcomes of the shards.
fn merge_outcomes(dirs: &[PathBuf]) -> Value {
    let mut all = Value::Null;
    let mut keys: std::collections::HashSet<u64> = Default::default();
    for d in dirs {
        let o: Value = match std::fs::read_to_string(d.join("outcome.json")).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(o) => o,
            None => continue,
        };
        if let Ok(b) = std::fs::read(d.join("outcome.json.keys")) {
            for k in b.chunks_exact(8) {
                keys.insert(u64::from_le_bytes(k.try_into().unwrap()));
            }
        }
        if all.is_null() {
            all = o;
            continue;
        }
        for k in ["evaluations", "cases"] {
            all[k] = json!(all[k].as_u64().unwrap_or(0) + o[k].as_u64().unwrap_or(0));
        }
        for (k, v) in o["counters"].as_object().unwrap() {
            all["counters"][k] = json!(all["counters"][k].as_u64().unwrap_or(0) + v.as_u64().unwrap_or(0));
        }
        for k in ["samples", "truncated", "harness_errors", "viols"] {
            let more = o[k].as_array().cloned().unwrap_or_default();
            all[k].as_array_mut().unwrap().extend(more);
        }
    }
    if !all.is_null() {
        all["distinct"] = json!(keys.len());
        all["samples"].as_array_mut().unwrap().truncate(12);
    }
    all
}

struct Known {
    lines: Vec<(String, String, String)>,
}
impl Known {
    /// `known: property=<id> sig=<signature> | <what fails>`
    fn load(p: &Path) -> Known {
        let mut lines = vec![];
        if let Ok(s) = std::fs::read_to_string(p) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix("known: property=") {
                    if let Some((id, rest)) = rest.split_once(" sig=") {
                        let (sig, what) = rest.split_once(" | ").unwrap_or((rest, ""));
                        lines.push((id.to_string(), sig.trim().to_string(), what.to_string()));
                    }
                }
            }
        }
        Known { lines }
    }
    fn find(&self, id: &str, sig: &str) -> Option<&str> {
        self.lines.iter().find(|(i, s, _)| i == id && s == sig).map(|(_, _, w)| w.as_str())
    }
}

fn tail(p: &Path, n: usize) -> String {
    let s = std::fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).to_string();
    let lines: Vec<&str> = s.lines().collect();
    lines[lines.len().saturating_sub(n)..].join("\n")
}

fn parent(argv: &[String]) -> i32 {
    let mut args = parse(argv);
    let t0 = Instant::now();
    let defs = checks::all();
    let def = match defs.iter().find(|c| c.id == args.id) {
        Some(d) => d,
        None => {
            eprintln!("no check {}", args.id);
            return 2;
        }
    };
    let scratch = args.verif.join("scratch").join(format!("{}-{}", args.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch dir");
    args.scratch = scratch.clone();
    let mut extra: Vec<String> = vec![];
    if let Some(f) = opt(argv, "--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).unwrap();
        extra.push("--only".into());
        extra.push(format!(
            "{}:{}:{}",
            v["section"].as_str().unwrap(),
            v["case_seed"].as_str().unwrap(),
            v["idx"].as_u64().unwrap()
        ));
        if v["tier"] == "thorough" {
            args.thorough = true;
        }
    }
    let replaying = !extra.is_empty();
    let limit = Duration::from_secs(if args.thorough { 3500 } else { 560 });
    let n = if replaying { 1 } else { def.shards };
    let args = args;
    let dirs: Vec<PathBuf> = (0..n).map(|i| if n == 1 { scratch.clone() } else { scratch.join(format!("s{i}")) }).collect();
    let ends: Vec<Ended> = std::thread::scope(|sc| {
        let hs: Vec<_> = dirs
            .iter()
            .enumerate()
            .map(|(i, d)| {
                let mut extra = extra.clone();
                if n > 1 {
                    extra.push("--shard".into());
                    extra.push(format!("{i}/{n}"));
                }
                let args = &args;
                sc.spawn(move || {
                    std::fs::create_dir_all(d).expect("shard dir");
                    spawn_child(args, &extra, limit, d)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let outcome = merge_outcomes(&dirs);
    let mut viols: Vec<(String, String, u64, String, String)> = vec![];
    if let Some(vs) = outcome["viols"].as_array() {
        for v in vs {
            viols.push((
                v["section"].as_str().unwrap().into(),
                v["seed"].as_str().unwrap().into(),
                v["idx"].as_u64().unwrap(),
                v["sig"].as_str().unwrap().into(),
                v["msg"].as_str().unwrap().into(),
            ));
        }
    }
    let mut inconclusive: Option<String> = None;
    for (ended, dir) in ends.into_iter().zip(&dirs) {
    match ended {
        Ended::Done => (),
        Ended::TimedOut => inconclusive = Some("the run exceeded its time limit".into()),
        Ended::Crashed(_) | Ended::Hung if replaying => {
            println!("the replayed case crashed or hung");
            println!("{}", tail(&dir.join("stderr"), 5));
            let _ = std::fs::remove_dir_all(&scratch);
            return 1;
        }
        Ended::Crashed(_) | Ended::Hung => {
            let what = match &ended {
                Ended::Crashed(s) => format!("crashed ({s})"),
                _ => "did not terminate".to_string(),
            };
            eprintln!("child {what}; stderr: {}", tail(&dir.join("stderr"), 5));
            // Attribute it to the case that was running.
            let mut found = false;
            let infl = std::fs::read_to_string(dir.join("inflight")).unwrap_or_default();
            for line in infl.lines() {
                let p: Vec<&str> = line.split_whitespace().collect();
                if p.len() < 4 || p[0] != "1" {
                    continue;
                }
                let s = &def.sections[p[1].parse::<usize>().unwrap()];
                let sub = dir.join("one");
                std::fs::create_dir_all(&sub).unwrap();
                let only = vec!["--only".to_string(), format!("{}:{}:{}", s.name, p[2], p[3])];
                let e = spawn_child(&args, &only, Duration::from_secs(REPLAY_LIMIT_S + 20), &sub);
                let again = match e {
                    Ended::Crashed(s) => Some(format!("crashed ({s}): {}", tail(&sub.join("stderr"), 3))),
                    Ended::Hung => Some(format!(
                        "did not terminate within {REPLAY_LIMIT_S} s (such cases normally take well under a second)"
                    )),
                    Ended::Done | Ended::TimedOut => None,
                };
                if let Some(w) = again {
                    found = true;
                    viols.push((
                        s.name.into(),
                        p[2].into(),
                        p[3].parse().unwrap(),
                        if w.starts_with("crash") { "crashed".into() } else { "did not terminate".into() },
                        format!("the code under test {w}"),
                    ));
                    break;
                }
            }
            if !found && viols.is_empty() {
                inconclusive = Some(format!("the run {what} and no single case reproduces it"));
            }
        }
    }
    }
    let herr: Vec<String> = outcome["harness_errors"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default();
    if outcome.is_null() && viols.is_empty() && inconclusive.is_none() {
        inconclusive = Some("no outcome was written".into());
    }
    let known = Known::load(&args.verif.join("known_findings.txt"));
    let mut new_viols = vec![];
    let mut known_seen: Vec<String> = vec![];
    for v in viols {
        if let Some(w) = known.find(&args.id, &v.3) {
            let l = format!("KNOWN-FINDING: property={} {} ({})", args.id, v.3, w);
            if !known_seen.contains(&l) {
                known_seen.push(l);
            }
        } else {
            new_viols.push(v);
        }
    }
    for l in &known_seen {
        println!("{l}");
    }
    // evidence
    if !replaying {
        let ev = json!({
            "property": args.id,
            "tier": if args.thorough { "thorough" } else { "quick" },
            "seed": args.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": outcome["evaluations"].as_u64().unwrap_or(0),
                "distinct_nontrivial": outcome["distinct"].as_u64().unwrap_or(0),
                "rule": def.rule,
                "samples": outcome["samples"].as_array().cloned().unwrap_or_default(),
                "cases": outcome["cases"].as_u64().unwrap_or(0),
                "observed": outcome["counters"],
                "cut_short": outcome["truncated"],
            },
            "assumptions": def.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": new_viols.len(),
        });
        let dir = args.verif.join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{}.json", args.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    let mut code = 0;
    let rdir = args.verif.join("replays");
    std::fs::create_dir_all(&rdir).unwrap();
    for (i, (section, seed, idx, sig, msg)) in new_viols.iter().enumerate() {
        code = 1;
        let path = rdir.join(format!("{}-{}-{}.json", args.id, args.seed, i));
        let v = json!({"property": args.id, "section": section, "case_seed": seed, "idx": idx,
            "tier": if args.thorough {"thorough"} else {"quick"}, "what": sig, "details": msg,
            "replay": format!("bash /verif/check.sh {} --replay {}", args.id, path.display())});
        if !replaying {
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        }
        let one = msg.replace('\n', " ");
        let short: String = one.chars().take(500).collect();
        println!("  [{section}] {sig}: {short}");
        if !replaying {
            println!("VIOLATION property={} replay={}", args.id, path.display());
        }
    }
    if code == 0 {
        if let Some(w) = inconclusive {
            println!("INCONCLUSIVE property={}: {w}", args.id);
            code = 3;
        } else if !herr.is_empty() {
            println!("HARNESS ERROR property={}: {}", args.id, herr[0]);
            println!("{}", tail(&dirs[0].join("stderr"), 5));
            code = 2;
        } else if !replaying {
            println!(
                "OK property={} cases={} evaluations={} distinct_nontrivial={} in {:.1}s",
                args.id,
                outcome["cases"],
                outcome["evaluations"],
                outcome["distinct"],
                t0.elapsed().as_secs_f64()
            );
            if outcome["truncated"].as_array().map_or(false, |a| !a.is_empty()) {
                println!("  cut short by the time budget: {}", outcome["truncated"]);
            }
        } else {
            println!("the replayed case holds");
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    code
}
