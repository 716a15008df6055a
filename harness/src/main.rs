use osmio_pbt::engine::*;
use osmio_pbt::props;
use std::collections::HashSet;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Arc;

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    sigs: HashSet<String>,
    what: Vec<(String, String)>,
}

fn known_findings(prop: &str) -> Known {
    let mut k = Known { sigs: HashSet::new(), what: vec![] };
    let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.json")) else { return k };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
    for f in v["findings"].as_array().into_iter().flatten() {
        if f["property"] == prop {
            let sig = f["signature"].as_str().unwrap().to_string();
            k.what.push((sig.clone(), f["what"].as_str().unwrap_or("").to_string()));
            k.sigs.insert(sig);
        }
    }
    k
}

fn write_replay(prop: &str, v: serde_json::Value) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}.json"));
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    p
}

fn violation(prop: &str, path: &Path) {
    println!("VIOLATION property={} replay={}", prop, path.display());
    let _ = std::io::stdout().flush();
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} {} quick={} thorough={}", p.id, p.level, p.quick, p.thorough);
            }
        }
        Some("literals") => osmio_pbt::dict::print(),
        Some("run") => std::process::exit(run(&args[1], args.get(2).map(|s| s.as_str()).unwrap_or("quick"))),
        Some("child") => std::process::exit(child(&args[1], &args[2], args.get(3).map(|s| s.parse().unwrap()))),
        Some("replay") => std::process::exit(replay(&args[1], &args[2])),
        _ => {
            eprintln!("usage: pbt list | run ID [quick|thorough] | replay ID FILE");
            std::process::exit(2);
        }
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn slots_path(id: &str) -> PathBuf {
    let dir = verif_dir().join("work");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("slots-{id}-{}", std::process::id()))
}

/// The parent: runs the search in a child process, so that a crash of it (stack overflow, abort) is
/// seen and can be attributed to a case.
fn run(id: &str, tier: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let sp = slots_path(id);
    let _ = std::fs::write(&sp, vec![0xffu8; 8 * 64]);
    let st = std::process::Command::new(&exe)
        .args(["child", id, tier])
        .env("PBT_SLOTS", &sp)
        .status()
        .unwrap();
    let slots = std::fs::read(&sp).unwrap_or_default();
    let _ = std::fs::remove_file(&sp);
    if let Some(c) = st.code() {
        return c;
    }
    use std::os::unix::process::ExitStatusExt;
    let sig = st.signal().unwrap_or(0);
    if ![libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
        eprintln!("ERROR: the search process of {id} was ended by signal {sig}");
        return 2;
    }
    let mut cands: Vec<u64> = slots
        .chunks_exact(8)
        .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
        .filter(|x| *x != u64::MAX)
        .collect();
    cands.sort();
    for c in cands {
        let st = std::process::Command::new(&exe)
            .args(["child", id, tier, &c.to_string()])
            .stdout(std::process::Stdio::null())
            .status()
            .unwrap();
        if st.code().is_none() {
            let p = write_replay(
                id,
                serde_json::json!({"property": id, "seed": seed(), "case": c, "tier": tier, "fresh": osmio_pbt::dict::fresh(),
                    "what": format!("the process dies with signal {}", st.signal().unwrap_or(0))}),
            );
            println!("{id}: case {c} kills the process (signal {})", st.signal().unwrap_or(0));
            violation(id, &p);
            return 1;
        }
    }
    eprintln!("ERROR: the search process of {id} was ended by signal {sig}, but no single case reproduces it");
    2
}

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property {id}");
            std::process::exit(2)
        }
    }
}

fn child(id: &str, tier: &str, only: Option<u64>) -> i32 {
    install_panic_hook();
    let prop = find(id);
    let thorough = tier == "thorough";
    let t0 = std::time::Instant::now();
    let known = known_findings(id);
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cases = ((if thorough { prop.thorough } else { prop.quick }) as f64 * scale) as u64;
    let threads = std::env::var("PBT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let slots_file = std::env::var("PBT_SLOTS")
        .ok()
        .and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok());
    let job = Job {
        prop: &prop,
        seed: seed(),
        thorough,
        cases: cases.max(1),
        threads: if only.is_some() { 1 } else { threads },
        known: known.sigs.clone(),
        slots_file,
        only,
    };
    let hang_id = id.to_string();
    let hang_tier = tier.to_string();
    let on_hang: HangHandler = Arc::new(move |idx, secs| {
        let p = write_replay(
            &hang_id,
            serde_json::json!({"property": hang_id, "seed": seed(), "case": idx, "tier": hang_tier, "fresh": osmio_pbt::dict::fresh(),
                "what": format!("does not terminate: over {secs} s of CPU time on a case that takes milliseconds")}),
        );
        println!("{hang_id}: case {idx} does not terminate ({secs} s of CPU time)");
        violation(&hang_id, &p);
        std::process::exit(1);
    });
    let (st, failure) = run_job(&job, on_hang.clone());

    let mut code = 0;
    let mut violations = 0;
    match failure {
        None => {}
        Some(Failure::Case { idx, outcome }) => {
            violations = 1;
            code = 1;
            let first = outcome.res.clone().unwrap_err();
            // on its own thread, with a big stack; give up on shrinking if that takes too long
            let f = prop.run;
            let k = known.sigs.clone();
            let orig = outcome.record.clone();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let o = shrink(f, *outcome, thorough, &k, 4000);
                    // run it once more, with a sample
                    let o2 = run_case(f, Src::replay(o.record.clone()), true, thorough, &k);
                    let o = if o2.res.is_err() { o2 } else { o };
                    let _ = tx.send((o.record, o.res, o.ctx.sample));
                })
                .unwrap();
            let (record, res, sample) = rx
                .recv_timeout(std::time::Duration::from_secs(90))
                .unwrap_or((orig, Err(first.clone()), None));
            let msg = res.err().unwrap_or_else(|| first.clone());
            let p = write_replay(
                id,
                serde_json::json!({"property": id, "seed": seed(), "case": idx, "tier": tier, "fresh": osmio_pbt::dict::fresh(),
                    "what": msg, "first_failure": first, "choices": record, "input": sample}),
            );
            println!("{id}: case {idx} (shrunk to {} choices): {msg}", record.len());
            if let Some(s) = sample {
                println!("  input: {s}");
            }
            violation(id, &p);
        }
        Some(Failure::Exhaustive { chunk, msg }) => {
            violations = 1;
            code = 1;
            let p = write_replay(
                id,
                serde_json::json!({"property": id, "exhaustive_chunk": chunk, "tier": tier, "what": msg}),
            );
            println!("{id}: {msg}");
            violation(id, &p);
        }
        Some(Failure::Hang { .. }) => unreachable!(),
    }
    if only.is_some() {
        return code;
    }
    for (sig, what) in &known.what {
        if let Some((n, msg)) = st.findings.get(sig) {
            println!("KNOWN-FINDING: property={id} {what} [{sig}; seen in {n} cases, e.g. {msg}]");
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed(),
        "level": prop.level,
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.distinct.len() as u64 + st.distinct_inside,
            "rule": prop.rule,
            "samples": st.samples.iter().take(6).collect::<Vec<_>>(),
            "cases": st.cases,
            "nontrivial_cases": st.nontrivial,
            "labels": st.labels,
            "known_findings_seen": st.findings.iter().map(|(k, v)| (k.clone(), v.0)).collect::<std::collections::BTreeMap<_, _>>(),
        },
        "assumptions": prop.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{id} {tier}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s{}",
        st.cases,
        st.evals,
        st.distinct.len() as u64 + st.distinct_inside,
        wall,
        if code == 0 { "" } else { " - VIOLATED" }
    );
    code
}

fn replay(id: &str, file: &str) -> i32 {
    install_panic_hook();
    let prop = find(id);
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let thorough = v["tier"] == "thorough";
    if let Some(f) = v["fresh"].as_array() {
        osmio_pbt::dict::set_fresh(f.iter().map(|x| x.as_str().unwrap().to_string()).collect());
    }
    let known = known_findings(id);
    if let Some(chunk) = v["exhaustive_chunk"].as_u64() {
        let r = (prop.exhaustive.as_ref().unwrap().run)(chunk, thorough);
        return match r {
            Ok(_) => {
                println!("{id}: passes");
                0
            }
            Err(m) => {
                println!("{id}: {m}");
                violation(id, Path::new(file));
                1
            }
        };
    }
    let src = match v["choices"].as_array() {
        Some(c) => Src::replay(c.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Src::random(case_seed(v["seed"].as_u64().unwrap(), id, v["case"].as_u64().unwrap())),
    };
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let o = run_case(prop.run, src, true, thorough, &known.sigs);
            (o.res, o.ctx.sample)
        })
        .unwrap();
    let (res, sample) = h.join().unwrap();
    if let Some(s) = sample {
        println!("input: {s}");
    }
    match res {
        Ok(()) => {
            println!("{id}: passes");
            0
        }
        Err(m) => {
            println!("{id}: {m}");
            violation(id, Path::new(file));
            1
        }
    }
}
