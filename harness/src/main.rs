#![allow(dead_code)]
mod adv;
mod cluster;
mod codecs;
mod core;
mod fuzz;
mod guard;
mod lattice;
mod mon;
mod plans;
mod refm;
mod rr;
mod run;
mod sim;
mod storm;
mod twin;
mod wire;

use std::time::{Duration, Instant};

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

fn main() {
    if std::env::var("FMON_BT").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("replay") => replay(&args[1]),
        Some("case") => {
            let seed = args[3].parse().unwrap_or(0);
            show_case(&args[1], &args[2], seed, args.get(4).is_some_and(|t| t == "thorough"));
            0
        }
        Some("digest") => twin::digest_main(args[1].parse().unwrap_or(0)),
        Some(p) if std::env::var("FMON_CHILD").is_ok() => check(p, &args[1..]),
        Some(_) => supervised(&args),
        None => {
            eprintln!("usage: fmon <property> | fmon replay <file>");
            2
        }
    };
    std::process::exit(code);
}

fn root() -> String {
    std::env::var("FMON_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn show_case(prop: &str, driver: &str, seed: u64, thorough: bool) -> Option<adv::CaseOut> {
    let plan = plans::plan(prop)?;
    let d = plan.drivers.iter().find(|d| d.name == driver)?;
    Some((d.f)(plan.prop, seed, true, thorough))
}

fn replay(path: &str) -> i32 {
    let Ok(txt) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let mut f = txt.lines().next().unwrap_or("").split_whitespace();
    let get = |f: &mut dyn Iterator<Item = &str>, k: &str| -> String {
        f.next().and_then(|x| x.strip_prefix(&format!("{k}="))).unwrap_or("").to_string()
    };
    let prop = get(&mut f, "property");
    let driver = get(&mut f, "driver");
    let seed: u64 = get(&mut f, "seed").parse().unwrap_or(0);
    let thorough = get(&mut f, "tier") == "thorough";
    match show_case(&prop, &driver, seed, thorough) {
        None => {
            eprintln!("no such driver {prop}/{driver}");
            2
        }
        Some(o) => {
            for l in &o.trace {
                println!("{l}");
            }
            match o.err {
                Some(e) if o.known.as_ref().is_some_and(|k| findings(&prop).iter().any(|f| f.key == *k)) => {
                    println!("KNOWN-FINDING: property={prop} {}: {e}", o.known.unwrap());
                    0
                }
                Some(e) => {
                    println!("REPRODUCED: {e}");
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
    }
}

struct Finding {
    key: String,
    driver: String,
    seed: u64,
    max_rate: f64,
    what: String,
}

/// `finding: property=<id> key=<signature> driver=<d> seed=<s> max_rate=<r> :: <what>`
fn findings(prop: &str) -> Vec<Finding> {
    let txt = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let mut out = vec![];
    for l in txt.lines() {
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let Some((head, what)) = l.split_once(" :: ") else { continue };
        let get = |k: &str| {
            head.split_whitespace()
                .find_map(|w| w.strip_prefix(k).and_then(|w| w.strip_prefix('=')))
                .unwrap_or("")
                .to_string()
        };
        if get("property") == prop {
            out.push(Finding {
                key: get("key"),
                driver: get("driver"),
                seed: get("seed").parse().unwrap_or(0),
                max_rate: get("max_rate").parse().unwrap_or(0.0),
                what: what.to_string(),
            });
        }
    }
    out
}

/// run the check in a child, and find out what killed it if something does
fn supervised(args: &[String]) -> i32 {
    let prop = &args[0];
    let Some(plan) = plans::plan(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let only = args.iter().find_map(|a| a.strip_prefix("--driver=").map(String::from));
    let names: Vec<&str> =
        plan.drivers.iter().map(|d| d.name).filter(|n| only.as_ref().is_none_or(|o| o == n)).collect();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    // FMON_ALSO: the same harness built differently, to be run first
    let also = std::env::var("FMON_ALSO").ok().filter(|a| std::path::Path::new(a).exists());
    let mut runs: Vec<(String, &str, Vec<(String, String)>)> = vec![];
    let mut ev = String::new();
    if let Some(a) = also {
        ev = format!("{}/harness/target/ev-{}", root(), std::process::id());
        let env = vec![("FMON_EVDIR".into(), ev.clone()), ("FMON_BUILD".into(), "checked".into())];
        runs.push((a, "checked", env));
        runs.push((me, "release", vec![("FMON_EXTRA".into(), format!("{ev}/{prop}.json"))]));
    } else {
        runs.push((me, "release", vec![]));
    }
    let mut code = 0;
    for (exe, build, env) in runs {
        if build == "checked" {
            println!("build with debug assertions, overflow checks and unstable-notifications:");
        }
        code = match guard::supervise(&exe, args, &env, &names, thorough) {
            guard::End::Code(c) => c,
            guard::End::Unexplained(h) => {
                println!("ERROR: {h}; could not be reproduced, this run decides nothing");
                2
            }
            guard::End::Died(d) => {
                let dn = names[d.driver];
                let path = replay_path(prop, dn, d.seed);
                let txt = format!(
                    "property={prop} driver={dn} seed={} tier={} build={build}\n{}\n",
                    d.seed,
                    if thorough { "thorough" } else { "quick" },
                    d.how
                );
                let _ = std::fs::write(&path, txt);
                println!("{dn}/{}: {}", d.seed, d.how);
                println!("VIOLATION property={prop} replay={path}");
                1
            }
        };
        if code != 0 {
            break;
        }
    }
    if !ev.is_empty() {
        let _ = std::fs::remove_dir_all(&ev);
    }
    code
}

fn replay_path(prop: &str, driver: &str, seed: u64) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    format!("{dir}/{prop}-{driver}-{seed}.txt")
}

fn check(prop: &str, rest: &[String]) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let cap = env_u64("FMON_CAP_S", if thorough { 3000 } else { 240 });
    let threads = env_u64("FMON_THREADS", 8) as usize;
    let Some(mut plan) = plans::plan(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    if let Some(d) = rest.iter().find_map(|a| a.strip_prefix("--driver=")) {
        plan.drivers.retain(|x| x.name == d);
    }
    let scale = std::env::var("FMON_SCALE").ok().and_then(|v| v.parse::<f64>().ok()).unwrap_or(1.0);
    for d in &mut plan.drivers {
        d.quick = ((d.quick as f64) * scale).ceil() as u64;
        d.thorough = ((d.thorough as f64) * scale).ceil() as u64;
    }
    guard::watchdog(Duration::from_secs(if thorough { 900 } else { 100 }));
    let t0 = Instant::now();
    let o = run::explore(&plan, seed, thorough, Duration::from_secs(cap), threads);
    let wall = t0.elapsed().as_secs_f64();
    if std::env::var("FMON_NOEV").is_err() {
        let mut extra = vec![];
        if let Some(t) = std::env::var("FMON_EXTRA").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
            extra.push(("same_workloads_with_debug_assertions_and_overflow_checks".to_string(), t.trim().to_string()));
        }
        let dir = std::env::var("FMON_EVDIR").unwrap_or_else(|_| format!("{}/evidence", root()));
        run::write_evidence(&dir, &plan, seed, thorough, &o, wall, &extra);
    }
    println!(
        "{prop}: {} cases, {} distinct non-trivial, {} calls observed, {wall:.1}s{}",
        o.evals,
        o.distinct,
        o.events,
        if o.capped { " (time cap)" } else { "" }
    );
    for (n, e, d) in &o.per {
        println!("  driver {n}: {e} cases, {d} distinct non-trivial");
    }
    for (k, v) in &o.c.0 {
        println!("  {k} = {v}");
    }
    // Recorded findings: anything that matches a listed signature, at no more than
    // the listed rate, is reported as such; everything else is a violation.
    let listed = findings(prop);
    let mut bad = o.err.clone();
    for (k, (n, dn, cs, e)) in &o.known {
        match listed.iter().find(|f| f.key == *k) {
            Some(f) if *n as f64 <= (f.max_rate * o.evals as f64).max(3.0) => {
                println!("  matches recorded finding {k}: {n} case(s), first {dn}/{cs}");
            }
            Some(_) => {
                bad = bad.or(Some((dn.clone(), *cs, format!("{k} in {n} of {} cases: {e}", o.evals))));
            }
            None => bad = bad.or(Some((dn.clone(), *cs, e.clone()))),
        }
    }
    for f in &listed {
        match show_case(prop, &f.driver, f.seed, thorough) {
            Some(c) if c.known.as_deref() == Some(&f.key) => {
                println!("KNOWN-FINDING: property={prop} {}: {} [{}/{}]", f.key, f.what, f.driver, f.seed);
            }
            Some(c) if c.err.is_some() => {
                bad = bad.or(Some((f.driver.clone(), f.seed, c.err.unwrap())));
            }
            _ => {}
        }
    }
    if let Some((dn, cs, e)) = &bad {
        let path = replay_path(prop, dn, *cs);
        let tr = show_case(prop, dn, *cs, thorough);
        let mut txt = format!(
            "property={prop} driver={dn} seed={cs} tier={} build={}\n{e}\n\n",
            if thorough { "thorough" } else { "quick" },
            std::env::var("FMON_BUILD").unwrap_or_else(|_| "release".into())
        );
        if let Some(t) = tr {
            txt.push_str(&t.trace.join("\n"));
            txt.push('\n');
        }
        let _ = std::fs::write(&path, txt);
        println!("{e}");
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    let missing: Vec<&&str> = plan.need.iter().filter(|k| o.c.get(k) == 0).collect();
    if !missing.is_empty() && rest.is_empty() && scale >= 1.0 {
        println!("ERROR: never observed {missing:?}; this run decides nothing");
        return 2;
    }
    0
}
