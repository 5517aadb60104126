//! Runner: spreads case seeds over threads, collects counters, writes evidence
//! and replay files.
use crate::adv::CaseOut;
use crate::core::hash2;
use crate::mon::Counters;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Fun = fn(&str, u64, bool, bool) -> CaseOut;
pub struct Driver {
    pub name: &'static str,
    /// cases in the quick tier
    pub quick: u64,
    /// cases in the thorough tier
    pub thorough: u64,
    pub f: Fun,
    /// at least one of these counters makes a case non-trivial
    pub marks: &'static [&'static str],
}
pub struct Plan {
    pub prop: &'static str,
    pub drivers: Vec<Driver>,
    pub rule: &'static str,
    /// counters that must be non-zero, or the check observed nothing
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub struct Outcome {
    pub c: Counters,
    pub evals: u64,
    pub distinct: u64,
    pub per: Vec<(String, u64, u64)>,
    pub err: Option<(String, u64, String)>,
    /// key -> (how many cases, driver, first seed, what failed)
    pub known: std::collections::BTreeMap<String, (u64, String, u64, String)>,
    pub samples: Vec<(String, u64)>,
    pub capped: bool,
    pub events: u64,
}

pub fn explore(plan: &Plan, seed: u64, thorough: bool, cap: Duration, threads: usize) -> Outcome {
    let start = Instant::now();
    // development aid: report every failing case instead of stopping at the first
    let keep_going = std::env::var("FMON_ALL").is_ok();
    let stop = AtomicBool::new(false);
    let mut out = Outcome {
        c: Counters::default(),
        evals: 0,
        distinct: 0,
        per: vec![],
        err: None,
        known: Default::default(),
        samples: vec![],
        capped: false,
        events: 0,
    };
    // the cap is shared out so that every driver gets its turn
    let total: u64 = plan.drivers.len() as u64;
    for (di, d) in plan.drivers.iter().enumerate() {
        let n = if thorough { d.thorough } else { d.quick };
        let deadline = start + cap * (di as u32 + 1) / total as u32;
        let next = AtomicU64::new(0);
        let acc = Mutex::new((Counters::default(), HashSet::<u64>::new(), 0u64, 0u64, 0u64));
        let err: Mutex<Option<(u64, u64, String)>> = Mutex::new(None);
        let known = Mutex::new(std::collections::BTreeMap::<String, (u64, String, u64, String)>::new());
        let samples = Mutex::new(Vec::<u64>::new());
        let capped = AtomicBool::new(false);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, acc, err, known, samples, stop, capped) =
                    (&next, &acc, &err, &known, &samples, &stop, &capped);
                s.spawn(move || {
                    let mut c = Counters::default();
                    let mut sigs = HashSet::new();
                    let (mut ev, mut nt, mut steps) = (0u64, 0u64, 0u64);
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        if Instant::now() > deadline {
                            capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        let cs = case_seed(seed, plan.prop, d.name, i);
                        crate::guard::mark(t, di, cs);
                        let o = (d.f)(plan.prop, cs, false, thorough);
                        ev += 1;
                        steps += o.steps;
                        let non = d.marks.is_empty() || d.marks.iter().any(|m| o.c.get(m) > 0);
                        if non {
                            nt += 1;
                            sigs.insert(o.sig);
                            let mut sm = samples.lock().unwrap();
                            if sm.len() < 2 && o.err.is_none() {
                                sm.push(cs);
                            }
                        }
                        c.merge(&o.c);
                        if let Some(k) = o.known {
                            let mut kk = known.lock().unwrap();
                            let e = kk.entry(k).or_insert_with(|| {
                                (0, d.name.to_string(), cs, o.err.clone().unwrap_or_default())
                            });
                            e.0 += 1;
                        } else if let (Some(e), true) = (&o.err, keep_going) {
                            println!("FAIL seed={cs} {} :: {e}", o.trace.first().cloned().unwrap_or_default());
                        } else if let Some(e) = o.err {
                            let mut er = err.lock().unwrap();
                            if er.as_ref().is_none_or(|x| i < x.0) {
                                *er = Some((i, cs, e));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    crate::guard::mark(t, di, 0);
                    let mut a = acc.lock().unwrap();
                    a.0.merge(&c);
                    a.1.extend(sigs);
                    a.2 += ev;
                    a.3 += nt;
                    a.4 += steps;
                });
            }
        });
        let a = acc.into_inner().unwrap();
        out.c.merge(&a.0);
        out.evals += a.2;
        out.distinct += a.1.len() as u64;
        out.events += a.4;
        out.capped |= capped.load(Ordering::Relaxed);
        out.per.push((d.name.to_string(), a.2, a.1.len() as u64));
        for cs in samples.into_inner().unwrap() {
            out.samples.push((d.name.to_string(), cs));
        }
        out.known.extend(known.into_inner().unwrap());
        if let Some((_, cs, e)) = err.into_inner().unwrap() {
            out.err = Some((d.name.to_string(), cs, e));
            break;
        }
    }
    out
}

pub fn case_seed(seed: u64, prop: &str, driver: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes().chain(driver.bytes()) {
        crate::core::fnv(&mut h, b as u64);
    }
    hash2(hash2(h, seed), i) | 1
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_evidence(
    dir: &str,
    plan: &Plan,
    seed: u64,
    thorough: bool,
    o: &Outcome,
    wall: f64,
    extra: &[(String, String)],
) {
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        jstr(plan.prop),
        jstr(if thorough { "thorough" } else { "quick" })
    );
    let _ = write!(
        s,
        "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        o.evals,
        o.distinct,
        jstr(plan.rule)
    );
    let _ = write!(s, "  \"calls_observed\": {},\n  \"time_capped\": {},\n  \"drivers\": {{", o.events, o.capped);
    for (i, (n, e, d)) in o.per.iter().enumerate() {
        let _ = write!(
            s,
            "{}{}: {{\"cases\": {e}, \"distinct_nontrivial\": {d}}}",
            if i > 0 { ", " } else { "" },
            jstr(n)
        );
    }
    s.push_str("},\n  \"observed\": {");
    for (i, (k, v)) in o.c.0.iter().enumerate() {
        let _ = write!(s, "{}\n   {}: {v}", if i > 0 { "," } else { "" }, jstr(k));
    }
    s.push_str("\n  },\n");
    for (k, v) in extra {
        let _ = write!(s, "  {}: {v},\n", jstr(k));
    }
    s.push_str("  \"samples\": [");
    let mut first = true;
    for (dn, cs) in o.samples.iter().take(4) {
        let d = plan.drivers.iter().find(|d| d.name == dn).unwrap();
        let r = (d.f)(plan.prop, *cs, true, thorough);
        let mut t: Vec<String> = r.trace.iter().take(14).map(|x| clip(x, 700)).collect();
        if r.trace.len() > 14 {
            t.push(format!("... {} more", r.trace.len() - 14));
        }
        let _ = write!(
            s,
            "{}\n   {{\"driver\": {}, \"case_seed\": {cs}, \"trace\": [{}]}}",
            if first { "" } else { "," },
            jstr(dn),
            t.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")
        );
        first = false;
    }
    s.push_str("\n  ]\n },\n \"assumptions\": [");
    s.push_str(&plan.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "));
    let _ = write!(
        s,
        "],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        o.err.is_some() as u32
    );
    let _ = std::fs::create_dir_all(dir);
    let p = format!("{dir}/{}.json", plan.prop);
    std::fs::write(&p, s).unwrap_or_else(|e| panic!("cannot write {p}: {e}"));
}
fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…", &s[..k])
    }
}
