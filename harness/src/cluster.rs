//! Workload W3: several real instances talking to each other over a bad network (loss,
//! duplication, reordering, partitions, crashes, restarts, arbitrary calls), each of them
//! watched by the single-instance monitor of the property.
use crate::adv::{nz, show_step, world, CaseOut, MonSet, World};
use crate::core::*;
use crate::mon::Track;
use crate::sim::{Cause, Happened, Lat, Sim};
use foca::{Config, Member, State};
use rand::{rngs::SmallRng, Rng, SeedableRng};
use std::num::NonZeroU8;
use std::time::Duration;

struct Watch {
    tr: Track,
    set: MonSet,
    setup: Setup,
}

fn setup(w: &World, n: usize, gen: u16, seed: u64) -> Setup {
    let kind = w.kinds[n % w.kinds.len()];
    Setup { id: Nid::new(n as u16, gen, kind), cfg: w.cfg.clone(), seed, codec: w.codec, handler: w.hcfg }
}
fn watch(prop: &str, s: &Setup) -> Watch {
    Watch { tr: Track::new(s.codec), set: MonSet::new(prop, s, true, false), setup: s.clone() }
}

fn item(r: &mut SmallRng, w: &World, nonce: &mut u32) -> Vec<u8> {
    *nonce += 1;
    let n = if r.random_range(0..4) > 0 { r.random_range(1..20) } else { r.random_range(1..=w.item_max) };
    let mut v = vec![0u8; n];
    v[0] = *[0u8, 1, 2, 3, 0xEE, 0xDD, 7].get(r.random_range(0..7)).unwrap();
    if n > 1 {
        v[1] = r.random_range(0..6);
    }
    for (i, b) in nonce.to_be_bytes().iter().enumerate() {
        if 2 + i < n {
            v[2 + i] = *b;
        }
    }
    v
}

fn other_cfg(r: &mut SmallRng, c: &Config, hmax: usize, packets: bool) -> Config {
    let mut c = c.clone();
    match r.random_range(0..8) {
        0 => c.num_indirect_probes = nz(r.random_range(1..5)),
        1 => c.max_transmissions = NonZeroU8::new(r.random_range(1..12)).unwrap(),
        2 => c.suspect_to_down_after = Duration::from_millis(r.random_range(1..6000)),
        3 => c.remove_down_after = Duration::from_millis(r.random_range(100..60_000)),
        4 => c.notify_down_members = !c.notify_down_members,
        5 => c.periodic_gossip = None,
        6 => c.periodic_announce = None,
        _ if packets => c.max_packet_size = nz(hmax + r.random_range(0..300)),
        _ => {}
    }
    c
}

pub fn case(prop: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    crate::core::allow_wild(false);
    let mut out = CaseOut::new(seed);
    let mut w = world(prop, seed ^ 0xc1_57e5);
    let mut rng = SmallRng::seed_from_u64(seed);
    let r = &mut rng;
    if w.item_max > 3000 {
        w.item_max = 3000;
    }
    if w.hcfg.accept == 0 {
        // a handler that accepts an item however often it comes never lets it die
        w.hcfg.accept = 1;
    }
    w.cfg.max_packet_size = nz(w.cfg.max_packet_size.get().max(w.hmax).min(70_000));
    let n = *[2usize, 2, 3, 3, 4, 5, 7].get(r.random_range(0..7)).unwrap();
    let period = w.cfg.probe_period.as_micros() as u64;
    let rtt = w.cfg.probe_rtt.as_micros() as u64;
    let lat = match r.random_range(0..6) {
        0 => Lat::Const(1),
        1 => Lat::Uniform(1, rtt / 4 + 1),
        2 => Lat::Uniform(1, rtt + 1),
        3 => Lat::Uniform(1, period),
        4 => Lat::Link(1, period + rtt),
        _ => Lat::Bimodal(period * 3),
    };
    let setups: Vec<Setup> =
        (0..n).map(|i| setup(&w, i, r.random_range(0..=w.gens), hash2(seed, i as u64 + 1))).collect();
    if trace {
        out.trace.push(format!("n={n} lat={lat:?} world {w:?}"));
    }
    let mut ws: Vec<Watch> = setups.iter().map(|s| watch(prop, s)).collect();
    let mut sim = match Sim::new(setups, lat, seed ^ 9, false, true) {
        Ok(s) => s,
        Err(crate::core::Panic(m)) => {
            out.err = Some(m);
            return out;
        }
    };
    let mut lines: Vec<String> = vec![];
    let mut sig = 0xcbf29ce484222325u64;
    let steps = *[60u64, 200, 400, 800].get(r.random_range(0..4)).unwrap();
    let chaos = *[0u32, 2, 8, 25].get(r.random_range(0..4)).unwrap();
    let mut nonce = 0u32;
    let mut silences = 0u32;
    let mut queue: Vec<(usize, Op)> = vec![];
    // bring everybody together
    if r.random_bool(0.5) {
        for i in 1..n {
            queue.push((i, Op::Announce(sim.id(r.random_range(0..i)).clone())));
        }
        queue.reverse();
    } else {
        let all: Vec<M> = (0..n).map(|i| Member::alive(sim.id(i).clone())).collect();
        for i in 0..n {
            let v = all.iter().filter(|m| m.id().addr as usize != i).cloned().collect();
            queue.push((i, Op::Apply(v, r.random_bool(0.3))));
        }
    }
    let res = (|| -> Result<(), String> {
        while sim.events < steps {
            set_phase(hash2(seed, sim.events / 20));
            // the world
            if r.random_range(0..1000) < chaos {
                match r.random_range(0..5) {
                    0 => sim.faults.loss = *[0.0, 0.0, 0.05, 0.3, 0.7].get(r.random_range(0..5)).unwrap(),
                    1 => sim.faults.dup = *[0.0, 0.05, 0.3].get(r.random_range(0..3)).unwrap(),
                    2 => {
                        sim.faults.partitioned = !sim.faults.partitioned;
                        for nd in &mut sim.nodes {
                            nd.side = r.random_range(0..2);
                        }
                        out.c.hit("net_partition_flips");
                    }
                    3 => {
                        let x = r.random_range(0..n);
                        if sim.nodes[x].up {
                            sim.nodes[x].up = false;
                            out.c.hit("net_crashes");
                        }
                    }
                    _ => {
                        let x = r.random_range(0..n);
                        if !sim.nodes[x].up || r.random_range(0..4) == 0 {
                            // as itself, or as a later generation
                            let g = sim.id(x).gen.saturating_add(r.random_range(0..2));
                            let mut s = setup(&w, x, g, hash2(seed ^ 0xbeef, sim.events));
                            if r.random_bool(0.3) {
                                s.cfg.num_indirect_probes = nz(r.random_range(1..5));
                            }
                            sim.restart(x, &s).map_err(|Panic(m)| m)?;
                            ws[x] = watch(prop, &s);
                            out.c.hit("net_restarts");
                            let y = r.random_range(0..n);
                            if y != x {
                                queue.push((x, Op::Announce(sim.id(y).clone())));
                            }
                        }
                    }
                }
            }
            // the user
            let x = r.random_range(0..n);
            let h: Happened = if let Some((x, op)) = queue.pop() {
                if !sim.nodes[x].up {
                    continue;
                }
                sim.call(x, op)?
            } else if sim.nodes[x].up && r.random_range(0..100) < 6 {
                let own = sim.id(x).clone();
                let y = r.random_range(0..n);
                let op = match r.random_range(0..24) {
                    0..=3 => Op::Gossip,
                    4..=6 => Op::Broadcast,
                    7..=11 => Op::AddBroadcast(item(r, &w, &mut nonce)),
                    12 | 13 => Op::Announce(sim.id(y).clone()),
                    14 => Op::Reuse,
                    15 if r.random_range(0..4) == 0 => Op::Leave,
                    16 if w.w.change > 0 => {
                        let g = own.gen.saturating_add(r.random_range(0..3)).saturating_sub(1);
                        Op::ChangeId(own.regen(g))
                    }
                    17 => {
                        let c = (*sim.nodes[x].inst.cfg).clone();
                        Op::SetConfig(Box::new(other_cfg(r, &c, w.hmax, prop != "C13")))
                    }
                    18 | 19 => {
                        // gossip from elsewhere: somebody is suspected or said to be down
                        let id = sim.id(y).clone();
                        let inc = sim.nodes[y].inst.snap.inc.unwrap_or(0);
                        let inc = inc.saturating_add(r.random_range(0..2));
                        let st = if r.random_range(0..3) == 0 { State::Down } else { State::Suspect };
                        Op::Apply(vec![Member::new(id, inc, st)], r.random_bool(0.7))
                    }
                    20 => {
                        // push/pull style exchange of whole states
                        let v: Vec<M> = sim.recs(y).cloned().collect();
                        Op::Apply(v, r.random_bool(0.3))
                    }
                    _ => Op::Gossip,
                };
                sim.call(x, op)?
            } else {
                match sim.next(Duration::from_secs(1 << 30))? {
                    Some(h) => h,
                    None => {
                        // silence: somebody says hello
                        silences += 1;
                        if silences > 12 {
                            break;
                        }
                        let down: Vec<usize> = (0..n).filter(|&i| !sim.nodes[i].up).collect();
                        let live = sim.live();
                        if live.is_empty() || !down.is_empty() && r.random_range(0..2) == 0 {
                            let x = down[r.random_range(0..down.len())];
                            let s = setup(&w, x, sim.id(x).gen, hash2(seed ^ 0xbeef, sim.events));
                            sim.restart(x, &s).map_err(|Panic(m)| m)?;
                            ws[x] = watch(prop, &s);
                            out.c.hit("net_restarts");
                            continue;
                        }
                        let x = live[r.random_range(0..live.len())];
                        let y = r.random_range(0..n);
                        if y == x {
                            out.c.hit("net_silence");
                            sim.call(x, Op::Gossip)?
                        } else {
                            sim.call(x, Op::Announce(sim.id(y).clone()))?
                        }
                    }
                }
            };
            let x = h.node;
            out.steps += 1;
            let wt = &mut ws[x];
            let (fired, genuine) = match &h.cause {
                Cause::Timer { seq } => (wt.tr.issue.get(seq).copied(), true),
                _ => (None, false),
            };
            for e in &h.step.evs {
                fnv(&mut sig, match e {
                    Ev::Send { to, data } => hash2(to.addr as u64, hash_of(&data[..])),
                    Ev::Timer { .. } => 77,
                    Ev::Note(n) => hash_of(&format!("{n:?}")),
                    Ev::Recv { data, .. } => data.len() as u64,
                });
            }
            let o = wt.tr.observe(&h.step, h.seq0, fired, genuine, wt.setup.handler);
            if trace {
                lines.push(format!(
                    "[{:?}] node {x} {}",
                    sim.now,
                    show_step(sim.events as usize, &h.step, o.st_post, w.codec)
                ));
            }
            let issue = &wt.tr.issue;
            let sref = &sim;
            wt.set
                .step(&o, &h.step, &mut out.c, || {
                    sref.timers_of(x)
                        .into_iter()
                        .map(|(t, q)| (t, issue.get(&q).copied().unwrap_or(u64::MAX)))
                        .collect()
                })
                .map_err(|e| format!("node {x}, event {}: {e}", sim.events))?;
        }
        Ok(())
    })();
    out.c.hit("net_cases");
    out.c.add("net_datagrams", sim.sent);
    out.trace.extend(lines);
    out.sig = sig;
    if let Err(e) = res {
        out.err = Some(e);
    }
    out
}
