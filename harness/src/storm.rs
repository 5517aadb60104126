//! C18: instances in arbitrary mutual states; timers held; one datagram; wait for silence.
use crate::adv::{ms, nz, show_step, CaseOut};
use crate::core::*;
use crate::mon::St;
use crate::wire::*;
use foca::{Config, Header, Member, Message, PeriodicParams, State};
use rand::{rngs::SmallRng, Rng, SeedableRng};
use std::collections::HashMap;
use std::num::NonZeroU8;

/// a cascade among at most MAX_N instances has to be over by then
const CAP: usize = 4000;

struct Net {
    inst: Vec<Inst>,
    timers: Vec<Vec<T>>,
    /// (to address, datagram)
    fly: Vec<(u16, Vec<u8>)>,
    codec: AnyCodec,
    trace: bool,
}
impl Net {
    fn exec(&mut self, i: usize, op: Op, out: &mut CaseOut) -> Result<Step, String> {
        let s = self.inst[i].exec(op).map_err(|Panic(m)| format!("node {i}: {m}"))?;
        out.steps += 1;
        if self.trace && out.trace.len() < 3000 {
            out.trace.push(format!("node {i} {}", show_step(out.steps as usize, &s, St::Idle, self.codec)));
        }
        for p in std::mem::take(&mut self.inst[i].timers) {
            self.timers[i].push(p.t);
        }
        for (to, d) in s.sends() {
            self.fly.push((to.addr, d.clone()));
        }
        Ok(s)
    }
}

pub fn c18(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let r = &mut r;
    let n = *[2usize, 2, 2, 3, 3, 4, 5, 6].get(r.random_range(0..8)).unwrap();
    let codec = if r.random_range(0..6) == 0 { CODECS[r.random_range(0..4)] } else { AnyCodec::Hand };
    let notify_all = r.random_bool(0.7);
    let res = (|| -> Result<(), String> {
        let mut net = Net { inst: vec![], timers: vec![vec![]; n], fly: vec![], codec, trace };
        for i in 0..n {
            let kind = *[RENEW_NONE, RENEW_NONE, RENEW_BUMP, RENEW_BUMP, RENEW_SAME, RENEW_LOSE]
                .get(r.random_range(0..6))
                .unwrap();
            let pp = |r: &mut SmallRng| {
                r.random_bool(0.3).then(|| PeriodicParams { frequency: ms(500), num_members: nz(r.random_range(1..4)) })
            };
            let mut inst = Inst::new(&Setup {
                id: Nid::new(i as u16, r.random_range(0..3), kind),
                cfg: Config {
                    probe_period: ms(1000),
                    probe_rtt: ms(300),
                    num_indirect_probes: nz(r.random_range(1..5)),
                    max_transmissions: NonZeroU8::new(r.random_range(1..12)).unwrap(),
                    suspect_to_down_after: ms(3000),
                    remove_down_after: ms(60_000),
                    max_packet_size: nz(if r.random_bool(0.8) { 1400 } else { 90 }),
                    notify_down_members: notify_all || r.random_bool(0.5),
                    periodic_announce: pp(r),
                    periodic_announce_to_down_members: pp(r),
                    periodic_gossip: pp(r),
                },
                seed: r.random(),
                codec,
                handler: HandlerCfg { key_mode: r.random_range(0..6), accept: r.random_range(0..5), pred: 0 },
            });
            inst.watch_inc = false;
            inst.start().map_err(|Panic(m)| m)?;
            net.inst.push(inst);
        }
        let who = |net: &Net, i: usize| net.inst[i].snap.id.clone();
        let some_id = |net: &Net, r: &mut SmallRng| -> Nid {
            let id = net.inst[r.random_range(0..n)].snap.id.clone();
            match r.random_range(0..10) {
                0 => id.regen(id.gen.saturating_add(1)),
                1 => id.regen(id.gen.saturating_sub(1)),
                2 => Nid::new(50 + r.random_range(0..3), 0, 0),
                _ => id,
            }
        };
        // ---- arbitrary mutual states
        let steps = r.random_range(2..40);
        for _ in 0..steps {
            let i = r.random_range(0..n);
            let op = match r.random_range(0..16) {
                0..=4 => {
                    let k = r.random_range(1..4);
                    let v: Vec<M> = (0..k)
                        .map(|_| {
                            let id = some_id(&net, r);
                            let st = [State::Alive, State::Alive, State::Suspect, State::Down, State::Down][r.random_range(0..5)];
                            let inc = *[0u16, 0, 1, 2, MAXINC].get(r.random_range(0..5)).unwrap();
                            Member::new(id, inc, st)
                        })
                        .collect();
                    Op::Apply(v, r.random_bool(0.6))
                }
                5 => Op::Announce(some_id(&net, r)),
                6 => Op::Gossip,
                7 if r.random_bool(0.3) => Op::Leave,
                8 if r.random_bool(0.3) => {
                    let id = who(&net, i);
                    Op::ChangeId(id.regen(id.gen.saturating_add(1)))
                }
                9 => Op::Reuse,
                10 => Op::AddBroadcast((0..r.random_range(1..9)).map(|_| r.random()).collect()),
                11..=13 if !net.timers[i].is_empty() => {
                    let k = r.random_range(0..net.timers[i].len());
                    Op::Timer(net.timers[i].swap_remove(k))
                }
                _ => {
                    if net.fly.is_empty() {
                        continue;
                    }
                    let k = r.random_range(0..net.fly.len());
                    let (to, d) = net.fly.swap_remove(k);
                    if (to as usize) < n {
                        net.exec(to as usize, Op::Data(d), &mut out)?;
                    }
                    continue;
                }
            };
            net.exec(i, op, &mut out)?;
            if net.fly.len() > 200 {
                net.fly.truncate(100);
            }
        }
        // ---- one datagram
        let shots = r.random_range(1..5);
        for _ in 0..shots {
            let mut first: Option<(u16, Vec<u8>)> = None;
            match r.random_range(0..4) {
                0 if !net.fly.is_empty() => {
                    let k = r.random_range(0..net.fly.len());
                    first = Some(net.fly.swap_remove(k));
                }
                1 => {
                    // something an instance really sends
                    net.fly.clear();
                    let i = r.random_range(0..n);
                    let op = match r.random_range(0..5) {
                        0 => Op::Gossip,
                        1 => Op::Broadcast,
                        2 => Op::Announce(some_id(&net, r)),
                        _ => {
                            if net.timers[i].is_empty() {
                                Op::Gossip
                            } else {
                                let k = r.random_range(0..net.timers[i].len());
                                Op::Timer(net.timers[i].swap_remove(k))
                            }
                        }
                    };
                    net.exec(i, op, &mut out)?;
                    if !net.fly.is_empty() {
                        let k = r.random_range(0..net.fly.len());
                        first = Some(net.fly.swap_remove(k));
                    }
                }
                _ => {}
            }
            net.fly.clear();
            let (to, d) = match first {
                Some(x) => x,
                None => {
                    // from one of them to another, any kind
                    let a = r.random_range(0..n);
                    let b = (a + 1 + r.random_range(0..n - 1)) % n;
                    let src = if r.random_bool(0.8) { who(&net, a) } else { who(&net, a).regen(who(&net, a).gen.saturating_sub(1)) };
                    let dst = who(&net, b);
                    let third = some_id(&net, r);
                    let pn = r.random_range(0..3);
                    let m = match r.random_range(0..12) {
                        0 => Message::Ping(pn),
                        1 => Message::Ack(pn),
                        2 => Message::PingReq { target: third, probe_number: pn },
                        3 => Message::IndirectPing { origin: third, probe_number: pn },
                        4 => Message::IndirectAck { target: third, probe_number: pn },
                        5 => Message::ForwardedAck { origin: third, probe_number: pn },
                        6 => Message::Announce,
                        7 => Message::Feed,
                        8 => Message::Gossip,
                        9 => Message::Broadcast,
                        _ => Message::TurnUndead,
                    };
                    let mut ms: Vec<M> = vec![];
                    for _ in 0..r.random_range(0..4) {
                        let id = some_id(&net, r);
                        let st = [State::Alive, State::Suspect, State::Suspect, State::Down][r.random_range(0..4)];
                        ms.push(Member::new(id, r.random_range(0..4), st));
                    }
                    let h = Header { src, src_incarnation: r.random_range(0..3), dst, message: m.clone() };
                    (b as u16, build(codec, &h, piggybacks(&m).then_some(&ms[..]), &[]))
                }
            };
            if to as usize >= n {
                continue;
            }
            net.fly.push((to, d));
            let (mut delivered, mut depth) = (0usize, 0usize);
            let mut kinds: HashMap<&'static str, usize> = HashMap::new();
            let fifo = r.random_bool(0.5);
            while !net.fly.is_empty() {
                let k = if fifo { 0 } else { r.random_range(0..net.fly.len()) };
                let (to, d) = net.fly.remove(k);
                if to as usize >= n {
                    continue;
                }
                delivered += 1;
                depth += 1;
                let (mut own_upd, mut kind) = (0, "?");
                let me = who(&net, to as usize);
                if let In::Ok { h, members, .. } = classify(codec, &d, usize::MAX, &me) {
                    kind = kind_name(&h.message);
                    own_upd = members.iter().filter(|m| m.id().addr == me.addr).count();
                }
                *kinds.entry(kind).or_insert(0) += 1;
                let s = net.exec(to as usize, Op::Data(d), &mut out)?;
                let sent = s.sends().count();
                fnv(&mut out.sig, hash2(sent as u64 + 10 * to as u64, hash_of(kind)));
                let k = net.inst[to as usize].cfg.num_indirect_probes.get();
                // at most one gossip round per thing it learned about itself, and one reply
                let bound = (1 + own_upd) * k.max(1) + 2;
                if sent > bound {
                    return Err(format!("node {to} answered a single {kind} with {sent} datagrams (num_indirect_probes {k})"));
                }
                out.c.max("max_replies_to_one_datagram", sent as u64);
                if delivered > CAP {
                    return Err(format!(
                        "after {CAP} deliveries with every timer held the exchange still goes on ({} in flight): {kinds:?}",
                        net.fly.len()
                    ));
                }
            }
            out.c.hit("cascades");
            if depth > 1 {
                out.c.hit("cascades_with_replies");
            }
            if kinds.get("TurnUndead").copied().unwrap_or(0) > 1 {
                out.c.hit("cascades_with_several_TurnUndead");
            }
            out.c.add("datagrams_delivered", delivered as u64);
            out.c.max("max_cascade", delivered as u64);
            // states worth having seen
            for i in 0..n {
                for j in 0..i {
                    let d = |a: usize, b: usize| {
                        let id = who(&net, b);
                        net.inst[a].snap.recs.iter().any(|m| m.id() == &id && m.state() == State::Down)
                    };
                    if d(i, j) && d(j, i) {
                        out.c.hit("pairs_considering_each_other_down");
                    }
                }
            }
        }
        Ok(())
    })();
    out.err = res.err();
    out
}
