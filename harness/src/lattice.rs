//! C01: orders, multiplicities, own state re-applied, exchanges.
use crate::adv::{ms, nz, show_step, CaseOut};
use crate::core::*;
use crate::mon::St;
use crate::refm::*;
use crate::wire::build;
use foca::{Config, Header, Member, Message, State, Timer};
use rand::{rngs::SmallRng, Rng, SeedableRng};
use std::collections::BTreeMap;
use std::num::NonZeroU8;

fn cfg(r: &mut SmallRng) -> Config {
    Config {
        probe_period: ms(1000),
        probe_rtt: ms(300),
        num_indirect_probes: nz(r.random_range(1..4)),
        max_transmissions: NonZeroU8::new(r.random_range(1..12)).unwrap(),
        suspect_to_down_after: ms(2000),
        remove_down_after: ms(20_000),
        max_packet_size: nz(1400),
        notify_down_members: r.random_bool(0.5),
        periodic_announce: None,
        periodic_announce_to_down_members: None,
        periodic_gossip: None,
    }
}
fn inst(r: &mut SmallRng, addr: u16, codec: AnyCodec) -> Result<Inst, String> {
    let mut i = Inst::new(&Setup {
        id: Nid::new(addr, 1, r.random_range(0..4)),
        cfg: cfg(r),
        seed: r.random(),
        codec,
        handler: HandlerCfg { key_mode: 0, accept: 0, pred: 0 },
    });
    i.start().map_err(|Panic(m)| m)?;
    Ok(i)
}
type View = BTreeMap<u16, (Nid, u8, u16)>;
/// what has to be the same: incarnations next to Down may differ
fn view<'a>(it: impl Iterator<Item = &'a M>, skip: &[u16]) -> View {
    it.filter(|m| !skip.contains(&m.id().addr))
        .map(|m| {
            let (s, i) = match m.state() {
                State::Alive => (0, m.incarnation()),
                State::Suspect => (1, m.incarnation()),
                State::Down => (2, 0),
            };
            (m.id().addr, (m.id().clone(), s, i))
        })
        .collect()
}
const INCS: [u16; 7] = [0, 1, 2, 3, 300, MAXINC - 1, MAXINC];
fn upd(r: &mut SmallRng, addrs: u16, lo: u16, kinds: &[u8]) -> M {
    let a = lo + r.random_range(0..addrs);
    let id = Nid::new(a, r.random_range(0..4), kinds[a as usize % kinds.len()]);
    let inc = if r.random_bool(0.7) { INCS[r.random_range(0..3)] } else { INCS[r.random_range(0..7)] };
    let st = [State::Alive, State::Alive, State::Suspect, State::Suspect, State::Down][r.random_range(0..5)];
    Member::new(id, inc, st)
}
fn exec(i: &mut Inst, op: Op, out: &mut CaseOut, trace: bool, who: &str) -> Result<Step, String> {
    let s = i.exec(op).map_err(|Panic(m)| m)?;
    out.steps += 1;
    if trace {
        out.trace.push(format!("{who} {}", show_step(out.steps as usize, &s, St::Idle, i.codec)));
    }
    Ok(s)
}

/// the same updates, delivered in many ways
pub fn orders(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let r = &mut r;
    let codec = if r.random_range(0..6) == 0 { CODECS[r.random_range(0..4)] } else { AnyCodec::Hand };
    let res = (|| -> Result<(), String> {
        let addrs = r.random_range(1..5);
        let kinds: Vec<u8> = (0..5).map(|_| r.random_range(0..4)).collect();
        let k = r.random_range(2..14);
        // address 0 is the instance's own: other generations of it are always Down
        let lo = if r.random_bool(0.2) { 0 } else { 1 };
        let ups: Vec<M> = (0..k).map(|_| upd(r, addrs, lo, &kinds)).collect();
        let mut want: Option<View> = None;
        let mut join = Map::new();
        let variants = r.random_range(3..7);
        // the courier is somebody nothing is said about
        let courier = Nid::new(900, 0, 0);
        let own_kind = kinds[0] & 3;
        for v in 0..variants {
            let mut i = {
                let mut s = Setup {
                    id: Nid::new(0, 9, own_kind),
                    cfg: cfg(r),
                    seed: r.random(),
                    codec,
                    handler: HandlerCfg { key_mode: 0, accept: 0, pred: 0 },
                };
                s.cfg.max_packet_size = nz(4000);
                let mut i = Inst::new(&s);
                i.start().map_err(|Panic(m)| m)?;
                i
            };
            let mut order: Vec<M> = ups.clone();
            if v > 0 {
                // duplicates, then shuffled
                for _ in 0..r.random_range(0..=k) {
                    order.push(ups[r.random_range(0..k)].clone());
                }
                for x in (1..order.len()).rev() {
                    order.swap(x, r.random_range(0..=x));
                }
            }
            if trace {
                out.trace.push(format!("variant {v}: {order:?}"));
            }
            let mut pos = 0;
            while pos < order.len() {
                let n = r.random_range(1..=order.len() - pos);
                let part = &order[pos..pos + n];
                pos += n;
                let direct = r.random_range(0..3);
                let one = &part[0];
                let op = if direct == 2 && n == 1 && one.state() == State::Alive && one.id().addr != 0 {
                    // it speaks for itself: an Alive update about the sender
                    let m = [Message::Gossip, Message::Ping(3), Message::Ack(1), Message::Announce]
                        [r.random_range(0..4)]
                    .clone();
                    let h = Header {
                        src: one.id().clone(),
                        src_incarnation: one.incarnation(),
                        dst: i.snap.id.clone(),
                        message: m,
                    };
                    out.c.hit("by_header");
                    Op::Data(build(codec, &h, None, &[]))
                } else if direct >= 1 {
                    let m = [Message::Gossip, Message::Feed, Message::Ping(3), Message::Ack(9)][r.random_range(0..4)].clone();
                    let h = Header { src: courier.clone(), src_incarnation: 0, dst: i.snap.id.clone(), message: m };
                    out.c.hit("by_datagram");
                    Op::Data(build(codec, &h, Some(part), &[]))
                } else {
                    out.c.hit("by_apply_many");
                    Op::Apply(part.to_vec(), r.random_bool(0.5))
                };
                let s = exec(&mut i, op, &mut out, trace, "node")?;
                if let Err(e) = s.res {
                    return Err(format!("refused: {e:?}"));
                }
                for u in part {
                    if v == 0 {
                        let u = if u.id().addr == 0 { Member::new(u.id().clone(), 0, State::Down) } else { u.clone() };
                        ref_apply(&mut join, &u);
                    }
                }
                // piggybacking must not matter
                if r.random_bool(0.2) {
                    exec(&mut i, Op::Gossip, &mut out, false, "node")?;
                }
            }
            let got = view(i.foca.iter_membership_state(), &[900]);
            let w = want.get_or_insert_with(|| view(join.values(), &[]));
            if got != *w {
                return Err(format!("variant {v}: {order:?} leads to {got:?}, another order to {w:?}"));
            }
            fnv(&mut out.sig, hash_of(&format!("{order:?}")));
            out.c.hit("orders_compared");
            // its own full state, re-applied
            reapply(&mut i, r, &mut out, trace)?;
        }
        Ok(())
    })();
    out.err = res.err();
    out
}

fn reapply(i: &mut Inst, r: &mut SmallRng, out: &mut CaseOut, trace: bool) -> Result<(), String> {
    // (a record that bears the identity it meanwhile renewed to is news about itself)
    let me = i.snap.id.clone();
    let own: Vec<M> = i.foca.iter_membership_state().filter(|m| m.id() != &me).cloned().collect();
    let pre = i.snap.clone();
    let mut twice = own.clone();
    if r.random_bool(0.5) {
        for x in (1..twice.len()).rev() {
            twice.swap(x, r.random_range(0..=x));
        }
        twice.extend(own.iter().cloned());
    }
    let b = r.random_bool(0.5);
    let s = exec(i, Op::Apply(twice, b), out, trace, "own state again:")?;
    if s.res != Ok(false) || !s.evs.is_empty() || s.post.recs != pre.recs || s.post.upd != pre.upd || s.post.num != pre.num {
        return Err(format!(
            "re-applying its own state changed something: {:?} {:?}, records {:?} -> {:?}, backlog {} -> {}",
            s.res, s.evs, pre.recs, s.post.recs, pre.upd, s.post.upd
        ));
    }
    out.c.hit("own_state_reapplied");
    Ok(())
}

/// two instances with histories of their own swap what they know
pub fn exchange(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let r = &mut r;
    let codec = AnyCodec::Hand;
    let res = (|| -> Result<(), String> {
        let addrs = r.random_range(2..7);
        let kinds: Vec<u8> = (0..7).map(|_| r.random_range(0..4)).collect();
        let mut v = [inst(r, 0, codec)?, inst(r, 1, codec)?];
        for (w, i) in v.iter_mut().enumerate() {
            let mut held: Vec<T> = vec![];
            for _ in 0..r.random_range(1..40) {
                let op = match r.random_range(0..10) {
                    0..=4 => Op::Apply((0..r.random_range(1..4)).map(|_| upd(r, addrs, 0, &kinds)).collect(), r.random_bool(0.5)),
                    5..=6 => {
                        let u = upd(r, addrs, 2, &kinds);
                        if u.id().addr == w as u16 {
                            continue;
                        }
                        let h = Header {
                            src: u.id().clone(),
                            src_incarnation: u.incarnation(),
                            dst: i.snap.id.clone(),
                            message: Message::Gossip,
                        };
                        let ms: Vec<M> = (0..r.random_range(0..3)).map(|_| upd(r, addrs, 0, &kinds)).collect();
                        Op::Data(build(codec, &h, Some(&ms), &[]))
                    }
                    _ => {
                        if held.is_empty() {
                            continue;
                        }
                        Op::Timer(held.swap_remove(r.random_range(0..held.len())))
                    }
                };
                exec(i, op, &mut out, trace, &format!("node {w}"))?;
                held.extend(std::mem::take(&mut i.timers).into_iter().map(|p| p.t));
                if matches!(held.last(), Some(Timer::RemoveDown(_))) && r.random_bool(0.5) {
                    held.pop();
                }
            }
        }
        for i in v.iter_mut() {
            reapply(i, r, &mut out, trace)?;
        }
        let [mut a, mut b] = v;
        let simultaneous = r.random_bool(0.5);
        let mut from_a: Vec<M> = a.snap.recs.clone();
        let mut from_b: Vec<M> = b.snap.recs.clone();
        for x in (1..from_b.len()).rev() {
            from_b.swap(x, r.random_range(0..=x));
        }
        let bc = r.random_bool(0.5);
        exec(&mut a, Op::Apply(from_b, bc), &mut out, trace, "node 0 learns node 1's state:")?;
        if !simultaneous {
            from_a = a.snap.recs.clone();
        }
        exec(&mut b, Op::Apply(from_a, bc), &mut out, trace, "node 1 learns node 0's state:")?;
        let (va, vb) = (view(a.snap.recs.iter(), &[0, 1]), view(b.snap.recs.iter(), &[0, 1]));
        if va != vb {
            return Err(format!("after the exchange they disagree: {va:?} vs {vb:?}"));
        }
        out.c.hit("exchanges");
        out.c.add("third_parties_agreed", va.len() as u64);
        fnv(&mut out.sig, hash_of(&format!("{va:?}")));
        Ok(())
    })();
    out.err = res.err();
    out
}

/// every pair record x update over a small domain
pub fn pairs(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let codec = AnyCodec::Hand;
    let mut r = SmallRng::seed_from_u64(seed);
    let states = [State::Alive, State::Suspect, State::Down];
    let res = (|| -> Result<(), String> {
        let mut dom = vec![];
        for g in 0..3 {
            for i in INCS {
                for s in states {
                    dom.push(Member::new(Nid::new(5, g, 0), i, s));
                }
            }
        }
        for x in &dom {
            for y in &dom {
                for chan in 0..2 {
                    let mut i = inst(&mut r, 0, codec)?;
                    i.exec(Op::Apply(vec![x.clone()], true)).map_err(|Panic(m)| m)?;
                    let op = if chan == 0 {
                        Op::Apply(vec![y.clone()], true)
                    } else {
                        let h = Header {
                            src: Nid::new(900, 0, 0),
                            src_incarnation: 0,
                            dst: i.snap.id.clone(),
                            message: Message::Gossip,
                        };
                        Op::Data(build(codec, &h, Some(&[y.clone()]), &[]))
                    };
                    i.exec(op).map_err(|Panic(m)| m)?;
                    let mut m = Map::new();
                    ref_apply(&mut m, x);
                    ref_apply(&mut m, y);
                    let (got, want) = (view(i.snap.recs.iter(), &[900]), view(m.values(), &[]));
                    if got != want {
                        return Err(format!("{x:?} then {y:?} gives {got:?}, precedence order says {want:?}"));
                    }
                    out.c.hit("pairs");
                    out.steps += 2;
                }
            }
        }
        if trace {
            out.trace.push(format!("all {} pairs agree with the precedence order", out.c.get("pairs")));
        }
        Ok(())
    })();
    out.err = res.err();
    out
}
