//! C17: the same history on several instances, with rejected input inserted into some of them.
use crate::adv::*;
use crate::core::*;
use crate::wire::*;
use foca::{Codec, Config, Header, Member, Message, PeriodicParams, State, Timer};
use rand::{rngs::SmallRng, Rng, SeedableRng};

struct Rej {
    what: &'static str,
    op: Op,
    want: Option<EK>,
}

fn oversize(r: &mut SmallRng, codec: AnyCodec, me: &Nid, peer: &Nid, max: usize) -> Vec<u8> {
    // entirely valid but for its size
    let h = Header {
        src: peer.clone(),
        src_incarnation: r.random_range(0..4),
        dst: me.clone(),
        message: if r.random_bool(0.5) { Message::Broadcast } else { Message::Gossip },
    };
    let upd = [Member::new(peer.regen(peer.gen.saturating_add(1)), 3, State::Alive), Member::new(me.clone(), 65_000, State::Suspect)];
    let ms = (h.message == Message::Gossip).then_some(&upd[..]);
    let mut d = build(codec, &h, ms, &[]);
    let over = max + if r.random_bool(0.5) { 1 } else { r.random_range(1..40) };
    while d.len() < over {
        let k = (over - d.len()).max(3);
        let k = k.min(3000);
        d.extend_from_slice(&((k - 2) as u16).to_be_bytes());
        d.extend(std::iter::repeat_n(7u8, k - 2));
    }
    d
}

fn rejected(adv_r: &mut SmallRng, s: &Snap, cfg: &Config, codec: AnyCodec, undead: bool, stale: &[T], peer: Nid, upd: Vec<M>) -> Option<Rej> {
    let r = adv_r;
    let me = s.id.clone();
    let max = cfg.max_packet_size.get();
    let msg = |r: &mut SmallRng, third: &Nid| -> Msg {
        let n = r.random();
        match r.random_range(0..11) {
            0 => Message::Ping(n),
            1 => Message::Ack(n),
            2 => Message::PingReq { target: third.clone(), probe_number: n },
            3 => Message::IndirectPing { origin: third.clone(), probe_number: n },
            4 => Message::IndirectAck { target: third.clone(), probe_number: n },
            5 => Message::ForwardedAck { origin: third.clone(), probe_number: n },
            6 => Message::Announce,
            7 => Message::Feed,
            8 => Message::Gossip,
            9 => Message::Broadcast,
            _ => Message::TurnUndead,
        }
    };
    let inc = r.random_range(0..5);
    let bare = |m: &Msg| !piggybacks(m);
    let d = |v: Vec<u8>| if v.len() <= max { Some(Op::Data(v)) } else { None };
    Some(match r.random_range(0..13) {
        0 => Rej { what: "oversized", op: Op::Data(oversize(r, codec, &me, &peer, max)), want: Some(EK::DataTooBig) },
        1 => {
            // truncated header
            let m = msg(r, &peer);
            let h = Header { src: peer.clone(), src_incarnation: inc, dst: me, message: m };
            let mut v = codec.header_bytes(&h);
            let k = r.random_range(0..v.len());
            v.truncate(k);
            let mut c = codec;
            if c.decode_header(&mut &v[..]).is_ok() {
                return None;
            }
            Rej { what: "truncated_header", op: d(v)?, want: None }
        }
        2 => {
            let v: Vec<u8> = (0..r.random_range(0..60)).map(|_| r.random()).collect();
            let mut c = codec;
            if c.decode_header(&mut &v[..]).is_ok() {
                return None;
            }
            Rej { what: "random_bytes", op: d(v)?, want: None }
        }
        3 | 4 => {
            // valid updates followed by one that does not decode
            let mut m = msg(r, &peer);
            if bare(&m) {
                m = Message::Gossip;
            }
            let h = Header { src: peer.clone(), src_incarnation: inc, dst: me.clone(), message: m };
            let mut v = build(codec, &h, Some(&upd), &[]);
            if r.random_bool(0.5) && !upd.is_empty() {
                let last = codec.member_bytes(upd.last().unwrap()).len();
                let cut = r.random_range(1..=last.min(v.len() - codec.header_bytes(&h).len() - 2));
                let k = v.len() - cut;
                v.truncate(k);
            } else {
                // the count says more than there is
                let p = codec.header_bytes(&h).len();
                let n = (upd.len() as u16).saturating_add(r.random_range(1..300));
                v[p..p + 2].copy_from_slice(&n.to_be_bytes());
            }
            if !matches!(classify(codec, &v, max, &me), In::BadMembers) {
                return None;
            }
            Rej { what: "undecodable_members", op: d(v)?, want: None }
        }
        5 => {
            let src = match r.random_range(0..3) {
                0 => me.clone(),
                1 => me.regen(me.gen.saturating_add(1)),
                _ => me.regen(me.gen.saturating_sub(1)),
            };
            let m = msg(r, &peer);
            let ms = (!bare(&m)).then_some(&upd[..]);
            let h = Header { src, src_incarnation: inc, dst: me, message: m };
            Rej { what: "from_ourselves", op: d(build(codec, &h, ms, &[]))?, want: Some(EK::DataFromOurselves) }
        }
        6 => {
            // one stray byte / an Announce with a payload
            let m = msg(r, &peer);
            let ann = m == Message::Announce;
            let h = Header { src: peer.clone(), src_incarnation: inc, dst: me.clone(), message: m };
            let mut v = codec.header_bytes(&h);
            for _ in 0..if ann { r.random_range(1..5) } else { 1 } {
                v.push(r.random());
            }
            if !matches!(classify(codec, &v, max, &me), In::Framing) {
                return None;
            }
            Rej { what: "bad_framing", op: d(v)?, want: Some(EK::Malformed) }
        }
        7 | 8 => {
            // somebody else's
            let m = msg(r, &peer);
            let dst = if r.random_bool(0.5) && m != Message::Announce {
                let g = if r.random_bool(0.5) { me.gen.saturating_add(1) } else { me.gen.saturating_sub(1) };
                me.regen(g)
            } else {
                Nid::new(me.addr + 1 + r.random_range(0..5), 0, me.kind)
            };
            if dst == me {
                return None;
            }
            let ms = (!bare(&m)).then_some(&upd[..]);
            let h = Header { src: peer.clone(), src_incarnation: inc, dst, message: m };
            Rej { what: "not_for_us", op: d(build(codec, &h, ms, &[]))?, want: None }
        }
        9 => {
            if stale.is_empty() {
                return None;
            }
            let t = stale[r.random_range(0..stale.len())].clone();
            Rej { what: "stale_timer", op: Op::Timer(t), want: None }
        }
        10 => {
            if !undead && r.random_bool(0.5) {
                Rej { what: "reuse_not_undead", op: Op::Reuse, want: Some(EK::NotUndead) }
            } else {
                Rej { what: "same_identity", op: Op::ChangeId(me), want: Some(EK::SameIdentity) }
            }
        }
        11 => {
            // refused as a whole, whatever else it changes
            let mut c = cfg.clone();
            c.max_transmissions = std::num::NonZeroU8::new(r.random_range(1..20)).unwrap();
            c.num_indirect_probes = nz(r.random_range(1..9));
            c.notify_down_members = !c.notify_down_members;
            c.suspect_to_down_after = ms(r.random_range(1..9999));
            c.remove_down_after = ms(r.random_range(1..9999));
            c.max_packet_size = nz(r.random_range(100..2000));
            let pp = Some(PeriodicParams { frequency: ms(r.random_range(50..500)), num_members: nz(2) });
            let mut which = r.random_range(0..5);
            if which == 2 && c.periodic_announce.is_some()
                || which == 3 && c.periodic_gossip.is_some()
                || which == 4 && c.periodic_announce_to_down_members.is_some()
            {
                which = 0;
            }
            match which {
                0 => c.probe_period += ms(1),
                1 => c.probe_rtt += ms(1),
                2 => c.periodic_announce = pp,
                3 => c.periodic_gossip = pp,
                _ => c.periodic_announce_to_down_members = pp,
            }
            Rej { what: "invalid_config", op: Op::SetConfig(Box::new(c)), want: Some(EK::InvalidConfig) }
        }
        _ => {
            if r.random_bool(0.3) {
                Rej { what: "empty_item", op: Op::AddBroadcast(vec![]), want: Some(EK::Malformed) }
            } else {
                let n = max.max(1) + r.random_range(1..50);
                let n = if r.random_bool(0.1) { n.max(65_536) } else { n };
                Rej { what: "huge_item", op: Op::AddBroadcast(vec![3; n]), want: Some(EK::DataTooBig) }
            }
        }
    })
}

fn same(a: &Snap, b: &Snap) -> bool {
    a.id == b.id && a.recs == b.recs && a.active == b.active && a.num == b.num && a.upd == b.upd && a.cust == b.cust
}

pub fn c17(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let w = world("C17", seed);
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed ^ 0x7777);
    let res = (|| -> Result<(), String> {
        let p2 = |Panic(m): Panic| m;
        let mut adv = Adv::new(w.clone()).map_err(p2)?;
        let own = adv.own();
        let setup = Setup { id: own, cfg: w.cfg.clone(), seed: w.seed ^ 0xabcdef, codec: w.codec, handler: w.hcfg };
        let mut twin = Inst::new(&setup);
        let mut pure = Inst::new(&setup);
        twin.watch_inc = true;
        pure.watch_inc = true;
        twin.start().map_err(p2)?;
        pure.start().map_err(p2)?;
        let ins_pct = *[3u32, 20, 60].get(r.random_range(0..3)).unwrap();
        for i in 0..w.steps {
            // insertions, as the twin's current state suggests
            let mut k = 0;
            while r.random_range(0..100) < ins_pct && k < 5 {
                k += 1;
                let cur = adv.tr.epoch;
                let stale: Vec<T> = adv
                    .fired
                    .iter()
                    .map(|(t, e)| (t.clone(), *e))
                    .chain(adv.inst.timers.iter().filter_map(|p| {
                        adv.tr.issue.get(&p.seq).map(|e| (p.t.clone(), *e))
                    }))
                    .filter(|(t, e)| *e < cur && cur - *e < 200 && !matches!(t, Timer::RemoveDown(_)))
                    .map(|x| x.0)
                    .collect();
                let peer = {
                    let a = r.random_range(1..=w.naddr.max(1));
                    match twin.snap.rec(a) {
                        Some(m) if r.random_bool(0.7) => m.id().clone(),
                        _ => Nid::new(a, r.random_range(0..4), w.kinds[a as usize % w.kinds.len()]),
                    }
                };
                let mut upd = vec![];
                for _ in 0..r.random_range(0..4) {
                    let id = if r.random_bool(0.3) {
                        twin.snap.id.clone()
                    } else {
                        let a = r.random_range(1..=w.naddr.max(1));
                        Nid::new(a, r.random_range(0..4), w.kinds[a as usize % w.kinds.len()])
                    };
                    let st = [State::Alive, State::Suspect, State::Down][r.random_range(0..3)];
                    upd.push(Member::new(id, r.random_range(0..6), st));
                }
                if peer.addr == twin.snap.id.addr {
                    continue;
                }
                let Some(rj) = rejected(&mut r, &twin.snap, &twin.cfg, w.codec, adv.tr.st == crate::mon::St::Defunct, &stale, peer, upd) else {
                    continue;
                };
                let before = twin.snap.clone();
                let seq = twin.seq;
                twin.watch_inc = false;
                let s = twin.exec(rj.op.clone()).map_err(p2)?;
                twin.watch_inc = true;
                out.steps += 1;
                out.c.hit("rejected_inserted");
                out.c.hit(rj.what);
                if trace {
                    out.trace.push(format!("INSERT {} before #{i}: {:?} => {:?}", rj.what, rj.op, s.res));
                }
                if !s.evs.is_empty() || twin.seq != seq {
                    return Err(format!("rejected input ({}) had effects: {:?}", rj.what, s.evs));
                }
                if let Some(e) = rj.want {
                    if s.res != Err(e.clone()) {
                        return Err(format!("{} gave {:?} instead of {e:?}", rj.what, s.res));
                    }
                }
                if !same(&before, &s.post) {
                    return Err(format!("rejected input ({}) changed the instance: {before:?} -> {:?}", rj.what, s.post));
                }
            }
            let p = adv.plan();
            let (fired, genuine) = (p.fired, p.genuine);
            let op = p.op.clone();
            let (s, seq0) = adv.step(p).map_err(p2)?;
            let t = twin.exec(op.clone()).map_err(p2)?;
            let q = pure.exec(op).map_err(p2)?;
            twin.timers.clear();
            pure.timers.clear();
            out.steps += 1;
            fnv(&mut out.sig, s.evs.len() as u64 * 31 + s.res.is_ok() as u64 + hash2(s.post.upd as u64, s.post.num as u64));
            let o = adv.tr.observe(&s, seq0, fired, genuine, w.hcfg);
            if trace {
                out.trace.push(show_step(i, &s, o.st_post, w.codec));
            }
            for (name, x) in [("the same history", &q), ("the history with rejected input inserted", &t)] {
                if x.res != s.res {
                    return Err(format!("step {i}: {name} gives {:?}, the original {:?}", x.res, s.res));
                }
                if x.evs != s.evs {
                    return Err(format!("step {i}: {name} has effects {:?}, the original {:?}", x.evs, s.evs));
                }
                if !same(&x.post, &s.post) || x.post.inc != s.post.inc {
                    return Err(format!("step {i}: {name} leads to {:?}, the original to {:?}", x.post, s.post));
                }
            }
            out.c.hit("steps_compared");
            out.c.add("effects_compared", s.evs.len() as u64);
            adv.learn(&o);
        }
        Ok(())
    })();
    out.err = res.err();
    out
}

/// one history, as a digest per step
fn digests(seed: u64, out: Option<&mut CaseOut>) -> Result<Vec<u64>, String> {
    let w = world("C17", seed);
    let mut v = vec![];
    let mut effects = 0;
    let mut text = vec![];
    let want_text = out.is_some();
    let res = (|| -> Result<(), Panic> {
        let mut adv = Adv::new(w.clone())?;
        for i in 0..w.steps {
            let p = adv.plan();
            let (fired, genuine) = (p.fired, p.genuine);
            let (s, seq0) = adv.step(p)?;
            let q = &s.post;
            v.push(hash_of(&format!("{:?} {:?} {:?} {:?} {:?} {} {} {}", s.res, s.evs, q.id, q.recs, q.active, q.num, q.upd, q.cust)));
            effects += s.evs.len() as u64;
            let o = adv.tr.observe(&s, seq0, fired, genuine, w.hcfg);
            if want_text {
                text.push(show_step(i, &s, o.st_post, w.codec));
            }
            adv.learn(&o);
        }
        Ok(())
    })();
    if let Some(out) = out {
        out.steps += v.len() as u64;
        out.c.add("effects_compared_across_processes", effects);
        out.trace = text;
        for x in &v {
            fnv(&mut out.sig, *x);
        }
    }
    res.map_err(|Panic(m)| m).map(|_| v)
}

/// the other side of `process`
pub fn digest_main(seed: u64) -> i32 {
    match digests(seed, None) {
        Ok(v) => {
            println!("{}", v.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
            0
        }
        Err(e) => {
            println!("{e}");
            3
        }
    }
}

/// Effects depend on nothing but the calls and the seed: not on what else the
/// process has done, when it was started or where its memory is.
pub fn process(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let res = (|| -> Result<(), String> {
        // other instances live in this process before
        for k in 0..if trace { 60 } else { 2 } {
            digests(hash2(seed, k), None)?;
        }
        let here = digests(seed, Some(&mut out))?;
        let exe = std::env::current_exe().map_err(|e| e.to_string());
        let child = exe.and_then(|e| {
            std::process::Command::new(e)
                .args(["digest", &seed.to_string()])
                .env("FMON_NOISE", seed.to_string().repeat(1 + (seed % 40) as usize))
                .output()
                .map_err(|e| e.to_string())
        });
        let txt = match child {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).to_string(),
            Ok(o) if o.status.code() == Some(3) => {
                return Err(format!("fails in a process of its own only: {}", String::from_utf8_lossy(&o.stdout)))
            }
            // nothing to compare with
            _ => {
                out.c.hit("process_not_started");
                return Ok(());
            }
        };
        let there: Vec<u64> = txt.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
        if let Some(i) = (0..here.len().max(there.len())).find(|i| here.get(*i) != there.get(*i)) {
            out.trace.truncate(i + 1);
            return Err(format!("step {i}: in a process of its own the same history has other effects"));
        }
        out.c.hit("compared_with_another_process");
        Ok(())
    })();
    if !trace {
        out.trace.clear();
    }
    out.err = res.err();
    out
}
