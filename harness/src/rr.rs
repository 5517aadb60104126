//! C14: many probe rounds over a stable membership, from every kind of history.
use crate::adv::{ms, nz, show_step, CaseOut};
use crate::core::*;
use crate::mon::*;
use crate::wire::build;
use foca::{Config, Header, Member, Message, State, Timer};
use rand::{rngs::SmallRng, Rng, SeedableRng};
use std::num::NonZeroU8;
use std::time::Duration;

/// one observed instance, timers delivered by hand
pub struct Rig {
    pub inst: Inst,
    pub tr: Track,
    pub hcfg: HandlerCfg,
    pub out: CaseOut,
    pub trace: bool,
    pub n: usize,
    pub held: Vec<Pending>,
}
impl Rig {
    pub fn new(s: &Setup, seed: u64, trace: bool, inc: bool) -> Result<Rig, String> {
        let mut inst = Inst::new(s);
        inst.watch_inc = inc;
        inst.start().map_err(|Panic(m)| m)?;
        Ok(Rig {
            inst,
            tr: Track::new(s.codec),
            hcfg: s.handler,
            out: CaseOut::new(seed),
            trace,
            n: 0,
            held: vec![],
        })
    }
    pub fn go(&mut self, op: Op, fired: Option<u64>, m: &mut dyn Monitor) -> Result<Step, String> {
        let seq0 = self.inst.seq;
        let s = self.inst.exec(op).map_err(|Panic(m)| m)?;
        self.n += 1;
        self.out.steps += 1;
        let o = self.tr.observe(&s, seq0, fired, fired.is_some(), self.hcfg);
        if self.trace {
            self.out.trace.push(show_step(self.n, &s, o.st_post, self.tr.codec));
        }
        for (to, d) in s.sends() {
            fnv(&mut self.out.sig, hash2(to.addr as u64, d.len() as u64));
        }
        m.step(&o, &mut self.out.c).map_err(|e| format!("step {}: {e}", self.n))?;
        drop(o);
        self.held.append(&mut self.inst.timers);
        Ok(s)
    }
    /// deliver the first held timer that satisfies `f`
    pub fn fire(&mut self, f: impl Fn(&T) -> bool, m: &mut dyn Monitor) -> Result<Option<Step>, String> {
        let Some(i) = (0..self.held.len()).filter(|&i| f(&self.held[i].t)).min_by_key(|&i| {
            (self.held[i].due, self.held[i].seq)
        }) else {
            return Ok(None);
        };
        let p = self.held.remove(i);
        let e = self.tr.issue.get(&p.seq).copied();
        self.inst.now = self.inst.now.max(p.due);
        self.go(Op::Timer(p.t), e, m).map(Some)
    }
}

pub fn c14(_p: &str, seed: u64, trace: bool, thorough: bool) -> CaseOut {
    let mut r = SmallRng::seed_from_u64(seed);
    let total: u16 = match r.random_range(0..10) {
        0..=5 => r.random_range(1..8),
        6..=8 => r.random_range(4..24),
        _ if hash2(seed, 0x1a6f) % 1500 == 0 => r.random_range(1030..1400),
        _ if hash2(seed, 0x1a6e) % 40 == 0 => r.random_range(250..600),
        _ => r.random_range(20..if thorough { 200 } else { 80 }),
    };
    let codec = AnyCodec::Hand;
    let cfg = Config {
        probe_period: ms(1000),
        probe_rtt: ms(300),
        num_indirect_probes: nz(r.random_range(1..4)),
        max_transmissions: NonZeroU8::new(r.random_range(1..10)).unwrap(),
        suspect_to_down_after: ms(1_000_000),
        remove_down_after: ms(50_000),
        max_packet_size: nz(1400),
        notify_down_members: r.random_bool(0.5),
        periodic_announce: None,
        periodic_announce_to_down_members: None,
        periodic_gossip: None,
    };
    let own = Nid::new(0, 1, r.random_range(0..4));
    let setup = Setup {
        id: own.clone(),
        cfg,
        seed: r.random(),
        codec,
        handler: HandlerCfg { key_mode: 0, accept: 1, pred: 0 },
    };
    let mut mon = C14::default();
    let mut rig = match Rig::new(&setup, seed, trace, false) {
        Ok(x) => x,
        Err(e) => {
            let mut o = CaseOut::new(seed);
            o.err = Some(e);
            return o;
        }
    };
    let res = (|| -> Result<(), String> {
        let ack_pct = *[0u32, 50, 90, 100, 100].get(r.random_range(0..5)).unwrap();
        let down_pct = *[0u32, 10, 40, 80].get(r.random_range(0..4)).unwrap();
        // everybody, in one or several batches, in random order
        let mut ids: Vec<Nid> = (1..=total).map(|a| Nid::new(a, r.random_range(0..2), 0)).collect();
        for i in (1..ids.len()).rev() {
            ids.swap(i, r.random_range(0..=i));
        }
        if r.random_bool(0.2) {
            ids.push(own.regen(0));
        }
        let mut pending = ids;
        // with thousands of members: one arrangement, a few windows
        let vast = total > 1000;
        let phases = if vast { 1 } else { r.random_range(1..6) };
        for ph in 0..phases {
            // change something
            let take = if vast { pending.len() } else if ph == 0 { r.random_range(1..=pending.len()) } else { r.random_range(0..=pending.len().min(3)) };
            let mut batch: Vec<M> = pending
                .drain(..take)
                .map(|id| {
                    let st = if r.random_range(0..100) < down_pct {
                        State::Down
                    } else if r.random_bool(0.2) {
                        State::Suspect
                    } else {
                        State::Alive
                    };
                    Member::new(id, 0, st)
                })
                .collect();
            if ph > 0 {
                let recs = rig.inst.snap.recs.clone();
                for _ in 0..r.random_range(0..4) {
                    if recs.is_empty() {
                        break;
                    }
                    let m = &recs[r.random_range(0..recs.len())];
                    match r.random_range(0..3) {
                        0 => batch.push(Member::new(m.id().clone(), 0, State::Down)),
                        1 if m.id().addr != 0 => {
                            batch.push(Member::alive(m.id().regen(m.id().gen.saturating_add(1))))
                        }
                        _ => batch.push(Member::new(m.id().clone(), m.incarnation().saturating_add(1), State::Alive)),
                    }
                }
                if r.random_bool(0.3) {
                    rig.fire(|t| matches!(t, Timer::RemoveDown(_)), &mut mon)?;
                }
            }
            let chunk = if vast { batch.len() } else { r.random_range(1..=batch.len().max(1)) };
            for b in batch.chunks(chunk) {
                rig.go(Op::Apply(b.to_vec(), r.random_bool(0.5)), None, &mut mon)?;
                // move the cursor meanwhile
                if r.random_bool(0.3) {
                    for _ in 0..r.random_range(0..4) {
                        round(&mut rig, &mut r, codec, 100, &mut mon)?;
                    }
                }
            }
            let n = rig.inst.snap.num;
            let rounds = if vast { 3 * n + 3 } else if ph + 1 == phases { 5 * n + 3 } else { r.random_range(0..4 * n + 2) };
            for _ in 0..rounds {
                // traffic that changes nothing about the set of members
                if !vast && r.random_bool(0.3) {
                    noise(&mut rig, &mut r, codec, &mut mon)?;
                }
                round(&mut rig, &mut r, codec, ack_pct, &mut mon)?;
            }
        }
        Ok(())
    })();
    let mut out = rig.out;
    out.err = res.err();
    out
}

fn noise(rig: &mut Rig, r: &mut SmallRng, codec: AnyCodec, mon: &mut C14) -> Result<(), String> {
    let act = rig.inst.snap.active.clone();
    if act.is_empty() {
        return Ok(());
    }
    let m = act[r.random_range(0..act.len())].clone();
    let me = rig.inst.snap.id.clone();
    let h = |message| Header {
        src: m.id().clone(),
        src_incarnation: m.incarnation().saturating_add(r_small(&m)),
        dst: me.clone(),
        message,
    };
    let op = match r.random_range(0..7) {
        0 => Op::Gossip,
        1 => Op::Data(build(codec, &h(Message::Announce), None, &[])),
        2 => Op::Data(build(codec, &h(Message::Ping(r.random())), None, &[])),
        3 => Op::Data(build(codec, &h(Message::Gossip), Some(&act[..act.len().min(20)]), &[])),
        4 => Op::Apply(rig.inst.snap.recs.clone(), r.random_bool(0.5)),
        5 => Op::Data(build(
            codec,
            &h(Message::PingReq { target: act[r.random_range(0..act.len())].id().clone(), probe_number: r.random() }),
            None,
            &[],
        )),
        _ => Op::Announce(m.id().clone()),
    };
    rig.go(op, None, mon).map(|_| ())
}
fn r_small(m: &M) -> u16 {
    // refutes a suspicion
    (m.state() == State::Suspect) as u16
}

fn round(rig: &mut Rig, r: &mut SmallRng, codec: AnyCodec, ack: u32, mon: &mut C14) -> Result<(), String> {
    rig.fire(|t| matches!(t, Timer::SendIndirectProbe { .. }), mon)?;
    let Some(s) = rig.fire(|t| matches!(t, Timer::ProbeRandomMember(_)), mon)? else {
        return Ok(());
    };
    if r.random_range(0..100) >= ack {
        return Ok(());
    }
    let ping = s.sends().find_map(|(to, d)| {
        use foca::Codec;
        let mut c = codec;
        match c.decode_header(&mut &d[..]).ok()?.message {
            Message::Ping(n) => Some((to.clone(), n)),
            _ => None,
        }
    });
    if let Some((to, n)) = ping {
        let inc = rig.inst.snap.rec(to.addr).map_or(0, |m| m.incarnation());
        let h = Header { src: to, src_incarnation: inc, dst: rig.inst.snap.id.clone(), message: Message::Ack(n) };
        rig.inst.now += Duration::from_millis(1);
        rig.go(Op::Data(build(codec, &h, None, &[])), None, mon)?;
    }
    Ok(())
}
