//! Workload W1: one instance against a generated world.
use crate::core::*;
use crate::mon::*;
use crate::wire::*;
use foca::{
    AccumulatingRuntime, Config, Foca, Header, Member, Message, PeriodicParams, State, Timer,
};
use rand::{rngs::SmallRng, Rng, SeedableRng};
use std::num::{NonZeroU8, NonZeroUsize};
use std::time::Duration;

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TimerMode {
    InOrder,
    OutOfOrder,
    /// also duplicates, stale re-deliveries and crafted timers
    Hostile,
}

#[derive(Clone, Debug)]
pub struct World {
    pub naddr: u16,
    pub gens: u16,
    pub kinds: Vec<u8>,
    pub codec: AnyCodec,
    pub steps: usize,
    pub tmode: TimerMode,
    pub w: Weights,
    pub hcfg: HandlerCfg,
    pub cfg: Config,
    pub own_gen: u16,
    pub hmax: usize,
    /// custom items appear in crafted datagrams / add_broadcast
    pub items: bool,
    pub item_max: usize,
    pub seed: u64,
    /// probability (percent) that a probe ack is answered
    pub ack_pct: u32,
    pub corrupt: bool,
    pub setcfg_packet: bool,
    /// packets may be too small for some headers: any call may fail to encode
    pub tight: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Weights {
    pub data: u32,
    pub timer: u32,
    pub apply: u32,
    pub gossip: u32,
    pub broadcast: u32,
    pub announce: u32,
    pub leave: u32,
    pub change: u32,
    pub reuse: u32,
    pub addb: u32,
    pub setcfg: u32,
    /// share of updates about the own address
    pub own: u32,
    pub suspect: u32,
    pub down: u32,
}

pub fn max_id(profile: u8) -> Nid {
    Nid { addr: 60_000, gen: 60_000, kind: 255, pad: vec![0; [0, 3, 6, 10, 40, 60][profile as usize]] }
}
pub fn max_header(codec: AnyCodec, profile: u8) -> usize {
    let id = max_id(profile);
    codec
        .header_bytes(&Header {
            src: id.clone(),
            src_incarnation: MAXINC,
            dst: id.clone(),
            message: Message::PingReq { target: id, probe_number: 255 },
        })
        .len()
}

fn per(r: &mut SmallRng, p: u32, lo: u64, hi: u64) -> Option<PeriodicParams> {
    (r.random_range(0..100) < p).then(|| PeriodicParams {
        frequency: ms(r.random_range(lo..hi)),
        num_members: nz(r.random_range(1..4)),
    })
}

/// parameters for one generated history, biased towards what `prop` talks about
pub fn world(prop: &str, seed: u64) -> World {
    let mut rng = SmallRng::seed_from_u64(seed);
    let r = &mut rng;
    let profile = *[0u8, 0, 1, 2, 3, 4].get(r.random_range(0..6)).unwrap();
    let codec = if r.random_range(0..3) == 0 {
        CODECS[r.random_range(0..4)]
    } else {
        AnyCodec::Hand
    };
    let codec = if prop == "C20" {
        [AnyCodec::Bincode, AnyCodec::Postcard][r.random_range(0..2)]
    } else {
        codec
    };
    let big = r.random_range(0..100)
        < match prop {
            "C07" | "C15" => 6,
            "C20" => 12,
            _ => 2,
        };
    let naddr: u16 = if big { r.random_range(40..400) } else { r.random_range(1..9) };
    let gens: u16 = r.random_range(1..5);
    let mut kinds: Vec<u8> = Vec::new();
    for _ in 0..=naddr {
        kinds.push((r.random_range(0..4) as u8) | (profile << 2));
    }
    // own renew mode
    kinds[0] = *[RENEW_BUMP, RENEW_BUMP, RENEW_NONE, RENEW_SAME, RENEW_LOSE].get(r.random_range(0..5)).unwrap()
        | (profile << 2);
    let hmax = max_header(codec, profile);
    let period = r.random_range(300..3000u64);
    let rtt = r.random_range(1..period);
    let mb = codec.member_bytes(&Member::new(max_id(profile), MAXINC, State::Down)).len();
    let pkt = match r.random_range(0..10) {
        0 => hmax + r.random_range(0..4),
        1 => hmax + r.random_range(0..2 * mb + 8),
        2 | 3 => hmax + 2 + r.random_range(0..4 * mb + 40),
        4 => 65_536,
        5 => hmax + 4 * mb,
        _ => 1400.max(hmax),
    };
    let tight = prop == "C13" && r.random_range(0..100) < 15;
    let pkt = if tight { r.random_range(hmax / 2..hmax + 4) } else { pkt };
    let cfg = Config {
        probe_period: ms(period),
        probe_rtt: ms(rtt),
        num_indirect_probes: nz(*[1, 2, 3, 5].get(r.random_range(0..4)).unwrap()),
        max_transmissions: NonZeroU8::new(
            *[1u8, 1, 2, 3, 4, 5, 10, 10, 255].get(r.random_range(0..9)).unwrap(),
        )
        .unwrap(),
        suspect_to_down_after: ms(r.random_range(1..4 * period)),
        remove_down_after: *[ms(period / 2 + 1), ms(5 * period), ms(30 * period), ms(3_600_000)]
            .get(r.random_range(0..4))
            .unwrap(),
        max_packet_size: nz(pkt),
        notify_down_members: r.random_bool(0.5),
        periodic_announce: per(r, 40, 100, 4000),
        periodic_announce_to_down_members: per(r, 50, 100, 4000),
        periodic_gossip: per(r, 40, 50, 3000),
    };
    let mut cfg = cfg;
    let x = hash2(seed, 0xec57);
    if x % 6 == 0 {
        // legal, but nobody would
        let bit = |i: u32| (x >> (8 + 2 * i)) & 3 == 0;
        if bit(0) {
            cfg.num_indirect_probes = nz([usize::MAX, 300, 65_536][(x >> 40) as usize % 3]);
        }
        if bit(1) {
            cfg.suspect_to_down_after = [Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(1 << 30)][(x >> 42) as usize % 3];
        }
        if bit(2) {
            cfg.remove_down_after = [Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(1 << 30)][(x >> 44) as usize % 3];
        }
        if bit(3) {
            cfg.probe_rtt = [Duration::from_nanos(1), cfg.probe_period - Duration::from_nanos(1)][(x >> 46) as usize % 2];
        }
        let many = |p: &mut Option<PeriodicParams>, i: u32| {
            if let (true, Some(p)) = (bit(i), p) {
                p.num_members = nz([usize::MAX, 1000][(x >> 48) as usize % 2]);
            }
        };
        many(&mut cfg.periodic_announce, 4);
        many(&mut cfg.periodic_announce_to_down_members, 5);
        many(&mut cfg.periodic_gossip, 6);
    }
    let tmode = match prop {
        "C13" => *[TimerMode::InOrder, TimerMode::OutOfOrder].get(r.random_range(0..2)).unwrap(),
        _ => *[TimerMode::InOrder, TimerMode::InOrder, TimerMode::OutOfOrder, TimerMode::Hostile]
            .get(r.random_range(0..4))
            .unwrap(),
    };
    let mut w = Weights {
        data: 40,
        timer: 30,
        apply: 6,
        gossip: 4,
        broadcast: 2,
        announce: 2,
        leave: 0,
        change: 0,
        reuse: 1,
        addb: 2,
        setcfg: 1,
        own: 10,
        suspect: 25,
        down: 15,
    };
    if r.random_bool(0.5) {
        w.leave = 1;
        w.change = 1;
        w.reuse = 2;
    }
    let mut items = r.random_bool(0.3);
    let mut corrupt = r.random_bool(0.3);
    let mut ack_pct = r.random_range(0..100);
    let mut setcfg_packet = r.random_bool(0.5);
    match prop {
        "C01" => {
            w.apply = 20;
        }
        "C08" | "C09" => {
            w.change *= 2;
            w.own = 15;
            w.down = 25;
        }
        "C10" => {
            w.own = 40;
            w.suspect = 45;
            w.reuse = 4;
        }
        "C11" => {
            w.timer = 45;
            w.own = 4;
            w.down = 10;
            ack_pct = r.random_range(0..30);
        }
        "C12" => {
            w.timer = 45;
            w.own = 5;
            w.down = 7;
            w.leave = w.leave.min(1);
        }
        "C14" => {
            w.timer = 70;
            w.own = 2;
            w.down = 2;
            w.suspect = 5;
            w.data = 20;
            w.apply = 1;
        }
        "C13" => {
            w.timer = 45;
            w.own = 12;
            w.setcfg = 3;
            w.down = 25;
            corrupt = false;
            setcfg_packet = false;
        }
        "C15" => {
            w.gossip = 14;
            w.apply = 14;
            w.own = 6;
        }
        "C16" => {
            items = true;
            w.addb = 16;
            w.gossip = 10;
            w.broadcast = 10;
            w.own = 4;
            w.down = 6;
        }
        "C07" => {
            items |= r.random_bool(0.6);
            if items {
                w.addb = 8;
                w.broadcast = 5;
            }
            w.gossip = 8;
        }
        "C19" => {
            w.own = 30;
            w.down = 30;
            w.change = w.change.max(1);
        }
        _ => {}
    }
    // a few histories are long enough for 8-bit counters to wrap
    let marathon = !big && hash2(seed, 0x3a_7a) % 100 == 0;
    if marathon {
        w.timer = w.timer.max(60);
    }
    // items up to what their length prefix can express
    let huge = items && !marathon && !big && hash2(seed, 0x48_06e) % 32 == 0;
    let mut cfg = cfg;
    if huge {
        cfg.max_packet_size = nz(r.random_range(66_000..140_000));
        setcfg_packet = false;
    }
    World {
        naddr,
        gens,
        kinds,
        codec,
        steps: if huge { 60 } else if marathon { 2500 } else if big { 600 } else { *[20, 60, 150, 300].get(r.random_range(0..4)).unwrap() },
        tmode,
        w,
        hcfg: HandlerCfg {
            key_mode: r.random_range(0..6),
            accept: if items { *[0u8, 1, 1, 2, 3].get(r.random_range(0..5)).unwrap() } else { r.random_range(0..5) },
            pred: match *[0u8, 0, 0, 1, 2, 3].get(r.random_range(0..6)).unwrap() {
                3 if seed % 2 == 0 => 4,
                0 if seed % 9 == 0 => 4,
                p => p,
            },
        },
        cfg,
        own_gen: r.random_range(0..=gens),
        hmax,
        items,
        item_max: if huge { 65_535 } else if pkt > 2000 { *[20, 300, 3000].get(r.random_range(0..3)).unwrap() } else { 60 },
        seed,
        ack_pct,
        corrupt,
        setcfg_packet,
        tight,
    }
}

pub struct Adv {
    pub w: World,
    pub r: SmallRng,
    pub inst: Inst,
    pub tr: Track,
    /// delivered or discarded timers, with their issue epoch
    pub fired: Vec<(T, u64)>,
    pub last_ping: Option<(Nid, u8)>,
    pub asked: Vec<Nid>,
    pub last_susp: Option<T>,
    pub nonce: u32,
    /// queued follow-ups (a probed member's answer, ...)
    pub queue: Vec<Op>,
    pub big_left: u16,
    pub plans: u64,
}

/// an op together with what is known about the timer it fires
pub struct Planned {
    pub op: Op,
    pub fired: Option<u64>,
    pub genuine: bool,
}

impl Adv {
    pub fn new(w: World) -> Result<Adv, Panic> {
        set_phase(0);
        let id = Nid::new(0, w.own_gen, w.kinds[0]);
        let mut inst = Inst::new(&Setup {
            id,
            cfg: w.cfg.clone(),
            seed: w.seed ^ 0xabcdef,
            codec: w.codec,
            handler: w.hcfg,
        });
        inst.watch_inc = true;
        inst.start()?;
        let r = SmallRng::seed_from_u64(w.seed ^ 0x5eed);
        let tr = Track::new(w.codec);
        let big_left = if w.naddr > 30 { w.naddr } else { 0 };
        Ok(Adv {
            w,
            r,
            inst,
            tr,
            fired: vec![],
            last_ping: None,
            asked: vec![],
            last_susp: None,
            nonce: 0,
            queue: vec![],
            big_left,
            plans: 0,
        })
    }
    pub fn pct(&mut self, p: u32) -> bool {
        self.r.random_range(0..100) < p
    }
    pub fn own(&self) -> Nid {
        self.inst.snap.id.clone()
    }
    fn id_for(&mut self, addr: u16, max_gen: u16) -> Nid {
        let g = self.r.random_range(0..=max_gen);
        let k = self.w.kinds[addr as usize % self.w.kinds.len()];
        Nid::new(addr, g, k)
    }
    /// a (mostly third-party) identity of this world
    pub fn any_id(&mut self, allow_own: bool) -> Nid {
        let own = self.own();
        if allow_own && self.pct(self.w.w.own) {
            return match self.r.random_range(0..4) {
                0 => own.regen(own.gen.saturating_sub(self.r.random_range(0..3))),
                1 => own.regen(own.gen.saturating_add(self.r.random_range(1..3))),
                _ => own,
            };
        }
        let a = loop {
            let a = self.r.random_range(0..=self.w.naddr);
            if a != own.addr {
                break a;
            }
            if self.w.naddr == 0 {
                break 1;
            }
        };
        // mostly the generation on record, sometimes a neighbour
        if let Some(m) = self.inst.snap.rec(a) {
            let id = m.id().clone();
            if self.pct(70) {
                return id;
            }
            let g = match self.r.random_range(0..3) {
                0 => id.gen.saturating_sub(1),
                1 => id.gen.saturating_add(1),
                _ => id.gen,
            };
            return id.regen(g);
        }
        let g = if self.pct(60) { 0 } else { self.w.gens };
        self.id_for(a, g)
    }
    pub fn active_id(&mut self) -> Option<Nid> {
        let n = self.inst.snap.active.len();
        (n > 0).then(|| self.inst.snap.active[self.r.random_range(0..n)].id().clone())
    }
    pub fn inc_near(&mut self, base: u16) -> u16 {
        match self.r.random_range(0..14) {
            0 => 0,
            1 => 1,
            2 => MAXINC,
            3 => MAXINC - 1,
            4 => base.saturating_add(2),
            5 | 6 => base.saturating_add(1),
            7 | 8 => base.saturating_sub(1),
            _ => base,
        }
    }
    pub fn update(&mut self, allow_own: bool) -> M {
        let id = self.any_id(allow_own);
        let own = self.own();
        let base = if id == own {
            self.inst.snap.inc.unwrap_or(0)
        } else {
            self.inst.snap.rec(id.addr).map_or(0, |m| m.incarnation())
        };
        let inc = self.inc_near(base);
        let x = self.r.random_range(0..100);
        let st = if x < self.w.w.down {
            State::Down
        } else if x < self.w.w.down + self.w.w.suspect {
            State::Suspect
        } else {
            State::Alive
        };
        Member::new(id, inc, st)
    }
    pub fn item(&mut self) -> Vec<u8> {
        self.nonce += 1;
        let n = if self.w.item_max == 65_535 && self.pct(30) {
            *[255, 256, 257, 32_767, 32_768, 65_534, 65_535].get(self.r.random_range(0..7)).unwrap()
        } else if self.pct(70) { self.r.random_range(1..20) } else { self.r.random_range(1..=self.w.item_max) };
        let mut v = vec![0u8; n];
        v[0] = *[0u8, 1, 2, 3, 0xEE, 0xDD, 7].get(self.r.random_range(0..7)).unwrap();
        if n > 1 {
            v[1] = self.r.random_range(0..6);
        }
        for (i, b) in self.nonce.to_be_bytes().iter().enumerate() {
            if 2 + i < n && self.w.hcfg.accept != 0 || 2 + i < n && !self.nonce.is_multiple_of(5) {
                v[2 + i] = *b;
            }
        }
        v
    }
    fn message(&mut self, src: &Nid) -> Msg {
        let pn = match (&self.last_ping, self.r.random_range(0..6)) {
            (Some((_, p)), 0 | 1 | 2) => *p,
            (Some((_, p)), 3) => p.wrapping_sub(1),
            (Some((_, p)), 4) => p.wrapping_add(1),
            _ => self.r.random_range(0..=255),
        };
        let third = if self.pct(12) {
            let o = self.own();
            if self.pct(50) {
                o
            } else {
                o.regen(o.gen.saturating_add(self.r.random_range(0..3)).saturating_sub(1))
            }
        } else if self.pct(40) {
            self.last_ping.as_ref().map_or_else(|| src.clone(), |x| x.0.clone())
        } else {
            self.any_id(false)
        };
        match self.r.random_range(0..16) {
            0 | 1 => Message::Ping(pn),
            2 | 3 => Message::Ack(pn),
            4 => Message::PingReq { target: third, probe_number: pn },
            5 => Message::IndirectPing { origin: third, probe_number: pn },
            6 => Message::IndirectAck { target: third, probe_number: pn },
            7 | 8 => Message::ForwardedAck { origin: third, probe_number: pn },
            9 | 10 => Message::Announce,
            11 => Message::Feed,
            12 | 13 => Message::Gossip,
            14 => Message::Broadcast,
            _ => {
                if self.pct(30) {
                    Message::TurnUndead
                } else {
                    Message::Gossip
                }
            }
        }
    }
    pub fn src_for_data(&mut self) -> Nid {
        // sometimes exactly the parties of the current probe round
        if self.pct(25) {
            let mut c: Vec<Nid> = self.asked.clone();
            if let Some((t, _)) = &self.last_ping {
                c.push(t.clone());
            }
            if !c.is_empty() {
                return c[self.r.random_range(0..c.len())].clone();
            }
        }
        self.any_id(false)
    }
    pub fn datagram(&mut self) -> Vec<u8> {
        let own = self.own();
        let src = self.src_for_data();
        let mut message = self.message(&src);
        let base = self.inst.snap.rec(src.addr).map_or(0, |m| m.incarnation());
        let src_incarnation = self.inc_near(base);
        let dst = match self.r.random_range(0..20) {
            0 => own.regen(own.gen.saturating_add(1)),
            1 if own.gen > 0 => own.regen(own.gen - 1),
            2 => self.any_id(false),
            _ => own.clone(),
        };
        let src = if self.pct(2) { self.any_id(true) } else { src };
        let mut members = vec![];
        let bare = matches!(message, Message::Announce | Message::TurnUndead | Message::Broadcast);
        if !bare {
            let n = match self.r.random_range(0..10) {
                0..=3 => 0,
                4..=7 => 1,
                8 => 2,
                _ => self.r.random_range(0..6),
            };
            for _ in 0..n {
                // nobody gossips that the sender itself is down and keeps talking
                let mut m = self.update(true);
                if m.id().addr == src.addr && self.r.random_range(0..4) > 0 {
                    m = Member::new(src.clone(), src_incarnation, State::Alive);
                }
                members.push(m);
            }
        }
        let mut items = vec![];
        if self.w.items && may_carry_items(&message) {
            for _ in 0..*[0, 0, 1, 1, 2, 4].get(self.r.random_range(0..6)).unwrap() {
                items.push(self.item());
            }
        }
        if self.big_left > 0 && self.pct(60) {
            // large memberships: learn a bulk of members at once
            message = Message::Feed;
            members.clear();
            items.clear();
            let k = self.big_left.min(40);
            for _ in 0..k {
                let a = self.big_left;
                self.big_left -= 1;
                if a != own.addr && a != src.addr {
                    let id = self.id_for(a, 0);
                    members.push(Member::new(id, 0, State::Alive));
                }
            }
        }
        let h = Header { src, src_incarnation, dst, message: message.clone() };
        let bare = matches!(message, Message::Announce | Message::TurnUndead | Message::Broadcast);
        let ms = if bare || (members.is_empty() && items.is_empty() && self.pct(20)) {
            None
        } else {
            Some(&members[..])
        };
        let mut d = build(self.w.codec, &h, ms, &items);
        let max = self.inst.cfg.max_packet_size.get();
        if d.len() > max && self.big_left == 0 {
            // shrink to something that fits
            d = build(self.w.codec, &h, if bare { None } else { Some(&members[..members.len().min(1)]) }, &[]);
            if d.len() > max {
                d = build(self.w.codec, &h, None, &[]);
            }
        }
        if self.w.corrupt && self.pct(12) && message != Message::TurnUndead {
            match self.r.random_range(0..4) {
                0 => {
                    let k = self.r.random_range(0..=d.len());
                    d.truncate(k);
                }
                1 => {
                    for _ in 0..self.r.random_range(1..5) {
                        let b = self.r.random_range(0..=255);
                        d.push(b);
                    }
                }
                2 => d = d.repeat(3),
                _ => {
                    // corrupt the tail, so that the header (and thus the world of
                    // identities) stays legal
                    let n = h_len(self.w.codec, &h);
                    if d.len() > n + 2 {
                        let k = d.len() - 1;
                        d[k] ^= 1 << self.r.random_range(0..8);
                        if classify_world(self.w.codec, &d, &own).is_err() {
                            d.truncate(n + 1);
                        }
                    }
                }
            }
        }
        d
    }
    fn stale(&mut self) -> Option<Planned> {
        if self.fired.is_empty() {
            return None;
        }
        let cur = self.tr.epoch;
        let mut i = self.r.random_range(0..self.fired.len());
        // recent ones are the interesting ones
        if self.pct(60) {
            i = self.fired.len() - 1 - self.r.random_range(0..self.fired.len().min(4));
        }
        let (t, e) = self.fired[i].clone();
        if cur - e > 200 {
            return None;
        }
        Some(Planned { op: Op::Timer(t), fired: Some(e), genuine: false })
    }
    fn crafted(&mut self) -> Option<Planned> {
        // tokens come from timers really issued, so their epoch is known
        let mut toks: Vec<(u8, u64)> = vec![];
        for (t, e) in &self.fired {
            if let Some(k) = token(t) {
                toks.push((k, *e));
            }
        }
        for p in &self.inst.timers {
            if let (Some(k), Some(e)) = (token(&p.t), self.tr.issue.get(&p.seq)) {
                toks.push((k, *e));
            }
        }
        let cur = self.tr.epoch;
        toks.retain(|x| cur - x.1 < 200);
        if toks.is_empty() {
            return None;
        }
        let live: Vec<(u8, u64)> = toks.iter().copied().filter(|x| x.1 == cur).collect();
        let (token, e) = if !live.is_empty() && self.pct(75) {
            live[self.r.random_range(0..live.len())]
        } else {
            toks[self.r.random_range(0..toks.len())]
        };
        let id = self.any_id(false);
        let base = self.inst.snap.rec(id.addr).map_or(0, |m| m.incarnation());
        let t = match self.r.random_range(0..4) {
            0 | 1 => Timer::ChangeSuspectToDown {
                member_id: id,
                incarnation: self.inc_near(base),
                token,
            },
            2 => Timer::RemoveDown(id),
            _ => Timer::SendIndirectProbe {
                probed_id: self.last_ping.as_ref().map_or(id, |x| x.0.clone()),
                token,
            },
        };
        Some(Planned { op: Op::Timer(t), fired: Some(e), genuine: false })
    }
    pub fn take_timer(&mut self, i: usize) -> Planned {
        let p = self.inst.timers.swap_remove(i);
        let e = self.tr.issue.get(&p.seq).copied();
        if p.due > self.inst.now {
            self.inst.now = p.due;
        }
        if let Some(e) = e {
            self.fired.push((p.t.clone(), e));
        }
        Planned { op: Op::Timer(p.t), fired: e, genuine: true }
    }
    pub fn plan(&mut self) -> Planned {
        self.plans += 1;
        set_phase(hash2(self.w.seed, self.plans / 6));
        let np = |op| Planned { op, fired: None, genuine: false };
        // forget timers from ancient epochs would be ambiguous
        let cur = self.tr.epoch;
        if cur > 200 {
            let issue = &self.tr.issue;
            self.inst.timers.retain(|p| {
                matches!(p.t, Timer::RemoveDown(_)) || issue.get(&p.seq).is_some_and(|e| cur - e < 200)
            });
        }
        if !self.queue.is_empty() && self.pct(70) {
            return np(self.queue.remove(0));
        }
        let w = self.w.w.clone();
        // keep the instance connected most of the time
        if self.inst.snap.active.is_empty() && self.pct(50) {
            return np(Op::Data(self.datagram()));
        }
        let total = w.data + w.timer + w.apply + w.gossip + w.broadcast + w.announce + w.leave
            + w.change + w.reuse + w.addb + w.setcfg;
        let mut x = self.r.random_range(0..total);
        let mut is = |k: u32| {
            if x < k {
                x = u32::MAX / 2;
                true
            } else {
                x -= k;
                false
            }
        };
        if is(w.data) {
            let step = self.inst.cfg.probe_period.as_millis() as u64 / 6;
            if self.pct(60) {
                let d = self.r.random_range(0..=step);
                self.inst.now += ms(d);
            }
            return np(Op::Data(self.datagram()));
        }
        if is(w.timer) {
            if self.w.tmode == TimerMode::Hostile && self.pct(35) {
                let p = if self.pct(50) { self.stale() } else { self.crafted() };
                if let Some(p) = p {
                    return p;
                }
            }
            if self.w.tmode == TimerMode::InOrder {
                // lag
                if self.pct(10) {
                    let d = self.r.random_range(0..4 * self.inst.cfg.probe_period.as_millis() as u64);
                    self.inst.now += ms(d);
                }
                if let Some(i) = self.inst.next_timer() {
                    return self.take_timer(i);
                }
            } else if !self.inst.timers.is_empty() {
                // biased towards the due ones
                let i = if self.pct(60) {
                    self.inst.next_timer().unwrap()
                } else {
                    self.r.random_range(0..self.inst.timers.len())
                };
                return self.take_timer(i);
            }
            return np(Op::Data(self.datagram()));
        }
        if is(w.apply) {
            let n = self.r.random_range(0..5);
            let v = (0..n).map(|_| self.update(true)).collect();
            let b = self.pct(60);
            return np(Op::Apply(v, b));
        }
        if is(w.gossip) {
            return np(Op::Gossip);
        }
        if is(w.broadcast) {
            return np(Op::Broadcast);
        }
        if is(w.announce) {
            let d = self.any_id(true);
            return np(Op::Announce(d));
        }
        if is(w.leave) {
            return np(Op::Leave);
        }
        if is(w.change) {
            let own = self.own();
            let n = match self.r.random_range(0..6) {
                0 => own.clone(),
                1 => own.regen(own.gen.saturating_sub(1)),
                2 if self.w.naddr < 30 => self.any_id(false),
                _ => own.regen(own.gen.saturating_add(1)),
            };
            return np(Op::ChangeId(n));
        }
        if is(w.reuse) {
            return np(Op::Reuse);
        }
        if is(w.addb) {
            let mut d = self.item();
            if self.pct(4) {
                d.clear();
            }
            if self.pct(3) {
                d = vec![1; self.inst.cfg.max_packet_size.get() + self.r.random_range(0..3)];
            }
            return np(Op::AddBroadcast(d));
        }
        let c = self.new_config();
        np(Op::SetConfig(Box::new(c)))
    }
    pub fn new_config(&mut self) -> Config {
        let mut c = (*self.inst.cfg).clone();
        for _ in 0..self.r.random_range(1..4) {
            match self.r.random_range(0..12) {
                0 => c.num_indirect_probes = nz(self.r.random_range(1..5)),
                1 => c.max_transmissions = NonZeroU8::new(self.r.random_range(1..12)).unwrap(),
                2 => c.suspect_to_down_after = ms(self.r.random_range(1..6000)),
                3 => c.remove_down_after = ms(self.r.random_range(100..60_000)),
                4 => c.notify_down_members = !c.notify_down_members,
                5 => c.periodic_announce = None,
                6 => c.periodic_gossip = None,
                7 => c.periodic_announce_to_down_members = None,
                8 => {
                    if let Some(p) = &mut c.periodic_gossip {
                        p.frequency = ms(self.r.random_range(50..3000));
                    }
                }
                9 => {
                    // refused changes
                    match self.r.random_range(0..5) {
                        0 => c.probe_period += ms(1),
                        1 => c.probe_rtt = ms(1 + self.r.random_range(0..3)),
                        2 => c.periodic_announce = Some(PeriodicParams { frequency: ms(77), num_members: nz(2) }),
                        3 => c.periodic_gossip = Some(PeriodicParams { frequency: ms(77), num_members: nz(2) }),
                        _ => {
                            c.periodic_announce_to_down_members =
                                Some(PeriodicParams { frequency: ms(77), num_members: nz(2) })
                        }
                    }
                }
                _ => {
                    if self.w.setcfg_packet {
                        c.max_packet_size = nz(self.w.hmax + self.r.random_range(0..300));
                    }
                }
            }
        }
        c
    }
    /// run one op, observing it; keeps the generator's knowledge up to date
    pub fn step(&mut self, p: Planned) -> Result<(Step, u64), Panic> {
        let seq0 = self.inst.seq;
        let s = self.inst.exec(p.op.clone())?;
        Ok((s, seq0))
    }
    pub fn learn(&mut self, o: &Obs) {
        let ping = o.out().find_map(|(_, to, p)| match p.h.message {
            Message::Ping(n) => Some((to.clone(), n)),
            _ => None,
        });
        let own = o.s.post.id.clone();
        if let Some((to, n)) = ping {
            self.asked.clear();
            if self.pct(self.w.ack_pct) {
                let inc = o.s.post.rec(to.addr).map_or(0, |m| m.incarnation());
                let h = Header {
                    src: to.clone(),
                    src_incarnation: if self.pct(10) { inc.saturating_add(1) } else { inc },
                    dst: own.clone(),
                    message: Message::Ack(n),
                };
                self.queue.push(Op::Data(build(self.w.codec, &h, None, &[])));
            }
            self.last_ping = Some((to, n));
        }
        let mut helpers: Vec<Nid> = vec![];
        for (_, to, p) in o.out() {
            if let Message::PingReq { .. } = p.h.message {
                helpers.push(to.clone());
            }
        }
        for hlp in helpers {
            self.asked.push(hlp.clone());
            if self.pct(self.w.ack_pct / 2) {
                if let Some((t, n)) = self.last_ping.clone() {
                    let inc = o.s.post.rec(hlp.addr).map_or(0, |m| m.incarnation());
                    let h = Header {
                        src: hlp,
                        src_incarnation: inc,
                        dst: own.clone(),
                        message: Message::ForwardedAck { origin: t, probe_number: n },
                    };
                    self.queue.push(Op::Data(build(self.w.codec, &h, None, &[])));
                }
            }
        }
        if self.queue.len() > 6 {
            self.queue.clear();
        }
    }
}

pub fn token(t: &T) -> Option<u8> {
    match t {
        Timer::ProbeRandomMember(k)
        | Timer::PeriodicAnnounce(k)
        | Timer::PeriodicAnnounceDown(k)
        | Timer::PeriodicGossip(k) => Some(*k),
        Timer::SendIndirectProbe { token, .. } | Timer::ChangeSuspectToDown { token, .. } => Some(*token),
        Timer::RemoveDown(_) => None,
    }
}
fn h_len(c: AnyCodec, h: &H) -> usize {
    c.header_bytes(h).len()
}
/// Err if the datagram decodes but mentions identities outside the world's contract
/// (padding and kind are functions of address and generation)
fn classify_world(c: AnyCodec, d: &[u8], own: &Nid) -> Result<(), ()> {
    let legal = |i: &Nid| *i == Nid::new(i.addr, i.gen, i.kind) && i.addr < 1000;
    match classify(c, d, usize::MAX, own) {
        In::Ok { h, members, .. } => {
            if !legal(&h.src) || members.iter().any(|m| !legal(m.id())) {
                Err(())
            } else {
                // kinds may not vary per address either
                Err(())
            }
        }
        _ => Ok(()),
    }
}

pub enum MonSet {
    One(Box<dyn Monitor>),
    C13(C13),
    C08 { mon: C08, twin: Box<crate::core::F>, rt: AccumulatingRuntime<Nid>, owed: Box<Owed> },
    C16(C16),
}

impl MonSet {
    /// the monitor of `prop` for one instance set up like this; `exact`: its timers
    /// will be delivered in deadline order
    pub fn new(prop: &str, s: &Setup, exact: bool, tight: bool) -> MonSet {
        match prop {
            "C01" => MonSet::One(Box::new(C01)),
            "C06" => MonSet::One(Box::new(Nop)),
            "C07" | "C20" => MonSet::One(Box::new(C07::default())),
            "C08" => MonSet::C08 {
                mon: C08::default(),
                twin: Box::new(Foca::with_custom_broadcast(
                    s.id.clone(),
                    s.cfg.clone(),
                    SimRng::new(s.seed),
                    s.codec,
                    Handler::new(s.handler, Default::default()),
                )),
                rt: AccumulatingRuntime::new(),
                owed: Box::new(Owed { lazy: if s.seed % 2 == 0 { 0 } else { s.seed }, ..Default::default() }),
            },
            "C09" => MonSet::One(Box::new(C09::default())),
            "C10" => MonSet::One(Box::new(C10::default())),
            "C11" => MonSet::One(Box::new(C11::default())),
            "C12" => MonSet::One(Box::new(C12 { exact, ..Default::default() })),
            "C13" => MonSet::C13(C13 { in_order: exact, tight }),
            "C14" => MonSet::One(Box::new(C14::default())),
            "C15" => MonSet::One(Box::new(C15::default())),
            "C16" => MonSet::C16(C16::default()),
            "C19" => MonSet::One(Box::new(C19)),
            _ => panic!("no W1 monitor for {prop}"),
        }
    }
    /// `outs`: the outstanding timers with their issue epoch
    pub fn step<'a>(
        &mut self,
        o: &Obs,
        s: &Step,
        c: &mut Counters,
        outs: impl FnOnce() -> Vec<(&'a T, u64)>,
    ) -> V {
        match self {
            MonSet::One(m) => m.step(o, c),
            MonSet::C16(m) => m.step(o, c),
            MonSet::C13(m) => m.step(o, &outs(), c),
            MonSet::C08 { mon, twin, rt, owed } => mon.step(o, c).and_then(|_| twin_step(twin, rt, owed, s, c)),
        }
    }
}

pub struct CaseOut {
    pub c: Counters,
    pub sig: u64,
    pub trace: Vec<String>,
    pub err: Option<String>,
    /// signature of a recorded finding this failure matches
    pub known: Option<String>,
    pub steps: u64,
}
impl CaseOut {
    pub fn new(seed: u64) -> Self {
        CaseOut { c: Counters::default(), sig: seed, trace: vec![], err: None, known: None, steps: 0 }
    }
}

pub fn show_step(i: usize, s: &Step, st: St, codec: AnyCodec) -> String {
    let op = match &s.op {
        Op::Data(d) => {
            let mut c = codec;
            let mut b = &d[..];
            use foca::Codec;
            match c.decode_header(&mut b) {
                Ok(h) => {
                    let cl = classify(codec, d, s.cfg.max_packet_size.get(), &s.pre.id);
                    let m = match &cl {
                        In::Ok { members, rest, .. } => format!("members {members:?} rest {} bytes", rest.len()),
                        x => format!("{x:?}"),
                    };
                    format!("handle_data {{ {:?}@{} -> {:?} {:?}; {m} }}", h.src, h.src_incarnation, h.dst, h.message)
                }
                Err(_) => format!("handle_data {} undecodable bytes", d.len()),
            }
        }
        x => format!("{x:?}"),
    };
    let mut out = format!("#{i} {op}\n    => {:?}", s.res);
    for e in &s.evs {
        match e {
            Ev::Send { to, data } => match parse_out(codec, data, s.cfg.max_packet_size.get()) {
                Ok(p) => {
                    let ms: Vec<&M> = p.members.iter().map(|x| &x.0).collect();
                    out.push_str(&format!(
                        "\n    send {:?} to {to:?} (src {:?}@{}) members {ms:?} items {} [{} bytes]",
                        p.h.message, p.h.src, p.h.src_incarnation, p.items.len(), data.len()
                    ));
                }
                Err(e) => out.push_str(&format!("\n    send MALFORMED to {to:?}: {e}")),
            },
            Ev::Timer { t, after } => out.push_str(&format!("\n    timer {t:?} after {after:?}")),
            Ev::Note(n) => out.push_str(&format!("\n    notify {n:?}")),
            Ev::Recv { data, sender, ret } => {
                out.push_str(&format!("\n    receive_item({} bytes, {sender:?}) -> {ret:?}", data.len()))
            }
        }
    }
    out.push_str(&format!(
        "\n    state {:?} {:?}@{:?} records {:?} backlog {}/{}",
        st,
        s.post.id,
        s.post.inc,
        s.post.sorted(),
        s.post.upd,
        s.post.cust
    ));
    out
}

/// drive one history with the monitor of `prop`
pub fn run_case(prop: &str, seed: u64, trace: bool) -> CaseOut {
    allow_wild(false);
    let mut w = world(prop, seed);
    if prop == "C13" && w.tmode == TimerMode::Hostile {
        w.tmode = TimerMode::OutOfOrder;
    }
    let mut out = CaseOut::new(seed);
    if trace {
        out.trace.push(format!("world {w:?}"));
    }
    let mut adv = match Adv::new(w.clone()) {
        Ok(a) => a,
        Err(Panic(m)) => {
            out.err = Some(m);
            return out;
        }
    };
    let setup = Setup {
        id: adv.own(),
        cfg: w.cfg.clone(),
        seed: w.seed ^ 0xabcdef,
        codec: w.codec,
        handler: w.hcfg,
    };
    let mut set = MonSet::new(prop, &setup, w.tmode == TimerMode::InOrder, w.tight);
    let mut sig = 0xcbf29ce484222325u64;
    for i in 0..w.steps {
        let p = adv.plan();
        let (fired, genuine) = (p.fired, p.genuine);
        let shown = if trace { format!("{:?}", p.op) } else { String::new() };
        let (s, seq0) = match adv.step(p) {
            Ok(x) => x,
            Err(Panic(m)) => {
                if trace {
                    out.trace.push(format!("#{i} {shown}\n    => {m}"));
                }
                out.err = Some(m);
                break;
            }
        };
        out.steps += 1;
        for e in &s.evs {
            fnv(&mut sig, match e {
                Ev::Send { to, data } => hash2(to.addr as u64, hash_of(&data[..])),
                Ev::Timer { t, .. } => tk(t) as u64 + 77,
                Ev::Note(n) => hash_of(&format!("{n:?}")),
                Ev::Recv { data, .. } => data.len() as u64,
            });
        }
        let o = adv.tr.observe(&s, seq0, fired, genuine, w.hcfg);
        if trace {
            out.trace.push(show_step(i, &s, o.st_post, w.codec));
        }
        let v = set.step(&o, &s, &mut out.c, || {
            adv.inst
                .timers
                .iter()
                .map(|p| (&p.t, adv.tr.issue.get(&p.seq).copied().unwrap_or(u64::MAX)))
                .collect()
        });
        if let Err(e) = v {
            out.err = Some(format!("step {i}: {e}"));
            break;
        }
        adv.learn(&o);
    }
    if out.err.is_none() {
        if let MonSet::C16(m) = &mut set {
            if let Err(e) = drain(&mut adv, m, &mut out) {
                out.err = Some(e);
            }
        }
    }
    out.sig = sig;
    out
}

/// what an AccumulatingRuntime still has to yield
#[derive(Default)]
pub struct Owed {
    sends: std::collections::VecDeque<(Nid, Vec<u8>)>,
    timers: std::collections::VecDeque<(T, Duration)>,
    notes: std::collections::VecDeque<foca::OwnedNotification<Nid>>,
    /// payloads taken out and kept
    held: Vec<(bytes::Bytes, Vec<u8>)>,
    scratch: AccumulatingRuntime<Nid>,
    /// 0: drained after every call; otherwise now and then, in portions
    lazy: u64,
    n: u64,
}

/// the very same op through AccumulatingRuntime
fn twin_step(twin: &mut crate::core::F, rt: &mut AccumulatingRuntime<Nid>, owed: &mut Owed, s: &Step, c: &mut Counters) -> V {
    let _ = twin.announce(probe_dst(), &mut owed.scratch);
    while owed.scratch.to_send().is_some() {}
    while owed.scratch.to_notify().is_some() {}
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply_op(twin, &s.op, &mut *rt)))
        .map_err(|p| format!("twin panicked: {}", panic_text(p)))?;
    if r != s.res {
        return Err(format!("with AccumulatingRuntime the call gave {r:?}, directly {:?}", s.res));
    }
    owed.sends.extend(s.sends().map(|(to, d)| (to.clone(), d.to_vec())));
    owed.timers.extend(s.timers().map(|(t, a)| (t.clone(), a)));
    owed.notes.extend(s.notes().cloned());
    owed.n += 1;
    let left = |o: &Owed| o.sends.len() + o.timers.len() + o.notes.len();
    if rt.backlog() != left(owed) {
        return Err(format!("AccumulatingRuntime holds {} effects, {} are due", rt.backlog(), left(owed)));
    }
    // how many of each kind to take now
    let take = |k: u64| match owed.lazy {
        0 => usize::MAX,
        l => match hash2(l + k, owed.n) % 4 {
            0 => usize::MAX,
            1 => 1,
            2 => 2,
            _ => 0,
        },
    };
    let (ks, kt, kn) = (take(1), take(2), take(3));
    if left(owed) > 0 && (ks == 0 || kt == 0 || kn == 0) {
        c.hit("twin_left_undrained");
    }
    for _ in 0..ks.min(owed.sends.len()) {
        let (to, data) = owed.sends.pop_front().unwrap();
        match rt.to_send() {
            Some((t, d)) if t == to && d[..] == data[..] => {
                if owed.held.len() < 4 {
                    owed.held.push((d, data));
                }
            }
            x => return Err(format!("AccumulatingRuntime yields send {x:?}, expected to {to:?} {data:?}")),
        }
        c.hit("twin_sends");
    }
    for _ in 0..kt.min(owed.timers.len()) {
        let (t, after) = owed.timers.pop_front().unwrap();
        match rt.to_schedule() {
            Some((a, x)) if a == after && x == t => {}
            x => return Err(format!("AccumulatingRuntime yields timer {x:?}, expected {t:?} after {after:?}")),
        }
        c.hit("twin_timers");
    }
    for _ in 0..kn.min(owed.notes.len()) {
        let n = owed.notes.pop_front().unwrap();
        match rt.to_notify() {
            Some(x) if x == n => {}
            x => return Err(format!("AccumulatingRuntime yields notification {x:?}, expected {n:?}")),
        }
        c.hit("twin_notifications");
    }
    if rt.backlog() != left(owed) {
        return Err(format!("AccumulatingRuntime holds {} effects, {} are due", rt.backlog(), left(owed)));
    }
    if owed.sends.is_empty() && rt.to_send().is_some()
        || owed.timers.is_empty() && rt.to_schedule().is_some()
        || owed.notes.is_empty() && rt.to_notify().is_some()
    {
        return Err("AccumulatingRuntime has effects left over".into());
    }
    // payloads taken out earlier are not touched by later ones
    if owed.n % 8 == 0 {
        if let Some((d, was)) = owed.held.iter().find(|(d, was)| d[..] != was[..]) {
            return Err(format!("a payload yielded by AccumulatingRuntime changed from {was:?} to {:?}", &d[..]));
        }
        owed.held.clear();
    }
    Ok(())
}

/// accepted items that fit do get out (exactly max_transmissions times) given an eligible member
fn drain(adv: &mut Adv, m: &mut C16, out: &mut CaseOut) -> V {
    let elig = adv.inst.snap.active.iter().filter(|x| adv.w.hcfg.allows(x.id())).count();
    if elig == 0 || adv.inst.snap.cust == 0 {
        return Ok(());
    }
    let max = adv.inst.cfg.max_packet_size.get();
    // longest Broadcast header towards any eligible member
    let hl = adv
        .inst
        .snap
        .active
        .iter()
        .map(|x| {
            h_len(
                adv.w.codec,
                &Header {
                    src: adv.own(),
                    src_incarnation: MAXINC,
                    dst: x.id().clone(),
                    message: Message::Broadcast,
                },
            )
        })
        .max()
        .unwrap();
    let budget: usize = m.pending().map(|x| x.1).sum::<usize>() + 2;
    if budget > 2000 {
        return Ok(());
    }
    for _ in 0..budget {
        let (s, seq0) = adv
            .step(Planned { op: Op::Broadcast, fired: None, genuine: false })
            .map_err(|Panic(m)| m)?;
        let hcfg = adv.w.hcfg;
        let o = adv.tr.observe(&s, seq0, None, false, hcfg);
        m.step(&o, &mut out.c)?;
        if adv.inst.snap.cust == 0 {
            break;
        }
    }
    out.c.hit("drains");
    let stuck: Vec<usize> = m.pending().map(|x| x.0.len()).filter(|n| hl + 2 + n <= max).collect();
    if !stuck.is_empty() {
        return Err(format!(
            "after {budget} broadcast() calls with {elig} eligible members, items of {stuck:?} bytes that fit were never fully sent"
        ));
    }
    Ok(())
}
