//! C06: nothing makes foca panic, overflow or abort.
use crate::adv::{ms, nz, token, CaseOut};
use crate::core::*;
use crate::wire::build;
use foca::{Config, Header, Member, Message, PeriodicParams, State, Timer};
use rand::{rngs::SmallRng, Rng, SeedableRng};
use std::num::{NonZeroU32, NonZeroU8, NonZeroUsize};
use std::time::Duration;

const DURS: [Duration; 8] = [
    Duration::ZERO,
    Duration::from_nanos(1),
    Duration::from_millis(100),
    Duration::from_millis(500),
    Duration::from_millis(1500),
    Duration::from_secs(86_400),
    Duration::from_secs(u64::MAX),
    Duration::MAX,
];
fn dur(r: &mut SmallRng) -> Duration {
    if r.random_bool(0.5) {
        ms(r.random_range(1..5000))
    } else {
        DURS[r.random_range(0..DURS.len())]
    }
}
fn count(r: &mut SmallRng) -> NonZeroUsize {
    nz(*[1usize, 2, 3, 5, 300, 65_535, 65_536, u32::MAX as usize, isize::MAX as usize, usize::MAX]
        .get(r.random_range(0..10))
        .unwrap())
}
fn packet(r: &mut SmallRng) -> NonZeroUsize {
    nz(match r.random_range(0..10) {
        0 => r.random_range(1..8),
        1 | 2 => r.random_range(1..80),
        3 => r.random_range(20..200),
        4 => 65_535 + r.random_range(0..3),
        5 => 200_000,
        6 => *[usize::MAX, isize::MAX as usize, u32::MAX as usize, usize::MAX - 1].get(r.random_range(0..4)).unwrap(),
        _ => 1400,
    })
}
fn params(r: &mut SmallRng) -> Option<PeriodicParams> {
    r.random_bool(0.6).then(|| PeriodicParams { frequency: dur(r), num_members: count(r) })
}
fn config(r: &mut SmallRng) -> Config {
    Config {
        // documented preconditions on these two: see DESIGN.md (foca never validates them)
        probe_period: dur(r),
        probe_rtt: dur(r),
        num_indirect_probes: count(r),
        max_transmissions: NonZeroU8::new(*[1u8, 1, 2, 3, 10, 254, 255].get(r.random_range(0..7)).unwrap()).unwrap(),
        suspect_to_down_after: dur(r),
        remove_down_after: dur(r),
        max_packet_size: packet(r),
        notify_down_members: r.random_bool(0.6),
        periodic_announce: params(r),
        periodic_announce_to_down_members: params(r),
        periodic_gossip: params(r),
    }
}

struct Abuse<'a> {
    r: &'a mut SmallRng,
    inst: Vec<Inst>,
    /// (instance that sent it, destination, bytes)
    sent: Vec<(usize, Nid, Vec<u8>)>,
    timers: Vec<Vec<T>>,
    tokens: Vec<u8>,
    codec: AnyCodec,
    naddr: u16,
    kinds: Vec<u8>,
    last_pn: u8,
    out: CaseOut,
    trace: bool,
}
impl Abuse<'_> {
    fn id(&mut self) -> Nid {
        let x = self.r.random_range(0..10);
        if x < 3 {
            let k = self.r.random_range(0..self.inst.len());
            return self.inst[k].foca.identity().clone();
        }
        let a = self.r.random_range(0..=self.naddr);
        let g = *[0u16, 0, 0, 1, 1, 2, 3, u16::MAX - 1, u16::MAX].get(self.r.random_range(0..9)).unwrap();
        let k = self.kinds[a as usize % self.kinds.len()];
        if x == 9 {
            let k = self.r.random();
            return Nid::new(a, g, k);
        }
        Nid::new(a, g, k)
    }
    fn inc(&mut self) -> u16 {
        *[0u16, 0, 0, 1, 2, 3, MAXINC - 1, MAXINC].get(self.r.random_range(0..8)).unwrap()
    }
    fn member(&mut self) -> M {
        let st = [State::Alive, State::Alive, State::Suspect, State::Down][self.r.random_range(0..4)];
        let id = self.id();
        let inc = self.inc();
        Member::new(id, inc, st)
    }
    fn msg(&mut self) -> Msg {
        let x = self.id();
        let pn = if self.r.random_bool(0.6) { self.last_pn } else { self.r.random() };
        match self.r.random_range(0..12) {
            0 => Message::Ping(pn),
            1 | 11 => Message::Ack(pn),
            2 => Message::PingReq { target: x, probe_number: pn },
            3 => Message::IndirectPing { origin: x, probe_number: pn },
            4 => Message::IndirectAck { target: x, probe_number: pn },
            5 => Message::ForwardedAck { origin: x, probe_number: pn },
            6 => Message::Announce,
            7 => Message::Feed,
            8 => Message::Gossip,
            9 => Message::Broadcast,
            _ => Message::TurnUndead,
        }
    }
    fn item(&mut self) -> Vec<u8> {
        let n = *[0usize, 1, 2, 3, 5, 20, 60, 300, 1398, 65_533, 65_534, 65_535, 65_536, 70_000, 140_000]
            .get(if self.r.random_bool(0.9) { self.r.random_range(0..7) } else { self.r.random_range(0..15) })
            .unwrap();
        let mut v = vec![self.r.random::<u8>(); n];
        for b in v.iter_mut().take(4) {
            *b = self.r.random_range(0..5);
        }
        v
    }
    fn datagram(&mut self, to: usize) -> Vec<u8> {
        let x = self.r.random_range(0..20);
        if x == 0 {
            let n = self.r.random_range(0..120);
            return (0..n).map(|_| self.r.random()).collect();
        }
        let mut d = if x < 8 && !self.sent.is_empty() {
            let k = self.r.random_range(0..self.sent.len());
            self.sent[k].2.clone()
        } else if self.codec == AnyCodec::Weird {
            let n = self.r.random_range(0..60);
            (0..n).map(|_| if self.r.random_bool(0.7) { self.r.random_range(0..4) } else { self.r.random() }).collect()
        } else {
            let dst = if self.r.random_bool(0.9) { self.inst[to].foca.identity().clone() } else { self.id() };
            let h = Header { src: self.id(), src_incarnation: self.inc(), dst, message: self.msg() };
            let n = *[0usize, 0, 1, 2, 3, 5, 40].get(self.r.random_range(0..7)).unwrap();
            let members: Vec<M> = (0..n).map(|_| self.member()).collect();
            let k = *[0usize, 0, 1, 2, 4].get(self.r.random_range(0..5)).unwrap();
            let items: Vec<Vec<u8>> = (0..k).map(|_| self.item()).filter(|i| i.len() < 65_536).collect();
            let header_only = matches!(h.message, Message::Announce | Message::TurnUndead | Message::Broadcast);
            let with = if header_only { self.r.random_bool(0.05) } else { self.r.random_bool(0.9) };
            let items = if matches!(h.message, Message::Announce) && self.r.random_bool(0.9) { vec![] } else { items };
            build(self.codec, &h, with.then_some(&members[..]), &items)
        };
        if self.r.random_range(0..5) == 0 && !d.is_empty() {
            for _ in 0..self.r.random_range(1..4) {
                let n = d.len();
                if n == 0 {
                    break;
                }
                let at = self.r.random_range(0..n);
                match self.r.random_range(0..6) {
                    0 => d[at] ^= 1 << self.r.random_range(0..8),
                    1 => d[at] = *[0u8, 1, 2, 127, 128, 254, 255].get(self.r.random_range(0..7)).unwrap(),
                    2 => d.truncate(at),
                    3 => d.extend((0..self.r.random_range(1..5)).map(|_| 0u8)),
                    4 => {
                        let k = self.r.random();
                        d.insert(at, k)
                    }
                    _ => {
                        d.remove(at);
                    }
                }
            }
            self.out.c.hit("mutated_datagrams");
        }
        d
    }
    fn timer(&mut self, i: usize) -> T {
        let x = self.r.random_range(0..10);
        if x < 7 && !self.timers[i].is_empty() {
            let k = match self.r.random_range(0..3) {
                0 => 0,
                1 => self.timers[i].len() - 1,
                _ => self.r.random_range(0..self.timers[i].len()),
            };
            // sometimes left in place: delivered again later
            return if self.r.random_bool(0.8) { self.timers[i].remove(k) } else { self.timers[i][k].clone() };
        }
        let tok = if self.r.random_bool(0.7) { self.tokens[i] } else { self.r.random() };
        let id = self.id();
        match self.r.random_range(0..8) {
            0 => Timer::ProbeRandomMember(tok),
            1 => Timer::SendIndirectProbe { probed_id: id, token: tok },
            2 | 3 => {
                let incarnation = self.inc();
                Timer::ChangeSuspectToDown { member_id: id, incarnation, token: tok }
            }
            4 => Timer::PeriodicAnnounce(tok),
            5 => Timer::PeriodicAnnounceDown(tok),
            6 => Timer::PeriodicGossip(tok),
            _ => Timer::RemoveDown(id),
        }
    }
    fn go(&mut self, i: usize, op: Op) -> Result<(), String> {
        self.out.steps += 1;
        let name = match &op {
            Op::Data(_) => "data",
            Op::Timer(_) => "timer",
            Op::Announce(_) => "announce",
            Op::Gossip => "gossip",
            Op::Broadcast => "broadcast",
            Op::Leave => "leave",
            Op::ChangeId(_) => "change_identity",
            Op::Reuse => "reuse",
            Op::Apply(..) => "apply",
            Op::AddBroadcast(_) => "add_broadcast",
            Op::SetConfig(_) => "set_config",
        };
        self.out.c.hit(name);
        if self.trace && self.out.trace.len() < 3000 {
            let mut t = format!("{op:?}");
            if t.len() > 400 {
                t.truncate((0..=400).rev().find(|k| t.is_char_boundary(*k)).unwrap());
            }
            self.out.trace.push(format!("#{} node {i} {t}", self.out.steps));
        }
        let s = self.inst[i].exec(op).map_err(|Panic(m)| {
            let mut m = m;
            if m.len() > 600 {
                let k = (0..=200).rev().find(|k| m.is_char_boundary(*k)).unwrap();
                let j = (m.len() - 300..m.len()).find(|k| m.is_char_boundary(*k)).unwrap();
                m = format!("{} … {}", &m[..k], &m[j..]);
            }
            m
        })?;
        if s.res.is_err() {
            self.out.c.hit("calls_rejected");
        }
        fnv(&mut self.out.sig, hash_of(&(name, s.res.is_ok(), s.evs.len())));
        for e in s.evs {
            match e {
                Ev::Send { to, data } => {
                    self.out.c.hit("datagrams_sent");
                    self.out.c.max("max_datagram", data.len() as u64);
                    if let (AnyCodec::Hand, Some(b)) = (self.codec, data.len().checked_sub(1)) {
                        let _ = b;
                        let mut c = self.codec;
                        if let Ok(Header { message: Message::Ping(p), .. }) = foca::Codec::decode_header(&mut c, &data[..]) {
                            self.last_pn = p;
                        }
                    }
                    if data.len() < 3000 || self.sent.len() < 8 {
                        if self.sent.len() > 40 {
                            self.sent.swap_remove(self.out.steps as usize % 40);
                        }
                        self.sent.push((i, to, data));
                    }
                }
                Ev::Timer { t, .. } => {
                    if let Some(k) = token(&t) {
                        if k != self.tokens[i] {
                            self.out.c.hit("epochs");
                        }
                        self.tokens[i] = k;
                    }
                    if self.timers[i].len() > 400 {
                        self.timers[i].swap_remove(0);
                    }
                    self.timers[i].push(t);
                }
                Ev::Note(foca::OwnedNotification::Defunct) => self.out.c.hit("defunct"),
                Ev::Note(foca::OwnedNotification::Rejoin(_)) => self.out.c.hit("rejoins"),
                _ => {}
            }
        }
        self.inst[i].timers.clear();
        Ok(())
    }
    fn run(&mut self, steps: usize) -> Result<(), String> {
        for _ in 0..steps {
            let i = self.r.random_range(0..self.inst.len());
            // what a real transport would do: hand over something one of them sent to it
            if self.inst.len() > 1 && self.r.random_bool(0.15) {
                let me = self.inst[i].foca.identity().addr;
                if let Some(k) = self.sent.iter().rposition(|s| s.1.addr == me) {
                    let (_, _, d) = self.sent.remove(k);
                    self.out.c.hit("genuine_deliveries");
                    self.go(i, Op::Data(d))?;
                    continue;
                }
            }
            match self.r.random_range(0..100) {
                0..=39 => {
                    let d = self.datagram(i);
                    self.go(i, Op::Data(d))?
                }
                40..=66 => {
                    let t = self.timer(i);
                    self.go(i, Op::Timer(t))?
                }
                67..=73 => {
                    let n = *[0usize, 1, 1, 2, 4, 20].get(self.r.random_range(0..6)).unwrap();
                    let v = (0..n).map(|_| self.member()).collect();
                    let b = self.r.random_bool(0.7);
                    self.go(i, Op::Apply(v, b))?
                }
                74 => {
                    // many at once
                    let n = self.r.random_range(50..600u16);
                    let base = self.r.random_range(0..1000u16);
                    let k = self.kinds[0];
                    let st = [State::Alive, State::Alive, State::Down][self.r.random_range(0..3)];
                    let v = (0..n).map(|a| Member::new(Nid::new(base + a, 0, k), 0, st)).collect();
                    let b = self.r.random_bool(0.5);
                    self.out.c.hit("bulk_applies");
                    self.go(i, Op::Apply(v, b))?
                }
                75..=78 => {
                    let id = self.id();
                    self.go(i, Op::Announce(id))?
                }
                79..=82 => self.go(i, Op::Gossip)?,
                83..=85 => self.go(i, Op::Broadcast)?,
                86 => self.go(i, Op::Leave)?,
                87 | 88 => {
                    let id = self.id();
                    self.go(i, Op::ChangeId(id))?
                }
                89 | 90 => self.go(i, Op::Reuse)?,
                91..=94 => {
                    let d = self.item();
                    self.go(i, Op::AddBroadcast(d))?
                }
                95..=97 => {
                    let mut c = config(self.r);
                    let old = &self.inst[i].cfg;
                    if self.r.random_bool(0.9) {
                        c.probe_period = old.probe_period;
                        c.probe_rtt = old.probe_rtt;
                        if old.periodic_announce.is_none() {
                            c.periodic_announce = None;
                        }
                        if old.periodic_announce_to_down_members.is_none() {
                            c.periodic_announce_to_down_members = None;
                        }
                        if old.periodic_gossip.is_none() {
                            c.periodic_gossip = None;
                        }
                    }
                    self.go(i, Op::SetConfig(Box::new(c)))?
                }
                98 => {
                    if self.r.random_bool(0.85) {
                        continue;
                    }
                    // the same timer over and over: wraps probe numbers
                    for _ in 0..self.r.random_range(10..300) {
                        let t = self.tokens[i];
                        self.go(i, Op::Timer(Timer::ProbeRandomMember(t)))?;
                        if self.r.random_bool(0.5) {
                            if let Some(t) = self.timers[i].pop() {
                                self.go(i, Op::Timer(t))?;
                            }
                        }
                    }
                    self.out.c.hit("probe_marathons");
                }
                _ => {
                    // up, down, forgotten, up again: wraps the timer token
                    if self.r.random_bool(0.9) {
                        continue;
                    }
                    let id = Nid::new(self.naddr + 1, 0, 0);
                    for _ in 0..self.r.random_range(10..300) {
                        for st in [State::Alive, State::Down] {
                            self.go(i, Op::Apply(vec![Member::new(id.clone(), 0, st)], true))?;
                        }
                        self.go(i, Op::Timer(Timer::RemoveDown(id.clone())))?;
                    }
                    self.out.c.hit("flap_marathons");
                }
            }
        }
        Ok(())
    }
}

pub fn abuse(_p: &str, seed: u64, trace: bool, thorough: bool) -> CaseOut {
    allow_wild(true);
    let mut rng = SmallRng::seed_from_u64(seed);
    let r = &mut rng;
    let n = *[1usize, 1, 2, 2, 3].get(r.random_range(0..5)).unwrap();
    let codec = *[
        AnyCodec::Hand,
        AnyCodec::Hand,
        AnyCodec::Hand,
        AnyCodec::Dirty,
        AnyCodec::Bincode,
        AnyCodec::Postcard,
        AnyCodec::Tiny,
        AnyCodec::Weird,
    ]
    .get(r.random_range(0..8))
    .unwrap();
    let wild = r.random_bool(0.2);
    let profile = *[0u8, 0, 0, 1, 3, 4].get(r.random_range(0..6)).unwrap();
    let naddr = *[1u16, 2, 3, 5, 8, 60].get(r.random_range(0..6)).unwrap();
    let kinds: Vec<u8> = (0..=naddr)
        .map(|_| r.random_range(0..4u8) | (profile << 2) | if wild && r.random_bool(0.7) { WILD } else { 0 })
        .collect();
    let mut ids = vec![];
    for a in 0..=naddr.min(6) {
        for g in 0..3 {
            ids.push(Nid::new(a, g, kinds[a as usize]));
        }
    }
    tiny_reset(r.random(), ids);
    let mut out = CaseOut::new(seed);
    let mut inst = vec![];
    let res = (|| {
        for i in 0..n {
            let seed: u64 = r.random();
            let rng = match r.random_range(0..12) {
                0 => SimRng::Const(0),
                1 => SimRng::Const(u64::MAX),
                2 => SimRng::Const(r.random()),
                _ => SimRng::new(seed),
            };
            let s = Setup {
                id: Nid::new(i as u16, r.random_range(0..3), kinds[i.min(naddr as usize)]),
                cfg: if r.random_bool(0.25) {
                    let k = NonZeroU32::new(r.random_range(1..=u32::MAX)).unwrap();
                    if r.random() { Config::new_lan(k) } else { Config::new_wan(k) }
                } else {
                    config(r)
                },
                seed,
                codec,
                handler: HandlerCfg {
                    key_mode: r.random_range(0..6),
                    accept: r.random_range(0..5),
                    pred: *[0u8, 0, 1, 2, 3].get(r.random_range(0..5)).unwrap(),
                },
            };
            if trace {
                out.trace.push(format!("node {i}: {:?} {codec:?} {:?} {:?}", s.id, s.cfg, s.handler));
            }
            let mut x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Inst::with_rng(&s, rng)))
                .map_err(|p| format!("panic in the constructor: {}", panic_text(p)))?;
            x.watch = r.random_bool(0.3);
            x.watch_inc = x.watch && r.random();
            x.start().map_err(|Panic(m)| m)?;
            inst.push(x);
        }
        Ok(())
    })();
    if let Err(e) = res {
        out.err = Some(e);
        return out;
    }
    out.c.hit(match codec {
        AnyCodec::Hand => "codec_hand",
        AnyCodec::Dirty => "codec_dirty",
        AnyCodec::Bincode => "codec_bincode",
        AnyCodec::Postcard => "codec_postcard",
        AnyCodec::Tiny => "codec_tiny",
        AnyCodec::Weird => "codec_weird",
    });
    if wild {
        out.c.hit("wild_identities");
    }
    let steps = *[20usize, 60, 150, 400].get(r.random_range(0..4)).unwrap() * if thorough && r.random_bool(0.05) { 10 } else { 1 };
    let mut a = Abuse {
        inst,
        r,
        sent: vec![],
        timers: vec![vec![]; n],
        tokens: vec![0; n],
        codec,
        naddr,
        kinds,
        last_pn: 1,
        out,
        trace,
    };
    let e = a.run(steps);
    let mut out = a.out;
    out.err = e.err();
    out
}

fn preset_one(n: u32) -> Result<u64, String> {
    let k = NonZeroU32::new(n).unwrap();
    let (a, b) = std::panic::catch_unwind(|| (Config::new_lan(k), Config::new_wan(k)))
        .map_err(|p| format!("configuration constructor panics for a cluster of {n}: {}", panic_text(p)))?;
    for c in [&a, &b] {
        // "succeed": what comes out satisfies the documented constraints of a Config
        if c.probe_rtt.is_zero() || c.probe_rtt >= c.probe_period || c.suspect_to_down_after.is_zero() {
            return Err(format!("cluster of {n}: the constructor yields a configuration breaking its documented limits: {c:?}"));
        }
    }
    Ok(a.max_transmissions.get() as u64)
}

/// every power-of-two edge, round number and small size; thorough: every size there is
pub fn presets(_p: &str, seed: u64, trace: bool, thorough: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let mut f = |n: u32| -> bool {
        out.steps += 1;
        match preset_one(n) {
            Ok(_) => true,
            Err(e) => {
                out.err = Some(e);
                false
            }
        }
    };
    let mut ns: Vec<u32> = (1..200_000).collect();
    for p in 1..32 {
        for d in -3i64..=3 {
            ns.push(((1i64 << p) + d).clamp(1, u32::MAX as i64) as u32);
        }
    }
    let mut t = 10u64;
    while t <= u32::MAX as u64 {
        for m in 1..10u64 {
            for d in [-1i64, 0, 1] {
                ns.push(((m * t) as i64 + d).clamp(1, u32::MAX as i64) as u32);
            }
        }
        t *= 10;
    }
    ns.extend((0..2000u32).map(|d| u32::MAX - d));
    ns.extend((0..200_000).map(|_| r.random_range(1..=u32::MAX)));
    let total = ns.len() as u64;
    for n in ns {
        if !f(n) {
            return out;
        }
    }
    out.c.add("cluster_sizes", total);
    if thorough && !trace {
        // all 2^32 - 1 of them
        let bad = std::sync::Mutex::new(None::<String>);
        let next = std::sync::atomic::AtomicU64::new(0);
        let done = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let b = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if b >= 4096 || bad.lock().unwrap().is_some() {
                        break;
                    }
                    for n in (b << 20)..((b + 1) << 20) {
                        if n == 0 {
                            continue;
                        }
                        if let Err(e) = preset_one(n as u32) {
                            *bad.lock().unwrap() = Some(e);
                            return;
                        }
                        if n % (1 << 12) == 0 {
                            done.fetch_add(1 << 12, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                });
            }
        });
        out.c.add("cluster_sizes", done.into_inner());
        out.err = bad.into_inner().unwrap();
    }
    out
}

/// more members, longer backlogs and bigger packets than 16 bits can count
pub fn huge(p: &str, seed: u64, trace: bool, thorough: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let n: u32 = if thorough { 65_535 } else { 65_500 };
    let res = (|| -> Result<(), String> {
        // 65535 distinct u16 addresses are not enough: use an identity whose address is wider
        let mut cfg = Config::simple();
        cfg.max_packet_size = NonZeroUsize::new(8 << 20).unwrap();
        cfg.notify_down_members = r.random();
        cfg.max_transmissions = NonZeroU8::new(*[1u8, 2, 255].get(r.random_range(0..3)).unwrap()).unwrap();
        cfg.num_indirect_probes = nz(usize::MAX);
        let total = n + 4500;
        let by_datagram = r.random_bool(0.5);
        let broadcast = by_datagram || r.random_bool(0.5);
        let st = if !by_datagram && r.random_bool(0.3) { State::Down } else { State::Alive };
        out.c.add("members_by_datagram", by_datagram as u64);
        if trace {
            out.trace.push(format!("{total} members, broadcast={broadcast} {st:?}, {cfg:?}"));
        }
        let seed: u64 = r.random();
        let tx = cfg.max_transmissions.get();
        let steps = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Sink, foca::Error> {
            let mut f = foca::Foca::new(Wide(0), cfg, SmallRng::seed_from_u64(seed), WideCodec);
            let mut rt = Sink { format: matches!(p, "C06" | "C07"), ..Sink::default() };
            if p == "C15" {
                rt.told = vec![0; total as usize + 1];
                (rt.queued, rt.tx) = (broadcast, tx as u32);
            }
            let many = total;
            let mut first = 1;
            if by_datagram {
                // most of them arrive in a single datagram
                let mut d = Vec::new();
                let h = Header { src: Wide(9), src_incarnation: 0, dst: Wide(0), message: Message::<Wide>::Gossip };
                let bad = |_| foca::Error::MalformedPacket;
                foca::Codec::encode_header(&mut WideCodec, &h, &mut d).map_err(bad)?;
                d.extend(u16::MAX.to_be_bytes());
                for a in 1..=u16::MAX as u32 {
                    foca::Codec::encode_member(&mut WideCodec, &Member::alive(Wide(a)), &mut d).map_err(bad)?;
                }
                f.handle_data(&d, &mut rt)?;
                first = u16::MAX as u32 + 1;
            }
            f.apply_many((first..=many).map(|a| Member::new(Wide(a), 0, st)), broadcast, &mut rt)?;
            f.apply_many(std::iter::once(Member::new(Wide(7), 0, State::Alive)), broadcast, &mut rt)?;
            rt.judge_state(p, &f, many, st, broadcast);
            if p == "C01" {
                // its own state, once more: nothing may change
                let key = |m: &Member<Wide>| (m.id().0, m.incarnation(), m.state() as u8);
                let own: Vec<_> = f.iter_membership_state().cloned().collect();
                let mut before: Vec<_> = own.iter().map(key).collect();
                f.apply_many(own.into_iter(), broadcast, &mut rt)?;
                let mut after: Vec<_> = f.iter_membership_state().map(key).collect();
                before.sort_unstable();
                after.sort_unstable();
                if before != after {
                    rt.bad.get_or_insert(format!("re-applying its own {many} records changed the view"));
                }
                rt.judge_state(p, &f, many, st, broadcast);
            }
            let mut d = Vec::new();
            let mut c = WideCodec;
            let h = Header { src: Wide(9), src_incarnation: 0, dst: Wide(0), message: Message::<Wide>::Announce };
            foca::Codec::encode_header(&mut c, &h, &mut d).map_err(|_| foca::Error::MalformedPacket)?;
            f.handle_data(&d, &mut rt)?;
            f.gossip(&mut rt)?;
            f.gossip(&mut rt)?;
            rt.judge_queue(p, &f, many, broadcast, tx, st);
            f.leave_cluster(&mut rt)?;
            Ok(rt)
        }))
        .map_err(|p| format!("panic with {total} members: {}", panic_text(p)))?;
        match steps {
            Ok(rt) => {
                out.c.add("datagrams_sent", rt.n);
                out.c.max("max_datagram", rt.big);
                out.c.max("max_items", rt.items);
                if let (true, Some(e)) = (matches!(p, "C01" | "C07" | "C08" | "C09" | "C15"), rt.bad) {
                    return Err(format!("with {total} members: {e}"));
                }
                out.c.hit("more_than_64k_members");
                out.steps += 8;
            }
            Err(e) => return Err(format!("unexpected error with {total} members: {e}")),
        }
        Ok(())
    })();
    out.err = res.err();
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Wide(u32);
impl foca::Identity for Wide {
    type Addr = u32;
    fn renew(&self) -> Option<Self> {
        None
    }
    fn addr(&self) -> u32 {
        self.0
    }
    fn win_addr_conflict(&self, _: &Self) -> bool {
        false
    }
}
#[derive(Default)]
struct Sink {
    n: u64,
    big: u64,
    items: u64,
    up: u64,
    down: u64,
    /// how often each address was gossiped about (C15 only)
    told: Vec<u32>,
    queued: bool,
    tx: u32,
    format: bool,
    bad: Option<String>,
}
impl Sink {
    fn judge_state(&mut self, p: &str, f: &foca::Foca<Wide, WideCodec, SmallRng, foca::NoCustomBroadcast>, total: u32, st: State, broadcast: bool) {
        let active = if st == State::Down { 0 } else { total as usize };
        let e = match p {
            "C08" => {
                let listed = f.iter_members().count();
                // the record everybody else shares may have been refreshed; only counts are compared
                (f.num_members() != active || listed != active || self.up != active as u64 || self.down != 0)
                    .then(|| format!("num_members {} iter_members {listed} MemberUp {} MemberDown {}, {active} are active", f.num_members(), self.up, self.down))
            }
            "C09" => {
                let mut a: Vec<u32> = f.iter_membership_state().map(|m| m.id().0).collect();
                let n = a.len();
                a.sort_unstable();
                a.dedup();
                (a.len() != n || n != total as usize || a.first() == Some(&0))
                    .then(|| format!("{n} records for {} addresses of {total} heard of (first {:?})", a.len(), a.first()))
            }
            "C15" | "C01" => {
                let want = if broadcast { total as usize } else { 0 };
                (f.updates_backlog() != want).then(|| format!("updates_backlog {} after {want} accepted updates that were to be broadcast", f.updates_backlog()))
            }
            _ => None,
        };
        if let Some(e) = e {
            self.bad.get_or_insert(e);
        }
    }

    fn judge_queue(&mut self, p: &str, f: &foca::Foca<Wide, WideCodec, SmallRng, foca::NoCustomBroadcast>, total: u32, broadcast: bool, tx: u8, st: State) {
        if p != "C15" {
            return;
        }
        let told = core::mem::take(&mut self.told);
        // the sender of the Announce is known already: hearing from it again is no news
        let _ = st;
        let left = if broadcast { told[1..=total as usize].iter().filter(|&&n| n < tx as u32).count() } else { 0 };
        let over = told.iter().position(|&n| n > tx as u32);
        if let Some(a) = over {
            self.bad.get_or_insert(format!("member {a} gossiped {} times, max_transmissions {tx}", told[a]));
        }
        if f.updates_backlog() != left {
            self.bad.get_or_insert(format!("updates_backlog {}, but {left} of {total} updates have transmissions left", f.updates_backlog()));
        }
    }

    /// header, then for the kinds that piggyback a count and exactly that many members
    fn parse(&mut self, dst: Wide, d: &[u8]) {
        let word = |i: usize| d.get(i..i + 4).map(|b| u32::from_be_bytes(b.try_into().unwrap()));
        if d[8] == 2 && self.queued && !self.told.is_empty() {
            // the packet has room for all of them: whatever its counter can express must be in it
            let pending = self.told[1..].iter().filter(|&&n| n < self.tx).count().min(u16::MAX as usize);
            let has = d.len().saturating_sub(11) / 4;
            self.queued = pending > 0;
            if has != pending {
                self.bad.get_or_insert(format!("{pending} updates could go into this datagram, it carries {has}"));
            }
            // those left out have at most as many transmissions left
            let before = self.told.clone();
            for c in d.get(11..).unwrap_or(&[]).chunks_exact(4) {
                if let Some(n) = self.told.get_mut(u32::from_be_bytes(c.try_into().unwrap()) as usize) {
                    *n += 1;
                }
            }
            let most = (1..before.len()).filter(|&a| self.told[a] != before[a]).map(|a| before[a]).max();
            let least = (1..before.len()).filter(|&a| self.told[a] == before[a]).map(|a| before[a]).min();
            if let (Some(m), Some(l)) = (most, least) {
                if m > l {
                    self.bad.get_or_insert(format!("an update sent {m} times already went out before one sent {l} times"));
                }
            }
        }
        if !self.format {
            return;
        }
        let mut fail = |e: String| {
            self.bad.get_or_insert(e);
        };
        if d.len() > 8 << 20 {
            return fail(format!("{} bytes", d.len()));
        }
        if word(0) != Some(0) || word(4) != Some(dst.0) || d.len() < 9 {
            return fail(format!("bad header {:?} to {dst:?}", &d[..d.len().min(9)]));
        }
        if matches!(d[8], 0 | 3 | 4) {
            if d.len() != 9 {
                fail(format!("kind {} carries {} bytes after its header", d[8], d.len() - 9));
            }
            return;
        }
        // an absent member section is judged by the world monitor
        if d.len() == 9 {
            return;
        }
        let Some(count) = d.get(9..11).map(|b| u16::from_be_bytes([b[0], b[1]]) as usize) else {
            return fail("cut off count".into());
        };
        if d.len() != 11 + 4 * count {
            return fail(format!("count {count} but {} bytes of members follow (kind {})", d.len() - 11, d[8]));
        }
        if d[8] == 1 && (0..count).any(|i| matches!(word(11 + 4 * i), Some(a) if a == dst.0 || a == 0)) {
            fail(format!("feed to {dst:?} lists its receiver or its sender"));
        }
        self.items = self.items.max(count as u64);
    }
}
impl foca::Runtime<Wide> for &mut Sink {
    fn notify(&mut self, n: foca::Notification<'_, Wide>) {
        match n {
            foca::Notification::MemberUp(_) => self.up += 1,
            foca::Notification::MemberDown(_) => self.down += 1,
            _ => {}
        }
    }
    fn send_to(&mut self, to: Wide, d: &[u8]) {
        self.n += 1;
        self.big = self.big.max(d.len() as u64);
        self.parse(to, d);
    }
    fn submit_after(&mut self, _: Timer<Wide>, _: Duration) {}
}
struct WideCodec;
impl foca::Codec<Wide> for WideCodec {
    type Error = CErr;
    fn encode_header(&mut self, h: &Header<Wide>, mut b: impl bytes::BufMut) -> Result<(), CErr> {
        if b.remaining_mut() < 9 {
            return Err(CErr("full".into()));
        }
        b.put_u32(h.src.0);
        b.put_u32(h.dst.0);
        b.put_u8(match h.message {
            Message::Announce => 0,
            Message::Feed => 1,
            Message::TurnUndead => 3,
            Message::Broadcast => 4,
            _ => 2,
        });
        Ok(())
    }
    fn decode_header(&mut self, mut b: impl bytes::Buf) -> Result<Header<Wide>, CErr> {
        if b.remaining() < 9 {
            return Err(CErr("short".into()));
        }
        let src = Wide(b.get_u32());
        let dst = Wide(b.get_u32());
        let message = match b.get_u8() {
            0 => Message::Announce,
            1 => Message::Feed,
            3 => Message::TurnUndead,
            4 => Message::Broadcast,
            _ => Message::Gossip,
        };
        Ok(Header { src, src_incarnation: 0, dst, message })
    }
    fn encode_member(&mut self, m: &Member<Wide>, mut b: impl bytes::BufMut) -> Result<(), CErr> {
        if b.remaining_mut() < 4 {
            return Err(CErr("full".into()));
        }
        b.put_u32(m.id().0);
        Ok(())
    }
    fn decode_member(&mut self, mut b: impl bytes::Buf) -> Result<Member<Wide>, CErr> {
        if b.remaining() < 4 {
            return Err(CErr("short".into()));
        }
        Ok(Member::alive(Wide(b.get_u32())))
    }
}
