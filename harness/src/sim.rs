//! Workload W2: a discrete-event simulation of a whole cluster of real
//! instances: virtual clock, per-datagram latencies, timers fired on time.
use crate::adv::{max_header, ms, nz, show_step, CaseOut};
use crate::core::*;
use crate::mon::St;
use crate::wire::kind_name;
use foca::{Codec, Config, Header, Member, Message, PeriodicParams, State};
use rand::{rngs::SmallRng, Rng, SeedableRng};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::num::{NonZeroU32, NonZeroU8};
use std::time::Duration;

pub const US: fn(u64) -> Duration = Duration::from_micros;

#[derive(Clone, Debug)]
pub enum Lat {
    Const(u64),
    Uniform(u64, u64),
    /// one latency per directed link
    Link(u64, u64),
    /// either almost nothing or almost the maximum
    Bimodal(u64),
}

#[derive(Clone, Debug)]
enum Job {
    Data { to: u16, dst: Nid, from: u16, sent: Duration, data: Vec<u8> },
    Timer { node: usize, seq: u64, t: T },
}
struct Item {
    at: Duration,
    seq: u64,
    job: Job,
}
impl Item {
    fn cmp_key(&self, o: &Item) -> Ordering {
        self.at
            .cmp(&o.at)
            .then_with(|| match (&self.job, &o.job) {
                (Job::Data { .. }, Job::Timer { .. }) => Ordering::Less,
                (Job::Timer { .. }, Job::Data { .. }) => Ordering::Greater,
                (Job::Timer { t: a, .. }, Job::Timer { t: b, .. }) => a.cmp(b),
                _ => Ordering::Equal,
            })
            .then(self.seq.cmp(&o.seq))
    }
}
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.cmp_key(o) == Ordering::Equal
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        o.cmp_key(self)
    }
}

pub struct Node {
    pub inst: Inst,
    pub up: bool,
    pub left: bool,
    /// partition side
    pub side: u8,
}

pub enum Cause {
    Data { from: u16, dst: Nid, sent: Duration },
    Timer { seq: u64 },
    Call,
}
pub struct Happened {
    pub node: usize,
    pub step: Step,
    pub seq0: u64,
    pub cause: Cause,
}

/// faults of the transport
#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub drop_at: BTreeSet<u64>,
    pub loss: f64,
    pub dup: f64,
    pub partitioned: bool,
}

pub struct Sim {
    pub nodes: Vec<Node>,
    q: BinaryHeap<Item>,
    pub now: Duration,
    pub seq: u64,
    pub r: SmallRng,
    pub lat: Lat,
    pub faults: Faults,
    pub sent: u64,
    pub dropped: Vec<(u64, &'static str, Nid, Nid)>,
    pub events: u64,
    pub trace: Option<Vec<String>>,
    pub codec: AnyCodec,
    pub sig: u64,
    pub link_seed: u64,
    /// custom broadcasts are added while the simulation runs
    pub items: bool,
    nitems: u32,
    /// users call gossip(), broadcast(), announce() and set_config() meanwhile
    pub chatter: bool,
    pub chats: u32,
    pub heal: bool,
}

impl Sim {
    pub fn new(setups: Vec<Setup>, lat: Lat, seed: u64, trace: bool, watch: bool) -> Result<Sim, Panic> {
        let codec = setups[0].codec;
        let mut nodes = vec![];
        for s in &setups {
            let mut inst = Inst::new(s);
            inst.watch = watch || trace;
            inst.watch_inc = watch;
            inst.start()?;
            nodes.push(Node { inst, up: true, left: false, side: 0 });
        }
        Ok(Sim {
            nodes,
            q: BinaryHeap::new(),
            now: Duration::ZERO,
            seq: 0,
            r: SmallRng::seed_from_u64(seed),
            lat,
            faults: Faults::default(),
            sent: 0,
            dropped: vec![],
            events: 0,
            trace: trace.then(Vec::new),
            codec,
            sig: 0xcbf29ce484222325,
            link_seed: seed,
            items: false,
            nitems: 0,
            chatter: false,
            chats: 0,
            heal: false,
        })
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        let now = self.now;
        if let Some(t) = &mut self.trace {
            if t.len() < 20_000 {
                t.push(format!("[{now:?}] {}", f()));
            }
        }
    }
    fn latency(&mut self, a: u16, b: u16) -> Duration {
        US(match self.lat {
            Lat::Const(x) => x,
            Lat::Uniform(x, y) => self.r.random_range(x..=y),
            Lat::Link(x, y) => x + hash2(self.link_seed ^ a as u64, b as u64) % (y - x + 1),
            Lat::Bimodal(x) => {
                if self.r.random_bool(0.5) {
                    x
                } else {
                    1
                }
            }
        })
    }
    fn push(&mut self, at: Duration, job: Job) {
        self.seq += 1;
        self.q.push(Item { at, seq: self.seq, job });
    }
    fn absorb(&mut self, n: usize, s: &Step) {
        let from = n as u16;
        for e in &s.evs {
            if let Ev::Send { to, data } = e {
                let k = self.sent;
                self.sent += 1;
                let tgt = to.addr as usize;
                fnv(&mut self.sig, hash2(from as u64 * 65_536 + to.addr as u64, data.len() as u64));
                let mut lost = self.faults.drop_at.contains(&k);
                if self.faults.partitioned
                    && tgt < self.nodes.len()
                    && self.nodes[tgt].side != self.nodes[n].side
                {
                    continue;
                }
                if self.faults.loss > 0.0 && self.r.random_bool(self.faults.loss) {
                    lost = true;
                }
                if lost {
                    let mut c = self.codec;
                    let kind = c.decode_header(&mut &data[..]).map(|h| kind_name(&h.message)).unwrap_or("?");
                    let src = self.nodes[n].inst.foca.identity().clone();
                    self.dropped.push((k, kind, src.clone(), to.clone()));
                    self.note(|| format!("LOST datagram {k}: {kind} {src:?} -> {to:?}"));
                    continue;
                }
                let copies = 1 + (self.faults.dup > 0.0 && self.r.random_bool(self.faults.dup)) as u32;
                for _ in 0..copies {
                    let l = self.latency(from, to.addr);
                    let at = self.now + l;
                    self.push(
                        at,
                        Job::Data { to: to.addr, dst: to.clone(), from, sent: self.now, data: data.clone() },
                    );
                }
            }
        }
        let ts: Vec<Pending> = std::mem::take(&mut self.nodes[n].inst.timers);
        for p in ts {
            self.push(p.due, Job::Timer { node: n, seq: p.seq, t: p.t });
        }
    }
    pub fn call(&mut self, n: usize, op: Op) -> Result<Happened, String> {
        self.run(n, op, Cause::Call)
    }
    fn run(&mut self, n: usize, op: Op, cause: Cause) -> Result<Happened, String> {
        self.events += 1;
        let inst = &mut self.nodes[n].inst;
        inst.now = self.now;
        let seq0 = inst.seq;
        let step = match inst.exec(op) {
            Ok(s) => s,
            Err(Panic(m)) => return Err(format!("node {n}: {m}")),
        };
        let codec = self.codec;
        let ev = self.events as usize;
        self.note(|| format!("node {n} {}", show_step(ev, &step, St::Idle, codec)));
        for nt in step.notes() {
            fnv(&mut self.sig, hash_of(&format!("{nt:?}")));
        }
        self.absorb(n, &step);
        Ok(Happened { node: n, step, seq0, cause })
    }
    /// `n` gets an item of its own to disseminate
    pub fn add_item(&mut self, n: usize, len: usize) -> Result<(), String> {
        if !self.nodes[n].up || self.nodes[n].left {
            return Ok(());
        }
        self.nitems += 1;
        let mut d = self.nitems.to_be_bytes().to_vec();
        d.resize(4 + len, n as u8);
        let h = self.run(n, Op::AddBroadcast(d), Cause::Call)?;
        if matches!(h.step.res, Err(EK::DataTooBig)) {
            return Ok(()); // a tiny max_packet_size
        }
        if h.step.res.is_err() || !h.step.evs.iter().all(|e| matches!(e, Ev::Recv { .. })) {
            return Err(format!("add_broadcast on node {n}: {:?} {:?}", h.step.res, h.step.evs));
        }
        Ok(())
    }
    pub fn peek(&self) -> Option<Duration> {
        self.q.peek().map(|x| x.at)
    }
    /// next event at or before `until`; None when there is none (the clock is then at `until`)
    pub fn next(&mut self, until: Duration) -> Result<Option<Happened>, String> {
        if self.items && self.nitems < 60 {
            let h = hash2(self.link_seed ^ 0x17e35, self.events);
            if h % 48 == 0 {
                self.add_item((h >> 8) as usize % self.nodes.len(), (h >> 32) as usize % 40)?;
            }
        }
        if self.chatter && self.chats < 80 && self.peek().is_some_and(|t| t <= until) {
            let h = hash2(self.link_seed ^ 0xc4a7, self.events);
            let x = (h >> 8) as usize % self.nodes.len();
            // (an Idle instance that lost everybody is left alone: recorded finding
            // C05-simultaneous-renewal needs no help)
            let idle = self.heal && self.nodes[x].inst.foca.num_members() == 0;
            if h % 24 == 0 && self.nodes[x].up && !self.nodes[x].left && !idle {
                self.chats += 1;
                let y = (h >> 16) as usize % self.nodes.len();
                let op = match (h >> 32) % 8 {
                    0 | 1 => Op::Gossip,
                    2 => Op::Broadcast,
                    3..=5 if y != x => Op::Announce(self.id(y).clone()),
                    _ => {
                        let mut c = (*self.nodes[x].inst.cfg).clone();
                        if (h >> 40) % 2 == 0 {
                            c.num_indirect_probes = std::num::NonZeroUsize::new(1 + (h >> 44) as usize % 5).unwrap();
                        }
                        Op::SetConfig(Box::new(c))
                    }
                };
                return self.call(x, op).map(Some);
            }
        }
        loop {
            match self.q.peek() {
                Some(i) if i.at <= until => {}
                _ => {
                    self.now = self.now.max(until);
                    return Ok(None);
                }
            }
            let i = self.q.pop().unwrap();
            self.now = i.at;
            match i.job {
                Job::Data { to, dst, from, sent, data } => {
                    let n = to as usize;
                    if n >= self.nodes.len() || !self.nodes[n].up {
                        continue;
                    }
                    return self.run(n, Op::Data(data), Cause::Data { from, dst, sent }).map(Some);
                }
                Job::Timer { node, seq, t } => {
                    if !self.nodes[node].up {
                        continue;
                    }
                    return self.run(node, Op::Timer(t), Cause::Timer { seq }).map(Some);
                }
            }
        }
    }
    pub fn recs(&self, n: usize) -> impl Iterator<Item = &M> {
        self.nodes[n].inst.foca.iter_membership_state()
    }
    pub fn id(&self, n: usize) -> &Nid {
        self.nodes[n].inst.foca.identity()
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| self.nodes[i].up && !self.nodes[i].left).collect()
    }
    pub fn alive_rec(&self, n: usize, id: &Nid) -> bool {
        self.recs(n).any(|m| m.id() == id && m.state() == State::Alive)
    }
    /// `n` lists exactly the other nodes of `set`, by current identity
    pub fn sees_exactly(&self, n: usize, set: &[usize], need_alive: bool) -> Result<(), String> {
        let want: BTreeSet<Nid> = set.iter().filter(|&&x| x != n).map(|&x| self.id(x).clone()).collect();
        let got: BTreeSet<Nid> =
            self.nodes[n].inst.foca.iter_members().map(|m| m.id().clone()).collect();
        if want != got {
            let missing: Vec<_> = want.difference(&got).collect();
            let extra: Vec<_> = got.difference(&want).collect();
            return Err(format!("{:?} misses {missing:?}, has extra {extra:?}", self.id(n)));
        }
        if need_alive {
            if let Some(m) = self.nodes[n].inst.foca.iter_members().find(|m| m.state() != State::Alive) {
                return Err(format!("{:?} holds {m:?}", self.id(n)));
            }
        }
        Ok(())
    }
    /// outstanding timers of a node, by issue number
    pub fn timers_of(&self, n: usize) -> Vec<(&T, u64)> {
        self.q
            .iter()
            .filter_map(|i| match &i.job {
                Job::Timer { node, seq, t } if *node == n => Some((t, *seq)),
                _ => None,
            })
            .collect()
    }
    /// a new process takes the place of node `n`
    pub fn restart(&mut self, n: usize, s: &Setup) -> Result<(), Panic> {
        let v: Vec<Item> = std::mem::take(&mut self.q)
            .into_iter()
            .filter(|i| !matches!(i.job, Job::Timer { node, .. } if node == n))
            .collect();
        self.q = BinaryHeap::from(v);
        let (watch, inc) = (self.nodes[n].inst.watch, self.nodes[n].inst.watch_inc);
        let mut inst = Inst::new(s);
        inst.watch = watch;
        inst.watch_inc = inc;
        inst.now = self.now;
        inst.start()?;
        let side = self.nodes[n].side;
        self.nodes[n] = Node { inst, up: true, left: false, side };
        Ok(())
    }
    /// every datagram queued, per node (for quiescence checks)
    pub fn in_flight(&self) -> usize {
        self.q.iter().filter(|i| matches!(i.job, Job::Data { .. })).count()
    }
}

// ------------------------------------------------------------------ scenario generation

pub struct Scen {
    pub n: usize,
    pub cfg: Config,
    pub lat: Lat,
    pub setups: Vec<Setup>,
    pub period: Duration,
    pub seed: u64,
    pub desc: String,
    pub feed_fits: bool,
    pub max_lat: u64,
}

pub fn sane_seed(s: u64) -> u64 {
    if s % 13 == 12 {
        s - 1
    } else {
        s
    }
}

fn size(r: &mut SmallRng, lo: usize) -> usize {
    match r.random_range(0..20) {
        0..=3 => lo,
        4..=8 => lo + 1,
        9..=12 => r.random_range(lo..lo + 4),
        13..=18 => r.random_range(lo..=12),
        _ => r.random_range(12..=24),
    }
}

pub struct Want {
    pub min_n: usize,
    pub tx: (u8, u8),
    /// suspect_to_down_after in probe periods, at least
    pub std_periods: u64,
    pub renew: Option<u8>,
    pub small_packets: bool,
    pub rejoin: bool,
    /// 1: once in a while a cluster of up to a hundred members, 2: always more than 256
    pub big: u8,
}

pub fn scen(r: &mut SmallRng, seed: u64, w: &Want) -> Scen {
    let mut n = size(r, w.min_n);
    if w.big == 2 {
        n = r.random_range(257..=264);
    } else if w.big == 1 && hash2(seed, 0xb16) % 500 == 0 {
        n = r.random_range(30..=100);
    }
    let profile = *[0u8, 0, 0, 2, 3].get(r.random_range(0..5)).unwrap();
    let codec = if r.random_range(0..5) == 0 { CODECS[r.random_range(0..4)] } else { AnyCodec::Hand };
    let nn = NonZeroU32::new(n as u32).unwrap();
    let preset = if w.rejoin { r.random_range(0..8) } else { r.random_range(0..6) };
    let mut cfg = match preset {
        0 => Config::simple(),
        1 => Config::new_lan(nn),
        2 if r.random_bool(0.5) => Config::new_wan(nn),
        _ => {
            let period = r.random_range(200..3000u64);
            let rtt = period * r.random_range(15..85) / 100;
            let pp = |r: &mut SmallRng, p: u32, lo: u64, hi: u64| {
                (r.random_range(0..100) < p).then(|| PeriodicParams {
                    frequency: ms(period * r.random_range(lo..hi) / 100),
                    num_members: nz(r.random_range(1..4)),
                })
            };
            Config {
                probe_period: ms(period),
                probe_rtt: ms(rtt),
                num_indirect_probes: nz(r.random_range(1..6)),
                max_transmissions: NonZeroU8::new(r.random_range(w.tx.0..=w.tx.1)).unwrap(),
                suspect_to_down_after: ms(
                    period * (w.std_periods * 100 + r.random_range(0..400)) / 100,
                ),
                remove_down_after: ms(24 * 3600 * 1000),
                max_packet_size: nz(1400),
                notify_down_members: r.random_bool(0.5),
                periodic_announce: pp(r, 40, 200, 1500),
                periodic_announce_to_down_members: pp(r, 30, 300, 2000),
                periodic_gossip: pp(r, 40, 20, 150),
            }
        }
    };
    if !w.rejoin && r.random_bool(0.3) {
        cfg.notify_down_members = !cfg.notify_down_members;
    }
    if w.rejoin {
        cfg.notify_down_members = true;
        cfg.remove_down_after = ms(24 * 3600 * 1000);
        if cfg.periodic_announce_to_down_members.is_none() || r.random_bool(0.3) {
            let p = cfg.probe_period.as_millis() as u64;
            cfg.periodic_announce_to_down_members = Some(PeriodicParams {
                frequency: ms(p * r.random_range(100..1500) / 100),
                num_members: nz(r.random_range(1..4)),
            });
        }
    }
    let min = Duration::from_nanos(cfg.probe_period.as_nanos() as u64 * w.std_periods);
    if cfg.suspect_to_down_after < min {
        cfg.suspect_to_down_after = min;
    }
    let kind = |r: &mut SmallRng| w.renew.unwrap_or_else(|| r.random_range(0..4)) | (profile << 2);
    let ids: Vec<Nid> = (0..n)
        .map(|i| {
            let k = kind(r);
            let g = r.random_range(0..3);
            Nid::new(i as u16, g, k)
        })
        .collect();
    // packet sizes
    let hl = ids
        .iter()
        .flat_map(|a| {
            let b = ids.iter().max_by_key(|x| codec.member_bytes(&Member::alive((*x).clone())).len()).unwrap();
            [Message::Feed, Message::Ping(255), Message::PingReq { target: b.clone(), probe_number: 255 }].map(|m| {
                codec
                    .header_bytes(&Header { src: a.clone(), src_incarnation: 0, dst: b.clone(), message: m })
                    .len()
            })
        })
        .collect::<Vec<_>>();
    let feed_h = hl.iter().step_by(3).max().unwrap();
    let ping_h = hl.iter().skip(1).step_by(3).max().unwrap();
    let req_h = *hl.iter().skip(2).step_by(3).max().unwrap();
    let mem: Vec<usize> = ids.iter().map(|i| codec.member_bytes(&Member::alive(i.clone())).len()).collect();
    let feed_need = feed_h + 2 + mem.iter().sum::<usize>();
    let one = ping_h + 2 + mem.iter().max().unwrap();
    // a Feed stops after an estimated number of members: with identities of
    // different lengths the estimate needs some slack
    let varied = profile != 0 || matches!(codec, AnyCodec::Bincode | AnyCodec::Postcard);
    let slack = if varied { feed_h + n * (feed_h / 2 + 1) } else { 0 };
    let tight = feed_need.max(one).max(req_h).max(slack);
    let mut feed_fits = true;
    let pk = match r.random_range(0..10) {
        0..=2 => tight,
        3 => r.random_range(tight..=tight + 100),
        4 if w.small_packets => {
            feed_fits = false;
            let least = max_header(codec, profile);
            r.random_range(least..=least.max(tight))
        }
        _ => 1400.max(tight),
    };
    // other incarnations / probe numbers may take more room in varint encodings
    let pk = if matches!(codec, AnyCodec::Bincode | AnyCodec::Postcard) && !w.small_packets { pk.max(tight + 40) } else { pk };
    cfg.max_packet_size = nz(pk);
    // latencies: well within probe_rtt, and short enough for the indirect path
    let rtt = cfg.probe_rtt.as_micros() as u64;
    let period = cfg.probe_period.as_micros() as u64;
    let max_lat = (rtt / 4).min((period - rtt) / 4) * 9 / 10;
    let lat = match r.random_range(0..6) {
        0 => Lat::Const(1),
        1 => Lat::Const(max_lat),
        2 => Lat::Bimodal(max_lat),
        3 => Lat::Link(1, max_lat),
        4 => Lat::Uniform(1, max_lat.min(2000).max(1)),
        _ => Lat::Uniform(1, max_lat),
    };
    let setups = ids
        .iter()
        .enumerate()
        .map(|(i, id)| Setup {
            id: id.clone(),
            cfg: cfg.clone(),
            seed: sane_seed(hash2(seed, i as u64 + 1)),
            codec,
            handler: HandlerCfg { key_mode: 0, accept: 1, pred: 0 },
        })
        .collect();
    let desc = format!("n={n} codec={codec:?} lat={lat:?} {cfg:?}");
    Scen { n, period: cfg.probe_period, lat, setups, cfg, seed, desc, feed_fits, max_lat }
}

fn quiet_notes(s: &Step) -> Result<(), String> {
    for n in s.notes() {
        match n {
            Note::MemberDown(_) | Note::Idle | Note::Defunct | Note::Rejoin(_) => {
                return Err(format!("notified {n:?}"))
            }
            _ => {}
        }
    }
    Ok(())
}

/// no false suspicion in what just happened
fn calm(sim: &Sim, h: &Happened) -> Result<(), String> {
    if let Err(e) = &h.step.res {
        return Err(format!("node {} at {:?}: a call failed with {e:?} ({:?})", h.node, sim.now, h.step.op));
    }
    quiet_notes(&h.step).map_err(|e| format!("node {} at {:?} {e} in a fault-free run", h.node, sim.now))?;
    for m in sim.recs(h.node) {
        if m.state() != State::Alive {
            return Err(format!(
                "node {} at {:?} records live member {m:?} in a fault-free run",
                h.node, sim.now
            ));
        }
    }
    Ok(())
}

fn finish(mut out: CaseOut, sim: Option<Sim>, res: Result<(), String>) -> CaseOut {
    if let Some(mut s) = sim {
        out.steps = s.events;
        out.sig = s.sig;
        out.c.add("sim_events", s.events);
        out.c.add("datagrams_sent", s.sent);
        if let Some(t) = s.trace.take() {
            out.trace.extend(t);
        }
    }
    if let Err(e) = res {
        out.err = Some(e);
    }
    out
}

// ------------------------------------------------------------------ C02

/// linear bound on discovery, in probe periods
pub fn c02_bound(n: usize) -> u32 {
    (6 * n + 16) as u32
}

pub fn c02(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    c02_case(seed, trace, 1)
}
pub fn c02_large(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    c02_case(seed, trace, 2)
}
fn c02_case(seed: u64, trace: bool, big: u8) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let sc = scen(
        &mut r,
        seed,
        &Want { min_n: 2, tx: (1, 10), std_periods: 1, renew: None, small_packets: big < 2, rejoin: false, big },
    );
    out.trace.push(sc.desc.clone());
    let n = sc.n;
    let mut sim = match Sim::new(sc.setups.clone(), sc.lat.clone(), seed ^ 77, trace, false) {
        Ok(s) => s,
        Err(Panic(m)) => return finish(out, None, Err(m)),
    };
    // join plan: (time, node, how the contact is picked)
    let span = *[0u64, 1, 3, 10].get(r.random_range(0..4)).unwrap() * sc.period.as_micros() as u64;
    let mode = if big == 2 { 0 } else { r.random_range(0..4) };
    let mut plan: Vec<(Duration, usize)> =
        (1..n).map(|i| (US(r.random_range(0..=span)), i)).collect();
    plan.sort();
    let codec = sc.setups[0].codec;
    let mut told = vec![BTreeSet::<u16>::new(); n];
    let mut contacts: BTreeSet<usize> = BTreeSet::new();
    let mut starved = false;
    let res = (|| -> Result<(), String> {
        history(&mut sim, &sc, false, &mut out)?;
        // extra gossip uses up the updates: recorded finding C02-starved-joiners
        sim.chatter &= mode == 0;
        let mut joined: Vec<usize> = vec![0];
        let mut last_join = Duration::ZERO;
        for (at, i) in plan {
            while let Some(h) = sim.next(at)? {
                calm(&sim, &h)?;
                learn_told(&h, codec, &mut told);
            }
            // an existing member: the first one, or one that already has somebody
            let cands: Vec<usize> = joined
                .iter()
                .copied()
                .filter(|&x| x == 0 || sim.nodes[x].inst.foca.num_members() > 0)
                .collect();
            let c = match mode {
                0 => 0,
                1 => *cands.last().unwrap(),
                _ => cands[r.random_range(0..cands.len())],
            };
            contacts.insert(c);
            let dst = sim.id(c).clone();
            let h = sim.call(i, Op::Announce(dst))?;
            calm(&sim, &h)?;
            joined.push(i);
            last_join = sim.now;
        }
        let bound = last_join + sc.period * c02_bound(n);
        let all: Vec<usize> = (0..n).collect();
        let mut conv: Option<Duration> = None;
        let mut end = bound;
        let mut extended = false;
        // they may all have met before the last one announced itself
        let mut fresh = true;
        loop {
            let Some(h) = sim.next(end)? else {
                if conv.is_some() || !sc.feed_fits || extended {
                    break;
                }
                // who has been told about whom, and still does not list them?
                for x in 0..n {
                    for y in 0..n {
                        if x != y && told[x].contains(&(y as u16))
                            && !sim.nodes[x].inst.foca.iter_members().any(|m| m.id().addr == y as u16)
                        {
                            return Err(format!(
                                "node {x} was told about live node {y} but does not list it {} periods after the last join",
                                c02_bound(n)
                            ));
                        }
                    }
                }
                starved = true;
                match &sc.cfg.periodic_announce {
                    // two members nobody introduced to each other meet through the
                    // next few periodic announces
                    Some(p) => {
                        extended = true;
                        end += p.frequency * 12 + sc.period * 2;
                        continue;
                    }
                    None => break,
                }
            };
            calm(&sim, &h)?;
            learn_told(&h, codec, &mut told);
            let first = std::mem::take(&mut fresh);
            if conv.is_none() && (first || h.step.notes().any(|x| matches!(x, Note::MemberUp(_))))
                && (0..n).all(|i| sim.nodes[i].inst.foca.num_members() == n - 1)
            {
                for i in 0..n {
                    sim.sees_exactly(i, &all, true).map_err(|e| format!("wrong membership: {e}"))?;
                }
                conv = Some(sim.now);
                // keep watching for false suspicions
                let more = long_life(seed, n);
                if more > 0 {
                    out.c.hit("watched_for_hundreds_of_periods");
                }
                let round = if big == 2 { 30 } else { 2 * n as u32 + 4 };
                end = sim.now + sc.period * (round + more);
            }
        }
        match conv {
            Some(t) => {
                out.c.hit("converged");
                out.c.hit(if contacts.len() == 1 { "converged_single_contact" } else { "converged_several_contacts" });
                if starved {
                    out.c.hit("met_through_periodic_announce");
                } else {
                    let p = t.saturating_sub(last_join).as_secs_f64() / sc.period.as_secs_f64();
                    out.c.max("max_periods_x100_per_member", (p * 100.0 / n as f64) as u64);
                    out.c.max("max_convergence_periods", p.ceil() as u64);
                }
                out.c.max("max_cluster", n as u64);
                for i in 0..n {
                    sim.sees_exactly(i, &all, true).map_err(|e| format!("membership regressed: {e}"))?;
                }
            }
            None if !sc.feed_fits => out.c.hit("small_packet_runs"),
            None => {
                let mut who = vec![];
                for i in 0..n {
                    if let Err(e) = sim.sees_exactly(i, &all, true) {
                        who.push(e);
                    }
                }
                let e = format!(
                    "no full discovery {} periods after the last join at {last_join:?}: {}",
                    c02_bound(n),
                    who.join("; ")
                );
                if contacts.len() > 1 && starved && sc.cfg.max_transmissions.get() <= 7 {
                    // nobody ever mentioned one to the other
                    out.known = Some("C02-starved-joiners".into());
                }
                return Err(e);
            }
        }
        Ok(())
    })();
    out.c.hit(if sc.feed_fits { "feed_fits" } else { "feed_too_small" });
    finish(out, Some(sim), res)
}

/// node `h.node` was just told that these addresses are members
fn learn_told(h: &Happened, codec: AnyCodec, told: &mut [BTreeSet<u16>]) {
    if let (Op::Data(d), Ok(_)) = (&h.step.op, &h.step.res) {
        if let crate::wire::In::Ok { h: hd, members, .. } =
            crate::wire::classify(codec, d, usize::MAX, &h.step.pre.id)
        {
            told[h.node].insert(hd.src.addr);
            for m in members {
                told[h.node].insert(m.id().addr);
            }
        }
    }
}

// ------------------------------------------------------------------ forming a cluster

/// What happened to the instances before the scenario starts: refuted suspicions, members
/// long gone, earlier generations known to be Down, custom broadcasts.
pub fn history(sim: &mut Sim, sc: &Scen, ghosts: bool, out: &mut CaseOut) -> Result<(), String> {
    let mut r = SmallRng::seed_from_u64(hash2(sc.seed, 0x415));
    let n = sc.n;
    let fixed = sc.setups[0].codec == AnyCodec::Hand;
    if r.random_range(0..10) < 3 && sc.feed_fits {
        out.c.hit("with_incarnations");
        for i in 0..n {
            if r.random_bool(0.6) {
                let k = if fixed { *[0u16, 1, 7, 254, 255, 256, 40_000].get(r.random_range(0..7)).unwrap() } else { r.random_range(0..90) };
                let id = sim.id(i).clone();
                let h = sim.call(i, Op::Apply(vec![Member::new(id, k, State::Suspect)], r.random_bool(0.5)))?;
                if h.step.res.is_err() {
                    return Err(format!("refuting failed: {:?}", h.step.res));
                }
            }
        }
    }
    if ghosts && r.random_range(0..10) < 3 {
        out.c.hit("with_down_records");
        let g = r.random_range(1..=n.max(2));
        let mut gone: Vec<M> = (0..g)
            .map(|j| Member::new(Nid::new((n + j) as u16, r.random_range(0..3), sc.setups[0].id.kind), r.random_range(0..3), State::Down))
            .collect();
        for i in 0..n {
            let id = sim.id(i).clone();
            if id.gen > 0 && r.random_bool(0.4) {
                gone.push(Member::new(Nid::new(id.addr, id.gen - 1, id.kind), r.random_range(0..3), State::Down));
            }
        }
        for i in 0..n {
            let mine: Vec<M> = gone.iter().filter(|m| m.id().addr as usize != i && r.random_bool(0.7)).cloned().collect();
            let bc = r.random_bool(0.3);
            sim.call(i, Op::Apply(mine, bc))?;
        }
    }
    if r.random_range(0..10) < 3 {
        out.c.hit("with_custom_broadcasts");
        for i in 0..n {
            for _ in 0..r.random_range(0..3) {
                sim.add_item(i, r.random_range(0..40))?;
            }
        }
        sim.items = r.random_bool(0.7);
    }
    if r.random_range(0..10) < 3 {
        out.c.hit("with_user_calls");
        sim.chatter = true;
    }
    Ok(())
}

/// bring up a formed cluster; Ok(false) when it did not form (not this property's business)
pub fn form(
    sim: &mut Sim,
    sc: &Scen,
    r: &mut SmallRng,
    join: bool,
    out: &mut CaseOut,
) -> Result<bool, String> {
    let n = sc.n;
    history(sim, sc, true, out)?;
    let all: Vec<usize> = (0..n).collect();
    if join {
        for i in 1..n {
            let at = sim.now + US(r.random_range(0..=sc.period.as_micros() as u64 / 2));
            while sim.next(at)?.is_some() {}
            let dst = sim.id(0).clone();
            sim.call(i, Op::Announce(dst))?;
        }
        let end = sim.now + sc.period * (6 * n as u32 + 20);
        while sim.next(end)?.is_some() {
            if (0..n).all(|i| sim.nodes[i].inst.foca.num_members() == n - 1) {
                break;
            }
        }
    } else {
        let members: Vec<M> = sc.setups.iter().map(|s| Member::alive(s.id.clone())).collect();
        let mut order: Vec<(Duration, usize)> =
            (0..n).map(|i| (US(r.random_range(0..sc.period.as_micros() as u64)), i)).collect();
        order.sort();
        for (at, i) in order {
            while sim.next(at)?.is_some() {}
            let mut v: Vec<M> =
                members.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, m)| m.clone()).collect();
            for k in (1..v.len()).rev() {
                v.swap(k, r.random_range(0..=k));
            }
            sim.call(i, Op::Apply(v, false))?;
        }
    }
    // let every backlog and every phase settle for a while
    let rounds = if n > 256 { 30 } else { 4 * n as u64 };
    let end = sim.now + US(r.random_range(0..rounds * sc.period.as_micros() as u64 / 2 + 1));
    while sim.next(end)?.is_some() {}
    // some clusters have been up for so long that their probe numbers wrapped
    let end = sim.now + sc.period * long_life(sc.seed, n);
    while sim.next(end)?.is_some() {}
    Ok((0..n).all(|i| sim.sees_exactly(i, &all, true).is_ok()))
}

/// how many more periods an (otherwise uneventful) cluster is watched for
fn long_life(seed: u64, n: usize) -> u32 {
    let h = hash2(seed, 0x10_11fe);
    if n <= 5 && h % 64 == 0 {
        240 + (h >> 32) as u32 % 300
    } else {
        0
    }
}

// ------------------------------------------------------------------ C03

pub fn c03(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    c03_case(seed, trace, 1)
}
pub fn c03_large(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    c03_case(seed, trace, 2)
}
fn c03_case(seed: u64, trace: bool, big: u8) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let sc = scen(
        &mut r,
        seed,
        &Want { min_n: 2, tx: (1, 10), std_periods: 1, renew: None, small_packets: false, rejoin: false, big },
    );
    out.trace.push(sc.desc.clone());
    let n = sc.n;
    let mut sim = match Sim::new(sc.setups.clone(), sc.lat.clone(), seed ^ 77, trace, false) {
        Ok(s) => s,
        Err(Panic(m)) => return finish(out, None, Err(m)),
    };
    let res = (|| -> Result<(), String> {
        let join = r.random_bool(0.4);
        if !form(&mut sim, &sc, &mut r, join, &mut out)? {
            out.c.hit("not_formed");
            return Ok(());
        }
        out.c.hit("formed");
        // who fails: any subset, at least one, possibly all but one
        let k = match r.random_range(0..4) {
            0 | 1 => 1,
            2 => r.random_range(1..n),
            _ => n - 1,
        };
        let mut idx: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            idx.swap(i, r.random_range(0..=i));
        }
        let stagger = r.random_bool(0.4);
        let per_period = (4 * n as u64).max(8);
        let leave_pct = *[0u32, 0, 100, 50].get(r.random_range(0..4)).unwrap();
        // (event index relative to the formed cluster, node, leave?)
        let base = r.random_range(0..per_period * n.min(30) as u64);
        let mut fails: Vec<(u64, usize, bool)> = idx[..k]
            .iter()
            .map(|&x| {
                let e = if stagger { base + r.random_range(0..per_period * 2 * n.min(100) as u64) } else { base };
                (e, x, r.random_range(0..100) < leave_pct)
            })
            .collect();
        fails.sort();
        out.c.add("failures", k as u64);
        let bound = sc.period * (2 * n as u32 + 1) + sc.cfg.suspect_to_down_after;
        // owed[(survivor, failed identity)] = deadline
        let mut owed: BTreeMap<(usize, Nid), Duration> = BTreeMap::new();
        // nothing in `owed` is due before this
        let mut overdue = Duration::MAX;
        let failed_set: BTreeSet<usize> = idx[..k].iter().copied().collect();
        let mut told: BTreeSet<(usize, usize)> = BTreeSet::new(); // (leaver, told node)
        let mut left_inst: BTreeMap<usize, Duration> = BTreeMap::new();
        let e0 = sim.events;
        let mut end: Option<Duration> = None;
        let horizon = sim.now + sc.period * (40 * n as u32 + 200);
        loop {
            // failures due?
            while let Some(&(at, x, leave)) = fails.first() {
                if sim.events - e0 < at {
                    break;
                }
                fails.remove(0);
                let id = sim.id(x).clone();
                for s in 0..n {
                    if s != x && sim.nodes[s].up && !sim.nodes[s].left
                        && sim.nodes[s].inst.foca.iter_members().any(|m| m.id() == &id)
                    {
                        owed.insert((s, id.clone()), sim.now + bound);
                        overdue = overdue.min(sim.now + bound);
                    }
                }
                if leave {
                    let h = sim.call(x, Op::Leave)?;
                    out.c.hit("leaves");
                    if h.step.res.is_err() {
                        return Err(format!("leave_cluster failed: {:?}", h.step.res));
                    }
                    sim.nodes[x].left = true;
                    left_inst.insert(x, sim.now);
                    for (to, data) in h.step.sends() {
                        let p = crate::wire::parse_out(sc.setups[0].codec, data, usize::MAX)?;
                        if p.members.iter().any(|(m, _)| m.id() == &id && m.state() == State::Down) {
                            told.insert((x, to.addr as usize));
                        }
                    }
                } else {
                    sim.note(|| format!("CRASH node {x}"));
                    sim.nodes[x].up = false;
                    out.c.hit("crashes");
                }
                // the failed member is not owed anything any more
                owed.retain(|(s, _), _| *s != x);
                let e = sim.now + bound + sc.period * 2;
                end = Some(end.map_or(e, |y| y.max(e)));
            }
            let until = if fails.is_empty() { end.unwrap_or(horizon) } else { horizon };
            let Some(h) = sim.next(until)? else {
                if !fails.is_empty() {
                    // nobody is left to produce events
                    fails.iter_mut().for_each(|f| f.0 = 0);
                    continue;
                }
                break;
            };
            let x = h.node;
            // a member that left
            if left_inst.contains_key(&x) {
                for (to, d) in h.step.sends() {
                    let p = crate::wire::parse_out(sc.setups[0].codec, d, usize::MAX)?;
                    if !matches!(
                        p.h.message,
                        Message::Ack(_) | Message::IndirectAck { .. } | Message::ForwardedAck { .. }
                    ) {
                        out.c.hit("non_answers_by_leavers");
                        continue;
                    }
                    return Err(format!(
                        "node {x} left the cluster at {:?} but sends {:?} to {to:?} at {:?}",
                        left_inst[&x], p.h.message, sim.now
                    ));
                }
                if let Some(nt) = h.step.notes().find(|nt| matches!(nt, Note::Rejoin(_) | Note::Active)) {
                    return Err(format!("node {x} left the cluster but then notified {nt:?}"));
                }
                out.c.hit("steps_of_leavers");
            } else {
                for nt in h.step.notes() {
                    match nt {
                        Note::MemberDown(id) => {
                            let f = id.addr as usize;
                            let really = f < n && failed_set.contains(&f) && (!sim.nodes[f].up || sim.nodes[f].left);
                            if !really {
                                return Err(format!(
                                    "node {x} at {:?} declares {id:?} down, which did not fail",
                                    sim.now
                                ));
                            }
                            owed.remove(&(x, id.clone()));
                            out.c.hit("MemberDown_seen");
                        }
                        Note::Defunct | Note::Rejoin(_) => {
                            return Err(format!("surviving node {x} notified {nt:?} at {:?}", sim.now))
                        }
                        _ => {}
                    }
                }
                for m in sim.recs(x) {
                    let f = m.id().addr as usize;
                    if m.state() == State::Down && f < n && sim.nodes[f].up && !sim.nodes[f].left && m.id() == sim.id(f) {
                        return Err(format!("node {x} at {:?} records live {m:?}", sim.now));
                    }
                }
                // told by the leaver itself
                if let (Cause::Data { from, .. }, Op::Data(d)) = (&h.cause, &h.step.op) {
                    let f = *from as usize;
                    if told.contains(&(f, x)) {
                        let p = crate::wire::parse_out(sc.setups[0].codec, d, usize::MAX)?;
                        let dead = |id: &Nid| p.members.iter().any(|(m, _)| m.id() == id && m.state() == State::Down);
                        if p.h.dst == *sim.id(x) && dead(sim.id(f)) {
                            if let Some(k) = owed.keys().find(|(s, id)| *s == x && id == sim.id(f)) {
                                return Err(format!(
                                    "node {x} was told that {:?} left but did not report it down",
                                    k.1
                                ));
                            }
                            out.c.hit("told_directly");
                        }
                    }
                }
            }
            if big == 2 && fails.is_empty() && owed.is_empty() {
                // everybody knows: a few more periods will do
                end = end.map(|e| e.min(sim.now + sc.period * 10));
            }
            if sim.now <= overdue {
                continue;
            }
            overdue = owed.values().min().copied().unwrap_or(Duration::MAX);
            if let Some((k, d)) = owed.iter().find(|(_, d)| **d < sim.now) {
                return Err(format!(
                    "node {} still has not reported {:?} down at {:?} (deadline {d:?}, n={n}, bound {bound:?})",
                    k.0, k.1, sim.now
                ));
            }
        }
        if let Some((k, d)) = owed.iter().next() {
            return Err(format!("node {} never reported {:?} down (deadline {d:?}, bound {bound:?})", k.0, k.1));
        }
        Ok(())
    })();
    finish(out, Some(sim), res)
}

// ------------------------------------------------------------------ C04

pub fn c04(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let mut sc = scen(
        &mut r,
        seed,
        &Want { min_n: 2, tx: (3, 12), std_periods: 2, renew: None, small_packets: false, rejoin: false, big: 0 },
    );
    // in small clusters also let the indirect path be too slow for the round,
    // so that the incarnation mechanism has to do the work
    let slow = sc.n <= 4 && r.random_bool(0.5);
    if slow {
        let rtt = sc.cfg.probe_period * r.random_range(80..97) / 100;
        for s in &mut sc.setups {
            s.cfg.probe_rtt = rtt;
            s.cfg.max_transmissions = NonZeroU8::new(s.cfg.max_transmissions.get().max(10)).unwrap();
            s.cfg.suspect_to_down_after = s.cfg.suspect_to_down_after.max(sc.period * (3 * sc.n as u32));
        }
        sc.cfg = sc.setups[0].cfg.clone();
        let ml = sc.cfg.probe_rtt.as_micros() as u64 / 4 * 9 / 10;
        sc.max_lat = ml;
        sc.lat = Lat::Uniform(ml / 2, ml);
    }
    out.trace.push(format!("{} slow={slow}", sc.desc));
    let n = sc.n;
    let mut sim = match Sim::new(sc.setups.clone(), sc.lat.clone(), seed ^ 77, trace, false) {
        Ok(s) => s,
        Err(Panic(m)) => return finish(out, None, Err(m)),
    };
    let res = (|| -> Result<(), String> {
        let join = r.random_bool(0.3);
        if !form(&mut sim, &sc, &mut r, join, &mut out)? {
            out.c.hit("not_formed");
            return Ok(());
        }
        out.c.hit("formed");
        let all: Vec<usize> = (0..n).collect();
        // one loss; sometimes, once the cluster has fully recovered, another one
        let rounds = if n <= 8 && r.random_range(0..5) == 0 { r.random_range(2..=4) } else { 1 };
        for round in 0..rounds {
        sim.faults.drop_at.clear();
        sim.dropped.clear();
        // about 2 datagrams per member and period: window of a couple of rotations
        let mut k = sim.sent + r.random_range(0..(2 * n * 2 * n) as u64);
        if slow || n == 2 || r.random_bool(0.3) {
            // aim at the probes themselves
            k = u64::MAX;
        }
        let mut aim = (k == u64::MAX).then(|| r.random_range(0..(2 * n * n) as u64));
        let aim_kind = *["Ping", "Ack", "Ping", "Ack", "Gossip"].get(r.random_range(0..5)).unwrap();
        sim.faults.drop_at.insert(k);
        let mut lost_at: Option<Duration> = None;
        let settle = sc.period * (2 * n as u32 + 6) + sc.cfg.suspect_to_down_after;
        let hard = sim.now + sc.period * (20 * n as u32 + 60) + settle;
        let mut suspected = 0u64;
        let mut last_suspect = Duration::ZERO;
        let mut end = hard;
        loop {
            let sent0 = sim.sent;
            let Some(h) = sim.next(end)? else { break };
            // drop the aimed-at datagram after the fact: pull it from the queue
            if let Some(a) = aim {
                let c = sc.setups[0].codec;
                let mut hit = None;
                for (i, (to, d)) in h.step.sends().enumerate() {
                    let hd = { let mut cc = c; cc.decode_header(&mut &d[..]) };
                    if hd.is_ok_and(|x| kind_name(&x.message) == aim_kind) {
                        hit = Some((sent0 + i as u64, to.clone(), d.clone()));
                    }
                }
                if let Some((kk, to, d)) = hit {
                    if a == 0 {
                        aim = None;
                        sim.remove(&to, &d);
                        let src = sim.id(h.node).clone();
                        sim.dropped.push((kk, aim_kind, src.clone(), to.clone()));
                        sim.note(|| format!("LOST datagram {kk}: {aim_kind} {src:?} -> {to:?}"));
                    } else {
                        aim = Some(a - 1);
                    }
                }
            }
            if lost_at.is_none() && !sim.dropped.is_empty() {
                lost_at = Some(sim.now);
                out.c.hit(match sim.dropped[0].1 {
                    "Ping" => "lost_Ping",
                    "Ack" => "lost_Ack",
                    "PingReq" => "lost_PingReq",
                    "IndirectPing" => "lost_IndirectPing",
                    "IndirectAck" => "lost_IndirectAck",
                    "ForwardedAck" => "lost_ForwardedAck",
                    "Announce" => "lost_Announce",
                    "Feed" => "lost_Feed",
                    "Gossip" => "lost_Gossip",
                    _ => "lost_other",
                });
                end = sim.now + settle;
            }
            if let Err(e) = &h.step.res {
                return Err(format!("node {} at {:?}: call failed with {e:?}", h.node, sim.now));
            }
            for nt in h.step.notes() {
                if matches!(nt, Note::MemberDown(_) | Note::Defunct | Note::Rejoin(_) | Note::Idle) {
                    return Err(format!(
                        "node {} at {:?} notified {nt:?} after losing only {:?}",
                        h.node, sim.now, sim.dropped
                    ));
                }
            }
            for m in sim.recs(h.node) {
                match m.state() {
                    State::Down if m.id().addr as usize >= n || m.id() != sim.id(m.id().addr as usize) => {}
                    State::Down => {
                        return Err(format!("node {} records {m:?} after losing only {:?}", h.node, sim.dropped))
                    }
                    State::Suspect => {
                        if lost_at.is_none() {
                            return Err(format!("node {} records {m:?} before anything was lost", h.node));
                        }
                        suspected += 1;
                        last_suspect = sim.now;
                    }
                    State::Alive => {}
                }
            }
        }
        if let Some(l) = lost_at {
            for i in 0..n {
                sim.sees_exactly(i, &all, true)
                    .map_err(|e| format!("{e}, {settle:?} after losing only {:?}", sim.dropped))?;
            }
            out.c.hit("single_losses");
            if suspected > 0 {
                out.c.hit("runs_with_suspicion_refuted");
                out.c.max(
                    "max_suspected_for_periods_x100",
                    ((last_suspect - l).as_secs_f64() / sc.period.as_secs_f64() * 100.0) as u64,
                );
            }
            if round > 0 {
                out.c.hit("losses_after_recovery");
            }
        } else {
            out.c.hit("nothing_lost");
            break;
        }
        }
        Ok(())
    })();
    finish(out, Some(sim), res)
}

impl Sim {
    /// take one queued copy of this datagram off the network
    pub fn remove(&mut self, to: &Nid, data: &[u8]) {
        let mut v: Vec<Item> = std::mem::take(&mut self.q).into_vec();
        // the most recently queued one
        if let Some(i) = v
            .iter()
            .enumerate()
            .filter(|(_, i)| matches!(&i.job, Job::Data { dst, data: d, .. } if dst == to && d == data))
            .max_by_key(|(_, i)| i.seq)
            .map(|x| x.0)
        {
            v.swap_remove(i);
        }
        self.q = BinaryHeap::from(v);
    }
}

// ------------------------------------------------------------------ C05

pub fn c05(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let sc = scen(
        &mut r,
        seed,
        &Want {
            min_n: 3,
            tx: (3, 12),
            std_periods: 2,
            renew: Some(RENEW_BUMP),
            small_packets: false,
            rejoin: true,
            big: 0,
        },
    );
    out.trace.push(sc.desc.clone());
    let n = sc.n;
    let mut sim = match Sim::new(sc.setups.clone(), sc.lat.clone(), seed ^ 77, trace, false) {
        Ok(s) => s,
        Err(Panic(m)) => return finish(out, None, Err(m)),
    };
    let codec = sc.setups[0].codec;
    let res = (|| -> Result<(), String> {
        let join = r.random_bool(0.2);
        sim.heal = true;
        if !form(&mut sim, &sc, &mut r, join, &mut out)? {
            out.c.hit("not_formed");
            return Ok(());
        }
        out.c.hit("formed");
        let all: Vec<usize> = (0..n).collect();
        let single = r.random_bool(0.25);
        let mut owes_active: BTreeSet<usize> = BTreeSet::new();
        if single {
            // a live member falsely declared Down by somebody
            let v = r.random_range(0..n);
            let by = (v + r.random_range(1..n)) % n;
            let id = sim.id(v).clone();
            let bc = r.random_bool(0.7);
            let inc = 0;
            let h = sim.call(by, Op::Apply(vec![Member::new(id, inc, State::Down)], bc))?;
            rejoin_rules(&sim, &h, codec, &mut owes_active, &mut out)?;
            out.c.hit("falsely_declared_down");
        } else {
            // any split with two or more members on at least one side
            let k = r.random_range(1..n);
            let mut idx: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                idx.swap(i, r.random_range(0..=i));
            }
            for (j, &x) in idx.iter().enumerate() {
                sim.nodes[x].side = (j < k) as u8;
            }
            sim.faults.partitioned = true;
            sim.note(|| format!("PARTITION {:?} | {:?}", &idx[..k], &idx[k..]));
            out.c.hit(if k == 1 || n - k == 1 { "one_vs_rest" } else { "split_many" });
            let bound = sc.period * (2 * n as u32 + 1) + sc.cfg.suspect_to_down_after;
            let limit = sim.now + bound + sc.period * 4;
            let mutual = |sim: &Sim| {
                (0..n).all(|i| sim.recs(i).all(|m| {
                    m.id().addr as usize >= n
                        || sim.nodes[m.id().addr as usize].side == sim.nodes[i].side
                        || m.state() == State::Down
                }))
            };
            let mut ok = false;
            while let Some(h) = sim.next(limit)? {
                rejoin_rules(&sim, &h, codec, &mut owes_active, &mut out)?;
                if h.step.notes().any(|x| matches!(x, Note::MemberDown(_))) && mutual(&sim) {
                    ok = true;
                    break;
                }
            }
            if !ok {
                // the completeness property's business
                out.c.hit("no_mutual_down");
                return Ok(());
            }
            // stay partitioned for a while longer
            let extra = match r.random_range(0..3) {
                0 => Duration::ZERO,
                1 => US(r.random_range(0..sc.period.as_micros() as u64 * 2)),
                _ => sc.period * r.random_range(0..20),
            };
            let t = sim.now + extra;
            while let Some(h) = sim.next(t)? {
                rejoin_rules(&sim, &h, codec, &mut owes_active, &mut out)?;
            }
            sim.faults.partitioned = false;
            sim.note(|| "HEAL".to_string());
        }
        let healed = sim.now;
        // what was delivered under which pair of identities (latest wins)
        let mut heard: std::collections::BTreeMap<(usize, u16), (Nid, Nid)> = Default::default();
        let mut renewed: BTreeSet<usize> = BTreeSet::new();
        let ad = sc.cfg.periodic_announce_to_down_members.clone().unwrap().frequency;
        let bound = c05_bound(n, ad, sc.period);
        let mut conv = None;
        let done = |sim: &Sim| (0..n).all(|i| sim.sees_exactly(i, &all, false).is_ok());
        // a falsely declared member is found out about within a bounded time as well
        let mut end = healed + bound;
        while let Some(h) = sim.next(end)? {
            rejoin_rules(&sim, &h, codec, &mut owes_active, &mut out)?;
            if let Op::Data(d) = &h.step.op {
                let mut c = codec;
                if let Ok(hd) = c.decode_header(&mut &d[..]) {
                    heard.insert((h.node, hd.src.addr as u16), (hd.src, hd.dst));
                }
            }
            if h.step.notes().any(|x| matches!(x, Note::Rejoin(_))) {
                renewed.insert(h.node);
            }
            let moved = h.step.notes().any(|x| {
                matches!(x, Note::MemberUp(_) | Note::Rename(..) | Note::Rejoin(_) | Note::MemberDown(_))
            });
            if moved {
                if done(&sim) {
                    if conv.is_none() {
                        conv = Some(sim.now);
                    }
                } else {
                    conv = None;
                }
            }
            // stable for a good while: that's it
            if conv.is_some_and(|c| sim.now > c + sc.period * (2 * n as u32 + 2) + sc.cfg.suspect_to_down_after) {
                end = sim.now;
            }
        }
        if conv.is_none() && done(&sim) {
            conv = Some(healed);
        }
        match conv {
            Some(t) => {
                out.c.hit("healed");
                out.c.max(
                    "max_heal_x100_announce_down_periods",
                    ((t.saturating_sub(healed)).as_secs_f64() / ad.as_secs_f64() * 100.0) as u64,
                );
                out.c.max("max_heal_x100_of_bound",
                    ((t.saturating_sub(healed)).as_secs_f64() / bound.as_secs_f64() * 100.0) as u64,
                );
            }
            None => {
                let who: Vec<String> =
                    (0..n).filter_map(|i| sim.sees_exactly(i, &all, false).err()).collect();
                // the recorded finding: everybody renewed at the same time, nothing sent
                // between two final identities ever arrived, and all of them, after having
                // been Active under the final identity, ended Idle with nobody to talk to
                let stuck = renewed.len() == n
                    && owes_active.is_empty()
                    && (0..n).all(|i| sim.nodes[i].inst.foca.num_members() == 0)
                    && !(0..n).any(|i| (0..n).any(|j| {
                        i != j
                            && heard.get(&(i, j as u16)).is_some_and(|(s, d)| s == sim.id(j) && d == sim.id(i))
                    }));
                if stuck {
                    out.known = Some("C05-simultaneous-renewal".into());
                }
                return Err(format!(
                    "not converged {bound:?} after healing at {healed:?} (announce-to-down every {ad:?}): {}",
                    who.join("; ")
                ));
            }
        }
        if let Some(x) = owes_active.iter().next() {
            return Err(format!("node {x} rejoined but never reported Active again"));
        }
        Ok(())
    })();
    finish(out, Some(sim), res)
}

pub fn c05_bound(n: usize, ad: Duration, period: Duration) -> Duration {
    ad * (6 * n as u32 + 40) + period * (4 * n as u32 + 8)
}

fn rejoin_rules(
    sim: &Sim,
    h: &Happened,
    codec: AnyCodec,
    owes: &mut BTreeSet<usize>,
    out: &mut CaseOut,
) -> Result<(), String> {
    let mut rejoined = None;
    for nt in h.step.notes() {
        match nt {
            Note::Defunct => {
                return Err(format!("node {} at {:?} became Defunct with a renewable identity", h.node, sim.now))
            }
            Note::Rejoin(id) => {
                rejoined = Some(id.clone());
                owes.insert(h.node);
                out.c.hit("rejoins");
            }
            Note::Active => {
                if owes.remove(&h.node) {
                    out.c.hit("active_again");
                }
            }
            _ => {}
        }
    }
    // what this node was told
    if let Op::Data(d) = &h.step.op {
        let mut c = codec;
        if let (Ok(hd), Cause::Data { dst, .. }) = (c.decode_header(&mut &d[..]), &h.cause) {
            let now_id = sim.id(h.node).clone();
            if let Some(id) = &rejoined {
                if *id != now_id {
                    return Err(format!("Rejoin({id:?}) but the identity is {now_id:?}"));
                }
                // dst was the identity at sending time; the previous one is what it renewed
                if !id.wins(dst) && id.addr == dst.addr {
                    return Err(format!("rejoined as {id:?} which does not win against {dst:?}"));
                }
            }
            if hd.message == Message::TurnUndead {
                out.c.hit("TurnUndead_delivered");
                // told it is down, under its current identity
                if rejoined.is_none() && hd.dst == now_id {
                    return Err(format!(
                        "node {} ({now_id:?}) got TurnUndead from {:?} but did not rejoin",
                        h.node, hd.src
                    ));
                }
            }
        }
    }
    Ok(())
}
