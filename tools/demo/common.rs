#![allow(unused_imports)]
//! Shared by the demonstrations: a recording runtime, a scriptable instance and a tiny
//! virtual-time cluster, all of them driving the real foca.
#![allow(dead_code)]
pub use bytes::{Buf, BufMut};
pub use foca::*;
pub use rand::{rngs::SmallRng, Rng, SeedableRng};
pub use std::collections::BTreeMap;
pub use std::num::{NonZeroU32, NonZeroU8, NonZeroUsize};
pub use std::time::Duration;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct Id {
    pub addr: u16,
    pub gen: u16,
    pub renews: bool,
    pub pad: Vec<u8>,
}
impl std::fmt::Debug for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}.{}", self.addr, self.gen)
    }
}
/// identity `gen` of address `addr`, not renewable
pub fn id(addr: u16, gen: u16) -> Id {
    Id { addr, gen, renews: false, pad: vec![] }
}
pub fn renewable(addr: u16) -> Id {
    Id { renews: true, ..id(addr, 0) }
}
pub fn padded(addr: u16, gen: u16, len: usize) -> Id {
    Id { pad: vec![addr as u8; len], ..id(addr, gen) }
}
impl Identity for Id {
    type Addr = u16;
    fn renew(&self) -> Option<Self> {
        self.renews.then(|| Id { gen: self.gen + 1, ..self.clone() })
    }
    fn addr(&self) -> u16 {
        self.addr
    }
    fn win_addr_conflict(&self, other: &Self) -> bool {
        self.gen > other.gen
    }
}
pub type M = Member<Id>;
pub type H = Header<Id>;
pub type T = Timer<Id>;
pub type Note = OwnedNotification<Id>;
pub fn alive(i: Id, inc: u16) -> M {
    Member::new(i, inc, State::Alive)
}
pub fn suspect(i: Id, inc: u16) -> M {
    Member::new(i, inc, State::Suspect)
}
pub fn down(i: Id, inc: u16) -> M {
    Member::new(i, inc, State::Down)
}
pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}
pub fn every(freq: u64, num: usize) -> Option<PeriodicParams> {
    Some(PeriodicParams { frequency: ms(freq), num_members: nz(num) })
}
pub fn cfg() -> Config {
    Config {
        probe_period: ms(1000),
        probe_rtt: ms(400),
        num_indirect_probes: nz(3),
        max_transmissions: NonZeroU8::new(10).unwrap(),
        suspect_to_down_after: ms(4000),
        remove_down_after: ms(3_600_000),
        max_packet_size: nz(1400),
        notify_down_members: false,
        periodic_announce: None,
        periodic_announce_to_down_members: None,
        periodic_gossip: None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Send(Id, Vec<u8>),
    Timer(T, Duration),
    Note(Note),
}
#[derive(Default)]
pub struct Rt(pub Vec<Ev>);
impl Runtime<Id> for Rt {
    fn notify(&mut self, n: Notification<'_, Id>) {
        self.0.push(Ev::Note(n.to_owned()));
    }
    fn send_to(&mut self, to: Id, data: &[u8]) {
        self.0.push(Ev::Send(to, data.to_vec()));
    }
    fn submit_after(&mut self, t: T, after: Duration) {
        self.0.push(Ev::Timer(t, after));
    }
}

/// a datagram
#[derive(Debug, Clone)]
pub struct D {
    pub h: H,
    pub members: Vec<M>,
    pub rest: Vec<u8>,
}
pub fn msg(src: &Id, inc: u16, dst: &Id, message: Message<Id>, members: &[M]) -> Vec<u8> {
    let mut v = vec![];
    let h = Header { src: src.clone(), src_incarnation: inc, dst: dst.clone(), message };
    PostcardCodec.encode_header(&h, &mut v).unwrap();
    if !members.is_empty() {
        v.put_u16(members.len() as u16);
        for m in members {
            PostcardCodec.encode_member(m, &mut v).unwrap();
        }
    }
    v
}
/// same, with an explicit (possibly empty) member section and custom items
pub fn msg_items(src: &Id, inc: u16, dst: &Id, message: Message<Id>, members: &[M], items: &[&[u8]]) -> Vec<u8> {
    let bare = message == Message::Broadcast;
    let mut v = msg(src, inc, dst, message, members);
    if members.is_empty() && !bare {
        v.put_u16(0);
    }
    for i in items {
        v.put_u16(i.len() as u16);
        v.put_slice(i);
    }
    v
}
pub fn parse(mut d: &[u8]) -> D {
    let h: H = PostcardCodec.decode_header(&mut d).expect("header");
    let mut members = vec![];
    if d.len() >= 2 && h.message != Message::Broadcast {
        let n = d.get_u16();
        for _ in 0..n {
            members.push(PostcardCodec.decode_member(&mut d).expect("member"));
        }
    }
    D { h, members, rest: d.to_vec() }
}

pub struct Node<B: BroadcastHandler<Id> = NoCustomBroadcast> {
    pub foca: Foca<Id, PostcardCodec, SmallRng, B>,
    /// everything that happened so far
    pub log: Vec<Ev>,
}
pub fn node(i: Id, c: Config, seed: u64) -> Node {
    Node { foca: Foca::new(i, c, SmallRng::seed_from_u64(seed), PostcardCodec), log: vec![] }
}
pub fn node_with<B>(i: Id, c: Config, seed: u64, b: B) -> Node<B>
where
    B: BroadcastHandler<Id>,
    B::Error: std::error::Error + Send + 'static,
{
    Node {
        foca: Foca::with_custom_broadcast(i, c, SmallRng::seed_from_u64(seed), PostcardCodec, b),
        log: vec![],
    }
}
type R = std::result::Result<(), Error>;
/// what one call did
#[derive(Debug)]
pub struct Out {
    pub res: R,
    pub evs: Vec<Ev>,
}
impl Out {
    pub fn ok(self) -> Self {
        self.res.as_ref().expect("call failed");
        self
    }
    pub fn sends(&self) -> Vec<(Id, D)> {
        self.evs
            .iter()
            .filter_map(|e| match e {
                Ev::Send(to, d) => Some((to.clone(), parse(d))),
                _ => None,
            })
            .collect()
    }
    pub fn notes(&self) -> Vec<Note> {
        self.evs.iter().filter_map(|e| if let Ev::Note(n) = e { Some(n.clone()) } else { None }).collect()
    }
    pub fn timers(&self) -> Vec<(T, Duration)> {
        self.evs
            .iter()
            .filter_map(|e| if let Ev::Timer(t, d) = e { Some((t.clone(), *d)) } else { None })
            .collect()
    }
    pub fn timer(&self, f: impl Fn(&T) -> bool) -> Option<T> {
        self.timers().into_iter().map(|x| x.0).find(|t| f(t))
    }
}
impl<B> Node<B>
where
    B: BroadcastHandler<Id>,
    B::Error: std::error::Error + Send + 'static,
{
    pub fn call(&mut self, f: impl FnOnce(&mut Foca<Id, PostcardCodec, SmallRng, B>, &mut Rt) -> R) -> Out {
        let mut rt = Rt::default();
        let res = f(&mut self.foca, &mut rt);
        self.log.extend(rt.0.iter().cloned());
        Out { res, evs: rt.0 }
    }
    pub fn data(&mut self, d: &[u8]) -> Out {
        self.call(|f, rt| f.handle_data(d, rt))
    }
    pub fn recv(&mut self, src: &Id, inc: u16, message: Message<Id>, members: &[M]) -> Out {
        let d = msg(src, inc, &self.id(), message, members);
        self.data(&d)
    }
    pub fn timer(&mut self, t: T) -> Out {
        self.call(|f, rt| f.handle_timer(t, rt))
    }
    pub fn apply(&mut self, m: &[M], bcast: bool) -> Out {
        let v = m.to_vec();
        self.call(|f, rt| f.apply_many(v.into_iter(), bcast, rt))
    }
    pub fn id(&self) -> Id {
        self.foca.identity().clone()
    }
    pub fn rec(&self, addr: u16) -> Option<M> {
        self.foca.iter_membership_state().find(|m| m.id().addr == addr).cloned()
    }
    pub fn all(&self) -> Vec<M> {
        let mut v: Vec<M> = self.foca.iter_membership_state().cloned().collect();
        v.sort_by_key(|m| m.id().clone());
        v
    }
    /// the pending probe timer
    pub fn probe_timer(&self) -> T {
        self.log
            .iter()
            .rev()
            .find_map(|e| match e {
                Ev::Timer(t @ Timer::ProbeRandomMember(_), _) => Some(t.clone()),
                _ => None,
            })
            .expect("no probe timer")
    }
    /// one probe round is started: who is pinged, with which number, and the second-stage timer
    pub fn probe(&mut self) -> (Id, u8, T, Out) {
        let t = self.probe_timer();
        let o = self.timer(t);
        let (to, n) = o
            .sends()
            .into_iter()
            .find_map(|(to, d)| if let Message::Ping(n) = d.h.message { Some((to, n)) } else { None })
            .expect("no ping");
        let ind = o.timer(|t| matches!(t, Timer::SendIndirectProbe { .. })).expect("no second stage");
        (to, n, ind, o)
    }
    pub fn ack(&mut self, from: &Id, inc: u16, n: u8) -> Out {
        self.recv(from, inc, Message::Ack(n), &[])
    }
}

/// virtual time cluster: every datagram takes `lat` ms, timers fire on time
pub struct Net {
    pub nodes: Vec<Node>,
    pub up: Vec<bool>,
    q: BTreeMap<(u64, u8, u8, u64), Job>,
    pub now: u64,
    seq: u64,
    pub lat: u64,
    pub lose: Box<dyn FnMut(u64, usize, &Id, &D) -> bool>,
    pub notes: Vec<(u64, usize, Note)>,
    pub errors: Vec<String>,
    pub delivered: u64,
}
enum Job {
    Data(Id, Vec<u8>),
    Timer(usize, T),
}
fn rank(t: &T) -> u8 {
    match t {
        Timer::SendIndirectProbe { .. } => 0,
        Timer::ProbeRandomMember(_) => 1,
        _ => 2,
    }
}
impl Net {
    pub fn new(nodes: Vec<Node>, lat: u64) -> Net {
        let up = vec![true; nodes.len()];
        Net {
            nodes,
            up,
            q: BTreeMap::new(),
            now: 0,
            seq: 0,
            lat,
            lose: Box::new(|_, _, _, _| false),
            notes: vec![],
            errors: vec![],
            delivered: 0,
        }
    }
    pub fn absorb(&mut self, n: usize, o: Out) {
        if let Err(e) = &o.res {
            self.errors.push(format!("[{}] node {n}: {e}", self.now));
        }
        for e in o.evs {
            self.seq += 1;
            match e {
                Ev::Send(to, d) => {
                    let p = parse(&d);
                    if (self.lose)(self.now, n, &to, &p) {
                        continue;
                    }
                    self.q.insert((self.now + self.lat, 0, 0, self.seq), Job::Data(to, d));
                }
                Ev::Timer(t, after) => {
                    let at = self.now + after.as_millis() as u64;
                    self.q.insert((at, 1, rank(&t), self.seq), Job::Timer(n, t));
                }
                Ev::Note(x) => self.notes.push((self.now, n, x)),
            }
        }
    }
    pub fn call(&mut self, n: usize, f: impl FnOnce(&mut Node) -> Out) {
        let o = f(&mut self.nodes[n]);
        self.absorb(n, o);
    }
    /// deliver what is due up to `until`
    pub fn run(&mut self, until: u64) {
        while let Some((&k, _)) = self.q.first_key_value() {
            if k.0 > until {
                break;
            }
            self.now = k.0;
            match self.q.remove(&k).unwrap() {
                Job::Data(to, d) => {
                    let n = to.addr as usize;
                    if n < self.nodes.len() && self.up[n] {
                        self.delivered += 1;
                        self.call(n, |x| x.data(&d));
                    }
                }
                Job::Timer(n, t) => {
                    if self.up[n] {
                        self.call(n, |x| x.timer(t));
                    }
                }
            }
        }
        self.now = until;
    }
    /// deliver datagrams only (timers are held); false when it does not stop
    pub fn drain(&mut self, max: u64) -> bool {
        for _ in 0..max {
            let Some(k) = self.q.keys().find(|k| k.1 == 0).copied() else { return true };
            self.now = self.now.max(k.0);
            if let Some(Job::Data(to, d)) = self.q.remove(&k) {
                let n = to.addr as usize;
                if n < self.nodes.len() && self.up[n] {
                    self.call(n, |x| x.data(&d));
                }
            }
        }
        !self.q.keys().any(|k| k.1 == 0)
    }
    /// everyone learns about everyone else without gossiping about it
    pub fn form(&mut self) {
        let all: Vec<M> = self.nodes.iter().map(|n| alive(n.id(), 0)).collect();
        for i in 0..self.nodes.len() {
            let v: Vec<M> = all.iter().filter(|m| m.id().addr as usize != i).cloned().collect();
            self.call(i, |n| n.apply(&v, false));
        }
    }
    pub fn ids(&self) -> Vec<Id> {
        self.nodes.iter().map(|n| n.id()).collect()
    }
    pub fn is_quiet(&self) -> bool {
        !self.notes.iter().any(|(_, _, x)| {
            matches!(x, Note::MemberDown(_) | Note::Idle | Note::Defunct | Note::Rejoin(_))
        })
    }
}

/// the property is broken
pub fn broken(why: impl AsRef<str>) -> ! {
    println!("BROKEN: {}", why.as_ref());
    std::process::exit(1)
}
pub fn check(ok: bool, why: impl AsRef<str>) {
    if !ok {
        broken(why)
    }
}
