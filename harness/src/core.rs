//! Identities, codecs, recorders and the instrumented instance.
use bytes::{Buf, BufMut};
use foca::{
    BroadcastHandler, Codec, Config, Error, Foca, Header, Identity, Incarnation, Invalidates,
    Member, Message, Notification, OwnedNotification, Runtime, State, Timer,
};
use rand::{rngs::SmallRng, Rng, RngCore, SeedableRng};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

pub type M = Member<Nid>;
pub type T = Timer<Nid>;
pub type H = Header<Nid>;
pub type Msg = Message<Nid>;
pub type Note = OwnedNotification<Nid>;

pub const MAXINC: Incarnation = Incarnation::MAX;

// ---------------------------------------------------------------- identity

/// kind: low 2 bits = renew mode; upper bits = padding profile
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct Nid {
    pub addr: u16,
    pub gen: u16,
    pub kind: u8,
    pub pad: Vec<u8>,
}
pub const RENEW_NONE: u8 = 0;
pub const RENEW_BUMP: u8 = 1;
pub const RENEW_SAME: u8 = 2;
pub const RENEW_LOSE: u8 = 3;
/// kind bit: arbitrary (not even antisymmetric) conflict resolution and arbitrary
/// renewals, possibly to another address (only used to look for panics)
pub const WILD: u8 = 0x80;
thread_local! {
    /// corrupted datagrams can set the bit: it only means something to the panic hunt
    static WILD_ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
thread_local! {
    /// what the changing recipient predicate depends on
    static PHASE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn set_phase(p: u64) {
    PHASE.with(|x| x.set(p));
}
pub fn allow_wild(on: bool) {
    WILD_ON.with(|w| w.set(on));
}

pub fn pad_len(profile: u8, addr: u16, gen: u16) -> usize {
    match profile {
        0 => 0,
        1 => 3,
        2 => (addr % 7) as usize,
        3 => ((addr as usize) * 3 + (gen as usize) * 5) % 11,
        4 => ((addr as usize) * 17 + (gen as usize) * 29) % 41,
        _ => 60,
    }
}
impl Nid {
    fn wild(&self) -> bool {
        self.kind & WILD != 0 && WILD_ON.with(|w| w.get())
    }
    pub fn new(addr: u16, gen: u16, kind: u8) -> Self {
        let n = pad_len((kind >> 2) & 0x1f, addr, gen);
        Nid { addr, gen, kind, pad: vec![(addr as u8).wrapping_add(gen as u8); n] }
    }
    pub fn regen(&self, gen: u16) -> Self {
        Nid::new(self.addr, gen, self.kind)
    }
    pub fn renewed(&self) -> Option<Nid> {
        if self.wild() {
            let h = hash2(self.addr as u64 | ((self.gen as u64) << 16), self.kind as u64);
            return match h % 6 {
                0 => None,
                1 => Some(self.clone()),
                2 => Some(Nid::new(((h >> 8) % 6) as u16, (h >> 16) as u16 % 4, self.kind)),
                3 => Some(self.regen((h >> 8) as u16)),
                _ => Some(self.regen(self.gen.wrapping_add(1))),
            };
        }
        match self.kind & 3 {
            RENEW_BUMP => Some(self.regen(self.gen.saturating_add(1))),
            RENEW_SAME => Some(self.clone()),
            RENEW_LOSE => Some(self.regen(self.gen.saturating_sub(1))),
            _ => None,
        }
    }
    /// what foca must do on own death: Some(valid renewed identity) or None
    pub fn valid_renewal(&self) -> Option<Nid> {
        self.renewed().filter(|n| n != self && n.wins(self))
    }
    pub fn wins(&self, other: &Nid) -> bool {
        if self.wild() {
            return hash2(hash2(self.gen as u64, other.gen as u64), self.addr as u64) % 2 == 0;
        }
        // total order: two distinct identities of one address always have a winner
        (self.gen, self.kind, &self.pad) > (other.gen, other.kind, &other.pad)
    }
}
impl fmt::Debug for Nid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let k = ["", "r", "s", "l"][(self.kind & 3) as usize];
        write!(f, "a{}g{}{}", self.addr, self.gen, k)
    }
}
impl Identity for Nid {
    type Addr = u16;
    fn renew(&self) -> Option<Self> {
        self.renewed()
    }
    fn addr(&self) -> u16 {
        self.addr
    }
    fn win_addr_conflict(&self, adversary: &Self) -> bool {
        self.wins(adversary)
    }
}

// ---------------------------------------------------------------- codecs

#[derive(Debug, Clone, PartialEq)]
pub struct CErr(pub String);
impl fmt::Display for CErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CErr {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum AnyCodec {
    Hand,
    /// like Hand, but writes whatever fits before reporting lack of space
    Dirty,
    Bincode,
    Postcard,
    /// headers and members take a couple of bytes (an index into a table)
    Tiny,
    /// any answer a codec may legally give, at random, including errors and empty encodings
    Weird,
}
pub struct TinyState {
    pub hs: Vec<H>,
    pub ms: Vec<M>,
    pub rng: SmallRng,
    pub ids: Vec<Nid>,
}
thread_local! {
    pub static TINY: RefCell<TinyState> = RefCell::new(TinyState {
        hs: vec![], ms: vec![], rng: SmallRng::seed_from_u64(0), ids: vec![],
    });
}
pub fn tiny_reset(seed: u64, ids: Vec<Nid>) {
    TINY.with(|t| *t.borrow_mut() = TinyState { hs: vec![], ms: vec![], rng: SmallRng::seed_from_u64(seed), ids });
}
impl TinyState {
    fn id(&mut self) -> Nid {
        if self.ids.is_empty() {
            return probe_dst();
        }
        let k = self.rng.random_range(0..self.ids.len());
        self.ids[k].clone()
    }
    fn eat(&mut self, b: &mut impl Buf) -> Result<(), CErr> {
        let n = self.rng.random_range(0..4).min(b.remaining());
        b.advance(n);
        if self.rng.random_range(0..8) == 0 {
            return Err(CErr("weird".into()));
        }
        Ok(())
    }
    fn emit(&mut self, mut b: impl BufMut) -> Result<(), CErr> {
        let n = self.rng.random_range(0..5usize).min(b.remaining_mut());
        let v: Vec<u8> = (0..n).map(|_| self.rng.random()).collect();
        b.put_slice(&v);
        if self.rng.random_range(0..10) == 0 {
            return Err(CErr("weird".into()));
        }
        Ok(())
    }
}
fn tiny_put<X>(tab: &mut Vec<X>, x: X, mut b: impl BufMut) -> Result<(), CErr> {
    if b.remaining_mut() < 1 {
        return Err(CErr("no space".into()));
    }
    if tab.len() > 250 {
        tab.clear();
    }
    tab.push(x);
    b.put_u8((tab.len() - 1) as u8);
    Ok(())
}
fn tiny_get<X: Clone>(tab: &[X], b: &mut impl Buf) -> Result<X, CErr> {
    need(b, 1)?;
    tab.get(b.get_u8() as usize).cloned().ok_or(CErr("no such entry".into()))
}
pub const CODECS: [AnyCodec; 4] =
    [AnyCodec::Hand, AnyCodec::Dirty, AnyCodec::Bincode, AnyCodec::Postcard];

fn w_id(v: &mut Vec<u8>, id: &Nid) {
    v.put_u16(id.addr);
    v.put_u16(id.gen);
    v.put_u8(id.kind);
    v.put_u8(id.pad.len() as u8);
    v.extend_from_slice(&id.pad);
}
fn need(b: &impl Buf, n: usize) -> Result<(), CErr> {
    if b.remaining() < n {
        Err(CErr("eof".into()))
    } else {
        Ok(())
    }
}
fn r_id(b: &mut impl Buf) -> Result<Nid, CErr> {
    need(b, 6)?;
    let addr = b.get_u16();
    let gen = b.get_u16();
    let kind = b.get_u8();
    let n = b.get_u8() as usize;
    need(b, n)?;
    let mut pad = vec![0; n];
    b.copy_to_slice(&mut pad);
    Ok(Nid { addr, gen, kind, pad })
}
fn w_member(v: &mut Vec<u8>, m: &M) {
    w_id(v, m.id());
    v.put_u16(m.incarnation());
    v.put_u8(match m.state() {
        State::Alive => 1,
        State::Suspect => 2,
        State::Down => 3,
    });
}
fn w_header(v: &mut Vec<u8>, h: &H) {
    w_id(v, &h.src);
    v.put_u16(h.src_incarnation);
    w_id(v, &h.dst);
    match &h.message {
        Message::Ping(p) => v.extend_from_slice(&[1, *p]),
        Message::Ack(p) => v.extend_from_slice(&[2, *p]),
        Message::PingReq { target, probe_number } => {
            v.extend_from_slice(&[3, *probe_number]);
            w_id(v, target)
        }
        Message::IndirectPing { origin, probe_number } => {
            v.extend_from_slice(&[4, *probe_number]);
            w_id(v, origin)
        }
        Message::IndirectAck { target, probe_number } => {
            v.extend_from_slice(&[5, *probe_number]);
            w_id(v, target)
        }
        Message::ForwardedAck { origin, probe_number } => {
            v.extend_from_slice(&[6, *probe_number]);
            w_id(v, origin)
        }
        Message::Announce => v.push(7),
        Message::Feed => v.push(8),
        Message::Gossip => v.push(9),
        Message::Broadcast => v.push(10),
        Message::TurnUndead => v.push(11),
    }
}
fn hand_put(bytes: &[u8], mut buf: impl BufMut, dirty: bool) -> Result<(), CErr> {
    let rem = buf.remaining_mut();
    if rem < bytes.len() {
        if dirty {
            buf.put_slice(&bytes[..rem]);
        }
        return Err(CErr("no space".into()));
    }
    buf.put_slice(bytes);
    Ok(())
}
fn es<E: fmt::Debug>(e: E) -> CErr {
    CErr(format!("{e:?}"))
}
pub fn bincode_codec() -> foca::BincodeCodec<bincode::config::Configuration> {
    foca::BincodeCodec(bincode::config::standard())
}

impl Codec<Nid> for AnyCodec {
    type Error = CErr;
    fn encode_header(&mut self, h: &H, buf: impl BufMut) -> Result<(), CErr> {
        match self {
            AnyCodec::Hand | AnyCodec::Dirty => {
                let mut v = Vec::new();
                w_header(&mut v, h);
                hand_put(&v, buf, *self == AnyCodec::Dirty)
            }
            AnyCodec::Bincode => bincode_codec().encode_header(h, buf).map_err(es),
            AnyCodec::Postcard => foca::PostcardCodec.encode_header(h, buf).map_err(es),
            AnyCodec::Tiny => TINY.with(|t| tiny_put(&mut t.borrow_mut().hs, h.clone(), buf)),
            AnyCodec::Weird => TINY.with(|t| t.borrow_mut().emit(buf)),
        }
    }
    fn decode_header(&mut self, mut b: impl Buf) -> Result<H, CErr> {
        match self {
            AnyCodec::Hand | AnyCodec::Dirty => {
                let src = r_id(&mut b)?;
                need(&b, 2)?;
                let src_incarnation = b.get_u16();
                let dst = r_id(&mut b)?;
                need(&b, 1)?;
                let tag = b.get_u8();
                let mut pn = 0;
                if (1..=6).contains(&tag) {
                    need(&b, 1)?;
                    pn = b.get_u8();
                }
                let probe_number = pn;
                let message = match tag {
                    1 => Message::Ping(pn),
                    2 => Message::Ack(pn),
                    3 => Message::PingReq { target: r_id(&mut b)?, probe_number },
                    4 => Message::IndirectPing { origin: r_id(&mut b)?, probe_number },
                    5 => Message::IndirectAck { target: r_id(&mut b)?, probe_number },
                    6 => Message::ForwardedAck { origin: r_id(&mut b)?, probe_number },
                    7 => Message::Announce,
                    8 => Message::Feed,
                    9 => Message::Gossip,
                    10 => Message::Broadcast,
                    11 => Message::TurnUndead,
                    _ => return Err(CErr("bad tag".into())),
                };
                Ok(Header { src, src_incarnation, dst, message })
            }
            AnyCodec::Bincode => bincode_codec().decode_header(b).map_err(es),
            AnyCodec::Postcard => foca::PostcardCodec.decode_header(b).map_err(es),
            AnyCodec::Tiny => TINY.with(|t| tiny_get(&t.borrow().hs, &mut b)),
            AnyCodec::Weird => TINY.with(|t| {
                let t = &mut *t.borrow_mut();
                t.eat(&mut b)?;
                let (x, pn) = (t.id(), t.rng.random::<u8>() % 4);
                let message = match t.rng.random_range(0..11) {
                    0 => Message::Ping(pn),
                    1 => Message::Ack(pn),
                    2 => Message::PingReq { target: x, probe_number: pn },
                    3 => Message::IndirectPing { origin: x, probe_number: pn },
                    4 => Message::IndirectAck { target: x, probe_number: pn },
                    5 => Message::ForwardedAck { origin: x, probe_number: pn },
                    6 => Message::Announce,
                    7 => Message::Feed,
                    8 => Message::Gossip,
                    9 => Message::Broadcast,
                    _ => Message::TurnUndead,
                };
                Ok(Header { src: t.id(), src_incarnation: t.rng.random::<u16>() % 3, dst: t.id(), message })
            }),
        }
    }
    fn encode_member(&mut self, m: &M, buf: impl BufMut) -> Result<(), CErr> {
        match self {
            AnyCodec::Hand | AnyCodec::Dirty => {
                let mut v = Vec::new();
                w_member(&mut v, m);
                hand_put(&v, buf, *self == AnyCodec::Dirty)
            }
            AnyCodec::Bincode => bincode_codec().encode_member(m, buf).map_err(es),
            AnyCodec::Postcard => foca::PostcardCodec.encode_member(m, buf).map_err(es),
            AnyCodec::Tiny => TINY.with(|t| tiny_put(&mut t.borrow_mut().ms, m.clone(), buf)),
            AnyCodec::Weird => TINY.with(|t| t.borrow_mut().emit(buf)),
        }
    }
    fn decode_member(&mut self, mut b: impl Buf) -> Result<M, CErr> {
        match self {
            AnyCodec::Hand | AnyCodec::Dirty => {
                let id = r_id(&mut b)?;
                need(&b, 3)?;
                let inc = b.get_u16();
                let st = match b.get_u8() {
                    1 => State::Alive,
                    2 => State::Suspect,
                    3 => State::Down,
                    _ => return Err(CErr("bad state".into())),
                };
                Ok(Member::new(id, inc, st))
            }
            AnyCodec::Bincode => bincode_codec().decode_member(b).map_err(es),
            AnyCodec::Postcard => foca::PostcardCodec.decode_member(b).map_err(es),
            AnyCodec::Tiny => TINY.with(|t| tiny_get(&t.borrow().ms, &mut b)),
            AnyCodec::Weird => TINY.with(|t| {
                let t = &mut *t.borrow_mut();
                t.eat(&mut b)?;
                let st = [State::Alive, State::Suspect, State::Down][t.rng.random_range(0..3)];
                Ok(Member::new(t.id(), t.rng.random::<u16>() % 3, st))
            }),
        }
    }
}
impl AnyCodec {
    pub fn header_bytes(&self, h: &H) -> Vec<u8> {
        let mut v = Vec::new();
        let mut c = *self;
        c.encode_header(h, &mut v).unwrap();
        v
    }
    pub fn member_bytes(&self, m: &M) -> Vec<u8> {
        let mut v = Vec::new();
        let mut c = *self;
        c.encode_member(m, &mut v).unwrap();
        v
    }
}

// ---------------------------------------------------------------- events

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Send { to: Nid, data: Vec<u8> },
    Timer { t: T, after: Duration },
    Note(Note),
    /// BroadcastHandler::receive_item
    Recv { data: Vec<u8>, sender: Option<Nid>, ret: RecvRet },
}
#[derive(Clone, PartialEq, Debug)]
pub enum RecvRet {
    Key(Key),
    Drop,
    Fail,
}
pub type Log = Rc<RefCell<Vec<Ev>>>;

#[derive(Clone)]
pub struct Rec(pub Log);
impl Runtime<Nid> for Rec {
    fn notify(&mut self, n: Notification<'_, Nid>) {
        self.0.borrow_mut().push(Ev::Note(n.to_owned()));
    }
    fn send_to(&mut self, to: Nid, data: &[u8]) {
        self.0.borrow_mut().push(Ev::Send { to, data: data.to_vec() });
    }
    fn submit_after(&mut self, t: T, after: Duration) {
        self.0.borrow_mut().push(Ev::Timer { t, after });
    }
}

// ---------------------------------------------------------------- broadcast handler

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Key {
    pub group: u8,
    pub ver: u8,
    pub mode: u8,
    pub h: u64,
}
impl Key {
    pub fn inv(&self, o: &Key) -> bool {
        match self.mode {
            0 => self.group == o.group,                     // replace same group
            1 => false,                                     // never
            2 => true,                                      // always
            3 => self.h == o.h,                             // same content
            4 => hash2(self.h, o.h) % 3 == 0,               // arbitrary relation
            _ => self.group == o.group && self.ver >= o.ver, // versioned
        }
    }
}
impl Invalidates for Key {
    fn invalidates(&self, other: &Self) -> bool {
        self.inv(other)
    }
}
pub fn hash2(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.rotate_left(23).wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_of<X: Hash + ?Sized>(x: &X) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct HandlerCfg {
    pub key_mode: u8, // 0..=5
    /// 0 accept everything; 1 dedupe by content; 2 accept newer version only;
    /// 3 like 1 but fail items starting with 0xEE and drop ones starting with 0xDD; 4 fail all
    pub accept: u8,
    /// recipient predicate: 0 all, 1 none, 2 even addr, 3 by hash(addr,gen),
    /// 4 by hash(addr,gen) and a phase that changes between calls
    pub pred: u8,
}
impl HandlerCfg {
    pub fn allows(&self, m: &Nid) -> bool {
        match self.pred {
            0 => true,
            1 => false,
            2 => m.addr % 2 == 0,
            4 => hash2(m.addr as u64, m.gen as u64 ^ PHASE.with(|p| p.get())) % 2 == 0,
            _ => hash2(m.addr as u64, m.gen as u64) % 2 == 0,
        }
    }
}
#[derive(Debug)]
pub struct HErr;
impl fmt::Display for HErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("handler says no")
    }
}
impl std::error::Error for HErr {}
pub struct Handler {
    pub cfg: HandlerCfg,
    pub log: Log,
    seen: std::collections::HashSet<u64>,
    best: std::collections::HashMap<u8, u8>,
}
impl Handler {
    pub fn new(cfg: HandlerCfg, log: Log) -> Self {
        Handler { cfg, log, seen: Default::default(), best: Default::default() }
    }
    fn decide(&mut self, data: &[u8]) -> RecvRet {
        let h = hash_of(data);
        let group = data.first().copied().unwrap_or(0) % 4;
        let ver = data.get(1).copied().unwrap_or(0);
        let key = Key { group, ver, mode: self.cfg.key_mode, h };
        match self.cfg.accept {
            0 => RecvRet::Key(key),
            1 => {
                if self.seen.insert(h) {
                    RecvRet::Key(key)
                } else {
                    RecvRet::Drop
                }
            }
            2 => {
                let b = self.best.get(&group).copied();
                if b.is_none_or(|b| ver > b) {
                    self.best.insert(group, ver);
                    RecvRet::Key(key)
                } else {
                    RecvRet::Drop
                }
            }
            3 => match data.first() {
                Some(0xEE) => RecvRet::Fail,
                Some(0xDD) => RecvRet::Drop,
                _ => {
                    if self.seen.insert(h) {
                        RecvRet::Key(key)
                    } else {
                        RecvRet::Drop
                    }
                }
            },
            _ => RecvRet::Fail,
        }
    }
}
impl BroadcastHandler<Nid> for Handler {
    type Key = Key;
    type Error = HErr;
    fn receive_item(&mut self, data: &[u8], sender: Option<&Nid>) -> Result<Option<Key>, HErr> {
        let ret = self.decide(data);
        self.log.borrow_mut().push(Ev::Recv {
            data: data.to_vec(),
            sender: sender.cloned(),
            ret: ret.clone(),
        });
        match ret {
            RecvRet::Key(k) => Ok(Some(k)),
            RecvRet::Drop => Ok(None),
            RecvRet::Fail => Err(HErr),
        }
    }
    fn should_add_broadcast_data(&self, m: &Nid) -> bool {
        self.cfg.allows(m)
    }
}

// ---------------------------------------------------------------- ops / steps

#[derive(Clone, Debug)]
pub enum Op {
    Data(Vec<u8>),
    Timer(T),
    Announce(Nid),
    Gossip,
    Broadcast,
    Leave,
    ChangeId(Nid),
    Reuse,
    Apply(Vec<M>, bool),
    AddBroadcast(Vec<u8>),
    SetConfig(Box<Config>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum EK {
    DataTooBig,
    NotUndead,
    SameIdentity,
    NotConnected,
    IncompleteProbeCycle,
    DataFromOurselves,
    IndirectForOurselves,
    Malformed,
    Encode(String),
    Decode(String),
    Custom,
    InvalidConfig,
}
pub fn ek(e: &Error) -> EK {
    match e {
        Error::DataTooBig => EK::DataTooBig,
        Error::NotUndead => EK::NotUndead,
        Error::SameIdentity => EK::SameIdentity,
        Error::NotConnected => EK::NotConnected,
        Error::IncompleteProbeCycle => EK::IncompleteProbeCycle,
        Error::DataFromOurselves => EK::DataFromOurselves,
        Error::IndirectForOurselves => EK::IndirectForOurselves,
        Error::MalformedPacket => EK::Malformed,
        Error::Encode(e) => EK::Encode(e.to_string()),
        Error::Decode(e) => EK::Decode(e.to_string()),
        Error::CustomBroadcast(_) => EK::Custom,
        Error::InvalidConfig => EK::InvalidConfig,
    }
}
/// Ok(b): b is add_broadcast's answer, false otherwise
pub type Res = Result<bool, EK>;

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub id: Nid,
    /// own incarnation as observed in a header (None if not probed)
    pub inc: Option<Incarnation>,
    /// iter_membership_state, in order
    pub recs: Vec<M>,
    /// iter_members
    pub active: Vec<M>,
    pub num: usize,
    pub upd: usize,
    pub cust: usize,
}
impl Snap {
    pub fn rec(&self, addr: u16) -> Option<&M> {
        self.recs.iter().find(|m| m.id().addr == addr)
    }
    pub fn n_active(&self) -> usize {
        self.recs.iter().filter(|m| m.state() != State::Down).count()
    }
    pub fn sorted(&self) -> Vec<M> {
        let mut v = self.recs.clone();
        v.sort_by(|a, b| a.id().cmp(b.id()));
        v
    }
}
pub struct Step {
    pub op: Op,
    pub res: Res,
    pub evs: Vec<Ev>,
    pub pre: Rc<Snap>,
    pub post: Rc<Snap>,
    /// configuration in force when the op started / ended
    pub cfg: Rc<Config>,
    pub cfg_post: Rc<Config>,
}
impl Step {
    pub fn sends(&self) -> impl Iterator<Item = (&Nid, &Vec<u8>)> {
        self.evs.iter().filter_map(|e| match e {
            Ev::Send { to, data } => Some((to, data)),
            _ => None,
        })
    }
    pub fn notes(&self) -> impl Iterator<Item = &Note> {
        self.evs.iter().filter_map(|e| match e {
            Ev::Note(n) => Some(n),
            _ => None,
        })
    }
    pub fn timers(&self) -> impl Iterator<Item = (&T, Duration)> {
        self.evs.iter().filter_map(|e| match e {
            Ev::Timer { t, after } => Some((t, *after)),
            _ => None,
        })
    }
}

/// SmallRng, or a few nasty but terminating generators
#[derive(Clone)]
pub enum SimRng {
    Small(SmallRng),
    Counter(u64),
    Const(u64),
}
impl SimRng {
    pub fn new(seed: u64) -> Self {
        if seed % 13 == 12 {
            SimRng::Counter(seed)
        } else {
            SimRng::Small(SmallRng::seed_from_u64(seed))
        }
    }
}
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        match self {
            SimRng::Small(r) => r.next_u32(),
            SimRng::Counter(c) => {
                *c = c.wrapping_add(0x3779B97F4A7C15);
                (*c >> 16) as u32
            }
            SimRng::Const(c) => *c as u32,
        }
    }
    fn next_u64(&mut self) -> u64 {
        ((self.next_u32() as u64) << 32) | self.next_u32() as u64
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for b in dst {
            *b = self.next_u32() as u8;
        }
    }
}

pub type F = Foca<Nid, AnyCodec, SimRng, Handler>;

pub struct Pending {
    pub due: Duration,
    pub seq: u64,
    pub t: T,
}

#[derive(Clone)]
pub struct Setup {
    pub id: Nid,
    pub cfg: Config,
    pub seed: u64,
    pub codec: AnyCodec,
    pub handler: HandlerCfg,
}

pub struct Inst {
    pub foca: F,
    pub log: Log,
    pub codec: AnyCodec,
    pub hcfg: HandlerCfg,
    pub cfg: Rc<Config>,
    pub timers: Vec<Pending>,
    pub now: Duration,
    pub seq: u64,
    pub snap: Rc<Snap>,
    /// observe the incarnation after every op
    pub watch_inc: bool,
    /// take snapshots after every op
    pub watch: bool,
    pub nops: u64,
}

pub struct Panic(pub String);

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// run one op against a Foca through any runtime
pub fn apply_op<R: Runtime<Nid>>(foca: &mut F, op: &Op, rt: R) -> Res {
    let ok = |r: Result<(), Error>| r.map(|_| false).map_err(|e| ek(&e));
    match op {
        Op::Data(d) => ok(foca.handle_data(d, rt)),
        Op::Timer(t) => ok(foca.handle_timer(t.clone(), rt)),
        Op::Announce(d) => ok(foca.announce(d.clone(), rt)),
        Op::Gossip => ok(foca.gossip(rt)),
        Op::Broadcast => ok(foca.broadcast(rt)),
        Op::Leave => ok(foca.leave_cluster(rt)),
        Op::ChangeId(i) => ok(foca.change_identity(i.clone(), rt)),
        Op::Reuse => ok(foca.reuse_down_identity()),
        Op::Apply(v, b) => ok(foca.apply_many(v.iter().cloned(), *b, rt)),
        Op::AddBroadcast(d) => foca.add_broadcast(d).map_err(|e| ek(&e)),
        Op::SetConfig(c) => ok(foca.set_config((**c).clone())),
    }
}

/// destination used for the (non-intrusive) incarnation probe: an Announce
/// to it reveals the current header without touching RNG or backlogs
pub fn probe_dst() -> Nid {
    Nid { addr: 60_000, gen: 0, kind: 0, pad: Vec::new() }
}

impl Inst {
    pub fn new(s: &Setup) -> Inst {
        Self::with_rng(s, SimRng::new(s.seed))
    }
    pub fn with_rng(s: &Setup, rng: SimRng) -> Inst {
        let log: Log = Rc::new(RefCell::new(Vec::new()));
        let foca = Foca::with_custom_broadcast(
            s.id.clone(),
            s.cfg.clone(),
            rng,
            s.codec,
            Handler::new(s.handler, log.clone()),
        );
        let snap = Rc::new(Snap {
            id: s.id.clone(),
            inc: None,
            recs: vec![],
            active: vec![],
            num: 0,
            upd: 0,
            cust: 0,
        });
        Inst {
            foca,
            log,
            codec: s.codec,
            hcfg: s.handler,
            cfg: Rc::new(s.cfg.clone()),
            timers: vec![],
            now: Duration::ZERO,
            seq: 0,
            snap,
            watch_inc: false,
            watch: true,
            nops: 0,
        }
    }
    /// call once after setting the watch flags
    pub fn start(&mut self) -> Result<(), Panic> {
        self.snap = self.snapshot()?;
        Ok(())
    }
    fn snapshot(&mut self) -> Result<Rc<Snap>, Panic> {
        if !self.watch {
            return Ok(self.snap.clone());
        }
        let f = &mut self.foca;
        let watch_inc = self.watch_inc;
        let log = self.log.clone();
        let codec = self.codec;
        catch_unwind(AssertUnwindSafe(|| {
            let inc = if watch_inc {
                let mark = log.borrow().len();
                let r = f.announce(probe_dst(), Rec(log.clone()));
                let evs = log.borrow_mut().split_off(mark);
                match (r, evs.iter().find_map(|e| match e {
                    Ev::Send { data, .. } => Some(data.clone()),
                    _ => None,
                })) {
                    (Ok(()), Some(data)) => {
                        let mut c = codec;
                        c.decode_header(&mut &data[..]).ok().map(|h| h.src_incarnation)
                    }
                    _ => None,
                }
            } else {
                None
            };
            Rc::new(Snap {
                id: f.identity().clone(),
                inc,
                recs: f.iter_membership_state().cloned().collect(),
                active: f.iter_members().cloned().collect(),
                num: f.num_members(),
                upd: f.updates_backlog(),
                cust: f.custom_broadcast_backlog(),
            })
        }))
        .map_err(|p| Panic(format!("panic while inspecting: {}", panic_text(p))))
    }
    pub fn exec(&mut self, op: Op) -> Result<Step, Panic> {
        self.nops += 1;
        let pre = self.snap.clone();
        let cfg = self.cfg.clone();
        self.log.borrow_mut().clear();
        let rt = Rec(self.log.clone());
        let foca = &mut self.foca;
        let res = catch_unwind(AssertUnwindSafe(|| apply_op(foca, &op, rt)))
            .map_err(|p| Panic(format!("panic in {op:?}: {}", panic_text(p))))?;
        let evs: Vec<Ev> = std::mem::take(&mut *self.log.borrow_mut());
        if let (Op::SetConfig(c), Ok(_)) = (&op, &res) {
            self.cfg = Rc::new((**c).clone());
        }
        for e in &evs {
            if let Ev::Timer { t, after } = e {
                self.seq += 1;
                self.timers.push(Pending {
                    due: self.now.saturating_add(*after),
                    seq: self.seq,
                    t: t.clone(),
                });
            }
        }
        let post = self.snapshot()?;
        self.snap = post.clone();
        Ok(Step { op, res, evs, pre, post, cfg, cfg_post: self.cfg.clone() })
    }
    /// index of the next timer in deadline order (ties: foca's documented Ord, then issue order)
    pub fn next_timer(&self) -> Option<usize> {
        (0..self.timers.len()).min_by(|&a, &b| {
            let (x, y) = (&self.timers[a], &self.timers[b]);
            x.due.cmp(&y.due).then_with(|| x.t.cmp(&y.t)).then(x.seq.cmp(&y.seq))
        })
    }
}

pub fn fnv(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x100000001b3);
}
