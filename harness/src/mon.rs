//! Online monitors over the observed steps of one instance.
use crate::core::*;
use crate::refm::*;
use crate::wire::*;
use foca::{Incarnation, Member, Message, State, Timer};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Idle,
    Active,
    Defunct,
}

#[derive(Default, Clone)]
pub struct Counters(pub BTreeMap<&'static str, u64>);
impl Counters {
    pub fn hit(&mut self, k: &'static str) {
        *self.0.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.0.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.0.get(k).copied().unwrap_or(0)
    }
    pub fn merge(&mut self, o: &Counters) {
        for (k, v) in &o.0 {
            if k.starts_with("max_") {
                self.max(k, *v);
            } else {
                self.add(k, *v);
            }
        }
    }
}

/// Connection state and epoch, inferred only from notifications and call results.
pub struct Track {
    pub st: St,
    pub epoch: u64,
    /// issue epoch by timer sequence number (see Inst::seq)
    pub issue: HashMap<u64, u64>,
    pub codec: AnyCodec,
    /// went defunct through leave_cluster
    pub left: bool,
}

pub struct Obs<'a> {
    pub s: &'a Step,
    pub it: Interp,
    pub st_pre: St,
    pub st_post: St,
    pub epoch_pre: u64,
    pub epoch_post: u64,
    /// issue epoch of the fired timer
    pub fired: Option<u64>,
    pub ev_st: Vec<St>,
    pub ev_epoch: Vec<u64>,
    pub parsed: Vec<Option<Result<Parsed, String>>>,
    pub codec: AnyCodec,
    pub hcfg: HandlerCfg,
    pub seq0: u64,
    /// the fired timer was the scheduled one, delivered exactly once
    pub genuine: bool,
}
impl Obs<'_> {
    pub fn out(&self) -> impl Iterator<Item = (usize, &Nid, &Parsed)> {
        self.s.evs.iter().enumerate().filter_map(|(i, e)| match (e, &self.parsed[i]) {
            (Ev::Send { to, .. }, Some(Ok(p))) => Some((i, to, p)),
            _ => None,
        })
    }
    pub fn max(&self) -> usize {
        self.s.cfg.max_packet_size.get()
    }
    /// identities held during the step, oldest first
    pub fn chain(&self) -> Vec<Nid> {
        let mut v = vec![self.s.pre.id.clone()];
        if let Op::ChangeId(n) = &self.s.op {
            if n != &self.s.pre.id {
                v = vec![n.clone()];
            }
        }
        for a in &self.it.acts {
            if let Act::Renew { new, .. } = a {
                v.push(new.clone());
            }
        }
        v
    }
    pub fn processed_hdr(&self) -> Option<&H> {
        match &self.it.class {
            Some(In::Ok { h, .. }) => Some(h),
            _ => None,
        }
    }
    pub fn is_timer(&self) -> Option<&T> {
        match &self.s.op {
            Op::Timer(t) => Some(t),
            _ => None,
        }
    }
    pub fn epoch_live(&self) -> bool {
        self.fired == Some(self.epoch_pre)
    }
}

impl Track {
    pub fn new(codec: AnyCodec) -> Self {
        Track { st: St::Idle, epoch: 0, issue: HashMap::new(), codec, left: false }
    }
    pub fn observe<'a>(
        &mut self,
        s: &'a Step,
        seq_before: u64,
        fired: Option<u64>,
        genuine: bool,
        hcfg: HandlerCfg,
    ) -> Obs<'a> {
        let st_pre = self.st;
        let epoch_pre = self.epoch;
        let it = interpret(s, self.codec, s.pre.inc.unwrap_or(0), st_pre == St::Defunct);
        match &s.op {
            Op::ChangeId(_) if s.pre.id != s.post.id => {
                self.epoch += 1;
                self.st = St::Idle;
            }
            Op::Reuse if s.res.is_ok() => {
                self.epoch += 1;
                self.st = St::Idle;
            }
            _ => {}
        }
        let mut ev_st = Vec::with_capacity(s.evs.len());
        let mut ev_epoch = Vec::with_capacity(s.evs.len());
        let mut parsed = Vec::with_capacity(s.evs.len());
        let mut seq = seq_before;
        for e in &s.evs {
            ev_st.push(self.st);
            ev_epoch.push(self.epoch);
            let mut pr = None;
            match e {
                Ev::Timer { .. } => {
                    seq += 1;
                    self.issue.insert(seq, self.epoch);
                }
                Ev::Note(n) => match n {
                    Note::Active => self.st = St::Active,
                    Note::Idle => {
                        self.st = St::Idle;
                        self.epoch += 1;
                    }
                    Note::Defunct => {
                        self.st = St::Defunct;
                        self.epoch += 1;
                    }
                    Note::Rejoin(_) => {
                        self.st = St::Idle;
                        self.epoch += 1;
                    }
                    _ => {}
                },
                Ev::Send { data, .. } => {
                    pr = Some(parse_out(self.codec, data, s.cfg.max_packet_size.get()))
                }
                Ev::Recv { .. } => {}
            }
            parsed.push(pr);
        }
        // renewing may fail to encode the goodbye (only when packets are too small
        // for a header): the identity changed although nobody said so
        if s.pre.id != s.post.id
            && self.epoch == epoch_pre
            && matches!(s.res, Err(EK::Encode(_)))
        {
            self.epoch += 1;
            self.st = St::Idle;
        }
        Obs {
            s,
            it,
            st_pre,
            st_post: self.st,
            epoch_pre,
            epoch_post: self.epoch,
            fired,
            ev_st,
            ev_epoch,
            parsed,
            codec: self.codec,
            hcfg,
            seq0: seq_before,
            genuine,
        }
    }
}

pub type V = Result<(), String>;
pub trait Monitor {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V;
    fn finish(&mut self, _c: &mut Counters) -> V {
        Ok(())
    }
}
macro_rules! bad { ($($a:tt)*) => { return Err(format!($($a)*)) } }

fn same_rec(a: &M, b: &M) -> bool {
    a.id() == b.id()
        && a.state() == b.state()
        && (a.state() == State::Down || a.incarnation() == b.incarnation())
}
pub fn same_recs(a: &[M], b: &[M]) -> bool {
    a.len() == b.len() && {
        let m = to_map(b);
        a.iter().all(|x| m.get(&x.id().addr).is_some_and(|y| x == y))
    }
}

// ------------------------------------------------------------------ C01
#[derive(Default)]
pub struct C01;
impl Monitor for C01 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        let (pre, post) = (to_map(&o.s.pre.recs), to_map(&o.s.post.recs));
        for (a, r) in &pre {
            match post.get(a) {
                None => match o.is_timer() {
                    Some(Timer::RemoveDown(x)) if x == r.id() && r.state() == State::Down => {
                        c.hit("forgotten")
                    }
                    _ => bad!("record {r:?} vanished"),
                },
                Some(p) if p == r => {}
                Some(p) => {
                    if !supersedes(r, p) {
                        bad!("record moved backwards: {r:?} -> {p:?}");
                    }
                    c.hit("moved_forward");
                }
            }
        }
        if let Some(m) = &o.it.map {
            // the resulting view is exactly the join of what was known and what was told
            for (a, p) in &post {
                match m.get(a) {
                    Some(x) if same_rec(x, p) => {}
                    x => bad!("record for address {a} is {p:?}, precedence order gives {x:?}"),
                }
            }
            if m.len() != post.len() {
                bad!("{} records, the precedence order gives {}", post.len(), m.len());
            }
            c.add("updates_applied", o.it.processed.len() as u64);
        } else if !matches!(o.s.op, Op::Timer(_) | Op::ChangeId(_)) && !same_recs(&o.s.pre.recs, &o.s.post.recs) {
            bad!("records changed by {:?}", o.s.op);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C07
#[derive(Default)]
pub struct C07 {
    pub n: u64,
}
impl Monitor for C07 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        let max = o.max();
        let chain = o.chain();
        let mut at = 0;
        let mut last: Option<(Nid, Incarnation)> = None;
        for (i, e) in o.s.evs.iter().enumerate() {
            let Ev::Send { to, data } = e else { continue };
            if data.len() > max {
                bad!("datagram of {} bytes, max_packet_size is {max}", data.len());
            }
            let p = match o.parsed[i].as_ref().unwrap() {
                Ok(p) => p,
                Err(e) => bad!("malformed datagram to {to:?}: {e}; bytes {data:?}"),
            };
            if &p.h.dst != to {
                bad!("header says dst {:?}, handed over for {to:?}", p.h.dst);
            }
            match chain[at..].iter().position(|x| x == &p.h.src) {
                Some(k) => at += k,
                None => bad!("source {:?} is not the current identity (expected one of {:?})", p.h.src, &chain[at..]),
            }
            if let Some((id, inc)) = &last {
                if id == &p.h.src && p.h.src_incarnation < *inc {
                    bad!("source incarnation went from {inc} to {}", p.h.src_incarnation);
                }
            }
            last = Some((p.h.src.clone(), p.h.src_incarnation));
            if let (Some(a), Some(b)) = (o.s.pre.inc, o.s.post.inc) {
                let lo = if p.h.src == o.s.pre.id && !matches!(o.s.op, Op::Reuse) { a } else { 0 };
                if p.h.src_incarnation < lo || (p.h.src == o.s.post.id && p.h.src_incarnation > b) {
                    bad!("source incarnation {} outside the instance's {lo}..={b}", p.h.src_incarnation);
                }
                if o.it.acts.is_empty() && !matches!(o.s.op, Op::ChangeId(_)) && p.h.src_incarnation != a {
                    bad!("source incarnation {} but the instance is at {a}", p.h.src_incarnation);
                }
            }
            if p.h.message == Message::Feed {
                let mut seen = HashSet::new();
                for (m, _) in &p.members {
                    if m.state() == State::Down {
                        bad!("Feed lists inactive {m:?}");
                    }
                    if m.id() == to {
                        bad!("Feed lists its receiver {m:?}");
                    }
                    if m.id() == &p.h.src {
                        bad!("Feed lists its sender {m:?}");
                    }
                    if !o.s.post.active.contains(m) {
                        bad!("Feed lists {m:?}, which is not an active member");
                    }
                    if !seen.insert(m.id().clone()) {
                        bad!("Feed lists {m:?} twice");
                    }
                }
                c.hit("feeds");
                c.add("feed_members", p.members.len() as u64);
                c.max("max_feed_members", p.members.len() as u64);
            }
            c.hit("datagrams");
            c.hit(kind_name(&p.h.message));
            if max - data.len() < 12 {
                c.hit("nearly_full_datagrams");
            }
            c.add("members_seen", p.members.len() as u64);
            c.add("items_seen", p.items.len() as u64);
            self.n += 1;
            // a real peer with the same codec and packet size takes it
            if to.addr != p.h.src.addr {
                let mut cfg = foca::Config::simple();
                cfg.max_packet_size = o.s.cfg.max_packet_size;
                let mut peer = Inst::new(&Setup {
                    id: to.clone(),
                    cfg,
                    seed: self.n,
                    codec: o.codec,
                    handler: HandlerCfg { key_mode: 1, accept: 0, pred: 0 },
                });
                peer.watch = false;
                let st = match peer.exec(Op::Data(data.clone())) {
                    Ok(st) => st,
                    Err(Panic(m)) => bad!("peer panicked on {data:?}: {m}"),
                };
                match &st.res {
                    Err(e @ (EK::Decode(_) | EK::Malformed | EK::DataTooBig | EK::DataFromOurselves)) => {
                        bad!("peer {to:?} rejects the datagram with {e:?}; {:?}; bytes {data:?}", p.h)
                    }
                    _ => {}
                }
                let got: Vec<&Vec<u8>> = st
                    .evs
                    .iter()
                    .filter_map(|e| match e {
                        Ev::Recv { data, .. } => Some(data),
                        _ => None,
                    })
                    .collect();
                if got.len() != p.items.len() || got.iter().zip(&p.items).any(|(a, b)| *a != b) {
                    bad!("peer handler saw {} items, datagram carries {}", got.len(), p.items.len());
                }
                c.hit("peer_deliveries");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C08
#[derive(Default)]
pub struct C08 {
    mirror: Vec<Nid>,
}
impl Monitor for C08 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        for (i, e) in o.s.evs.iter().enumerate() {
            let Ev::Note(n) = e else { continue };
            let st = o.ev_st[i];
            match n {
                Note::MemberUp(x) => {
                    if self.mirror.contains(x) {
                        bad!("MemberUp({x:?}) but it is already up");
                    }
                    self.mirror.push(x.clone());
                    c.hit("MemberUp");
                }
                Note::MemberDown(x) => match self.mirror.iter().position(|m| m == x) {
                    Some(p) => {
                        self.mirror.swap_remove(p);
                        c.hit("MemberDown");
                    }
                    None => bad!("MemberDown({x:?}) but it is not up"),
                },
                Note::Rename(a, b) => {
                    c.hit("Rename");
                    if let Some(p) = self.mirror.iter().position(|m| m == a) {
                        self.mirror[p] = b.clone();
                        c.hit("RenameActive");
                    }
                }
                Note::Active => {
                    if st != St::Idle {
                        bad!("Active notified while {st:?}");
                    }
                    if self.mirror.is_empty() {
                        bad!("Active notified without any active member");
                    }
                    c.hit("Active");
                }
                Note::Idle => {
                    if st != St::Active {
                        bad!("Idle notified while {st:?}");
                    }
                    if !self.mirror.is_empty() {
                        bad!("Idle notified with {} active members", self.mirror.len());
                    }
                    c.hit("Idle");
                }
                Note::Defunct => c.hit("Defunct"),
                Note::Rejoin(id) => {
                    if !o.chain()[1..].contains(id) && !matches!(o.s.op, Op::ChangeId(_)) {
                        bad!("Rejoin({id:?}) but the instance did not have to renew into it");
                    }
                    c.hit("Rejoin");
                }
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        let mut a = self.mirror.clone();
        let mut b: Vec<Nid> = o.s.post.active.iter().map(|m| m.id().clone()).collect();
        a.sort();
        b.sort();
        if a != b {
            bad!("replayed notifications give {a:?}, iter_members() is {b:?}");
        }
        if o.s.post.num != b.len() {
            bad!("num_members() = {}, iter_members() yields {}", o.s.post.num, b.len());
        }
        let act2: Vec<&M> = o.s.post.recs.iter().filter(|m| m.state() != State::Down).collect();
        if act2.len() != b.len() {
            bad!("iter_members() yields {} but the state holds {} active records", b.len(), act2.len());
        }
        if o.st_post == St::Active && b.is_empty() {
            bad!("no active member left but Idle was not notified");
        }
        if matches!(o.s.op, Op::Apply(..)) && o.s.res.is_ok() && o.st_post == St::Idle && !b.is_empty() {
            bad!("there are active members but Active was not notified");
        }
        // Defunct / Rejoin when and only when due
        let mut want: Vec<Option<Nid>> = vec![];
        for x in &o.it.acts {
            match x {
                Act::GoDefunct => want.push(None),
                Act::Renew { new, .. } => want.push(Some(new.clone())),
                _ => {}
            }
        }
        let mut got: Vec<Option<Nid>> = vec![];
        for n in o.s.notes() {
            match n {
                Note::Defunct => got.push(None),
                Note::Rejoin(x) => got.push(Some(x.clone())),
                _ => {}
            }
        }
        want.dedup();
        got.dedup();
        if o.st_pre == St::Defunct {
            want.retain(|x| x.is_some());
            got.retain(|x| x.is_some());
        }
        if want != got {
            bad!("Defunct/Rejoin: expected {want:?} (None = Defunct), notified {got:?}");
        }
        if !want.is_empty() {
            c.hit("own_death_events");
        }
        // Rejoin iff it switched identity
        if !matches!(o.s.op, Op::ChangeId(_)) {
            let switched = o.s.pre.id != o.s.post.id;
            let last = got.iter().rev().find_map(|x| x.clone());
            if switched && last.as_ref() != Some(&o.s.post.id) {
                bad!("identity became {:?} without Rejoin", o.s.post.id);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C09
#[derive(Default)]
pub struct C09 {
    told: HashSet<u16>,
    /// highest generation held per address since it was last forgotten
    best: HashMap<u16, Nid>,
}
impl Monitor for C09 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        for (id, _) in &o.it.told {
            self.told.insert(id.addr);
        }
        let post = &o.s.post;
        let mut seen = HashSet::new();
        for m in &post.recs {
            if !seen.insert(m.id().addr) {
                bad!("two records share address {}: {:?}", m.id().addr, post.recs);
            }
            if !self.told.contains(&m.id().addr) && m.id().addr != o.s.pre.id.addr {
                bad!("record {m:?} for an address nobody told it about");
            }
            if m.id().addr == post.id.addr {
                c.hit("own_addr_record_steps");
                if m.state() != State::Down {
                    bad!("own address is active: {m:?} (identity {:?})", post.id);
                }
            }
        }
        if post.active.iter().any(|m| m.id().addr == post.id.addr) {
            bad!("iter_members lists the own address");
        }
        c.max("max_records", post.recs.len() as u64);
        // renames explain every identity change
        let mut cur: BTreeMap<u16, Nid> =
            o.s.pre.recs.iter().map(|m| (m.id().addr, m.id().clone())).collect();
        let mut known: HashSet<Nid> = cur.values().cloned().collect();
        for (id, _) in &o.it.told {
            known.insert(id.clone());
        }
        for n in o.s.notes() {
            match n {
                Note::Rename(a, b) => {
                    if a.addr != b.addr {
                        bad!("Rename({a:?},{b:?}) across addresses");
                    }
                    if !b.wins(a) {
                        bad!("Rename({a:?},{b:?}) but {b:?} does not win the conflict");
                    }
                    // the renamed record may have been first learnt in this very call
                    match cur.get(&a.addr) {
                        Some(x) if x == a => {}
                        None if known.contains(a) => {}
                        x => bad!("Rename({a:?},{b:?}) but the record was {x:?}"),
                    }
                    cur.insert(a.addr, b.clone());
                    c.hit("renames");
                }
                Note::MemberUp(x) => {
                    cur.entry(x.addr).or_insert_with(|| x.clone());
                }
                _ => {}
            }
        }
        for m in &post.recs {
            if let Some(p) = o.s.pre.rec(m.id().addr) {
                if p.id() != m.id() {
                    if !m.id().wins(p.id()) {
                        bad!("record went from {p:?} to {m:?}, which does not win");
                    }
                    if cur.get(&m.id().addr) != Some(m.id()) {
                        bad!("record went from {p:?} to {m:?} without Rename");
                    }
                }
            }
            let b = self.best.entry(m.id().addr).or_insert_with(|| m.id().clone());
            if b.wins(m.id()) {
                bad!("fell back from {b:?} to {m:?}");
            }
            *b = m.id().clone();
        }
        let now: HashSet<u16> = post.recs.iter().map(|m| m.id().addr).collect();
        // forgetting is what a forget-timer for that very identity does
        let forgotten = match &o.s.op {
            Op::Timer(Timer::RemoveDown(id)) => {
                o.s.pre.recs.iter().any(|m| m.id() == id && m.state() == State::Down).then_some(id.addr)
            }
            _ => None,
        };
        self.best.retain(|a, _| now.contains(a) || Some(*a) != forgotten);
        // payload of a superseded / Down sender is discarded
        if o.it.sender_active == Some(false) {
            c.hit("inactive_sender_datagrams");
            if !same_recs(&o.s.pre.recs, &post.recs) {
                bad!("datagram from a superseded/Down sender changed the members: {:?} -> {:?}", o.s.pre.sorted(), post.sorted());
            }
            if o.s.evs.iter().any(|e| matches!(e, Ev::Recv { .. })) {
                bad!("custom items of a superseded/Down sender were processed");
            }
            let h = o.processed_hdr().unwrap();
            let tu = h.message == Message::TurnUndead;
            for (_, to, p) in o.out() {
                let fine = (p.h.message == Message::TurnUndead && to == &h.src)
                    || (tu && p.h.message == Message::Gossip);
                if !fine {
                    bad!("reacted to a superseded/Down sender with {:?}", p.h);
                }
            }
            if !tu && (o.s.pre.id != post.id || o.s.pre.inc != post.inc || o.st_pre != o.st_post) {
                bad!("datagram from a superseded/Down sender changed the instance itself");
            }
            if !tu && o.s.pre.upd != post.upd {
                bad!("datagram from a superseded/Down sender changed the backlog");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ must-gossip helper
#[derive(Default)]
pub struct MustGossip {
    pend: Vec<(u16, M, Vec<u8>)>,
}
impl MustGossip {
    fn add(&mut self, codec: AnyCodec, m: M) {
        let b = codec.member_bytes(&m);
        self.drop_addr(m.id().addr);
        self.pend.push((m.id().addr, m, b));
    }
    fn drop_addr(&mut self, a: u16) {
        self.pend.retain(|p| p.0 != a);
    }
    /// a pending update is in the datagram, or would not have fit
    fn sends(&mut self, o: &Obs, c: &mut Counters) -> V {
        for (_, to, p) in o.out() {
            if !piggybacks(&p.h.message) || p.h.message == Message::Feed {
                continue;
            }
            let left = if p.counted { o.max() - p.mend } else { 0 };
            let mut err = None;
            self.pend.retain(|(_, m, b)| {
                if p.members.iter().any(|(_, x)| x == b) {
                    c.hit("down_gossiped");
                    false
                } else {
                    if left >= b.len() {
                        err = Some(format!(
                            "{m:?} is due but missing from {:?} to {to:?} with {left} bytes to spare",
                            p.h.message
                        ));
                    }
                    true
                }
            });
            if let Some(e) = err {
                return Err(e);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C10
#[derive(Default)]
pub struct C10 {
    told: HashMap<Nid, Incarnation>,
    own: HashSet<Nid>,
    mg: MustGossip,
    started: bool,
}
impl Monitor for C10 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        let (pre, post) = (&o.s.pre, &o.s.post);
        let (Some(pi), Some(qi)) = (pre.inc, post.inc) else {
            return Ok(());
        };
        if !self.started {
            self.started = true;
            if pi != 0 {
                bad!("incarnation starts at {pi}");
            }
        }
        self.own.insert(pre.id.clone());
        self.own.insert(post.id.clone());
        for a in &o.it.acts {
            if let Act::Renew { new, .. } = a {
                self.own.insert(new.clone());
            }
        }
        for (id, inc) in &o.it.told {
            let e = self.told.entry(id.clone()).or_insert(*inc);
            *e = (*e).max(*inc);
        }
        // --- own incarnation
        let reset = pre.id != post.id || (matches!(o.s.op, Op::Reuse) && o.s.res.is_ok());
        let base = if reset { 0 } else { pi };
        // suspicions about the identity in force at the end
        let mut hi: Option<Incarnation> = None;
        let mut n_self = 0;
        for a in &o.it.acts {
            match a {
                Act::Renew { .. } => hi = None,
                Act::SelfSuspect { inc, own } => {
                    n_self += 1;
                    if inc >= own && *inc < MAXINC {
                        hi = Some(hi.map_or(*inc, |h: Incarnation| h.max(*inc)));
                        c.hit("refutations");
                        if *inc > *own {
                            c.hit("refutations_of_higher_incarnation");
                        }
                        if *inc == MAXINC - 1 {
                            c.hit("refutations_to_max");
                        }
                    } else if inc < own {
                        c.hit("stale_suspicions");
                    } else {
                        c.hit("unrefutable_suspicions");
                    }
                }
                _ => {}
            }
        }
        match hi {
            None => {
                if qi != base {
                    bad!("own incarnation went from {base} to {qi} without a suspicion at >= its own");
                }
            }
            Some(h) => {
                if qi < base {
                    bad!("own incarnation decreased from {base} to {qi}");
                }
                if qi <= h {
                    bad!("suspected at incarnation {h}, still at {qi} afterwards");
                }
            }
        }
        if o.it.me.id != post.id {
            bad!("identity is {:?}, expected {:?}", post.id, o.it.me.id);
        }
        for (_, to, p) in o.out() {
            if p.h.src == post.id {
                let late = !matches!(p.h.message, Message::Gossip) || n_self <= 1;
                let changed = o.it.acts.iter().any(|a| matches!(a, Act::Renew { .. }));
                if late && !changed && p.h.src_incarnation != qi {
                    bad!("{:?} to {to:?} carries incarnation {}, the instance is at {qi}", p.h.message, p.h.src_incarnation);
                }
                if p.h.src_incarnation > qi || p.h.src_incarnation < base {
                    bad!("{:?} carries incarnation {} outside {base}..={qi}", p.h.message, p.h.src_incarnation);
                }
            }
            // --- incarnations of others are never made up
            for (m, _) in &p.members {
                if self.own.contains(m.id()) {
                    continue;
                }
                match self.told.get(m.id()) {
                    Some(t) if m.incarnation() <= *t => {}
                    t => bad!("tells {to:?} {m:?} but was told {t:?} at most"),
                }
                c.hit("third_party_updates_checked");
            }
        }
        for m in &post.recs {
            if self.own.contains(m.id()) {
                continue;
            }
            match self.told.get(m.id()) {
                Some(t) if m.incarnation() <= *t => {}
                t => bad!("records {m:?} but was told {t:?} at most"),
            }
        }
        // --- own death
        for a in &o.it.acts {
            match a {
                Act::Renew { old, new, .. } => {
                    c.hit("rejoins");
                    if !o.s.notes().any(|n| n == &Note::Rejoin(new.clone())) {
                        bad!("own identity {old:?} is Down, renewable to {new:?}, but no Rejoin");
                    }
                    if new == old || !new.wins(old) {
                        bad!("renewed {old:?} into {new:?}");
                    }
                }
                Act::GoDefunct => {
                    c.hit("defuncts");
                    if o.st_pre != St::Defunct && !o.s.notes().any(|n| n == &Note::Defunct) {
                        bad!("own identity is Down and not renewable but Defunct was not notified");
                    }
                }
                _ => {}
            }
        }
        if o.it.me.undead != (o.st_post == St::Defunct) {
            bad!("state is {:?}, expected defunct={}", o.st_post, o.it.me.undead);
        }
        // a defunct instance does not carry on
        for (i, to, p) in o.out() {
            if o.ev_st[i] == St::Defunct {
                c.hit("defunct_sends");
                let ok = match p.h.message {
                    Message::Gossip => true,
                    Message::Broadcast => matches!(o.s.op, Op::Broadcast),
                    Message::Announce => matches!(o.s.op, Op::Announce(_)),
                    Message::TurnUndead => true,
                    _ => false,
                };
                if !ok {
                    bad!("defunct, yet sends {:?} to {to:?}", p.h.message);
                }
                if matches!(p.h.message, Message::Gossip)
                    && !matches!(o.s.op, Op::Gossip | Op::Leave)
                    && n_self == 0
                {
                    bad!("defunct, yet gossips in {:?}", o.s.op);
                }
            }
        }
        if o.st_pre == St::Defunct && o.st_post == St::Defunct {
            for t in o.s.timers() {
                if !matches!(t.0, Timer::RemoveDown(_)) {
                    bad!("defunct, yet schedules {:?}", t.0);
                }
            }
        }
        // --- the old identity is gossiped as Down
        let mut accepted: HashMap<u16, u32> = HashMap::new();
        for a in &o.it.acts {
            if let Act::Accept { m, .. } = a {
                *accepted.entry(m.id().addr).or_default() += 1;
                self.mg.drop_addr(m.id().addr);
            }
        }
        for a in &o.it.acts {
            if let Act::Renew { old, .. } = a {
                if accepted.get(&old.addr) == Some(&1) {
                    self.mg.add(o.codec, Member::new(old.clone(), 0, State::Down));
                }
            }
        }
        let renew_and_suspect = n_self > 0 && !self.mg.pend.is_empty();
        if renew_and_suspect {
            // gossips about refutations may precede the death in the same call
            for (_, _, p) in o.out() {
                for (_, b) in &p.members {
                    self.mg.pend.retain(|x| &x.2 != b);
                }
            }
        } else {
            self.mg.sends(o, c)?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C11
#[derive(Default)]
pub struct C11 {
    mg: MustGossip,
}
impl Monitor for C11 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        let (pre, post) = (&o.s.pre, &o.s.post);
        for a in &o.it.acts {
            if let Act::Accept { m, .. } = a {
                self.mg.drop_addr(m.id().addr);
            }
        }
        match o.is_timer() {
            Some(Timer::ChangeSuspectToDown { member_id, incarnation, .. }) => {
                let rec = pre.rec(member_id.addr);
                let live = o.epoch_live();
                let hit = live
                    && rec.is_some_and(|r| {
                        r.id() == member_id && r.incarnation() == *incarnation && r.state() != State::Down
                    });
                if hit {
                    c.hit("timeouts_effective");
                    if o.s.res.is_err() {
                        bad!("suspicion timeout failed: {:?}", o.s.res);
                    }
                    match post.rec(member_id.addr) {
                        Some(p) if p.id() == member_id && p.state() == State::Down => {}
                        p => bad!("unrefuted suspicion of {member_id:?} timed out, record is {p:?}"),
                    }
                    let downs = o.s.notes().filter(|n| **n == Note::MemberDown(member_id.clone())).count();
                    if downs != 1 {
                        bad!("{downs} MemberDown({member_id:?}) notifications");
                    }
                    for n in o.s.notes() {
                        if *n != Note::MemberDown(member_id.clone()) && *n != Note::Idle {
                            bad!("unexpected notification {n:?}");
                        }
                    }
                    let mut forget = 0;
                    for (t, after) in o.s.timers() {
                        if *t == Timer::RemoveDown(member_id.clone()) && after == o.s.cfg.remove_down_after {
                            forget += 1;
                        } else {
                            bad!("unexpected timer {t:?} after {after:?}");
                        }
                    }
                    if forget != 1 {
                        bad!("{forget} forget-timers scheduled");
                    }
                    let mut tu = 0;
                    for (_, to, p) in o.out() {
                        if p.h.message == Message::TurnUndead && to == member_id {
                            tu += 1;
                        } else {
                            bad!("unexpected datagram {:?} to {to:?}", p.h.message);
                        }
                    }
                    if tu != o.s.cfg.notify_down_members as usize {
                        bad!("{tu} TurnUndead, notify_down_members={}", o.s.cfg.notify_down_members);
                    }
                    for r in &pre.recs {
                        if r.id().addr != member_id.addr && post.rec(r.id().addr) != Some(r) {
                            bad!("timeout of {member_id:?} changed {r:?}");
                        }
                    }
                    if post.recs.len() != pre.recs.len() {
                        bad!("timeout changed the number of records");
                    }
                    self.mg.add(o.codec, Member::new(member_id.clone(), *incarnation, State::Down));
                    if post.upd == 0 {
                        bad!("Down update not queued for gossip");
                    }
                } else {
                    c.hit(if !live {
                        "timeouts_stale_epoch"
                    } else {
                        match rec {
                            None => "timeouts_forgotten",
                            Some(r) if r.id() != member_id => "timeouts_other_identity",
                            Some(r) if r.state() == State::Down => "timeouts_already_down",
                            _ => "timeouts_refuted",
                        }
                    });
                    if !o.s.evs.is_empty() || o.s.res.is_err() {
                        bad!(
                            "cancelled/stale suspicion timeout of {member_id:?}@{incarnation} (record {rec:?}, current epoch: {live}) had effects {:?} / {:?}",
                            o.s.evs, o.s.res
                        );
                    }
                    if **pre != **post {
                        bad!("cancelled/stale suspicion timeout changed state: {pre:?} -> {post:?}");
                    }
                }
            }
            Some(Timer::RemoveDown(id)) => {
                let rec = pre.rec(id.addr);
                let hit = rec.is_some_and(|r| r.id() == id && r.state() == State::Down);
                if !o.s.evs.is_empty() || o.s.res.is_err() {
                    bad!("forget-timer had effects {:?} {:?}", o.s.evs, o.s.res);
                }
                if hit {
                    c.hit("forgets_effective");
                    if post.rec(id.addr).is_some() {
                        bad!("{id:?} not forgotten");
                    }
                    if pre.recs.len() != post.recs.len() + 1 {
                        bad!("forgetting {id:?} changed other records");
                    }
                    if pre.recs.iter().any(|r| r.id().addr != id.addr && post.rec(r.id().addr) != Some(r)) {
                        bad!("forgetting {id:?} changed other records");
                    }
                } else {
                    c.hit("forgets_stale");
                    if !same_recs(&pre.recs, &post.recs) {
                        bad!("forget-timer for {id:?} (record {rec:?}) changed the state");
                    }
                }
            }
            _ => {}
        }
        // Down is final
        for r in &pre.recs {
            if r.state() != State::Down {
                continue;
            }
            match post.rec(r.id().addr) {
                Some(p) if p.id() == r.id() => {
                    if p.state() != State::Down {
                        bad!("Down {r:?} became {p:?}");
                    }
                }
                Some(p) => {
                    if !p.id().wins(r.id()) {
                        bad!("Down {r:?} replaced by {p:?}");
                    }
                }
                None => {
                    if !matches!(o.is_timer(), Some(Timer::RemoveDown(x)) if x == r.id()) {
                        bad!("Down {r:?} forgotten by {:?}", o.s.op);
                    }
                }
            }
        }
        // each record that became Down gets exactly one forget-timer, others none
        let mut cnt: HashMap<&Nid, u32> = HashMap::new();
        for (t, after) in o.s.timers() {
            if let Timer::RemoveDown(id) = t {
                *cnt.entry(id).or_default() += 1;
                if after != o.s.cfg.remove_down_after {
                    bad!("forget-timer of {id:?} after {after:?}");
                }
            }
        }
        for p in &post.recs {
            let was = pre.rec(p.id().addr).is_some_and(|r| r.id() == p.id() && r.state() == State::Down);
            let n = cnt.get(p.id()).copied().unwrap_or(0);
            if p.state() == State::Down && !was {
                c.hit("newly_down");
                if n != 1 {
                    bad!("{:?} became Down with {n} forget-timers", p.id());
                }
            } else if n != 0 {
                bad!("forget-timer for {:?} although it did not just become Down ({p:?})", p.id());
            }
        }
        self.mg.sends(o, c)?;
        Ok(())
    }
}

// ------------------------------------------------------------------ C12
pub struct Round {
    target: Nid,
    inc: Incarnation,
    p: u8,
    asked: Vec<Nid>,
    ok: bool,
    stage: bool,
    epoch: u64,
}
#[derive(Default)]
pub struct C12 {
    pub round: Option<Round>,
    /// every timer is delivered exactly once
    pub exact: bool,
}
impl Monitor for C12 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        let (pre, post) = (&o.s.pre, &o.s.post);
        let timer = o.is_timer();
        let is_end = matches!(timer, Some(Timer::ProbeRandomMember(_)))
            && o.epoch_live()
            && o.st_pre == St::Active;
        // suspicion timers come from failed probes only
        let susp: Vec<(&Nid, Incarnation, Duration)> = o
            .s
            .timers()
            .filter_map(|(t, after)| match t {
                Timer::ChangeSuspectToDown { member_id, incarnation, .. } => {
                    Some((member_id, *incarnation, after))
                }
                _ => None,
            })
            .collect();
        if !susp.is_empty() && !is_end {
            bad!("suspicion timeout scheduled by {:?}", o.s.op);
        }
        if susp.len() > 1 {
            bad!("{} suspicion timeouts scheduled at once", susp.len());
        }
        // no record becomes Suspect out of thin air
        for p in &post.recs {
            if p.state() == State::Suspect && pre.rec(p.id().addr) != Some(p) {
                let told = o.it.processed.iter().any(|m| m == p);
                let failed = is_end && self.round.as_ref().is_some_and(|r| !r.ok && &r.target == p.id());
                if !told && !failed {
                    bad!("{p:?} became Suspect without being told or failing a probe");
                }
            }
        }
        if is_end {
            let round = self.round.take().filter(|r| r.epoch == o.epoch_pre);
            let incomplete = o.s.res == Err(EK::IncompleteProbeCycle);
            if let Some(r) = round {
                let rec = pre.rec(r.target.addr);
                if incomplete {
                    c.hit("rounds_incomplete");
                    if r.stage {
                        bad!("IncompleteProbeCycle although the round's second stage was delivered");
                    }
                    if !susp.is_empty() {
                        bad!("suspicion out of an incomplete round");
                    }
                } else if r.ok {
                    c.hit("rounds_ok");
                    if !susp.is_empty() {
                        bad!("round for {:?} succeeded, yet suspicion {susp:?}", r.target);
                    }
                    if !same_recs(&pre.recs, &post.recs) {
                        bad!("successful round changed the members");
                    }
                } else {
                    match rec {
                        Some(m) if m.id() == &r.target && m.state() != State::Down && m.incarnation() == r.inc => {
                            c.hit("rounds_failed");
                            match post.rec(r.target.addr) {
                                Some(p) if p.id() == &r.target && p.state() == State::Suspect && p.incarnation() == r.inc => {}
                                p => bad!("probe of {:?}@{} failed, record is {p:?}", r.target, r.inc),
                            }
                            match susp[..] {
                                [(id, inc, after)] if *id == r.target && inc == r.inc && after == o.s.cfg.suspect_to_down_after => {}
                                _ => bad!("probe of {:?}@{} failed, suspicion timeouts: {susp:?}", r.target, r.inc),
                            }
                        }
                        Some(m) if m.id() == &r.target && m.state() != State::Down => {
                            c.hit("rounds_failed_newer_incarnation");
                            if m.incarnation() > r.inc && !same_recs(&pre.recs, &post.recs) {
                                bad!("probe of {:?}@{} failed but it is known at {m:?}; record became {:?}", r.target, r.inc, post.rec(r.target.addr));
                            }
                        }
                        _ => {
                            c.hit("rounds_failed_inactive");
                            // (a timeout for an identity superseded by another one
                            // is pointless but can never have any effect)
                            let superseded = rec.is_some_and(|m| m.id() != &r.target);
                            if susp.iter().any(|x| x.0 != &r.target || !superseded) {
                                bad!("{:?} is not active any more ({rec:?}), yet suspicion {susp:?}", r.target);
                            }
                            if !same_recs(&pre.recs, &post.recs) {
                                bad!("{:?} is not active any more ({rec:?}), yet members changed", r.target);
                            }
                        }
                    }
                }
            } else {
                if !susp.is_empty() {
                    bad!("suspicion {susp:?} without a probe round");
                }
                if !same_recs(&pre.recs, &post.recs) {
                    bad!("members changed at the start of a first probe round");
                }
            }
        }
        // which datagrams may be sent
        let mut ping = None;
        let mut pingreqs: Vec<&Nid> = vec![];
        for (_, to, p) in o.out() {
            match &p.h.message {
                Message::Ping(n) => {
                    if !is_end {
                        bad!("Ping sent by {:?}", o.s.op);
                    }
                    if ping.is_some() {
                        bad!("two Pings in one round");
                    }
                    ping = Some((to.clone(), *n));
                }
                Message::PingReq { target, probe_number } => {
                    let Some(Timer::SendIndirectProbe { probed_id, .. }) = timer else {
                        bad!("PingReq sent by {:?}", o.s.op)
                    };
                    let Some(r) = &self.round else { bad!("PingReq without a probe round") };
                    if !o.epoch_live() || r.epoch != o.epoch_pre {
                        bad!("PingReq from a stale timer");
                    }
                    if r.ok {
                        bad!("PingReq although the round already succeeded");
                    }
                    if probed_id != &r.target || target != &r.target || *probe_number != r.p {
                        bad!("PingReq for {target:?}/{probe_number}, round is {:?}/{}", r.target, r.p);
                    }
                    if !pre.active.iter().any(|m| m.id() == &r.target) {
                        bad!("PingReq although {:?} is not active", r.target);
                    }
                    if to == target {
                        bad!("PingReq sent to its own target");
                    }
                    if !pre.active.iter().any(|m| m.id() == to) {
                        bad!("PingReq sent to {to:?}, not an active member");
                    }
                    if pingreqs.contains(&to) {
                        bad!("PingReq sent twice to {to:?}");
                    }
                    pingreqs.push(to);
                }
                _ => {}
            }
        }
        if pingreqs.len() > o.s.cfg.num_indirect_probes.get() {
            bad!("{} PingReqs, num_indirect_probes is {}", pingreqs.len(), o.s.cfg.num_indirect_probes);
        }
        if let Some(Timer::SendIndirectProbe { .. }) = timer {
            if o.epoch_live() {
                if let Some(r) = &mut self.round {
                    r.stage = true;
                    c.hit("second_stages");
                    for x in &pingreqs {
                        r.asked.push((*x).clone());
                        c.hit("pingreqs");
                    }
                    if self.exact && r.asked.len() > o.s.cfg.num_indirect_probes.get() {
                        bad!("{} members asked in one round", r.asked.len());
                    }
                }
            }
            if let Some(x) = o.out().find(|x| !matches!(x.2.h.message, Message::PingReq { .. })) {
                bad!("indirect probe timer sent {:?}", x.2.h.message);
            }
        }
        if is_end {
            if let Some((t, n)) = ping {
                let inc = match post.rec(t.addr) {
                    Some(m) if m.id() == &t && m.state() != State::Down => m.incarnation(),
                    m => bad!("Ping sent to {t:?} but its record is {m:?}"),
                };
                self.round =
                    Some(Round { target: t, inc, p: n, asked: vec![], ok: false, stage: false, epoch: o.epoch_post });
                c.hit("rounds_started");
            }
        }
        // reactions to datagrams
        if let Some(h) = o.processed_hdr() {
            let h = h.clone();
            let active = o.it.sender_active == Some(true);
            let conn = o.st_post == St::Active;
            let handler_err = matches!(o.s.res, Err(EK::Custom) | Err(EK::Malformed));
            let src_still = post.active.iter().any(|m| m.id() == &h.src);
            let mut want: Option<(Nid, Msg)> = None;
            let mut reject = false;
            let me = &post.id;
            match &h.message {
                Message::Ping(n) => want = Some((h.src.clone(), Message::Ack(*n))),
                Message::PingReq { target, probe_number } => {
                    reject = target == me;
                    want = Some((
                        target.clone(),
                        Message::IndirectPing { origin: h.src.clone(), probe_number: *probe_number },
                    ));
                }
                Message::IndirectPing { origin, probe_number } => {
                    reject = origin == me;
                    want = Some((
                        h.src.clone(),
                        Message::IndirectAck { target: origin.clone(), probe_number: *probe_number },
                    ));
                }
                Message::IndirectAck { target, probe_number } => {
                    reject = target == me;
                    want = Some((
                        target.clone(),
                        Message::ForwardedAck { origin: h.src.clone(), probe_number: *probe_number },
                    ));
                }
                Message::ForwardedAck { origin, .. } => reject = origin == me,
                Message::Announce => want = Some((h.src.clone(), Message::Feed)),
                _ => {}
            }
            let replies: Vec<(&Nid, &Msg)> = o
                .out()
                .filter(|(_, _, p)| !matches!(p.h.message, Message::Gossip | Message::TurnUndead))
                .map(|(_, to, p)| (to, &p.h.message))
                .collect();
            if !active || !conn || reject {
                if !replies.is_empty() {
                    bad!("must not react to {:?} (sender active {active}, {:?}, own target {reject}) but sent {replies:?}", h.message, o.st_post);
                }
                if active && conn && reject {
                    c.hit("own_target_rejected");
                    if o.s.res != Err(EK::IndirectForOurselves) {
                        bad!("{:?} naming ourselves gave {:?}", h.message, o.s.res);
                    }
                }
                // not defunct, sender fine, but no longer active: only if nobody is left
                if active && !conn && o.st_post != St::Defunct && src_still && pre.id == post.id {
                    bad!("{:?} from active {:?} not processed: instance is {:?}", h.message, h.src, o.st_post);
                }
            } else {
                match &want {
                    Some((to, m)) => {
                        if replies.len() != 1 || replies[0].0 != to || replies[0].1 != m {
                            bad!("{:?} from {:?} must be answered by {m:?} to {to:?}; sent {replies:?}", h.message, h.src);
                        }
                        c.hit(kind_name(m));
                    }
                    None => {
                        if !replies.is_empty() {
                            bad!("{:?} answered by {replies:?}", h.message);
                        }
                    }
                }
                if o.s.res.is_err() && !handler_err {
                    bad!("{:?} gave {:?}", h.message, o.s.res);
                }
                // evidence
                if let Some(r) = &mut self.round {
                    if r.epoch == o.epoch_post {
                        match &h.message {
                            Message::Ack(n) => {
                                if *n == r.p && h.src == r.target {
                                    r.ok = true;
                                    c.hit("acks_genuine");
                                } else {
                                    c.hit("acks_not_evidence");
                                }
                            }
                            Message::ForwardedAck { probe_number, .. } => {
                                if *probe_number == r.p && r.asked.contains(&h.src) {
                                    r.ok = true;
                                    c.hit("fwd_acks_genuine");
                                } else {
                                    c.hit("fwd_acks_not_evidence");
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
        } else {
            for (_, to, p) in o.out() {
                if matches!(
                    p.h.message,
                    Message::Ack(_)
                        | Message::IndirectPing { .. }
                        | Message::IndirectAck { .. }
                        | Message::ForwardedAck { .. }
                        | Message::Feed
                ) {
                    bad!("{:?} to {to:?} sent by {:?}", p.h.message, o.s.op);
                }
            }
        }
        if let Some(r) = &self.round {
            if r.epoch != o.epoch_post {
                self.round = None;
                c.hit("rounds_aborted");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C13
/// needs the outstanding timers, so it is driven by the workload
#[derive(Default)]
pub struct C13 {
    pub in_order: bool,
    /// the packet size may be too small: sending may fail
    pub tight: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TK {
    Probe,
    Ind,
    Susp,
    Ann,
    AnnDown,
    Gos,
    Rem,
}
pub fn tk(t: &T) -> TK {
    match t {
        Timer::ProbeRandomMember(_) => TK::Probe,
        Timer::SendIndirectProbe { .. } => TK::Ind,
        Timer::ChangeSuspectToDown { .. } => TK::Susp,
        Timer::PeriodicAnnounce(_) => TK::Ann,
        Timer::PeriodicAnnounceDown(_) => TK::AnnDown,
        Timer::PeriodicGossip(_) => TK::Gos,
        Timer::RemoveDown(_) => TK::Rem,
    }
}
impl C13 {
    /// `outstanding`: (timer, issue epoch) of everything scheduled and not yet delivered
    pub fn step(&mut self, o: &Obs, outstanding: &[(&T, u64)], c: &mut Counters) -> V {
        let cfg = &o.s.cfg_post;
        if let Some(t) = o.is_timer() {
            c.hit("timers_fired");
            if tk(t) != TK::Rem && !o.epoch_live() {
                c.hit("stale_timers_fired");
                if !o.s.evs.is_empty() || o.s.res.is_err() || *o.s.pre != *o.s.post {
                    bad!("stale {t:?} (issued in epoch {:?}, now {}) had effects: {:?} {:?}", o.fired, o.epoch_pre, o.s.res, o.s.evs);
                }
            }
            match &o.s.res {
                Ok(_) => {}
                Err(EK::IncompleteProbeCycle) if !self.in_order && tk(t) == TK::Probe => {
                    c.hit("incomplete_cycles");
                }
                Err(EK::Encode(_)) if self.tight => {
                    c.hit("failed_sends");
                }
                Err(e) => bad!("handle_timer({t:?}) returned {e:?}"),
            }
        }
        // effective timers issued
        for (i, e) in o.s.evs.iter().enumerate() {
            let Ev::Timer { t, after } = e else { continue };
            let want = match tk(t) {
                TK::Probe => Some(o.s.cfg.probe_period),
                TK::Ind => Some(o.s.cfg.probe_rtt),
                TK::Susp => Some(o.s.cfg.suspect_to_down_after),
                TK::Rem => Some(o.s.cfg.remove_down_after),
                TK::Ann => o.s.cfg.periodic_announce.as_ref().map(|p| p.frequency),
                TK::AnnDown => o.s.cfg.periodic_announce_to_down_members.as_ref().map(|p| p.frequency),
                TK::Gos => o.s.cfg.periodic_gossip.as_ref().map(|p| p.frequency),
            };
            if want != Some(*after) {
                bad!("{t:?} scheduled after {after:?}, configuration says {want:?}");
            }
            let _ = i;
        }
        let count = |k: TK| outstanding.iter().filter(|(t, e)| tk(t) == k && *e == o.epoch_post).count();
        let active = o.st_post == St::Active;
        if active {
            c.hit("active_steps");
            let n = count(TK::Probe);
            if n != 1 {
                bad!("active with {n} outstanding probe timers after {:?}", o.s.op);
            }
            for (k, on) in [
                (TK::Ann, cfg.periodic_announce.is_some()),
                (TK::AnnDown, cfg.periodic_announce_to_down_members.is_some()),
                (TK::Gos, cfg.periodic_gossip.is_some()),
            ] {
                let n = count(k);
                if (on && n != 1) || n > 1 {
                    bad!("active with {n} outstanding {k:?} timers (enabled: {on}) after {:?}", o.s.op);
                }
            }
            if count(TK::Ind) > 1 && self.in_order {
                bad!("{} outstanding indirect-probe timers", count(TK::Ind));
            }
        } else {
            c.hit("inactive_steps");
            for k in [TK::Probe, TK::Ann, TK::AnnDown, TK::Gos, TK::Susp, TK::Ind] {
                let n = count(k);
                if n != 0 {
                    bad!("{:?} with {n} {k:?} timers scheduled in the current epoch", o.st_post);
                }
            }
        }
        if o.epoch_post != o.epoch_pre {
            c.hit("epoch_changes");
        }
        if let Op::SetConfig(new) = &o.s.op {
            let old = &o.s.cfg;
            let refuse = new.probe_period != old.probe_period
                || new.probe_rtt != old.probe_rtt
                || (old.periodic_announce.is_none() && new.periodic_announce.is_some())
                || (old.periodic_announce_to_down_members.is_none()
                    && new.periodic_announce_to_down_members.is_some())
                || (old.periodic_gossip.is_none() && new.periodic_gossip.is_some());
            if refuse != (o.s.res == Err(EK::InvalidConfig)) {
                bad!("set_config returned {:?}, refusal expected: {refuse}", o.s.res);
            }
            c.hit(if refuse { "configs_refused" } else { "configs_changed" });
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C15
struct Ent {
    addr: u16,
    bytes: Vec<u8>,
    rem: usize,
}
#[derive(Default)]
pub struct C15 {
    sh: Vec<Ent>,
    dead: bool,
}
impl Monitor for C15 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        if self.dead {
            return Ok(());
        }
        // if the members did not evolve as the precedence order says we cannot
        // tell which updates were accepted (that is another property's business)
        if let Some(m) = &o.it.map {
            let post = to_map(&o.s.post.recs);
            if m.len() != post.len() || m.iter().any(|(a, x)| !post.get(a).is_some_and(|p| same_rec(p, x))) || o.it.me.id != o.s.post.id {
                self.dead = true;
                c.hit("desynced");
                return Ok(());
            }
        }
        let max_tx = o.s.cfg.max_transmissions.get() as usize;
        let mut self_seen = 0;
        let mut mixed = false;
        for a in &o.it.acts {
            match a {
                Act::Accept { .. } => mixed |= self_seen > 0,
                Act::SelfSuspect { .. } | Act::Renew { .. } => {
                    mixed |= self_seen > 0;
                    self_seen += 1;
                }
                _ => {}
            }
        }
        let mut replaced: Vec<Ent> = vec![];
        for a in &o.it.acts {
            if let Act::Accept { m, bcast: true } = a {
                c.hit("accepted");
                let addr = m.id().addr;
                if let Some(p) = self.sh.iter().position(|e| e.addr == addr) {
                    let e = self.sh.swap_remove(p);
                    if e.rem < max_tx {
                        c.hit("replaced_half_sent");
                    }
                    replaced.push(e);
                }
                self.sh.push(Ent { addr, bytes: o.codec.member_bytes(m), rem: max_tx });
            } else if let Act::Accept { bcast: false, .. } = a {
                c.hit("accepted_without_broadcast");
            }
        }
        for (_, to, p) in o.out() {
            let piggy = piggybacks(&p.h.message) && p.h.message != Message::Feed;
            if !piggy {
                continue;
            }
            c.hit("piggybacking_datagrams");
            let avail = if p.counted { o.max() - p.hlen - 2 } else { 0 };
            let mut inc: Vec<usize> = vec![];
            let mut used = 0;
            for (m, b) in &p.members {
                used += b.len();
                match self.sh.iter().position(|e| &e.bytes == b) {
                    Some(k) => {
                        if inc.contains(&k) {
                            bad!("{m:?} twice in one datagram");
                        }
                        if mixed && replaced.iter().any(|e| &e.bytes == b && e.rem > 0) {
                            // sent before or after being replaced by an equal one?
                            self.dead = true;
                            c.hit("desynced_mixed");
                            return Ok(());
                        }
                        inc.push(k);
                    }
                    None => {
                        if mixed {
                            if let Some(k) = replaced.iter().position(|e| &e.bytes == b && e.rem > 0) {
                                replaced[k].rem -= 1;
                                continue;
                            }
                        }
                        bad!("{:?} to {to:?} carries {m:?}, which is not pending (already sent {max_tx} times, superseded or never accepted)", p.h.message);
                    }
                }
            }
            if !mixed {
                let left = avail - used;
                for (k, e) in self.sh.iter().enumerate() {
                    if inc.contains(&k) {
                        continue;
                    }
                    c.hit("omitted_updates");
                    if p.counted && e.bytes.len() <= left {
                        bad!("{:?} to {to:?} omits a pending {}-byte update with {left} bytes left", p.h.message, e.bytes.len());
                    }
                    let ahead: usize = inc
                        .iter()
                        .filter(|j| self.sh[**j].rem >= e.rem)
                        .map(|j| self.sh[*j].bytes.len())
                        .sum();
                    if p.counted && ahead + e.bytes.len() <= avail {
                        bad!(
                            "{:?} to {to:?} omits an update with {} transmissions left ({} bytes) in favour of ones with fewer",
                            p.h.message, e.rem, e.bytes.len()
                        );
                    }
                }
                if !p.counted && o.max() - p.hlen > 2 && !self.sh.is_empty() {
                    bad!("{:?} carries no update section despite room", p.h.message);
                }
            }
            for k in &inc {
                self.sh[*k].rem -= 1;
                c.hit("transmissions");
            }
            self.sh.retain(|e| {
                if e.rem == 0 {
                    c.hit("fully_transmitted");
                }
                e.rem > 0
            });
        }
        if self.sh.len() != o.s.post.upd {
            if mixed {
                self.dead = true;
                c.hit("desynced_mixed");
                return Ok(());
            }
            bad!("updates_backlog() = {}, accounting gives {}", o.s.post.upd, self.sh.len());
        }
        c.max("max_backlog", self.sh.len() as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------ C16
struct CItem {
    key: Key,
    bytes: Vec<u8>,
    rem: usize,
}
#[derive(Default)]
pub struct C16 {
    sh: Vec<CItem>,
    ambig: bool,
}
impl C16 {
    pub fn pending(&self) -> impl Iterator<Item = (&Vec<u8>, usize)> {
        self.sh.iter().map(|e| (&e.bytes, e.rem))
    }
}
impl Monitor for C16 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        let max_tx = o.s.cfg.max_transmissions.get() as usize;
        // what the handler must have been given
        let mut want: Vec<(Vec<u8>, Option<Nid>)> = vec![];
        let mut malformed = false;
        let mut check = true;
        match &o.s.op {
            Op::AddBroadcast(d) => {
                let too_big = d.len() > o.max() || d.len() > u16::MAX as usize;
                if d.is_empty() {
                    if o.s.res != Err(EK::Malformed) {
                        bad!("empty add_broadcast gave {:?}", o.s.res);
                    }
                } else if too_big {
                    if o.s.res != Err(EK::DataTooBig) {
                        bad!("oversized add_broadcast gave {:?}", o.s.res);
                    }
                } else {
                    want.push((d.clone(), None));
                }
            }
            Op::Data(_) => {
                if let (Some(In::Ok { h, rest, .. }), Some(true)) = (&o.it.class, o.it.sender_active) {
                    let mut b = &rest[..];
                    while !b.is_empty() {
                        let n = if b.len() >= 2 { u16::from_be_bytes([b[0], b[1]]) as usize } else { 0 };
                        if b.len() < 3 || n == 0 || b.len() - 2 < n {
                            malformed = true;
                            break;
                        }
                        want.push((b[2..2 + n].to_vec(), Some(h.src.clone())));
                        b = &b[2 + n..];
                    }
                    if h.message == Message::TurnUndead && !rest.is_empty() {
                        check = false;
                    }
                }
            }
            _ => {}
        }
        let got: Vec<(&Vec<u8>, &Option<Nid>, &RecvRet)> = o
            .s
            .evs
            .iter()
            .filter_map(|e| match e {
                Ev::Recv { data, sender, ret } => Some((data, sender, ret)),
                _ => None,
            })
            .collect();
        if check {
            // the handler may refuse an item, which ends the processing of the datagram
            let stopped = got.last().is_some_and(|g| *g.2 == RecvRet::Fail);
            let exact = got.len() == want.len() || (stopped && got.len() <= want.len());
            if !exact || got.iter().zip(&want).any(|(g, w)| *g.0 != w.0 || *g.1 != w.1) {
                bad!("handler was given {got:?}, the input holds {want:?}");
            }
            if let Op::AddBroadcast(d) = &o.s.op {
                if !want.is_empty() {
                    let w = match got[0].2 {
                        RecvRet::Key(_) => Ok(true),
                        RecvRet::Drop => Ok(false),
                        RecvRet::Fail => Err(EK::Custom),
                    };
                    if o.s.res != w {
                        bad!("add_broadcast({} bytes) gave {:?}, handler said {:?}", d.len(), o.s.res, got[0].2);
                    }
                }
            }
            if malformed {
                c.hit("malformed_item_framing");
            }
            c.add("items_received", got.len() as u64);
        }
        let is_bcast = matches!(o.s.op, Op::Broadcast);
        if is_bcast && self.sh.is_empty() {
            c.hit("broadcast_with_empty_backlog");
            if o.s.sends().next().is_some() {
                bad!("broadcast() with an empty backlog sent something");
            }
        }
        let mut bdst: Vec<&Nid> = vec![];
        for (i, e) in o.s.evs.iter().enumerate() {
            match e {
                Ev::Recv { data, ret: RecvRet::Key(k), .. } => {
                    let before = self.sh.len();
                    self.sh.retain(|x| !k.inv(&x.key));
                    c.add("invalidated", (before - self.sh.len()) as u64);
                    self.sh.push(CItem { key: *k, bytes: data.clone(), rem: max_tx });
                    c.hit("items_accepted");
                }
                Ev::Send { to, .. } => {
                    let Some(Ok(p)) = &o.parsed[i] else {
                        bad!("malformed datagram {:?}", o.parsed[i]);
                    };
                    let kind = &p.h.message;
                    if *kind == Message::Broadcast {
                        if !is_bcast {
                            bad!("Broadcast datagram sent by {:?}", o.s.op);
                        }
                    } else if is_bcast {
                        bad!("broadcast() sent {kind:?}");
                    }
                    if is_bcast {
                        if self.sh.is_empty() && !self.ambig {
                            bad!("broadcast() kept sending after the backlog drained");
                        }
                        if !o.hcfg.allows(to) {
                            bad!("broadcast() chose ineligible {to:?}");
                        }
                        if !o.s.pre.active.iter().any(|m| m.id() == to) {
                            bad!("broadcast() chose {to:?}, not an active member");
                        }
                        if bdst.contains(&to) {
                            bad!("broadcast() sent twice to {to:?}");
                        }
                        bdst.push(to);
                        c.hit("broadcast_datagrams");
                    }
                    if !p.items.is_empty() {
                        if !may_carry_items(kind) {
                            bad!("{kind:?} carries custom items");
                        }
                        if !o.hcfg.allows(to) {
                            bad!("{kind:?} to {to:?} carries custom items although the handler forbids it");
                        }
                        c.hit("datagrams_with_items");
                        c.hit(kind_name(kind));
                    }
                    let mut used: Vec<usize> = vec![];
                    for it in &p.items {
                        let mut cand: Vec<usize> = (0..self.sh.len())
                            .filter(|k| &self.sh[*k].bytes == it && !used.contains(k))
                            .collect();
                        if cand.len() > 1 {
                            self.ambig = true;
                        }
                        cand.sort_by_key(|k| std::cmp::Reverse(self.sh[*k].rem));
                        match cand.first() {
                            Some(k) => used.push(*k),
                            None => bad!(
                                "{kind:?} to {to:?} carries item {it:?}: never accepted, invalidated, or already sent {max_tx} times"
                            ),
                        }
                    }
                    for k in used {
                        self.sh[k].rem -= 1;
                        c.hit("item_transmissions");
                    }
                    self.sh.retain(|e| {
                        if e.rem == 0 {
                            c.hit("items_fully_transmitted");
                        }
                        e.rem > 0
                    });
                }
                _ => {}
            }
        }
        if bdst.len() > o.s.cfg.num_indirect_probes.get() {
            bad!("broadcast() sent {} datagrams, num_indirect_probes is {}", bdst.len(), o.s.cfg.num_indirect_probes);
        }
        if !self.ambig && self.sh.len() != o.s.post.cust {
            bad!("custom_broadcast_backlog() = {}, accounting gives {}", o.s.post.cust, self.sh.len());
        }
        c.max("max_custom_backlog", self.sh.len() as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------ C19
#[derive(Default)]
pub struct C19;
impl Monitor for C19 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        if o.s.post.rec(o.s.post.id.addr).is_some() {
            c.hit("steps_with_own_address_record");
        }
        for (i, e) in o.s.evs.iter().enumerate() {
            let Ev::Send { to, .. } = e else { continue };
            // the message kind and sender matter for the exemptions
            let Some(Ok(p)) = &o.parsed[i] else { continue };
            c.hit("destinations_checked");
            c.hit(kind_name(&p.h.message));
            if to.addr != p.h.src.addr && to.addr != o.s.post.id.addr {
                continue;
            }
            let exempt = match (&p.h.message, &o.s.op) {
                // relays towards a target named by a peer
                (Message::IndirectPing { .. } | Message::ForwardedAck { .. }, Op::Data(_)) => true,
                // the user picked it
                (Message::Announce, Op::Announce(d)) => d == to,
                _ => false,
            };
            if exempt {
                c.hit("exempt");
                continue;
            }
            bad!("{:?} sent to own address: {to:?} (identity {:?}) by {:?}", p.h.message, p.h.src, o.s.op);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C14
#[derive(Default)]
pub struct C14 {
    key: BTreeMap<Nid, bool>,
    last: HashMap<Nid, u64>,
    round: u64,
    since: u64,
    /// longest gap seen, in percent of 2n-1
    started: bool,
}
impl C14 {
    fn keyed(s: &Snap) -> BTreeMap<Nid, bool> {
        s.recs.iter().map(|m| (m.id().clone(), m.state() != State::Down)).collect()
    }
}
impl Monitor for C14 {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        if !self.started {
            self.key = Self::keyed(&o.s.pre);
            self.started = true;
        }
        let round = matches!(o.is_timer(), Some(Timer::ProbeRandomMember(_)))
            && o.epoch_live()
            && o.st_pre == St::Active
            && matches!(o.s.res, Ok(_) | Err(EK::IncompleteProbeCycle));
        let post = Self::keyed(&o.s.post);
        if round {
            let act: Vec<&Nid> = self.key.iter().filter(|x| *x.1).map(|x| x.0).collect();
            let pings: Vec<&Nid> = o
                .out()
                .filter(|(_, _, p)| matches!(p.h.message, Message::Ping(_)))
                .map(|(_, to, _)| to)
                .collect();
            if pings.len() != 1 && !act.is_empty() {
                bad!("a probe round with {} active members pinged {pings:?}", act.len());
            }
            let Some(&to) = pings.first() else { return Ok(()) };
            if to == &o.s.post.id || to.addr == o.s.post.id.addr {
                bad!("probed ourselves: {to:?}");
            }
            if self.key.get(to) != Some(&true) {
                bad!("a probe round pinged {to:?}, which is not an active member");
            }
            self.round += 1;
            self.last.insert(to.clone(), self.round);
            c.hit("rounds");
            let n = act.len() as u64;
            let w = 2 * n - 1;
            if self.round - self.since >= w {
                c.hit("full_windows");
                for m in act {
                    let l = self.last.get(m).copied().unwrap_or(0).max(self.since);
                    // rounds l+1 ..= round did not ping it
                    if self.round - l >= w {
                        bad!(
                            "{m:?} was not pinged in the last {} rounds although the {n} active members did not change",
                            self.round - l
                        );
                    }
                    c.max("max_gap_percent_of_window", (self.round - l + 1) * 100 / w);
                }
                c.max("max_active", n);
                if self.key.len() as u64 > n {
                    c.hit("windows_with_down_records");
                }
            }
        }
        if post != self.key || o.s.pre.id != o.s.post.id {
            self.key = post;
            self.since = self.round;
            self.last.clear();
            c.hit("membership_changes");
        }
        Ok(())
    }
}

/// only panics count
pub struct Nop;
impl Monitor for Nop {
    fn step(&mut self, o: &Obs, c: &mut Counters) -> V {
        c.add("datagrams", o.s.sends().count() as u64);
        Ok(())
    }
}
