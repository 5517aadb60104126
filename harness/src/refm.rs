//! Reference models: SWIM precedence, own-identity handling, per-op interpretation.
use crate::core::*;
use crate::wire::{classify, In};
use foca::{Incarnation, Member, Message, State, Timer};
use std::collections::BTreeMap;

pub type Map = BTreeMap<u16, M>;

pub fn to_map(v: &[M]) -> Map {
    v.iter().map(|m| (m.id().addr, m.clone())).collect()
}

/// does `u` take precedence over (strictly move forward from) `r`? Same address.
pub fn supersedes(r: &M, u: &M) -> bool {
    if r.id() != u.id() {
        return u.id().wins(r.id());
    }
    match (r.state(), u.state()) {
        (State::Down, _) => false,
        (_, State::Down) => true,
        (State::Alive, State::Suspect) => u.incarnation() >= r.incarnation(),
        _ => u.incarnation() > r.incarnation(),
    }
}
#[derive(Debug, Clone)]
pub struct Applied {
    pub ok: bool,
    pub active_now: bool,
    pub lost: bool,
    pub replaced: Option<Nid>,
}
pub fn ref_apply(map: &mut Map, u: &M) -> Applied {
    let a = u.id().addr;
    let active = |m: &M| m.state() != State::Down;
    match map.get(&a) {
        None => {
            map.insert(a, u.clone());
            Applied { ok: true, active_now: active(u), lost: false, replaced: None }
        }
        Some(r) => {
            let lost = r.id() != u.id() && !u.id().wins(r.id());
            if supersedes(r, u) {
                let replaced = (r.id() != u.id()).then(|| r.id().clone());
                map.insert(a, u.clone());
                Applied { ok: true, active_now: active(u), lost: false, replaced }
            } else {
                Applied { ok: false, active_now: active(r), lost, replaced: None }
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Act {
    /// an update moved a record forward (bcast: it must enter the backlog)
    Accept { m: M, bcast: bool },
    /// suspicion about the current identity (own incarnation known to be `lo`.. at that point)
    SelfSuspect { inc: Incarnation, own: Incarnation },
    /// the instance must go Defunct
    GoDefunct,
    /// the instance must switch identity
    Renew { old: Nid, new: Nid, old_was_down: bool },
}

#[derive(Debug, Clone)]
pub struct SelfM {
    pub id: Nid,
    pub inc: Incarnation,
    pub undead: bool,
}
impl SelfM {
    fn down(&mut self, acts: &mut Vec<Act>) {
        if self.undead {
            return;
        }
        if let Some(n) = self.id.valid_renewal() {
            let old = std::mem::replace(&mut self.id, n.clone());
            self.inc = 0;
            acts.push(Act::Accept { m: Member::new(old.clone(), 0, State::Down), bcast: true });
            acts.push(Act::Renew { old, new: n, old_was_down: false });
        } else {
            self.undead = true;
            acts.push(Act::GoDefunct);
        }
    }
    fn update(&mut self, inc: Incarnation, st: State, acts: &mut Vec<Act>) {
        match st {
            State::Alive => {}
            State::Down => self.down(acts),
            State::Suspect => {
                acts.push(Act::SelfSuspect { inc, own: self.inc });
                if inc >= self.inc {
                    if inc == MAXINC {
                        self.down(acts);
                    } else {
                        self.inc = inc + 1;
                    }
                }
            }
        }
    }
}

#[derive(Debug, Clone)]
pub struct Interp {
    /// for Data ops
    pub class: Option<In>,
    /// Data ops that reached processing: was the sender accepted as active?
    pub sender_active: Option<bool>,
    pub acts: Vec<Act>,
    pub me: SelfM,
    /// predicted records (Data / Apply only)
    pub map: Option<Map>,
    /// every (identity, incarnation) this op told the instance
    pub told: Vec<(Nid, Incarnation)>,
    /// every third-party update processed, in order
    pub processed: Vec<M>,
}

fn apply_stream(
    map: &mut Map,
    me: &mut SelfM,
    updates: &[M],
    bcast: bool,
    acts: &mut Vec<Act>,
    told: &mut Vec<(Nid, Incarnation)>,
    processed: &mut Vec<M>,
) {
    for u in updates {
        if u.id() == &me.id {
            me.update(u.incarnation(), u.state(), acts);
            continue;
        }
        told.push((u.id().clone(), u.incarnation()));
        let u = if u.id().addr == me.id.addr {
            Member::new(u.id().clone(), 0, State::Down)
        } else {
            u.clone()
        };
        processed.push(u.clone());
        let a = ref_apply(map, &u);
        if a.ok {
            acts.push(Act::Accept { m: u, bcast });
        }
    }
}

/// Predict what an op means. `inc`: own incarnation before the op; `undead`: currently defunct.
pub fn interpret(s: &Step, codec: AnyCodec, inc: Incarnation, undead: bool) -> Interp {
    let mut it = Interp {
        class: None,
        sender_active: None,
        acts: vec![],
        me: SelfM { id: s.pre.id.clone(), inc, undead },
        map: None,
        told: vec![],
        processed: vec![],
    };
    match &s.op {
        Op::Data(d) => {
            let cl = classify(codec, d, s.cfg.max_packet_size.get(), &s.pre.id);
            if let In::Ok { h, members, .. } = &cl {
                let mut map = to_map(&s.pre.recs);
                it.told.push((h.src.clone(), h.src_incarnation));
                let u = Member::new(h.src.clone(), h.src_incarnation, State::Alive);
                it.processed.push(u.clone());
                let a = ref_apply(&mut map, &u);
                let active = !a.lost && a.active_now;
                if a.ok {
                    it.acts.push(Act::Accept { m: u, bcast: true });
                }
                it.sender_active = Some(active);
                if active {
                    apply_stream(
                        &mut map,
                        &mut it.me,
                        members,
                        true,
                        &mut it.acts,
                        &mut it.told,
                        &mut it.processed,
                    );
                }
                if h.message == Message::TurnUndead {
                    it.me.down(&mut it.acts);
                }
                it.map = Some(map);
            }
            it.class = Some(cl);
        }
        Op::Apply(v, b) => {
            let mut map = to_map(&s.pre.recs);
            apply_stream(&mut map, &mut it.me, v, *b, &mut it.acts, &mut it.told, &mut it.processed);
            it.map = Some(map);
        }
        Op::Leave => {
            if s.res.is_ok() {
                it.acts.push(Act::Accept {
                    m: Member::new(s.pre.id.clone(), 0, State::Down),
                    bcast: true,
                });
                it.me.undead = true;
                it.acts.push(Act::GoDefunct);
            }
        }
        Op::ChangeId(new) => {
            if &s.pre.id != new {
                it.me.id = new.clone();
                it.me.inc = 0;
                it.me.undead = false;
                if !undead {
                    it.acts.push(Act::Accept {
                        m: Member::new(s.pre.id.clone(), 0, State::Down),
                        bcast: true,
                    });
                }
                // an active record bearing the new address has to go
                if let (Some(r), Some(p)) = (s.pre.rec(new.addr), s.post.rec(new.addr)) {
                    if r.state() != State::Down && p.state() == State::Down && r.id() != new {
                        it.acts.push(Act::Accept { m: p.clone(), bcast: true });
                    }
                }
            }
        }
        Op::Reuse => {
            if s.res.is_ok() {
                it.me.inc = 0;
                it.me.undead = false;
            }
        }
        Op::Timer(t) => match t {
            Timer::ChangeSuspectToDown { member_id, incarnation, .. } => {
                let a = member_id.addr;
                if s.pre.rec(a) != s.post.rec(a) {
                    if let Some(p) = s.post.rec(a) {
                        it.acts.push(Act::Accept {
                            m: Member::new(p.id().clone(), *incarnation, State::Down),
                            bcast: true,
                        });
                    }
                }
            }
            Timer::ProbeRandomMember(_) => {
                for p in &s.post.recs {
                    if s.pre.rec(p.id().addr) != Some(p) {
                        it.acts.push(Act::Accept { m: p.clone(), bcast: true });
                    }
                }
            }
            _ => {}
        },
        _ => {}
    }
    it
}
