//! Independent datagram grammar (written from the property text / documentation,
//! not from foca's parser) and classification of incoming datagrams.
use crate::core::*;
use foca::{Codec, Message};

pub fn piggybacks(m: &Msg) -> bool {
    !matches!(m, Message::Announce | Message::TurnUndead | Message::Broadcast)
}
pub fn may_carry_items(m: &Msg) -> bool {
    !matches!(m, Message::Announce | Message::TurnUndead)
}
pub fn kind_name(m: &Msg) -> &'static str {
    match m {
        Message::Ping(_) => "Ping",
        Message::Ack(_) => "Ack",
        Message::PingReq { .. } => "PingReq",
        Message::IndirectPing { .. } => "IndirectPing",
        Message::IndirectAck { .. } => "IndirectAck",
        Message::ForwardedAck { .. } => "ForwardedAck",
        Message::Announce => "Announce",
        Message::Feed => "Feed",
        Message::Gossip => "Gossip",
        Message::Broadcast => "Broadcast",
        Message::TurnUndead => "TurnUndead",
    }
}

#[derive(Debug, Clone)]
pub struct Parsed {
    pub h: H,
    pub hlen: usize,
    /// the member count was present
    pub counted: bool,
    /// decoded member and the bytes it was encoded as
    pub members: Vec<(M, Vec<u8>)>,
    /// offset right after the member section
    pub mend: usize,
    pub items: Vec<Vec<u8>>,
}

pub fn split_items(mut b: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut out = Vec::new();
    while !b.is_empty() {
        if b.len() < 2 {
            return Err("dangling byte after the last custom item".into());
        }
        let n = u16::from_be_bytes([b[0], b[1]]) as usize;
        if n == 0 {
            return Err("empty custom item".into());
        }
        if b.len() - 2 < n {
            return Err(format!("custom item of {n} bytes but only {} left", b.len() - 2));
        }
        out.push(b[2..2 + n].to_vec());
        b = &b[2 + n..];
    }
    Ok(out)
}

/// Parse a datagram foca emitted. `max` = packet size limit of the sender.
pub fn parse_out(codec: AnyCodec, data: &[u8], max: usize) -> Result<Parsed, String> {
    let mut c = codec;
    let mut b = data;
    let h = c.decode_header(&mut b).map_err(|e| format!("header does not decode: {e}"))?;
    let hlen = data.len() - b.len();
    let mut p =
        Parsed { h, hlen, counted: false, members: vec![], mend: hlen, items: vec![] };
    match p.h.message {
        Message::Announce | Message::TurnUndead => {
            if !b.is_empty() {
                return Err(format!("{} carries {} bytes of payload", kind_name(&p.h.message), b.len()));
            }
            return Ok(p);
        }
        Message::Broadcast => {
            p.items = split_items(b)?;
            return Ok(p);
        }
        _ => {}
    }
    if b.is_empty() {
        // only legitimate when there was no room for even an empty section
        if max.saturating_sub(hlen) > 2 {
            return Err(format!("{} without a member section although there was room", kind_name(&p.h.message)));
        }
        return Ok(p);
    }
    if b.len() < 2 {
        return Err("truncated member count".into());
    }
    let n = u16::from_be_bytes([b[0], b[1]]) as usize;
    b = &b[2..];
    p.counted = true;
    for i in 0..n {
        let before = b.len();
        let start = b;
        let m = c
            .decode_member(&mut b)
            .map_err(|e| format!("member {i} of {n} does not decode: {e}"))?;
        p.members.push((m, start[..before - b.len()].to_vec()));
    }
    p.mend = data.len() - b.len();
    p.items = split_items(b)?;
    Ok(p)
}

/// What an incoming datagram is, seen by an instance with identity `own`.
#[derive(Debug, Clone)]
pub enum In {
    TooBig,
    BadHeader,
    FromSelf,
    Framing,
    NotForUs,
    BadMembers,
    Ok { h: H, members: Vec<M>, rest: Vec<u8> },
}
pub fn classify(codec: AnyCodec, data: &[u8], max: usize, own: &Nid) -> In {
    if data.len() > max {
        return In::TooBig;
    }
    let mut c = codec;
    let mut b = data;
    let Ok(h) = c.decode_header(&mut b) else {
        return In::BadHeader;
    };
    if &h.src == own || h.src.addr == own.addr {
        return In::FromSelf;
    }
    if b.len() == 1 || (h.message == Message::Announce && !b.is_empty()) {
        return In::Framing;
    }
    let for_us = &h.dst == own || (h.message == Message::Announce && h.dst.addr == own.addr);
    if !for_us {
        return In::NotForUs;
    }
    let mut members = vec![];
    if b.len() >= 2 && h.message != Message::Broadcast {
        let n = u16::from_be_bytes([b[0], b[1]]);
        b = &b[2..];
        for _ in 0..n {
            match c.decode_member(&mut b) {
                Ok(m) => members.push(m),
                Err(_) => return In::BadMembers,
            }
        }
    }
    In::Ok { h, members, rest: b.to_vec() }
}

/// Build a datagram.
pub fn build(codec: AnyCodec, h: &H, members: Option<&[M]>, items: &[Vec<u8>]) -> Vec<u8> {
    let mut v = codec.header_bytes(h);
    if let Some(ms) = members {
        v.extend_from_slice(&(ms.len() as u16).to_be_bytes());
        for m in ms {
            v.extend_from_slice(&codec.member_bytes(m));
        }
    }
    for it in items {
        v.extend_from_slice(&(it.len() as u16).to_be_bytes());
        v.extend_from_slice(it);
    }
    v
}
