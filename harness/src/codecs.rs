//! C20: the bundled codecs, for several kinds of identities and bincode configurations.
use crate::adv::CaseOut;
use crate::core::*;
use bytes::{Buf, BufMut, BytesMut};
use foca::{BincodeCodec, Codec, Header, Identity, Member, Message, PostcardCodec, State};
use rand::{rngs::SmallRng, Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Gen: Identity + Serialize + for<'de> Deserialize<'de> + PartialEq + Debug {
    fn gen(r: &mut SmallRng) -> Self;
    const NAME: &'static str;
    /// bincode without a limit allocates whatever length a string claims to have
    const OWNED_BYTES: bool = false;
}
macro_rules! ident {
    ($t:ty) => {
        impl Identity for $t {
            type Addr = String;
            fn renew(&self) -> Option<Self> {
                None
            }
            fn addr(&self) -> String {
                format!("{self:?}")
            }
            fn win_addr_conflict(&self, _o: &Self) -> bool {
                false
            }
        }
    };
}
fn edge64(r: &mut SmallRng) -> u64 {
    match r.random_range(0..8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 250 + r.random_range(0..3),
        4 => 65_535 + r.random_range(0..2),
        5 => 127 + r.random_range(0..2),
        6 => u32::MAX as u64 + r.random_range(0..2),
        _ => r.random::<u64>() >> r.random_range(0..64),
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Fix {
    a: u16,
    b: u32,
    c: i64,
    d: [u8; 4],
    e: bool,
}
ident!(Fix);
impl Gen for Fix {
    const NAME: &'static str = "fixed";
    fn gen(r: &mut SmallRng) -> Self {
        Fix { a: edge64(r) as u16, b: edge64(r) as u32, c: edge64(r) as i64, d: r.random(), e: r.random() }
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Mix {
    Unit,
    One(u64),
    Pair(i32, Option<u8>),
    Rec { x: u128, y: char, z: Option<Vec<u16>> },
}
ident!(Mix);
impl Gen for Mix {
    const NAME: &'static str = "enum";
    fn gen(r: &mut SmallRng) -> Self {
        match r.random_range(0..4) {
            0 => Mix::Unit,
            1 => Mix::One(edge64(r)),
            2 => Mix::Pair(edge64(r) as i32, r.random_bool(0.5).then(|| r.random())),
            _ => Mix::Rec {
                x: ((edge64(r) as u128) << 64) | edge64(r) as u128,
                y: *['a', 'é', '\u{0}', '\u{10FFFF}'].get(r.random_range(0..4)).unwrap(),
                z: r.random_bool(0.5).then(|| (0..r.random_range(0..6)).map(|_| edge64(r) as u16).collect()),
            },
        }
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Str(String, u8);
ident!(Str);
impl Gen for Str {
    const NAME: &'static str = "string";
    const OWNED_BYTES: bool = true;
    fn gen(r: &mut SmallRng) -> Self {
        let n = if r.random_range(0..100) == 0 { 9_000 } else { [0usize, 1, 5, 20, 130, 260][r.random_range(0..6)] };
        let s: String = (0..n).map(|_| *['x', 'ß', '猫', '0'].get(r.random_range(0..4)).unwrap()).collect();
        Str(s, r.random())
    }
}
impl Gen for SocketAddr {
    const NAME: &'static str = "socketaddr";
    fn gen(r: &mut SmallRng) -> Self {
        let ip = if r.random_bool(0.5) {
            IpAddr::V4(Ipv4Addr::from(r.random::<u32>()))
        } else {
            IpAddr::V6(Ipv6Addr::from(r.random::<u128>()))
        };
        SocketAddr::new(ip, edge64(r) as u16)
    }
}
impl Gen for Nid {
    const NAME: &'static str = "seq";
    fn gen(r: &mut SmallRng) -> Self {
        Nid::new(edge64(r) as u16, edge64(r) as u16, r.random_range(0..24))
    }
}

fn inc(r: &mut SmallRng) -> u16 {
    edge64(r) as u16
}
fn header<T: Gen>(r: &mut SmallRng) -> Header<T> {
    let pn = *[0u8, 1, 127, 128, 250, 251, 255].get(r.random_range(0..7)).unwrap();
    let message = match r.random_range(0..11) {
        0 => Message::Ping(pn),
        1 => Message::Ack(pn),
        2 => Message::PingReq { target: T::gen(r), probe_number: pn },
        3 => Message::IndirectPing { origin: T::gen(r), probe_number: pn },
        4 => Message::IndirectAck { target: T::gen(r), probe_number: pn },
        5 => Message::ForwardedAck { origin: T::gen(r), probe_number: pn },
        6 => Message::Announce,
        7 => Message::Feed,
        8 => Message::Gossip,
        9 => Message::Broadcast,
        _ => Message::TurnUndead,
    };
    Header { src: T::gen(r), src_incarnation: inc(r), dst: T::gen(r), message }
}
fn member<T: Gen>(r: &mut SmallRng) -> Member<T> {
    let st = [State::Alive, State::Suspect, State::Down][r.random_range(0..3)];
    Member::new(T::gen(r), inc(r), st)
}

enum Val<T> {
    H(Header<T>),
    M(Member<T>),
}
impl<T: Gen> Val<T> {
    fn same(&self, o: &Val<T>) -> bool {
        match (self, o) {
            (Val::H(a), Val::H(b)) => a == b,
            (Val::M(a), Val::M(b)) => a.id() == b.id() && a.incarnation() == b.incarnation() && a.state() == b.state(),
            _ => false,
        }
    }
    fn show(&self) -> String {
        match self {
            Val::H(h) => format!("{h:?}"),
            Val::M(m) => format!("{m:?}"),
        }
    }
}
fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("{what} panicked: {}", panic_text(p)))
}
fn enc<T: Gen, C: Codec<T> + Copy>(c: C, v: &Val<T>, b: impl BufMut) -> Result<(), String> {
    let mut c = c;
    guard("encode", || match v {
        Val::H(h) => c.encode_header(h, b).map_err(|e| e.to_string()),
        Val::M(m) => c.encode_member(m, b).map_err(|e| e.to_string()),
    })
    .unwrap_or_else(|e| Err(format!("PANIC {e}")))
}
/// Err = panicked; Ok(Err) = decoding error
fn dec<T: Gen, C: Codec<T> + Copy>(c: C, hdr: bool, b: impl Buf) -> Result<Result<Val<T>, String>, String> {
    let mut c = c;
    guard("decode", || {
        if hdr {
            c.decode_header(b).map(Val::H).map_err(|e| e.to_string())
        } else {
            c.decode_member(b).map(Val::M).map_err(|e| e.to_string())
        }
    })
}

fn sweep<T: Gen, C: Codec<T> + Copy>(
    c: C,
    contiguous_only: bool,
    r: &mut SmallRng,
    out: &mut CaseOut,
) -> Result<(), String> {
    // several values back to back, as in a datagram
    let mut vals: Vec<Val<T>> = vec![Val::H(header(r))];
    for _ in 0..r.random_range(0..5) {
        vals.push(if r.random_bool(0.8) { Val::M(member(r)) } else { Val::H(header(r)) });
    }
    let mut all: Vec<u8> = vec![];
    let mut lens = vec![];
    for v in &vals {
        let before = all.len();
        enc(c, v, &mut all).map_err(|e| format!("encoding {} failed: {e}", v.show()))?;
        lens.push(all.len() - before);
        out.c.hit("encoded");
    }
    let ntrail = match r.random_range(0..60) {
        0 => r.random_range(250..260),
        1 => r.random_range(4_090..4_100),
        2 => r.random_range(65_500..65_600),
        3 => 140_000,
        x => [0usize, 1, 7, 40][x % 4],
    };
    let mut trailing = vec![0u8; ntrail];
    r.fill(&mut trailing[..]);
    if ntrail > 60_000 {
        out.c.hit("followed_by_more_than_60k");
    }
    let mut buf = all.clone();
    buf.extend_from_slice(&trailing);
    let mut b = &buf[..];
    for (v, n) in vals.iter().zip(&lens) {
        let before = b.len();
        let hdr = matches!(v, Val::H(_));
        let got = dec::<T, C>(c, hdr, &mut b)?.map_err(|e| format!("decoding {} failed: {e}", v.show()))?;
        if !got.same(v) {
            return Err(format!("{} came back as {}", v.show(), got.show()));
        }
        if before - b.len() != *n {
            return Err(format!("{} took {n} bytes to encode but {} were consumed", v.show(), before - b.len()));
        }
        out.c.hit("decoded_equal");
    }
    if b != trailing {
        return Err("what follows the encoded values was consumed".into());
    }
    if !contiguous_only && buf.len() > 1 {
        let k = r.random_range(1..buf.len());
        let mut b = (&buf[..k]).chain(&buf[k..]);
        for v in &vals {
            let got = dec::<T, C>(c, matches!(v, Val::H(_)), &mut b)?
                .map_err(|e| format!("decoding {} from two chunks failed: {e}", v.show()))?;
            if !got.same(v) {
                return Err(format!("{} came back from two chunks as {}", v.show(), got.show()));
            }
        }
        if b.remaining() != trailing.len() {
            return Err("two chunks: what follows the encoded values was consumed".into());
        }
    }
    // every capacity that is too small, and the ones that are just enough
    for (v, n) in vals.iter().zip(&lens).take(2) {
        let mut want = vec![];
        enc(c, v, &mut want)?;
        let mut caps: Vec<usize> = if *n <= 700 {
            (0..n + 3).collect()
        } else {
            let mut v: Vec<usize> = (0..60).map(|_| r.random_range(0..*n)).collect();
            v.extend([0, n - 2, n - 1, *n, n + 1]);
            v
        };
        // plenty of room
        caps.push(n + 255);
        if r.random_bool(0.05) {
            caps.extend([n + 65_530, n + 65_536, n + 131_073]);
        }
        for k in caps {
            let kind = r.random_range(0..4);
            let mut area = vec![0xA5u8; k + 16];
            let (res, wrote): (Result<(), String>, Vec<u8>) = match kind {
                0 => {
                    let mut s = &mut area[..k];
                    let x = enc(c, v, &mut s);
                    let left = s.len();
                    (x, area[..k - left].to_vec())
                }
                1 => {
                    let mut l = Vec::new().limit(k);
                    let x = enc(c, v, &mut l);
                    (x, l.into_inner())
                }
                2 => {
                    let mut l = BytesMut::new().limit(k);
                    let x = enc(c, v, &mut l);
                    (x, l.into_inner().to_vec())
                }
                _ => {
                    let (x, y) = area[..k].split_at_mut(k / 2);
                    let mut s = x.chain_mut(y);
                    let x = enc(c, v, &mut s);
                    let left = s.remaining_mut();
                    (x, area[..k - left].to_vec())
                }
            };
            if area[k.min(area.len())..].iter().any(|b| *b != 0xA5) {
                return Err(format!("encoding {} wrote past a {k} byte buffer", v.show()));
            }
            match res {
                Err(e) if e.starts_with("PANIC") => {
                    return Err(format!("encoding {} into {k} bytes: {e}", v.show()))
                }
                Ok(()) if k < *n => {
                    return Err(format!("encoding {} ({n} bytes) into {k} bytes did not fail", v.show()))
                }
                Err(e) if k >= *n => {
                    return Err(format!("encoding {} ({n} bytes) into {k} bytes failed: {e}", v.show()))
                }
                Ok(()) => {
                    if wrote != want {
                        return Err(format!("encoding {} into {k} bytes differs", v.show()));
                    }
                    out.c.hit("fits");
                }
                Err(_) => {
                    if wrote.len() > k {
                        return Err(format!("{} bytes written into a {k} byte buffer", wrote.len()));
                    }
                    out.c.hit("too_small");
                }
            }
        }
        // every truncation
        for k in (0..*n).step_by(n / 400 + 1) {
            let mut b = &want[..k];
            match dec::<T, C>(c, matches!(v, Val::H(_)), &mut b)? {
                Ok(_) => out.c.hit("truncated_ok"),
                Err(_) => out.c.hit("truncated_err"),
            }
            if b.len() > k {
                return Err("the input grew".into());
            }
        }
    }
    // arbitrary bytes, and valid ones with a few changes
    for _ in 0..12 {
        let mut x: Vec<u8> = if r.random_bool(0.4) {
            let n = r.random_range(0..80);
            let small = r.random_bool(0.5);
            (0..n).map(|_| if small { r.random_range(0..12) } else { r.random() }).collect()
        } else {
            let mut x = buf[..buf.len().min(4_000)].to_vec();
            for _ in 0..r.random_range(1..4) {
                let i = r.random_range(0..x.len());
                x[i] = *[0, 255, 251, 252, 253, 254, x[i] ^ 1, r.random()].get(r.random_range(0..8)).unwrap();
            }
            if r.random_bool(0.3) {
                let k = r.random_range(0..x.len());
                x.truncate(k);
            }
            x
        };
        if r.random_bool(0.1) {
            x.extend(std::iter::repeat_n(0x80, 30));
        }
        let hdr = r.random_bool(0.5);
        let mut b = &x[..];
        match dec::<T, C>(c, hdr, &mut b).map_err(|e| format!("{e} on {x:?}"))? {
            Ok(v) => {
                out.c.hit("arbitrary_ok");
                if b.len() > x.len() {
                    return Err("the input grew".into());
                }
                // whatever value that was, it round-trips
                let mut again = vec![];
                enc(c, &v, &mut again).map_err(|e| format!("encoding {} failed: {e}", v.show()))?;
                let w = dec::<T, C>(c, hdr, &mut &again[..])?
                    .map_err(|e| format!("decoding {} failed: {e}", v.show()))?;
                if !w.same(&v) {
                    return Err(format!("{} came back as {}", v.show(), w.show()));
                }
            }
            Err(_) => out.c.hit("arbitrary_err"),
        }
    }
    fnv(&mut out.sig, hash_of(&buf));
    Ok(())
}

fn all<T: Gen>(which: u32, r: &mut SmallRng, out: &mut CaseOut) -> Result<(), String> {
    use bincode::config::{legacy, standard};
    let unlimited = !T::OWNED_BYTES;
    match which {
        0..=2 => sweep::<T, _>(PostcardCodec, true, r, out),
        3 => sweep::<T, _>(BincodeCodec(standard().with_limit::<70_000>()), false, r, out),
        4 if unlimited => sweep::<T, _>(BincodeCodec(standard()), false, r, out),
        5 if unlimited => sweep::<T, _>(BincodeCodec(legacy()), false, r, out),
        6 if unlimited => sweep::<T, _>(BincodeCodec(standard().with_big_endian()), false, r, out),
        7 => sweep::<T, _>(BincodeCodec(legacy().with_limit::<70_000>()), false, r, out),
        _ => sweep::<T, _>(BincodeCodec(standard().with_big_endian().with_limit::<70_000>()), false, r, out),
    }
}

pub fn c20(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    let mut r = SmallRng::seed_from_u64(seed);
    let which = r.random_range(0..9);
    let ty = r.random_range(0..5);
    let name = [Fix::NAME, Mix::NAME, Str::NAME, <SocketAddr as Gen>::NAME, <Nid as Gen>::NAME][ty];
    if trace {
        out.trace.push(format!("identity {name}, codec #{which} (0-2 postcard, others bincode configurations)"));
    }
    out.c.hit(["id_fixed", "id_enum", "id_string", "id_socketaddr", "id_seq"][ty]);
    out.c.hit(if which <= 2 { "postcard" } else { "bincode" });
    let res = match ty {
        0 => all::<Fix>(which, &mut r, &mut out),
        1 => all::<Mix>(which, &mut r, &mut out),
        2 => all::<Str>(which, &mut r, &mut out),
        3 => all::<SocketAddr>(which, &mut r, &mut out),
        _ => all::<Nid>(which, &mut r, &mut out),
    };
    if trace {
        let h = header::<Fix>(&mut r);
        out.trace.push(format!("e.g. {h:?} -> {:?}", {
            let mut v = vec![];
            let _ = PostcardCodec.encode_header(&h, &mut v);
            v
        }));
        out.trace.push(format!("counters {:?}", out.c.0));
    }
    if let Err(e) = res {
        out.err = Some(format!("identity {name}, codec #{which}: {e}"));
    }
    out.steps = 1;
    out
}

/// the recorded finding: bincode without a limit and an identity holding a string
pub fn c20_unlimited_string(_p: &str, seed: u64, trace: bool, _th: bool) -> CaseOut {
    let mut out = CaseOut::new(seed);
    // a length prefix of u64::MAX: allocating that can only panic, not exhaust memory
    let mut d = vec![253u8];
    d.extend_from_slice(&[0xFF; 8]);
    d.extend_from_slice(&[0; 8]);
    if trace {
        out.trace.push(format!("BincodeCodec(standard()).decode_member::<string identity>({d:?})"));
    }
    match dec::<Str, _>(BincodeCodec(bincode::config::standard()), false, &d[..]) {
        Err(e) => {
            if e.contains("capacity overflow") {
                out.known = Some("C20-unlimited-string-length".into());
            }
            out.err = Some(e);
        }
        Ok(Ok(v)) => out.err = Some(format!("decoded {}", v.show())),
        Ok(Err(_)) => out.c.hit("length_refused"),
    }
    out
}
