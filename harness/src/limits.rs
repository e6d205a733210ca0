//! C25: the configured limits and settings are the ones enforced, and the
//! build script lets exactly the documented configurations through.
use crate::cfg::*;
use crate::glue;
use crate::model::*;
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use spdm::msgs::encoding::Reader;
use spdm::msgs::{CertificateChain, OpaqueData};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use vcommon::codec::{self, *};
use vcommon::run::{prop, sweep, Check, Obs, Part};

// ------------------------------------------------------------- constants

fn constants(_: &u8, o: &mut Obs) -> Check {
    use spdm::config as k;
    let c = cfg();
    o.nontrivial();
    for (name, have, want) in [
        ("NUM_SLOTS", k::NUM_SLOTS, c.slots),
        ("MAX_CERT_CHAIN_SIZE", k::MAX_CERT_CHAIN_SIZE, c.buf),
        ("MAX_CERT_CHAIN_DEPTH", k::MAX_CERT_CHAIN_DEPTH, c.depth),
        ("TRANSCRIPT_SIZE", k::TRANSCRIPT_SIZE, c.transcript),
        ("MAX_DIGEST_SIZE", k::MAX_DIGEST_SIZE, c.max_digest),
        ("MAX_SIGNATURE_SIZE", k::MAX_SIGNATURE_SIZE, 64),
        ("MAX_OPAQUE_ELEMENT_DATA_SIZE", k::MAX_OPAQUE_ELEMENT_DATA_SIZE, c.edata),
        ("MAX_OPAQUE_ELEMENTS", k::MAX_OPAQUE_ELEMENTS, c.elems),
        ("MAX_MEASUREMENT_BLOCKS", k::MAX_MEASUREMENT_BLOCKS, c.blocks),
        ("MAX_MEASUREMENT_SIZE", k::MAX_MEASUREMENT_SIZE, c.meas),
    ] {
        if have != want {
            return Err(format!("{name} is {have}, the configuration file says {want}"));
        }
    }
    if k::CAPABILITIES != &c.capabilities[..] {
        return Err(format!("CAPABILITIES is {:?} instead of {:?}", k::CAPABILITIES, c.capabilities));
    }
    if k::ALGORITHMS_ASYMMETRIC_SIGNING != ["ECDSA_ECC_NIST_P256"] {
        return Err(format!("ALGORITHMS_ASYMMETRIC_SIGNING is {:?}", k::ALGORITHMS_ASYMMETRIC_SIGNING));
    }
    Ok(())
}

// ---------------------------------------------------------------- limits

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Probe {
    /// a responder with every slot filled is asked for a slot's certificates
    CertSlot(u8),
    ChalSlot(u8),
    /// decoders of the messages that carry a slot or a set of slots
    Decode { slot: u8, which: u8 },
    /// a chain of this length, relative to the configured size
    Serve(i32),
    /// a certificate response with a portion of this length, relative to it
    Receive { over: i32, more: u8 },
    /// so many intermediates, built and parsed
    Append(u8),
    Parse { n: u8, digest: u8 },
    /// the transcript, in steps of this size, first to this much below full
    Transcript { step: u16, below: u16 },
    /// digests until the responder's transcript is full
    Fill { hash: u8, mask: u8 },
    Digest(u16),
    Signature(u16),
    /// so many opaque elements of so much data each
    Opaque { n: u8, data: u16, challenge: bool },
    /// measurements: how many announced, present, and of which size
    Meas { total: u8, n: u8, size: u16, raw: bool },
    /// what both endpoints say about themselves
    Caps,
}

fn full_slots() -> Vec<SlotSpec> {
    (0..cfg().slots)
        .map(|i| SlotSpec::Junk { root: 32, inter: vec![], leaf: 60, key: i as u8, fill: i as u8 })
        .collect()
}
/// Up to and including a phase with honest requests, judging nothing.
fn bring(r: &mut spdm::Responder<'_, TSigner>, reqs: &[Vec<u8>]) -> bool {
    let mut buf = vec![0u8; rsp_cap()];
    reqs.iter().all(|q| lib!(r.handle_msg(q, &mut buf)).1.is_ok())
}
fn start(hash: u32) -> Vec<Vec<u8>> {
    vec![req_version(), req_caps(REQ_FLAGS), req_algs(hash)]
}

fn probe(c: &Probe, o: &mut Obs) -> Check {
    let k = cfg();
    let l = k.limits(32);
    match c {
        Probe::CertSlot(slot) | Probe::ChalSlot(slot) => {
            let chal = matches!(c, Probe::ChalSlot(_));
            if !k.cert() || (chal && (!k.chal() || !CRYPTO)) || k.buf < 4 + 32 + 60 || k.transcript < 1500 {
                o.class("not served in this configuration");
                return Ok(());
            }
            let s = slots(&full_slots());
            let mut r = Box::new(responder(&s));
            let mut reqs = start(1);
            if chal {
                reqs.push(req_cert(0))
            }
            if !bring(&mut r, &reqs) {
                o.class("not reached");
                return Ok(());
            }
            let q = if chal { req_challenge(*slot, 1) } else { req_cert(*slot) };
            let mut buf = vec![0u8; rsp_cap()];
            let (b, res) = lib!(r.handle_msg(&q, &mut buf));
            let want = (*slot as usize) < k.slots;
            if res.is_ok() != want || (b.get(1) == Some(&ERROR)) == want {
                return Err(format!("slot {slot} of {}: {} gives {res:?} and {}", k.slots, short(&q), short(b)));
            }
            o.class(format!("{} slot {}", if chal { "challenge" } else { "certificate" }, if want { "in range" } else { "out of range" }));
            o.nontrivial();
        }
        Probe::Decode { slot, which } => {
            let m = match which % 4 {
                0 => Msg::Challenge { slot: *slot, mht: 0, nonce: vec![1; k.nonce_len()] },
                1 => Msg::ChallengeAuth {
                    slot: *slot & 15,
                    mutual: false,
                    mask: 1,
                    chain_hash: vec![2; 32],
                    nonce: vec![3; k.nonce_len()],
                    meas_hash: vec![4; 32],
                    opaque: vec![],
                    sig: vec![5; 64],
                },
                2 => Msg::GetMeasurements { sig: true, raw: false, index: 0, nonce: vec![6; k.nonce_len()], slot: *slot },
                _ => Msg::Measurements {
                    total: 0,
                    changed: 0,
                    slot: *slot & 15,
                    blocks: vec![],
                    nonce: vec![7; k.nonce_len()],
                    opaque: vec![],
                    sig: Some(vec![8; 64]),
                },
            };
            same(&m, &l, o)?;
        }
        Probe::Serve(d) => {
            let len = k.max_chain() as i64 + *d as i64;
            if !k.cert() || !(4..=65_600).contains(&len) {
                o.class("not served in this configuration");
                return Ok(());
            }
            let len = len as usize;
            let root = 32.min(len - 4);
            let rest = len - 4 - root;
            let (a, b) = if k.depth > 0 { (rest / 3, rest - rest / 3) } else { (0, rest) };
            let sp = vec![SlotSpec::Junk {
                root: root as u16,
                inter: if k.depth > 0 { vec![a as u16] } else { vec![] },
                leaf: b as u16,
                key: 1,
                fill: 3,
            }];
            let s = slots(&sp);
            let mut r = Box::new(responder(&s));
            if !bring(&mut r, &start(1)) {
                o.class("not reached");
                return Ok(());
            }
            let q = req_cert(0);
            let before = r.transcript().len();
            let mut buf = vec![0u8; rsp_cap()];
            let (b, res) = lib!(r.handle_msg(&q, &mut buf));
            let fits = len <= k.max_chain();
            if before + q.len() + 8 + len > k.transcript {
                o.class("more than the transcript");
                return Ok(());
            }
            if res.is_ok() != fits {
                return Err(format!("a chain of {len} bytes, {} configured: {res:?}", k.buf));
            }
            if fits && b.len() != 8 + len {
                return Err(format!("a chain of {len} bytes comes in a reply of {}", b.len()));
            }
            o.class(format!("chain served: {fits}"));
            o.nontrivial();
        }
        Probe::Receive { over, more } => {
            let len = k.buf as i64 + *over as i64;
            if !(0..=65535).contains(&len) || !k.cert() {
                o.class("no such portion");
                return Ok(());
            }
            let portion: Vec<u8> = (0..len).map(|i| i as u8 ^ 0x21).collect();
            let m = Msg::Certificate { slot: 0, remainder: 0, portion };
            let mut rsp = codec::encode(&m);
            rsp.extend(vec![0x5a; *more as usize]);
            let s = slots(&[SlotSpec::Pki(ChainSpec::plain(0, 1))]);
            let root = root_cert(0);
            let mut q = Box::new(requester(&root));
            let mut peer = RefRsp::new(&s);
            peer.flags = CERT_CAP | CHAL_CAP;
            let mut buf = vec![0u8; 512];
            let mut t = 0;
            loop {
                let Ok(req) = lib!(q.next_request(&mut buf)).map(|b| b.to_vec()) else {
                    o.class("not reached");
                    return Ok(());
                };
                t += req.len();
                if req[1] == GET_CERTIFICATE {
                    break;
                }
                let Ok(a) = peer.reply(&req) else {
                    o.class("not reached");
                    return Ok(());
                };
                t += a.len();
                match lib!(q.handle_msg(&a)) {
                    Ok(false) => {}
                    _ => {
                        o.class("not reached");
                        return Ok(());
                    }
                }
            }
            let res = lib!(q.handle_msg(&rsp));
            if t + rsp.len() > k.transcript {
                o.class("more than the transcript");
                return Ok(());
            }
            if res.is_ok() != (len as usize <= k.buf) {
                return Err(format!("a portion of {len} bytes, {} configured: {res:?}", k.buf));
            }
            o.class(format!("portion accepted: {}", res.is_ok()));
            o.nontrivial();
        }
        Probe::Append(n) => {
            let root = [7u8; 32];
            let cert = [0x30u8, 1, 5];
            let mut ch = lib!(CertificateChain::new(&root, &cert));
            for i in 0..*n as usize {
                let r = lib!(ch.append_intermediate_cert(&cert));
                if r.is_ok() != (i < k.depth) {
                    return Err(format!("intermediate {} of at most {}: {r:?}", i + 1, k.depth));
                }
            }
            if ch.intermediate_certs().len() != (*n as usize).min(k.depth) {
                return Err(format!("{} intermediates after appending {n}", ch.intermediate_certs().len()));
            }
            o.class(if *n as usize > k.depth { "too deep" } else { "within the depth" });
            o.nontrivial();
        }
        Probe::Parse { n, digest } => {
            let d = [32, 48, 64][*digest as usize % 3];
            if d > k.max_digest {
                return Ok(());
            }
            let b = codec::chain_bytes(&codec::Chain {
                root_hash: vec![9; d],
                inter: (0..*n).map(|i| vec![0x30, 1, i]).collect(),
                leaf: vec![0x30, 2, 1, 1],
            });
            let r = lib!(CertificateChain::parse(&b, glue::dsize(d)));
            if r.is_ok() != (*n as usize <= k.depth) {
                return Err(format!("a chain with {n} intermediates of at most {}: {:?}", k.depth, r.map(|_| ())));
            }
            o.class(if *n as usize > k.depth { "too deep" } else { "within the depth" });
            o.nontrivial();
        }
        Probe::Transcript { step, below } => {
            let mut t = Box::new(lib!(spdm::Transcript::new()));
            let data = vec![0xA7u8; *step as usize];
            let first = vec![1u8; k.transcript.saturating_sub(*below as usize)];
            if lib!(t.extend(&first)).is_err() {
                return Err(format!("{} bytes do not fit a transcript of {}", first.len(), k.transcript));
            }
            let mut have = first.len();
            for _ in 0..4 {
                let ok = lib!(t.extend(&data)).is_ok();
                if ok != (have + data.len() <= k.transcript) {
                    return Err(format!("{} bytes after {have}, {} configured: {ok}", data.len(), k.transcript));
                }
                if ok {
                    have += data.len()
                }
            }
            o.class(if have == k.transcript { "exactly full" } else { "not quite full" });
            o.nontrivial();
        }
        Probe::Fill { hash, mask } => {
            if !k.cert() || !CRYPTO || k.transcript > 30000 || k.buf < 4 + 32 + 60 {
                o.class("not served in this configuration");
                return Ok(());
            }
            let mut sp = full_slots();
            for (i, s) in sp.iter_mut().enumerate() {
                if mask >> i & 1 == 0 {
                    *s = SlotSpec::Empty
                }
            }
            let h = 1u32 << (hash % 3);
            let s = slots(&sp);
            let mut r = Box::new(responder(&s));
            if !bring(&mut r, &start(h)) {
                o.class("not reached");
                return Ok(());
            }
            let filled = sp.iter().filter(|s| **s != SlotSpec::Empty).count();
            let q = req_digests();
            let len = q.len() + 4 + filled * vcommon::hash::size(h);
            let mut have = r.transcript().len();
            let mut buf = vec![0u8; rsp_cap()];
            for i in 0..30000 {
                let (_, res) = lib!(r.handle_msg(&q, &mut buf));
                let fits = have + len <= k.transcript;
                if res.is_ok() != fits {
                    return Err(format!("digests {i}: {len} bytes after {have}, {} configured: {res:?}", k.transcript));
                }
                if !fits {
                    break;
                }
                have += len;
            }
            o.class(format!("full but for {}", (k.transcript - have) / 10 * 10));
            o.nontrivial();
        }
        Probe::Digest(n) => {
            let n = *n as usize;
            use spdm::msgs::common::{DigestBuf, DigestSize};
            let a = DigestSize::try_from(n).is_ok();
            let b = lib!(DigestBuf::try_from(&[3u8; 1024][..n.min(1024)])).is_ok();
            if a != (n <= k.max_digest) || b != (n.min(1024) <= k.max_digest) {
                return Err(format!("a digest of {n} bytes, {} configured: {a} {b}", k.max_digest));
            }
            o.nontrivial();
        }
        Probe::Signature(n) => {
            let n = *n as usize;
            use spdm::msgs::common::{SignatureBuf, SignatureSize};
            let a = SignatureSize::try_from(n).is_ok();
            let b = lib!(SignatureBuf::try_from(&[3u8; 1024][..n.min(1024)])).is_ok();
            if a != (n <= 64) || b != (n.min(1024) <= 64) {
                return Err(format!("a signature of {n} bytes: {a} {b}"));
            }
            o.nontrivial();
        }
        Probe::Opaque { n, data, challenge } => {
            let e: Vec<Elem> = (0..*n).map(|i| Elem { registry: 0, vid: Vid::None, data: vec![i; if i == 0 { *data as usize } else { 1.min(k.edata) }] }).collect();
            let b = codec::opaque_bytes(&e);
            if *challenge {
                if b.len() > 1024 {
                    o.class("more than opaque data can be");
                    return Ok(());
                }
                let m = Msg::ChallengeAuth {
                    slot: 0,
                    mutual: false,
                    mask: 1,
                    chain_hash: vec![2; 32],
                    nonce: vec![3; k.nonce_len()],
                    meas_hash: vec![4; 32],
                    opaque: e,
                    sig: vec![5; 64],
                };
                return same(&m, &l, o);
            }
            let r = lib!(OpaqueData::read(&mut Reader::new(&b)));
            let want = *n as usize <= k.elems && (*n == 0 || *data as usize <= k.edata);
            if r.is_ok() != want {
                return Err(format!("{n} elements of {data} bytes, {} of {} configured: {:?}", k.elems, k.edata, r.map(|_| ())));
            }
            o.class(format!("opaque data accepted: {want}"));
            o.nontrivial();
        }
        Probe::Meas { total, n, size, raw } => {
            let m = Msg::Measurements {
                total: *total,
                changed: 0,
                slot: 0,
                blocks: (0..*n).map(|i| Block { index: i, raw: *raw, vtype: 0, value: vec![i; *size as usize] }).collect(),
                nonce: vec![7; k.nonce_len()],
                opaque: vec![],
                sig: None,
            };
            let mut l = l;
            l.meas_sig = false;
            same(&m, &l, o)?;
        }
        Probe::Caps => {
            let s = slots(&[]);
            let mut r = Box::new(responder(&s));
            let root = root_cert(0);
            let mut q = Box::new(requester(&root));
            let mut buf = vec![0u8; 512];
            let mut rbuf = vec![0u8; rsp_cap()];
            for i in 0..2 {
                let Ok(req) = lib!(q.next_request(&mut buf)).map(|b| b.to_vec()) else { return Ok(()) };
                let (rsp, _) = lib!(r.handle_msg(&req, &mut rbuf));
                if i == 1 {
                    let a = codec::decode(&req, &l);
                    let b = codec::decode(rsp, &l);
                    match (a, b) {
                        (Ok((Msg::GetCapabilities { flags: a, .. }, _)), Ok((Msg::Capabilities { flags: b, .. }, _))) => {
                            if a != k.caps() || b != k.caps() {
                                return Err(format!("{:?} is advertised as {a:#x} and {b:#x}", k.capabilities));
                            }
                            o.nontrivial();
                        }
                        _ => o.class("not reached"),
                    }
                }
                if lib!(q.handle_msg(rsp)).is_err() {
                    o.class("not reached");
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}
/// The library's decoder takes the message exactly when it is within the
/// limits in the configuration file.
fn same(m: &Msg, l: &Limits, o: &mut Obs) -> Check {
    let b = codec::encode_body(m);
    let got = glue::parse(m.kind(), &b, l);
    let want = codec::decode_body(m.kind(), &b, l);
    if got.is_ok() != want.is_ok() {
        return Err(format!(
            "{} is {} although {:?}",
            short(&codec::encode(m)),
            if got.is_ok() { "accepted" } else { "refused" },
            want.map(|x| x.1)
        ));
    }
    o.class(format!("{:?} {}", m.kind(), if got.is_ok() { "accepted" } else { "refused" }));
    o.nontrivial();
    Ok(())
}
fn around(n: usize, max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        6 => (n.saturating_sub(3)..=n + 3).prop_map(move |x| x.min(max)),
        1 => Just(0usize),
        1 => Just(max),
        2 => 0..=max,
        1 => (0..=n).prop_map(move |x| x.min(max)),
    ]
    .boxed()
}
fn probes() -> BoxedStrategy<Probe> {
    let k = cfg();
    let slot = || prop_oneof![3 => around(k.slots, 255).prop_map(|x| x as u8), 1 => 0u8..16, 1 => any::<u8>()];
    prop_oneof![
        2 => slot().prop_map(Probe::CertSlot),
        2 => slot().prop_map(Probe::ChalSlot),
        3 => (slot(), any::<u8>()).prop_map(|(slot, which)| Probe::Decode { slot, which }),
        2 => prop_oneof![3 => -3i32..4, 1 => -300i32..300].prop_map(Probe::Serve),
        2 => (prop_oneof![3 => -3i32..4, 1 => -300i32..300], prop_oneof![3 => Just(0u8), 1 => any::<u8>()]).prop_map(|(over, more)| Probe::Receive { over, more }),
        1 => around(k.depth, 60).prop_map(|x| Probe::Append(x as u8)),
        2 => (around(k.depth, 60), any::<u8>()).prop_map(|(n, digest)| Probe::Parse { n: n as u8, digest }),
        2 => (prop_oneof![0u16..4, 0u16..200], prop_oneof![0u16..8, 0u16..400]).prop_map(|(step, below)| Probe::Transcript { step, below }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(hash, mask)| Probe::Fill { hash, mask }),
        1 => around(k.max_digest, 700).prop_map(|x| Probe::Digest(x as u16)),
        1 => around(64, 700).prop_map(|x| Probe::Signature(x as u16)),
        4 => (around(k.elems, 255), around(k.edata, 1100), any::<bool>()).prop_map(|(n, data, challenge)| Probe::Opaque { n: n as u8, data: data as u16, challenge }),
        4 => (around(k.blocks, 255), around(k.blocks, 60), prop_oneof![around(k.meas, 3000), around(k.max_digest, 200)], any::<bool>())
            .prop_map(|(total, n, size, raw)| Probe::Meas { total: total as u8, n: n as u8, size: size as u16, raw }),
        1 => Just(Probe::Caps),
    ]
    .boxed()
}
/// Each limit once, at its value and right beyond it.
fn edges() -> Vec<Probe> {
    let k = cfg();
    let mut v = vec![Probe::Caps];
    for s in 0..=255u8 {
        v.extend([Probe::CertSlot(s), Probe::ChalSlot(s)]);
        v.extend((0..4).map(|which| Probe::Decode { slot: s, which }));
    }
    for d in -5..=5 {
        v.push(Probe::Serve(d));
        v.extend([0, 1, 40].map(|more| Probe::Receive { over: d, more }));
    }
    for n in 0..=40 {
        v.push(Probe::Append(n));
        v.extend((0..3).map(|digest| Probe::Parse { n, digest }));
    }
    for step in 0..6 {
        v.extend((0..12).map(|below| Probe::Transcript { step, below }));
    }
    for mask in 0..=255 {
        v.extend((0..3).map(|hash| Probe::Fill { hash, mask }));
    }
    v.extend((0..200).map(Probe::Digest));
    v.extend((0..200).map(Probe::Signature));
    for n in 0..=(k.elems as u8 + 2) {
        for data in (0..=2).chain(k.edata.saturating_sub(2)..=k.edata + 3) {
            v.extend([false, true].map(|challenge| Probe::Opaque { n, data: data as u16, challenge }));
        }
    }
    for n in k.blocks.saturating_sub(1)..=k.blocks + 1 {
        for size in (0..=2).chain(k.meas.saturating_sub(2)..=k.meas + 2).chain(k.max_digest.saturating_sub(1)..=k.max_digest + 1) {
            for total in [0, k.blocks, k.blocks + 1, n] {
                v.extend([false, true].map(|raw| Probe::Meas { total: total as u8, n: n as u8, size: size as u16, raw }));
            }
        }
    }
    v
}

// ---------------------------------------------------------- build script

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Val {
    Missing,
    /// a number, and the way it is written
    Int(i64, u8),
    /// something that is not a number
    Odd(u8),
}
impl Val {
    fn text(&self) -> Option<String> {
        Some(match self {
            Val::Missing => return None,
            Val::Int(n, how) if *n >= 0 => match how % 5 {
                1 => format!("0x{n:X}"),
                2 if *n >= 1000 => format!("{}_{:03}", n / 1000, n % 1000),
                3 => format!("+{n}"),
                4 => format!("0b{n:b}"),
                _ => n.to_string(),
            },
            Val::Int(n, _) => n.to_string(),
            Val::Odd(w) => ["\"5\"", "5.0", "true", "[5]", "", "nan", "9223372036854775808", "5 5"][*w as usize % 8].into(),
        })
    }
    fn ok(&self) -> Option<u64> {
        match self {
            Val::Int(n, _) if *n >= 0 => Some(*n as u64),
            _ => None,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum List {
    Missing,
    Names(Vec<String>),
    Odd(u8),
}
impl List {
    fn text(&self) -> Option<String> {
        Some(match self {
            List::Missing => return None,
            List::Names(v) => format!("[{}]", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ")),
            List::Odd(w) => ["\"CERT_CAP\"", "[1]", "{}", "[[]]", "[\"CERT_CAP\""][*w as usize % 5].into(),
        })
    }
}
/// A configuration file.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct File {
    /// slots, buffer, depth, transcript, digest, blocks, size, elements, data
    v: [Val; 9],
    caps: List,
    asym: List,
    /// settings the build script does not know
    extra: bool,
    /// a section left out
    without: Option<u8>,
    /// the order of the sections
    turn: u8,
    /// in the directory, rather than named by the environment
    default: bool,
    /// cut off here
    cut: Option<u16>,
}
const KEYS: [(usize, &str); 9] = [
    (0, "num_slots"),
    (0, "buf_size"),
    (0, "max_depth"),
    (1, "buf_size"),
    (2, "max_digest_size"),
    (3, "max_blocks"),
    (3, "max_size"),
    (4, "max_elements"),
    (4, "max_element_data_size"),
];
const SECTIONS: [&str; 5] = ["cert_chains", "transcript", "algorithms", "measurement", "opaque_data"];
impl File {
    fn text(&self) -> String {
        let mut t = String::new();
        if let Some(c) = self.caps.text() {
            t += &format!("capabilities = {c}\n");
        }
        if self.extra {
            t += "version = 0x11\nname = \"x\"\n";
        }
        for i in 0..5 {
            let s = (i + self.turn as usize) % 5;
            if self.without == Some(s as u8) {
                continue;
            }
            t += &format!("\n[{}]\n", SECTIONS[s]);
            if s == 2 {
                if let Some(a) = self.asym.text() {
                    t += &format!("asymmetric_signing = {a}\n");
                }
            }
            for (k, v) in KEYS.iter().zip(&self.v) {
                if k.0 == s {
                    if let Some(v) = v.text() {
                        t += &format!("{} = {v}\n", k.1);
                    }
                }
            }
            if self.extra {
                t += "other = 3 # not a setting\n";
            }
        }
        if let Some(c) = self.cut {
            let mut n = c as usize % (t.len() + 1);
            while !t.is_char_boundary(n) {
                n -= 1
            }
            t.truncate(n);
        }
        t
    }
    /// What the built library is configured as, if this file is acceptable.
    fn expect(&self, crypto: bool) -> Option<(Vec<u64>, Vec<String>, Vec<String>)> {
        if self.without.is_some() {
            return None;
        }
        let v: Option<Vec<u64>> = self.v.iter().map(Val::ok).collect();
        let v = v?;
        let (List::Names(caps), List::Names(asym)) = (&self.caps, &self.asym) else { return None };
        let known = ["CERT_CAP", "CHAL_CAP", "ENCRYPT_CAP", "MAC_CAP", "MUT_AUTH_CAP", "KEY_EX_CAP", "KEY_UPD_CAP"];
        let ok = (1..=8).contains(&v[0])
            && v[1] <= 65536
            && v[2] <= 24
            && caps.iter().all(|c| known.contains(&&c[..]))
            && asym.iter().all(|c| c == "ECDSA_ECC_NIST_P256")
            && (crypto || caps.is_empty());
        ok.then(|| (v, caps.clone(), asym.clone()))
    }
}
/// The generated constants by name: numbers, and lists of names.
fn generated(text: &str) -> Result<(BTreeMap<String, u64>, BTreeMap<String, Vec<String>>), String> {
    let (mut n, mut l) = (BTreeMap::new(), BTreeMap::new());
    let code: String = text.lines().filter(|l| !l.trim_start().starts_with("//")).collect::<Vec<_>>().join("\n");
    for item in code.split(';').map(str::trim).filter(|s| !s.is_empty()) {
        let bad = || format!("generated: {item}");
        let rest = item.strip_prefix("pub const ").ok_or_else(bad)?;
        let (name, rest) = rest.split_once(':').ok_or_else(bad)?;
        let (ty, value) = rest.split_once('=').ok_or_else(bad)?;
        let value = value.trim();
        if ty.trim() == "usize" {
            n.insert(name.trim().to_string(), value.replace('_', "").parse().map_err(|_| bad())?);
        } else {
            let v = value.trim_start_matches('&');
            l.insert(name.trim().to_string(), serde_json::from_str::<Vec<String>>(v).map_err(|_| bad())?);
        }
    }
    Ok((n, l))
}
struct Dir(std::path::PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Dir {
    use std::sync::atomic::*;
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::current_dir().expect("cwd").join(format!("b{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).expect("scratch");
    Dir(d)
}
fn script(c: &File, o: &mut Obs) -> Check {
    let exe = std::env::var("VSCRIPT").expect("VSCRIPT");
    let d = scratch();
    let w = |n: &str, b: &[u8]| std::fs::write(d.0.join(n), b).expect("scratch");
    w("config.rs.template", &std::fs::read("/repo/config.rs.template").expect("template"));
    let text = c.text();
    let name = if c.default { "spdm-config.toml" } else { "other.toml" };
    w(name, text.as_bytes());
    if !c.default {
        // not the one to be read
        w("spdm-config.toml", b"capabilities = []\n");
    }
    std::fs::create_dir(d.0.join("out")).expect("scratch");
    let mut cmd = std::process::Command::new(exe);
    cmd.current_dir(&d.0).env_clear().env("OUT_DIR", d.0.join("out"));
    if CRYPTO {
        cmd.env("CARGO_FEATURE_CRYPTO_RING", "1");
    }
    if !c.default {
        cmd.env("SPDM_CONFIG", d.0.join(name));
    }
    let out = cmd.output().map_err(|e| format!("the build script does not run: {e}"))?;
    let made = std::fs::read_to_string(d.0.join("out/config.rs")).ok();
    let shown = text.replace('\n', "; ");
    // a cut file may be acceptable when only the last digits are gone: not judged
    if c.cut.is_some() {
        if out.status.success() != made.is_some() {
            return Err(format!("{shown}: status {} and a file: {}", out.status, made.is_some()));
        }
        o.class("cut off");
        o.nontrivial();
        return Ok(());
    }
    let Some((v, caps, asym)) = c.expect(CRYPTO) else {
        if out.status.success() || made.is_some() {
            return Err(format!("accepted: {shown}"));
        }
        o.class("refused");
        o.nontrivial();
        return Ok(());
    };
    let (true, Some(made)) = (out.status.success(), made) else {
        return Err(format!("refused: {shown}: {}", String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()));
    };
    let (n, l) = generated(&made)?;
    let names = [
        "NUM_SLOTS",
        "MAX_CERT_CHAIN_SIZE",
        "MAX_CERT_CHAIN_DEPTH",
        "TRANSCRIPT_SIZE",
        "MAX_DIGEST_SIZE",
        "MAX_MEASUREMENT_BLOCKS",
        "MAX_MEASUREMENT_SIZE",
        "MAX_OPAQUE_ELEMENTS",
        "MAX_OPAQUE_ELEMENT_DATA_SIZE",
    ];
    for (k, x) in names.iter().zip(&v).chain([(&"MAX_SIGNATURE_SIZE", &64)]) {
        if n.get(*k) != Some(x) {
            return Err(format!("{k} becomes {:?} for {shown}", n.get(*k)));
        }
    }
    if l.get("CAPABILITIES") != Some(&caps) || l.get("ALGORITHMS_ASYMMETRIC_SIGNING") != Some(&asym) {
        return Err(format!("{l:?} for {shown}"));
    }
    let feature = String::from_utf8_lossy(&out.stdout).lines().any(|l| {
        l.trim_start_matches("cargo:").trim_start_matches(':').replace(' ', "") == "rustc-cfg=feature=\"crypto\""
    });
    if feature != CRYPTO {
        return Err(format!("the crypto feature is {}", if feature { "on without a provider" } else { "off" }));
    }
    o.class("accepted");
    o.nontrivial();
    Ok(())
}
fn number(lo: i64, hi: i64) -> BoxedStrategy<Val> {
    prop_oneof![
        60 => (lo..=hi, any::<u8>()).prop_map(|(n, h)| Val::Int(n, h)),
        10 => (prop::sample::select(vec![lo, hi]), any::<u8>()).prop_map(|(n, h)| Val::Int(n, h)),
        2 => (prop::sample::select(vec![lo - 1, hi + 1]), any::<u8>()).prop_map(|(n, h)| Val::Int(n, h)),
        1 => any::<i64>().prop_map(|n| Val::Int(n, 0)),
        1 => any::<u8>().prop_map(Val::Odd),
        1 => Just(Val::Missing),
    ]
    .boxed()
}
fn names(all: &'static [&'static str], crypto: bool) -> BoxedStrategy<List> {
    let odd = ["", "cert_cap", "CERT_CAP ", "PSK_CAP", "HBEAT_CAP", "MEAS_CAP", "ALIAS_CERT_CAP", "CACHE_CAP", "ECDSA_ECC_NIST_P384", "RSASSA_2048", "Ecdsa_ecc_nist_p256", "CERT", "\u{e9}"];
    let some = proptest::sample::subsequence(all.to_vec(), 0..=all.len()).prop_map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    let none = if crypto { 1 } else { 12 };
    prop_oneof![
        none => Just(List::Names(vec![])),
        20 => some.clone().prop_shuffle().prop_map(List::Names),
        3 => (some, prop::sample::select(odd.to_vec()), any::<prop::sample::Index>()).prop_map(|(mut v, x, i)| {
            let i = i.index(v.len() + 1);
            v.insert(i, x.into());
            List::Names(v)
        }),
        2 => vec(prop::sample::select(all.to_vec()).prop_map(String::from), 0..10).prop_map(List::Names),
        1 => any::<u8>().prop_map(List::Odd),
        1 => Just(List::Missing),
    ]
    .boxed()
}
fn files() -> BoxedStrategy<File> {
    const CAPS: [&str; 7] = ["CERT_CAP", "CHAL_CAP", "ENCRYPT_CAP", "MAC_CAP", "MUT_AUTH_CAP", "KEY_EX_CAP", "KEY_UPD_CAP"];
    const ASYM: [&str; 1] = ["ECDSA_ECC_NIST_P256"];
    let big = 1_000_000;
    (
        (
            number(1, 8),
            number(0, 65536),
            number(0, 24),
            number(0, big),
            number(0, big),
            number(0, big),
            number(0, big),
            number(0, big),
            number(0, big),
        ),
        names(&CAPS, CRYPTO),
        prop_oneof![6 => names(&ASYM, true), 6 => Just(List::Names(vec!["ECDSA_ECC_NIST_P256".into()]))],
        any::<bool>(),
        prop_oneof![25 => Just(None), 1 => (0u8..5).prop_map(Some)],
        any::<u8>(),
        any::<bool>(),
        prop_oneof![25 => Just(None), 1 => any::<u16>().prop_map(Some)],
    )
        .prop_map(|(v, caps, asym, extra, without, turn, default, cut)| {
            // TOML has no sign of zero, and nothing without an upper bound goes below none
            let fix = |v: Val| match v {
                Val::Int(n, h) => Val::Int(n, h),
                o => o,
            };
            let v = [fix(v.0), fix(v.1), fix(v.2), fix(v.3), fix(v.4), fix(v.5), fix(v.6), fix(v.7), fix(v.8)];
            File { v, caps, asym, extra, without, turn, default, cut }
        })
        .boxed()
}
/// Every value of one bounded setting around its bounds, the rest plain.
fn single(i: usize) -> File {
    let mut f = File {
        v: [5, 1024, 4, 4096, 64, 8, 1024, 2, 16].map(|n| Val::Int(n, 0)),
        caps: List::Names(if CRYPTO { vec!["CERT_CAP".into(), "CHAL_CAP".into()] } else { vec![] }),
        asym: List::Names(vec!["ECDSA_ECC_NIST_P256".into()]),
        extra: true,
        without: None,
        turn: 0,
        default: i % 2 == 0,
        cut: None,
    };
    let i = i as i64;
    match i {
        0..=39 => f.v[0] = Val::Int(i - 3, 0),
        40..=79 => f.v[2] = Val::Int(i - 43, 0),
        80..=119 => f.v[1] = Val::Int(65536 - 100 + i, 0),
        120..=128 => f.v[(i - 120) as usize] = Val::Missing,
        129..=137 => f.v[(i - 129) as usize] = Val::Int(-1, 0),
        138..=142 => f.without = Some((i - 138) as u8),
        143..=151 => f.v[(i - 143) as usize] = Val::Int(0, 0),
        152 => f.caps = List::Missing,
        153 => f.asym = List::Missing,
        154 => f.caps = List::Names(vec![]),
        155 => f.asym = List::Names(vec![]),
        _ => {
            let c = ["CERT_CAP", "CHAL_CAP", "ENCRYPT_CAP", "MAC_CAP", "MUT_AUTH_CAP", "KEY_EX_CAP", "KEY_UPD_CAP"];
            f.caps = List::Names((0..7).filter(|b| (i - 156) >> b & 1 == 1).map(|b| c[b].into()).collect());
        }
    }
    f
}

pub fn c25() -> Vec<Part> {
    let e = edges();
    let e2 = e.clone();
    let mut v = vec![
        sweep("constants", "the library's constants, against the configuration file", |_| 1, |_| 0u8, constants),
        sweep(
            "edges",
            "a limit was probed at a value around the configured one: accepted exactly within it",
            move |_| e2.len(),
            move |i| e[i].clone(),
            probe,
        ),
        prop(
            "limits",
            "a limit was probed, mostly around the configured value: accepted exactly within it",
            (8000, 200000),
            probes,
            probe,
        ),
    ];
    if std::env::var("VSCRIPT").is_ok() {
        v.push(sweep(
            "script-edges",
            "a configuration file that differs from a plain one in one setting: accepted, with these constants, exactly within the documented ranges",
            |_| 156 + 128,
            single,
            script,
        ));
        v.push(prop(
            "script",
            "a random configuration file: accepted, with these constants, exactly within the documented ranges, refused otherwise",
            (1500, 30000),
            files,
            script,
        ));
    }
    v
}
