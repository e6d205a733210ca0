//! C12 to C15: what the handshake negotiates.
use crate::cfg::{cfg, CRYPTO};
use crate::gen;
use crate::model::*;
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::codec::{self, Msg, *};
use vcommon::run::*;

fn small_specs() -> Vec<SlotSpec> {
    vec![SlotSpec::Pki(ChainSpec::plain(0, 1))]
}

// ------------------------------------------------------------------- C12

/// An offer, as the bytes of a NEGOTIATE_ALGORITHMS, and what follows.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Offer {
    spec: u8,
    asym: u32,
    hash: u32,
    algs: Vec<Alg>,
    muts: Vec<gen::Mut>,
}
fn offer_case(c: &Offer, o: &mut Obs) -> Check {
    let s = slots(&small_specs());
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    reach(&mut r, &mut m, Phase::Algorithms, REQ_FLAGS, 1, 0)?;
    let neg = Msg::NegotiateAlgorithms { spec: c.spec, asym: c.asym, hash: c.hash, algs: c.algs.clone() };
    let b = gen::apply_all(&codec::encode(&neg), &c.muts);
    let st = m.step(&mut r, &b, rsp_cap())?;
    o.nontrivial();
    if !st.accepted {
        o.class(format!("refused: {}", st.why));
        return Ok(());
    }
    let l = cfg().limits(32);
    // an oracle of its own beside the model: what was offered against what
    // came back
    let (neg, _) = codec::decode(&b, &l).map_err(|e| format!("accepted the malformed offer {}: {e:?}", short(&b)))?;
    let sel = decode_selection(&st.reply)?;
    valid_selection(&neg, &sel).map_err(|e| format!("offer {neg:?}: {e}"))?;
    let h = if let Msg::Algorithms { hash, .. } = &sel { *hash } else { 0 };
    o.class(format!("accepted with hash {h:#x}"));
    o.note(format!("{neg:?} -> {sel:?}"));
    // and it works: every later step uses the selection
    if cfg().cert() {
        for (i, q) in [req_digests(), req_cert(0), req_challenge(0, 1)].iter().enumerate() {
            if i == 2 && !cfg().chal() {
                break;
            }
            let st = m.step(&mut r, q, rsp_cap()).map_err(|e| format!("after {neg:?} and {sel:?}: {e}"))?;
            if st.why == FULL {
                o.class("no room for the rest");
                return Ok(());
            }
            if !st.accepted {
                return Err(format!("after {neg:?} and {sel:?}, request {} is refused: {}", short(q), st.why));
            }
        }
    }
    Ok(())
}
/// The structures that go with the i-th offer of the sweep.
fn some_algs(i: usize) -> Vec<Alg> {
    match i % 5 {
        0 => OFFERED.to_vec(),
        1 => vec![],
        2 => vec![(4, 1 << (i / 5 % 9) as u16)],
        3 => vec![(2, (i as u16 / 5 % 63) + 1), (3, (i as u16 / 7 % 7) + 1)],
        _ => vec![(5, 1), (2, 0x3f)],
    }
}

pub fn c12() -> Vec<Part> {
    vec![
        sweep(
            "offers",
            "every combination of hash and signature algorithms is offered, with varying structures: refused without a common one, else one offered and supported algorithm each, recorded as sent, and the session goes on with it",
            |_| 64 * 512,
            |i| Offer { spec: (i % 3 != 0) as u8, asym: (i / 64) as u32, hash: (i % 64) as u32, algs: some_algs(i), muts: vec![] },
            offer_case,
        ),
        sweep(
            "structures",
            "every value of every algorithm structure is offered, alone",
            |_| 4 * 65536,
            |i| Offer { spec: 1, asym: P256, hash: 7, algs: vec![(2 + (i >> 16) as u8, i as u16)], muts: vec![] },
            offer_case,
        ),
        sweep(
            "bytes",
            "every byte of the offer takes every value, with and without structures",
            |_| (32 + 48) * 256,
            |i| {
                let at = (i / 256) as u16;
                let (algs, at) = if at < 32 { (vec![], at) } else { (OFFERED.to_vec(), at - 32) };
                Offer { spec: 1, asym: P256, hash: 7, algs, muts: vec![gen::Mut::Set { at, to: i as u8 }] }
            },
            offer_case,
        ),
        prop(
            "random",
            "an offer of up to four structures, in any order, repeated or malformed",
            (12000, 300000),
            || {
                (
                    prop_oneof![4 => Just(1u8), 1 => Just(0u8)],
                    prop_oneof![3 => gen::bits(ASYM_MASK).prop_map(|x| x | P256), 1 => gen::bits(ASYM_MASK)],
                    prop_oneof![3 => gen::bits(HASH_MASK).prop_map(|x| x | 1), 2 => gen::bits(HASH_MASK)],
                    gen::alg_list(false),
                    prop_oneof![4 => Just(vec![]), 1 => gen::mutations(4)],
                )
                    .prop_map(|(spec, asym, hash, algs, muts)| Offer { spec, asym, hash, algs, muts })
            },
            offer_case,
        ),
    ]
}

// ------------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sel {
    spec: u8,
    mhash: u32,
    asym: u32,
    hash: u32,
    algs: Vec<Alg>,
    muts: Vec<gen::Mut>,
    flags: u32,
}
impl Sel {
    fn plain() -> Sel {
        Sel { spec: 1, mhash: 1, asym: P256, hash: 1, algs: vec![], muts: vec![], flags: CERT_CAP | CHAL_CAP }
    }
}
fn sel_case(c: &Sel, o: &mut Obs) -> Check {
    let m = Msg::Algorithms { spec: c.spec, mhash: c.mhash, asym: c.asym, hash: c.hash, algs: c.algs.clone() };
    let b = gen::apply_all(&codec::encode(&m), &c.muts);
    let h = match codec::decode(&b, &cfg().limits(32)) {
        Ok((Msg::Algorithms { hash, .. }, _)) if hash & cfg().hashes() == hash => hash,
        _ => 1,
    };
    let s = slots(&[SlotSpec::Pki(ChainSpec { hash: h, ..ChainSpec::plain(0, 1) })]);
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    peer.flags = c.flags;
    let trust = trust_of(s[0].as_ref().unwrap());
    with_ref(&mut q, &mut qm, &mut peer, &trust, QPhase::Algorithms)?;
    let req = qm.send(&mut q, 512)?.ok_or("no request")?;
    o.nontrivial();
    if !qm.deliver(&mut q, &b, &trust)? {
        o.class("refused");
        return Ok(());
    }
    o.class("accepted");
    // beside the model: nothing that was not offered
    let (got, _) = codec::decode(&b, &cfg().limits(32)).map_err(|e| format!("accepted the malformed response {}: {e:?}", short(&b)))?;
    if let (Msg::NegotiateAlgorithms { asym, hash, algs, .. }, Msg::Algorithms { asym: a, hash: h, mhash: mh, algs: al, .. }) = (offer(), got.clone()) {
        let one = |x: u32, of: u32| x.count_ones() == 1 && x & of == x;
        if !one(a, asym) || !one(h, hash) || !one(mh, hash) || !al.iter().all(|(t, b)| algs.iter().any(|(u, c)| u == t && one(*b as u32, *c as u32))) {
            return Err(format!("accepted {got:?}, which was not offered"));
        }
    }
    // and the session goes on with it
    peer.t.extend(&req);
    peer.t.extend(&b);
    peer.algs = Some(got);
    if !with_ref_room(&mut q, &mut qm, &mut peer, &trust, QPhase::Done).map_err(|e| format!("after {}: {e}", short(&b)))? {
        o.class("no room for the rest");
        return Ok(());
    }
    o.note(format!("{m:?}"));
    Ok(())
}
/// Words worth trying in a field: none, each bit, each pair, all.
fn words() -> &'static Vec<u32> {
    static W: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let mut v = vec![0, u32::MAX, ASYM_MASK, HASH_MASK];
        for i in 0..32 {
            for j in i..32 {
                v.push(1 << i | 1 << j)
            }
        }
        v
    })
}
/// Every list of up to four structure types.
fn type_lists() -> &'static Vec<Vec<u8>> {
    static L: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut all = vec![vec![]];
        let mut last: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..4 {
            let mut next = vec![];
            for l in &last {
                for t in 2..=5u8 {
                    let mut l = l.clone();
                    l.push(t);
                    next.push(l)
                }
            }
            all.extend(next.iter().cloned());
            last = next;
        }
        all
    })
}
fn list_case(i: usize) -> Sel {
    let l = &type_lists()[i / 24];
    let v = i % 24;
    let algs = l
        .iter()
        .enumerate()
        .map(|(k, t)| {
            let of = OFFERED.iter().find(|x| x.0 == *t).unwrap().1;
            let good = nth_bit(of as u32, (v + k) as u32) as u16;
            let bad = nth_bit((alg_mask(*t).unwrap() & !of) as u32, v as u32) as u16;
            // from the eighth variation on, one of them is not offered, or is
            // none, or several
            (*t, match v {
                0..=3 => good,
                4..=11 if k == v % 4 => bad,
                12..=15 if k == v % 4 => 0,
                16..=19 if k == v % 4 => of,
                20..=23 if k == v % 4 => good | bad,
                _ => good,
            })
        })
        .collect();
    Sel { algs, ..Sel::plain() }
}

pub fn c13() -> Vec<Part> {
    vec![
        sweep(
            "fields",
            "each of the three selection words takes no bit, every bit, every pair of bits and all bits; the specification byte every value",
            |_| words().len() * 3 + 256,
            |i| {
                let n = words().len();
                let mut c = Sel::plain();
                match i / n {
                    0 => c.mhash = words()[i % n],
                    1 => c.asym = words()[i % n],
                    2 => c.hash = words()[i % n],
                    _ => c.spec = (i - 3 * n) as u8,
                }
                c
            },
            sel_case,
        ),
        sweep(
            "words",
            "every pair of a hash and a measurement hash word of up to eight bits",
            |t| if t == Tier::Quick { 64 * 64 } else { 256 * 256 },
            |i| {
                // the quick tier's are the first of the thorough ones
                let (a, b) = if i < 4096 { (i / 64, i % 64) } else { (i / 256, i % 256) };
                Sel { hash: a as u32, mhash: b as u32, ..Sel::plain() }
            },
            sel_case,
        ),
        sweep(
            "structures",
            "every value of a structure of every known type, and every other type",
            |_| 4 * 65536 + 256 * 8,
            |i| {
                let algs = if i < 4 << 16 {
                    vec![(2 + (i >> 16) as u8, i as u16)]
                } else {
                    let j = i - (4 << 16);
                    vec![((j / 8) as u8, 1 << (j % 8))]
                };
                Sel { algs, ..Sel::plain() }
            },
            sel_case,
        ),
        sweep(
            "lists",
            "every list of up to four structure types, with offered values and with one that is not",
            |_| type_lists().len() * 24,
            list_case,
            sel_case,
        ),
        sweep(
            "bytes",
            "every byte of the response takes every value, with and without structures",
            |_| (36 + 52) * 256,
            |i| {
                let at = (i / 256) as u16;
                let (algs, at) = if at < 36 { (vec![], at) } else { (vec![(2, 0x10), (3, 2), (4, 0x10), (5, 1)], at - 36) };
                Sel { algs, muts: vec![gen::Mut::Set { at, to: i as u8 }], ..Sel::plain() }
            },
            sel_case,
        ),
        prop(
            "random",
            "a response with random selections, most of them offered, sometimes malformed, and the rest of the session if accepted",
            (10000, 200000),
            || {
                let alg = prop::sample::select(ALG_TYPES.to_vec()).prop_flat_map(|(t, m)| {
                    let of = OFFERED.iter().find(|x| x.0 == t).unwrap().1;
                    (Just(t), prop_oneof![6 => gen::one_bit(of as u32), 1 => gen::one_bit(m as u32), 1 => gen::bits(m as u32)].prop_map(|x| x as u16))
                });
                (
                    prop_oneof![8 => Just(1u8), 1 => any::<u8>()],
                    prop_oneof![6 => gen::one_bit(cfg().hashes()), 1 => gen::one_bit(HASH_MASK), 1 => any::<u32>()],
                    prop_oneof![6 => Just(P256), 1 => gen::one_bit(ASYM_MASK), 1 => any::<u32>()],
                    prop_oneof![6 => gen::one_bit(cfg().hashes()), 1 => gen::one_bit(HASH_MASK), 1 => any::<u32>()],
                    vec(alg, 0..=4),
                    prop_oneof![5 => Just(vec![]), 1 => gen::mutations(3)],
                    prop_oneof![2 => Just(RSP_FLAGS), 1 => gen::bits(RSP_FLAGS)],
                )
                    .prop_map(|(spec, mhash, asym, hash, algs, muts, flags)| Sel { spec, mhash, asym, hash, algs, muts, flags })
            },
            sel_case,
        ),
    ]
}

// ------------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vers {
    words: Vec<u16>,
    /// the count written, if not that of the words
    count: Option<u8>,
    muts: Vec<gen::Mut>,
}
fn vers_case(c: &Vers, o: &mut Obs) -> Check {
    let s = slots(&small_specs());
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    let trust = trust_of(s[0].as_ref().unwrap());
    let req = qm.send(&mut q, 512)?.ok_or("no request")?;
    let mut b = vec![0x10, VERSION, 0, 0, 0, c.count.unwrap_or(c.words.len() as u8)];
    for w in &c.words {
        b.extend(w.to_le_bytes());
    }
    let b = gen::apply_all(&b, &c.muts);
    o.nontrivial();
    let accepted = qm.deliver(&mut q, &b, &trust)?;
    // beside the model
    if c.muts.is_empty() && c.count.is_none() {
        let best = if c.words.len() > 2 { None } else { c.words.iter().copied().filter(|w| *w == 0x1000 || *w == 0x1100).max() };
        if accepted != best.is_some() {
            return Err(format!("versions {:04x?}: accepted {accepted}", c.words));
        }
        if let spdm::requester::AllStates::Capabilities(st) = q.state() {
            let v = (st.version.major as u16) << 12 | (st.version.minor as u16) << 8 | (st.version.update as u16) << 4 | st.version.alpha as u16;
            if Some(v) != best {
                return Err(format!("versions {:04x?}: continues with {v:04x}", c.words));
            }
        }
    }
    if !accepted {
        o.class("refused");
        return Ok(());
    }
    o.class(format!("continues with {}.{}", qm.version.0, qm.version.1));
    peer.t.extend(&req);
    peer.t.extend(&b);
    if !with_ref_room(&mut q, &mut qm, &mut peer, &trust, QPhase::Done).map_err(|e| format!("after {}: {e}", short(&b)))? {
        o.class("no room for the rest");
    }
    Ok(())
}
const WORDS: [u16; 22] = [
    0x1000, 0x1100, 0x1200, 0x1300, 0x1101, 0x1110, 0x1001, 0x1010, 0x1f00, 0x2000, 0x2100, 0x0100, 0x0110, 0x0011, 0x0010, 0x0000,
    0xffff, 0x1111, 0xf100, 0x1ff0, 0x0f00, 0x9100,
];

pub fn c14() -> Vec<Part> {
    vec![
        sweep("single", "every version entry there is, alone", |_| 65536, |i| Vers { words: vec![i as u16], count: None, muts: vec![] }, vers_case),
        sweep(
            "beside",
            "every version entry there is, before or after each of the two supported ones",
            |t| if t == Tier::Quick { 65536 } else { 4 * 65536 },
            |i| {
                // quick: the order and the partner vary with the entry
                let e = i as u16;
                let v = if i < 65536 { (i / 7) % 4 } else { (i >> 16) ^ (i / 7 % 4) };
                let k = if v & 1 == 0 { 0x1000 } else { 0x1100 };
                Vers { words: if v & 2 == 0 { vec![e, k] } else { vec![k, e] }, count: None, muts: vec![] }
            },
            vers_case,
        ),
        sweep(
            "pairs",
            "every pair and triple of 22 telling entries",
            |_| 22 * 22 * 23,
            |i| {
                let mut words = vec![WORDS[i % 22], WORDS[i / 22 % 22]];
                if i / 484 > 0 {
                    words.push(WORDS[i / 484 - 1])
                }
                Vers { words, count: None, muts: vec![] }
            },
            vers_case,
        ),
        sweep(
            "counts",
            "every entry count with every number of entries up to 20, and lists of up to 255 entries",
            |_| 256 * 22,
            |i| {
                let n = i / 256;
                let count = (i % 256) as u8;
                let n = if n == 21 { count as usize } else { n };
                Vers { words: (0..n).map(|k| WORDS[(k + i) % 3]).collect(), count: Some(count), muts: vec![] }
            },
            vers_case,
        ),
        prop(
            "random",
            "a list of random entries, most of them telling ones, sometimes malformed or followed by further bytes",
            (20000, 300000),
            || {
                let w = prop_oneof![4 => prop::sample::select(WORDS.to_vec()), 1 => any::<u16>()];
                (
                    prop_oneof![5 => vec(w.clone(), 0..=2), 1 => vec(w, 0..=255)],
                    prop_oneof![6 => Just(None), 1 => any::<u8>().prop_map(Some), 1 => (0u8..4).prop_map(Some)],
                    prop_oneof![4 => Just(vec![]), 1 => gen::mutations(3)],
                )
                    .prop_map(|(words, count, muts)| Vers { words, count, muts })
            },
            vers_case,
        ),
    ]
}

// ------------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Caps {
    ct: u8,
    flags: u32,
    muts: Vec<gen::Mut>,
    /// how the rest of the session varies
    v: u32,
}
/// The responder's side: what it makes of a GET_CAPABILITIES.
fn caps_rsp(c: &Caps, o: &mut Obs) -> Check {
    let s = slots(&small_specs());
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    reach(&mut r, &mut m, Phase::Capabilities, 0, 1, 0)?;
    let b = gen::apply_all(&codec::encode(&Msg::GetCapabilities { ct: c.ct, flags: c.flags }), &c.muts);
    o.nontrivial();
    let st = m.step(&mut r, &b, rsp_cap())?;
    if c.muts.is_empty() && st.accepted != (c.flags & !REQ_FLAGS == 0) {
        return Err(format!("flags {:#x}: accepted {}", c.flags, st.accepted));
    }
    if !st.accepted {
        o.class(format!("refused: {}", st.why));
        return Ok(());
    }
    o.class("accepted");
    // its own: exactly the configured ones
    if st.reply != codec::encode(&Msg::Capabilities { ct: 12, flags: cfg().caps() }) {
        return Err(format!("advertises {}", short(&st.reply)));
    }
    // kept through all that follows: every step compares them
    let mut rest = vec![req_algs(nth_bit(cfg().hashes(), c.v))];
    if cfg().cert() {
        rest.extend(vec![req_digests(); (c.v >> 4 & 3) as usize]);
        rest.push(req_cert(0));
    }
    if cfg().chal() && cfg().cert() {
        rest.extend(vec![req_challenge(0, c.v as u8); 1 + (c.v >> 6 & 1) as usize]);
    }
    for q in rest {
        let st = m.step(&mut r, &q, rsp_cap())?;
        if st.why == FULL {
            o.class("no room for the rest");
            return Ok(());
        }
        if !st.accepted {
            return Err(format!("request {} is refused: {}", short(&q), st.why));
        }
    }
    // and renewed by the next session
    let again = codec::encode(&Msg::GetCapabilities { ct: !c.ct, flags: !c.flags & REQ_FLAGS });
    for q in [req_version(), again, req_algs(1)] {
        if !m.step(&mut r, &q, rsp_cap())?.accepted {
            return Err(format!("in a second session {} is refused", short(&q)));
        }
    }
    Ok(())
}
/// The requester's side: what it makes of a CAPABILITIES.
fn caps_req(c: &Caps, o: &mut Obs) -> Check {
    let s = slots(&[SlotSpec::Pki(ChainSpec { hash: nth_bit(cfg().hashes(), c.v), ..ChainSpec::plain(0, 1) })]);
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    peer.pick = c.v;
    let trust = trust_of(s[0].as_ref().unwrap());
    with_ref(&mut q, &mut qm, &mut peer, &trust, QPhase::Capabilities)?;
    let req = qm.send(&mut q, 512)?.ok_or("no request")?;
    if req != codec::encode(&Msg::GetCapabilities { ct: 12, flags: cfg().caps() }) {
        return Err(format!("advertises {}", short(&req)));
    }
    let b = gen::apply_all(&codec::encode(&Msg::Capabilities { ct: c.ct, flags: c.flags }), &c.muts);
    o.nontrivial();
    let accepted = qm.deliver(&mut q, &b, &trust)?;
    if c.muts.is_empty() && accepted != (c.flags & !RSP_FLAGS == 0) {
        return Err(format!("flags {:#x}: accepted {accepted}", c.flags));
    }
    if !accepted {
        o.class("refused");
        return Ok(());
    }
    peer.t.extend(&req);
    peer.t.extend(&b);
    let flags = qm.rsp.1;
    if !with_ref_room(&mut q, &mut qm, &mut peer, &trust, QPhase::Done).map_err(|e| format!("after {}: {e}", short(&b)))? {
        o.class("no room for the rest");
        return Ok(());
    }
    o.class(format!("accepted, session ends with {:?}", complete_after(flags)));
    Ok(())
}
/// No flag, every flag, every pair of flags, all flags.
fn flag_case(i: usize) -> Caps {
    Caps { ct: i as u8, flags: words()[i], muts: vec![], v: (i as u32).wrapping_mul(0x9E37_79B9) >> 5 }
}
fn byte_case(i: usize) -> Caps {
    Caps {
        ct: 3,
        flags: CERT_CAP | CHAL_CAP | MUT_AUTH_CAP,
        muts: vec![gen::Mut::Set { at: (i / 256) as u16, to: i as u8 }],
        v: i as u32,
    }
}
fn caps_strat(mask: u32) -> BoxedStrategy<Caps> {
    (
        any::<u8>(),
        prop_oneof![5 => gen::bits(mask), 1 => any::<u32>()],
        prop_oneof![5 => Just(vec![]), 1 => gen::mutations(3)],
        any::<u32>(),
    )
        .prop_map(|(ct, flags, muts, v)| Caps { ct, flags, muts, v })
        .boxed()
}

pub fn c15() -> Vec<Part> {
    let _ = CRYPTO;
    vec![
        sweep("responder_flags", "no flag, every flag, every pair of flags and all flags, to a responder, and the session after", |_| words().len(), flag_case, caps_rsp),
        sweep("requester_flags", "no flag, every flag, every pair of flags and all flags, to a requester, and the session after", |_| words().len(), flag_case, caps_req),
        sweep("responder_bytes", "every byte of the request takes every value", |_| 12 * 256, byte_case, caps_rsp),
        sweep("requester_bytes", "every byte of the response takes every value", |_| 12 * 256, byte_case, caps_req),
        prop("responder_random", "a random flag word and exponent, or a malformed request, and the session after", (6000, 100000), || caps_strat(REQ_FLAGS), caps_rsp),
        prop("requester_random", "a random flag word and exponent, or a malformed response, and the session after", (6000, 100000), || caps_strat(RSP_FLAGS), caps_req),
    ]
}
