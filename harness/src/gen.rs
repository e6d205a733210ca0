//! Generators shared by the properties.
use crate::cfg::cfg;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::codec::{self, *};

/// A change to a byte string. Positions are taken modulo its length.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mut {
    Flip { at: u16, bit: u8 },
    Set { at: u16, to: u8 },
    Add { at: u16, by: u8 },
    Put16 { at: u16, to: u16 },
    Trunc(u16),
    Extend(Vec<u8>),
    Insert { at: u16, b: Vec<u8> },
    Delete { at: u16, n: u8 },
    Copy { from: u16, to: u16, n: u8 },
    /// a long tail
    Pad { n: u16, to: u8 },
}
pub fn apply(v: &mut Vec<u8>, m: &Mut) {
    // the highest positions count from the end
    let ix = |at: u16| match at {
        0xff00..=0xffff => v.len().saturating_sub(1 + (0xffff - at) as usize),
        _ => at as usize % v.len().max(1),
    };
    match m {
        Mut::Trunc(n) => {
            let n = *n as usize % (v.len() + 1);
            v.truncate(v.len() - n)
        }
        Mut::Extend(b) => v.extend(b),
        Mut::Pad { n, to } => v.resize(v.len() + *n as usize, *to),
        Mut::Insert { at, b } => {
            let i = if *at >= 0xff00 { v.len() - ((0xffff - *at) as usize).min(v.len()) } else { *at as usize % (v.len() + 1) };
            v.splice(i..i, b.iter().copied());
        }
        _ if v.is_empty() => {}
        Mut::Flip { at, bit } => {
            let i = ix(*at);
            v[i] ^= 1 << (bit & 7)
        }
        Mut::Set { at, to } => {
            let i = ix(*at);
            v[i] = *to
        }
        Mut::Add { at, by } => {
            let i = ix(*at);
            v[i] = v[i].wrapping_add(*by)
        }
        Mut::Put16 { at, to } => {
            let i = ix(*at);
            v[i] = *to as u8;
            if i + 1 < v.len() {
                v[i + 1] = (*to >> 8) as u8
            }
        }
        Mut::Delete { at, n } => {
            let i = ix(*at);
            let e = (i + *n as usize).min(v.len());
            v.drain(i..e);
        }
        Mut::Copy { from, to, n } => {
            let (f, t) = (ix(*from), ix(*to));
            let n = (*n as usize).min(v.len() - f).min(v.len() - t);
            let s = v[f..f + n].to_vec();
            v[t..t + n].copy_from_slice(&s);
        }
    }
}
pub fn apply_all(v: &[u8], m: &[Mut]) -> Vec<u8> {
    let mut v = v.to_vec();
    for x in m {
        apply(&mut v, x)
    }
    v
}
/// Positions: mostly near the start, where the fields are.
fn at() -> BoxedStrategy<u16> {
    prop_oneof![4 => 0u16..12, 4 => 0u16..64, 3 => 0u16..400, 1 => any::<u16>(), 1 => 0xff00u16..=0xffff, 2 => 0xfff0u16..=0xffff].boxed()
}
pub fn byte() -> BoxedStrategy<u8> {
    prop_oneof![
        3 => any::<u8>(),
        3 => prop::sample::select(vec![0u8, 1, 2, 3, 4, 5, 7, 8, 9, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xfe, 0xff])
    ]
    .boxed()
}
pub fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        4 => (at(), 0u8..8).prop_map(|(at, bit)| Mut::Flip { at, bit }),
        5 => (at(), byte()).prop_map(|(at, to)| Mut::Set { at, to }),
        2 => (at(), prop::sample::select(vec![1u8, 2, 255, 254])).prop_map(|(at, by)| Mut::Add { at, by }),
        2 => (at(), prop_oneof![any::<u16>(), prop::sample::select(vec![0u16, 1, 0xff, 0x100, 0x3ff, 0x400, 0x401, 0x7fff, 0x8000, 0xffff])])
            .prop_map(|(at, to)| Mut::Put16 { at, to }),
        2 => prop_oneof![3 => 1u16..8, 1 => any::<u16>()].prop_map(Mut::Trunc),
        1 => vec(byte(), 1..20).prop_map(Mut::Extend),
        1 => (prop_oneof![3 => 1u16..300, 2 => 1u16..3000, 1 => any::<u16>()], byte()).prop_map(|(n, to)| Mut::Pad { n, to }),
        1 => (at(), vec(byte(), 1..6)).prop_map(|(at, b)| Mut::Insert { at, b }),
        1 => (at(), 1u8..8).prop_map(|(at, n)| Mut::Delete { at, n }),
        1 => (at(), at(), 1u8..40).prop_map(|(from, to, n)| Mut::Copy { from, to, n }),
    ]
    .boxed()
}
pub fn mutations(n: usize) -> BoxedStrategy<Vec<Mut>> {
    prop_oneof![6 => vec(mutation(), 1..2), 3 => vec(mutation(), 1..=n.max(1))].boxed()
}

/// Bytes of a length drawn from the whole range, mostly short.
pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![4 => vec(byte(), 0..=max.min(12)), 3 => vec(byte(), 0..=max.min(80)), 1 => vec(any::<u8>(), 0..=max)].boxed()
}
/// Repetitive data, described shortly; for long data.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fill {
    pub len: u32,
    pub seed: u8,
}
impl Fill {
    pub fn get(&self) -> Vec<u8> {
        (0..self.len).map(|i| (i as u8).wrapping_mul(0x9d).wrapping_add((i >> 8) as u8).wrapping_add(self.seed)).collect()
    }
}
pub fn len_upto(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        2 => Just(max),
        2 => Just(max.saturating_sub(1)),
        2 => Just(0usize),
        1 => Just(1usize.min(max)),
        6 => 0..=max.min(40),
        4 => 0..=max,
    ]
    .boxed()
}
pub fn fixed(n: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![5 => vec(any::<u8>(), n), 1 => Just(vec![0; n]), 1 => Just(vec![0xff; n])].boxed()
}

/// Numbers on the wire: the whole range, with its edges.
pub fn u16s() -> BoxedStrategy<u16> {
    prop_oneof![4 => any::<u16>(), 1 => prop::sample::select(vec![0u16, 1, 0x7f, 0x80, 0xff, 0x100, 0x3ff, 0x400, 0x7fff, 0x8000, 0xfffe, 0xffff])].boxed()
}
pub fn u8s() -> BoxedStrategy<u8> {
    prop_oneof![4 => any::<u8>(), 1 => prop::sample::select(vec![0u8, 1, 0x7f, 0x80, 0xfe, 0xff])].boxed()
}
pub fn bits(mask: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        4 => any::<u32>().prop_map(move |x| x & mask),
        2 => (0u32..32).prop_map(move |i| (1 << i) & mask),
        1 => Just(mask),
        1 => Just(0),
    ]
    .boxed()
}
pub fn one_bit(mask: u32) -> BoxedStrategy<u32> {
    let v: Vec<u32> = (0..32).map(|i| 1u32 << i).filter(|b| b & mask != 0).collect();
    prop::sample::select(v).boxed()
}

pub fn elems(l: &Limits) -> BoxedStrategy<Vec<Elem>> {
    let d = l.opaque_data;
    let id = prop_oneof![4 => any::<u32>(), 1 => prop::sample::select(vec![0u32, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff])];
    let elem = (0u8..=8, id, len_upto(d), any::<u8>()).prop_map(|(registry, v, n, seed)| Elem {
        registry,
        vid: match codec::vid_len(registry) {
            0 => Vid::None,
            2 => Vid::U16(v as u16),
            _ => Vid::U32(v),
        },
        data: Fill { len: n as u32, seed }.get(),
    });
    let n = l.opaque_elems;
    prop_oneof![2 => Just(0usize), 2 => Just(n), 3 => 0..=n]
        .prop_flat_map(move |n| vec(elem.clone(), n))
        // what a message can carry
        .prop_map(|mut v| {
            while codec::opaque_bytes(&v).len() > 1024 {
                v.pop();
            }
            v
        })
        .boxed()
}

pub fn choices() -> BoxedStrategy<crate::model::Choices> {
    (
        any::<u8>(),
        prop_oneof![3 => Just(0xffu8), 1 => any::<u8>()],
        any::<bool>(),
        any::<u8>(),
        prop_oneof![3 => Just(0u16), 2 => u16s()],
        prop_oneof![2 => Just(vec![]), 1 => elems(&crate::cfg::cfg().limits(32))],
        prop_oneof![3 => Just(0u8), 1 => Just(0xff), 1 => any::<u8>()],
        prop_oneof![3 => Just(vec![]), 1 => mutations(2), 1 => (0u16..4, any::<u8>()).prop_map(|(at, bit)| vec![Mut::Flip { at, bit: bit & 7 }])],
    )
        .prop_map(|(ct, answer, mutual, meas, remainder, opaque, hide, twist)| crate::model::Choices {
            ct,
            answer,
            mutual,
            meas,
            remainder,
            opaque,
            hide,
            twist,
        })
        .boxed()
}
pub fn alg_list(single: bool) -> BoxedStrategy<Vec<Alg>> {
    let one = prop::sample::select(ALG_TYPES.to_vec())
        .prop_flat_map(move |(t, m)| {
            let b = if single { one_bit(m as u32) } else { bits(m as u32) };
            (Just(t), b.prop_map(|x| x as u16))
        });
    vec(one, 0..=4).boxed()
}

pub fn digest_sizes() -> Vec<usize> {
    [32usize, 48, 64].iter().copied().filter(|d| *d <= cfg().max_digest).collect()
}
pub fn limits() -> BoxedStrategy<Limits> {
    (prop::sample::select(digest_sizes()), any::<bool>())
        .prop_map(|(d, s)| {
            let mut l = cfg().limits(d);
            l.meas_sig = s;
            l
        })
        .boxed()
}

/// A message the library can represent, within the limits.
pub fn msg(k: Kind, l: Limits) -> BoxedStrategy<Msg> {
    let nl = if l.nonce { 32 } else { 0 };
    match k {
        GetVersion => Just(Msg::GetVersion).boxed(),
        GetDigests => Just(Msg::GetDigests).boxed(),
        Version => vec((0u8..16, 0u8..16, 0u8..16, 0u8..16), 0..=2).prop_map(Msg::Version).boxed(),
        GetCapabilities => {
            (u8s(), bits(REQ_FLAGS)).prop_map(|(ct, flags)| Msg::GetCapabilities { ct, flags }).boxed()
        }
        Capabilities => (u8s(), bits(RSP_FLAGS)).prop_map(|(ct, flags)| Msg::Capabilities { ct, flags }).boxed(),
        NegotiateAlgorithms => (0u8..2, bits(ASYM_MASK), bits(HASH_MASK), alg_list(false))
            .prop_map(|(spec, asym, hash, algs)| Msg::NegotiateAlgorithms { spec, asym, hash, algs })
            .boxed(),
        Algorithms => (one_bit(HASH_MASK), one_bit(ASYM_MASK), one_bit(HASH_MASK), alg_list(true))
            .prop_map(|(mhash, asym, hash, algs)| Msg::Algorithms { spec: 1, mhash, asym, hash, algs })
            .boxed(),
        Digests => (any::<u8>(), vec(fixed(l.digest), l.slots))
            .prop_map(move |(m, d)| {
                let mask = m & ((1u16 << l.slots) - 1) as u8;
                Msg::Digests { mask, digests: d.into_iter().take(mask.count_ones() as usize).collect() }
            })
            .boxed(),
        GetCertificate => (u8s(), u16s(), u16s())
            .prop_map(|(slot, offset, length)| Msg::GetCertificate { slot, offset, length })
            .boxed(),
        Certificate => (any::<u8>(), prop_oneof![Just(0u16), u16s()], len_upto(l.cert_buf.min(65535)), any::<u8>())
            .prop_map(|(slot, remainder, n, seed)| Msg::Certificate {
                slot,
                remainder,
                portion: Fill { len: n as u32, seed }.get(),
            })
            .boxed(),
        Challenge => (any::<u8>(), prop::sample::select(vec![0u8, 1, 0xff]), fixed(nl))
            .prop_map(|(slot, mht, nonce)| Msg::Challenge { slot, mht, nonce })
            .boxed(),
        ChallengeAuth => (
            0u8..l.slots as u8,
            any::<bool>(),
            any::<u8>(),
            fixed(l.digest),
            fixed(nl),
            fixed(l.digest),
            elems(&l),
            fixed(l.sig),
        )
            .prop_map(|(slot, mutual, mask, chain_hash, nonce, meas_hash, opaque, sig)| Msg::ChallengeAuth {
                slot,
                mutual,
                mask,
                chain_hash,
                nonce,
                meas_hash,
                opaque,
                sig,
            })
            .boxed(),
        GetMeasurements => (any::<bool>(), any::<bool>(), byte(), fixed(nl), 0u8..l.slots as u8)
            .prop_map(|(sig, raw, index, nonce, slot)| Msg::GetMeasurements {
                sig,
                raw,
                index,
                nonce: if sig { nonce } else { vec![] },
                slot: if sig { slot } else { 0 },
            })
            .boxed(),
        Measurements => {
            let block = (any::<u8>(), any::<bool>(), 0u8..8, len_upto(l.meas_size), len_upto(l.max_digest), any::<u8>())
                .prop_map(|(index, raw, vtype, n, m, seed)| Block {
                    index,
                    raw,
                    vtype,
                    value: Fill { len: if raw { n } else { m } as u32, seed }.get(),
                });
            (
                0u8..=l.meas_blocks.min(255) as u8,
                0u8..3,
                0u8..l.slots as u8,
                prop_oneof![1 => Just(0usize), 2 => Just(l.meas_blocks), 4 => 0..=l.meas_blocks]
                    .prop_flat_map(move |n| vec(block.clone(), n)),
                fixed(nl),
                elems(&l),
                fixed(l.sig),
            )
                .prop_map(move |(total, changed, slot, blocks, nonce, opaque, sig)| Msg::Measurements {
                    total,
                    changed,
                    slot: if l.meas_sig { slot } else { 0 },
                    blocks,
                    nonce,
                    opaque,
                    sig: if l.meas_sig { Some(sig) } else { None },
                })
                .boxed()
        }
        Error => prop_oneof![
            prop::sample::select(vec![1u8, 3, 4, 5, 6, 8, 9, 0xA, 0xB, 0xC, 0xE, 0x10, 0x41, 0x43])
                .prop_map(|code| Msg::Error { code, data: 0, ext: vec![] }),
            any::<u8>().prop_map(|data| Msg::Error { code: 7, data, ext: vec![] }),
            any::<u32>().prop_map(|x| Msg::Error { code: 0xD, data: 0, ext: x.to_le_bytes().to_vec() }),
            any::<u8>().prop_map(|x| Msg::Error { code: 0xF, data: 0, ext: vec![x] }),
            fixed(4).prop_map(|ext| Msg::Error { code: 0x42, data: 0, ext }),
            (0u8..=8).prop_map(|data| Msg::Error { code: 0xFF, data, ext: vec![0] }),
        ]
        .boxed(),
    }
}
pub fn any_kind() -> BoxedStrategy<Kind> {
    prop::sample::select(KINDS.to_vec()).boxed()
}

/// A chain for slot 0 that leads to the root and fits the limits, with room
/// for the rest of the session.
pub fn chain_spec(max_inter: usize, max: usize) -> BoxedStrategy<ChainSpec> {
    let d = max_inter.min(6);
    (
        prop_oneof![2 => Just(0u8), 2 => Just(1u8), 2 => Just(d as u8), 3 => 0..=d as u8],
        0u8..8,
        prop_oneof![5 => Just(None), 2 => Just(Some(max as u32)), 1 => Just(Some(max as u32 - 1)), 2 => (600..=max.max(601) as u32).prop_map(Some)],
        0u8..8,
    )
        .prop_map(move |(depth, leaf, size, pad_at)| {
            // a certificate of this kind takes up to 320 bytes
            let depth = (depth as usize).min(d).min((max.saturating_sub(40) / 330).saturating_sub(1)) as u8;
            ChainSpec { depth, leaf, root: 0, size: size.map(|s| s.min(max as u32)), pad_at, hash: 1 }
        })
        .boxed()
}

/// The longest chain with which a whole session still fits the transcript.
pub fn session_room(digests: usize, digest: usize) -> usize {
    let vca = vca_len();
    let rest = 4 + 4 + digests * digest + 8 + 8 + 36 + (4 + digest + 32 + digest + 2 + 4);
    cfg().transcript.saturating_sub(vca + rest).min(cfg().max_chain())
}
pub fn vca_len() -> usize {
    let n = codec::encode(&crate::model::offer()).len();
    4 + 10 + 12 + 12 + n + 36 + 16
}

pub fn junk_spec(max: usize) -> BoxedStrategy<SlotSpec> {
    (
        prop::sample::select(vec![32u16, 32, 48, 64, 0]),
        vec(prop_oneof![Just(0u16), 1u16..200], 0..=cfg().depth.min(5)),
        0u16..300,
        0u8..60,
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(move |(root, mut inter, mut leaf, key, fill, big)| {
            let total = |i: &Vec<u16>, l: u16| 4 + root as usize + i.iter().map(|x| *x as usize).sum::<usize>() + l as usize;
            while total(&inter, 0) > max && !inter.is_empty() {
                inter.pop();
            }
            let room = max.saturating_sub(total(&inter, 0)).min(65535) as u16;
            leaf = if big { room } else { leaf.min(room) };
            SlotSpec::Junk { root, inter, leaf, key, fill }
        })
        .boxed()
}
/// Slots few, some or all of which are filled.
fn mixed(max: usize, n: usize) -> BoxedStrategy<Vec<SlotSpec>> {
    let full = move || prop_oneof![4 => chain_spec(cfg().depth, max).prop_map(SlotSpec::Pki), 3 => junk_spec(cfg().max_chain())].boxed();
    // the filled ones short, so that all of them fit
    let lean = prop_oneof![
        2 => (0u8..8).prop_map(|l| SlotSpec::Pki(ChainSpec::plain(0, l))),
        3 => (0u8..60, any::<u8>(), 0u16..60).prop_map(|(key, fill, leaf)| SlotSpec::Junk { root: 32, inter: vec![], leaf, key, fill }),
    ];
    prop_oneof![
        4 => vec(prop_oneof![4 => Just(SlotSpec::Empty).boxed(), 5 => full()], n),
        2 => vec(prop_oneof![1 => Just(SlotSpec::Empty).boxed(), 9 => full()], n),
        1 => vec(full(), n),
        2 => vec(lean, n),
        1 => vec(prop_oneof![9 => Just(SlotSpec::Empty).boxed(), 1 => full()], n),
    ]
    .boxed()
}
/// Slot 0 holds a usable chain; the others anything.
pub fn population(max: usize) -> BoxedStrategy<Vec<SlotSpec>> {
    (chain_spec(cfg().depth, max), mixed(max, cfg().slots - 1))
        .prop_map(|(c, mut o)| {
            o.insert(0, SlotSpec::Pki(c));
            o
        })
        .boxed()
}
/// Any population, without regard to slot 0.
pub fn any_population(max: usize) -> BoxedStrategy<Vec<SlotSpec>> {
    mixed(max, cfg().slots)
}
/// Reply and request buffers: ample, or just enough is decided elsewhere.
pub fn cap() -> BoxedStrategy<u16> {
    prop_oneof![9 => Just(u16::MAX), 1 => 0u16..40, 2 => 0u16..300, 1 => 0u16..2000].boxed()
}
pub fn cap_of(c: u16) -> usize {
    if c == u16::MAX {
        rsp_cap()
    } else {
        c as usize
    }
}
