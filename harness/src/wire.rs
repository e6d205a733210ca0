//! C05 (decoders are total), C06 (round trip), C07 (layout).
use crate::cfg::cfg;
use crate::gen::{self, Mut};
use crate::glue::{self, Lib};
use crate::model::short;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use spdm::msgs::encoding::{Reader, Writer};
use spdm::msgs::algorithms as la;
use spdm::msgs::algorithms::{AeadAlgorithm, AeadFixedAlgorithms, AlgorithmRequest, BaseAsymAlgo, BaseHashAlgo, DheAlgorithm, DheFixedAlgorithms, KeyScheduleAlgorithm, KeyScheduleFixedAlgorithms, MeasurementSpec, ReqBaseAsymAlgorithm, ReqBaseAsymFixedAlgorithms, MAX_ALGORITHM_REQUESTS};
use spdm::msgs::capabilities::{Capabilities, GetCapabilities, ReqFlags, RspFlags};
use spdm::msgs::{CertificateChain, OpaqueData};
use vcommon::codec::{self, Msg, Reject, *};
use vcommon::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wire {
    kind: Kind,
    l: Limits,
    /// the body
    bytes: Vec<u8>,
}

fn big_buf() -> usize {
    // larger than any message
    70000usize.max(cfg().blocks * (cfg().meas.max(cfg().max_digest) + 8) + 2000)
}

/// The message as this build represents it on the wire, for a value the
/// library can hold. Err: it cannot.
fn lib_bytes(m: &Msg) -> Result<(Lib, Vec<u8>, usize), String> {
    let v = glue::build(m).ok_or("no value")?;
    let mut buf = vec![0x77; big_buf()];
    let n = glue::write(&v, &mut buf)?;
    if n > buf.len() {
        return Err(format!("{n} bytes written to {}", buf.len()));
    }
    buf.truncate(n);
    Ok((v, buf, n))
}

fn wire_strategy() -> BoxedStrategy<Wire> {
    (gen::any_kind(), gen::limits())
        .prop_flat_map(|(k, l)| {
            prop_oneof![
                6 => (gen::msg(k, l), gen::mutations(4)).prop_map(move |(m, x)| Wire { kind: k, l, bytes: gen::apply_all(&codec::encode_body(&m), &x) }),
                1 => gen::msg(k, l).prop_map(move |m| Wire { kind: k, l, bytes: codec::encode_body(&m) }),
                1 => gen::bytes(300).prop_map(move |bytes| Wire { kind: k, l, bytes }),
                2 => over(k, l).prop_map(move |m| Wire { kind: k, l, bytes: codec::encode_body(&m) }),
            ]
        })
        .boxed()
}

/// Well laid out messages beyond one of this build's limits: generated for
/// larger ones.
fn over(k: Kind, l: Limits) -> BoxedStrategy<Msg> {
    let mut b = l;
    b.slots = (l.slots + 1).min(8);
    b.cert_buf = (l.cert_buf + 1).min(65535);
    b.opaque_elems = l.opaque_elems + 1;
    b.opaque_data = l.opaque_data + 1;
    b.meas_blocks = l.meas_blocks + 1;
    b.meas_size = l.meas_size + 1;
    gen::msg(k, b)
}

// ------------------------------------------------------------------ C05

fn total(c: &Wire, o: &mut Obs) -> Check {
    let v = glue::parse(c.kind, &c.bytes, &c.l);
    let r = codec::decode_body(c.kind, &c.bytes, &c.l);
    if let Ok(v) = &v {
        // every count and length is within what was configured
        glue::value(v, &c.l).map_err(|e| format!("{:?} decoded from {} is not a possible value: {e}", c.kind, short(&c.bytes)))?;
        if let Ok((m, used)) = &r {
            // what follows the message does not matter
            let mut cut = c.bytes[..*used].to_vec();
            let a = glue::parse(c.kind, &cut, &c.l);
            if a.as_ref() != Ok(v) {
                return Err(format!("{:?} {}: decoded differently without the bytes after it: {a:?}", c.kind, short(&c.bytes)));
            }
            for (i, n) in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 32, 64, 200, 1100].into_iter().enumerate() {
                // zeros, ones, or more of the message
                cut.truncate(*used);
                match (i + c.bytes.len()) % 4 {
                    0 => cut.resize(used + n, 0),
                    1 => cut.resize(used + n, 0xff),
                    2 => cut.resize(used + n, 0xee),
                    _ => cut.extend(c.bytes[..*used].iter().chain(&[1]).cycle().take(n).copied().collect::<Vec<_>>()),
                }
                let a = glue::parse(c.kind, &cut, &c.l);
                if a.as_ref() != Ok(v) {
                    return Err(format!("{:?} {}: decoded differently with {n} bytes after it: {a:?}", c.kind, short(&cut)));
                }
            }
            // every proper prefix is refused
            for n in prefixes(*used) {
                if let Ok(p) = glue::parse(c.kind, &c.bytes[..n], &c.l) {
                    return Err(format!("{:?}: the first {n} of the {used} bytes {} decode to {p:?}", c.kind, short(&c.bytes)));
                }
            }
            o.note(format!("accepted as {}", short(&codec::encode(m))));
        }
        o.class(format!("{:?} accepted", c.kind));
        o.nontrivial();
    } else {
        o.class(format!("{:?} refused", c.kind));
        if c.bytes.len() > 1 {
            o.nontrivial();
        }
        o.note(format!("{:?}", v.err().unwrap()));
    }
    // the header decoder likewise
    let _ = glue::parse_header(c.kind, &c.bytes);
    Ok(())
}

fn prefixes(n: usize) -> Vec<usize> {
    if n <= 400 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..120).collect();
        v.extend(n - 120..n);
        v.extend((0..40).map(|i| 120 + i * (n - 240) / 40));
        v
    }
}

fn header_total(c: &(Kind, Vec<u8>), o: &mut Obs) -> Check {
    let (k, b) = c;
    match glue::parse_header(*k, b) {
        Ok(x) => {
            if b.len() < 2 {
                return Err(format!("{k:?}: a header in {} bytes", b.len()));
            }
            let mut t = b[..2].to_vec();
            t.extend([9; 3]);
            if glue::parse_header(*k, &t) != Ok(x) {
                return Err(format!("{k:?}: the header of {} depends on what follows it", short(b)));
            }
            o.class(if x { "is the kind" } else { "another kind" });
        }
        Err(()) => o.class("refused"),
    }
    o.nontrivial();
    Ok(())
}

fn chain_total(c: &(Vec<u8>, u8), o: &mut Obs) -> Check {
    let d = [32usize, 48, 64][c.1 as usize % 3];
    match lib!(CertificateChain::parse(&c.0, glue::dsize(d))) {
        Err(e) => {
            o.class(format!("refused: {e:?}").chars().take(40).collect::<String>());
        }
        Ok(p) => {
            if p.intermediate_certs().len() > cfg().depth {
                return Err(format!("{} intermediates, {} configured", p.intermediate_certs().len(), cfg().depth));
            }
            let whole = c.0.as_ptr() as usize..c.0.as_ptr() as usize + c.0.len();
            for s in p.intermediate_certs().iter().chain([&p.root_hash, &p.leaf_cert]) {
                let a = s.as_ptr() as usize;
                if !s.is_empty() && (a < whole.start || a + s.len() > whole.end) {
                    return Err("a certificate outside the data".into());
                }
            }
            for n in prefixes(c.0.len()) {
                if lib!(CertificateChain::parse(&c.0[..n], glue::dsize(d))).is_ok() {
                    return Err(format!("the first {n} bytes of a chain of {} parse", c.0.len()));
                }
            }
            o.class(format!("accepted, {} intermediates", p.intermediate_certs().len()));
        }
    }
    o.nontrivial();
    Ok(())
}

fn opaque_total(c: &(Vec<u8>, Limits), o: &mut Obs) -> Check {
    let mut r = Reader::new(&c.0);
    match lib!(OpaqueData::read(&mut r)) {
        Err(e) => {
            o.class("refused");
            o.note(format!("{e:?}"))
        }
        Ok(d) => {
            let e = glue::opaque_elems(&d, &c.1).map_err(|e| format!("decoded from {}: {e}", short(&c.0)))?;
            let n = r.byte_offset();
            if n > c.0.len() {
                return Err("read past the data".into());
            }
            for k in prefixes(n) {
                if lib!(OpaqueData::read(&mut Reader::new(&c.0[..k]))).is_ok() {
                    return Err(format!("the first {k} of {n} bytes are accepted: {}", short(&c.0)));
                }
            }
            o.class(format!("accepted, {} elements", e.len()));
        }
    }
    o.nontrivial();
    Ok(())
}

pub fn c05() -> Vec<Part> {
    vec![
        prop(
            "bodies",
            "the input was accepted (then all its prefixes and continuations were tried as well), or refused and longer than a byte",
            (40000, 600000),
            wire_strategy,
            total,
        ),
        prop(
            "headers",
            "any input: the result is the same whatever follows the header",
            (8000, 40000),
            || (gen::any_kind(), prop_oneof![gen::bytes(10), (gen::any_kind(), gen::byte()).prop_map(|(k, v)| vec![if v & 1 == 0 { k.version() } else { v }, k.code(), v])]),
            header_total,
        ),
        prop(
            "chains",
            "any input: an accepted chain stays within the data and the depth, and no prefix of it is accepted",
            (12000, 150000),
            || {
                (
                    prop_oneof![
                        3 => crate::c04::chain_bytes(),
                        2 => der_soup(),
                        1 => (vec(gen::byte(), 0..200)).prop_map(|mut b| { fix_len(&mut b); b })
                    ],
                    any::<u8>(),
                )
            },
            chain_total,
        ),
        prop(
            "opaque",
            "any input: an accepted block stays within the configured elements and sizes, and no prefix of it is accepted",
            (12000, 150000),
            || {
                gen::limits().prop_flat_map(|l| {
                    let mut b = l;
                    b.opaque_elems += 1;
                    b.opaque_data += 1;
                    (prop_oneof![gen::elems(&l), gen::elems(&b)], prop_oneof![1 => Just(vec![]), 3 => gen::mutations(4)], Just(l))
                        .prop_map(|(e, m, l)| (gen::apply_all(&codec::opaque_bytes(&e), &m), l))
                })
            },
            opaque_total,
        ),
    ]
}

pub fn fix_len(b: &mut Vec<u8>) {
    if b.len() >= 2 {
        let n = (b.len() as u16).to_le_bytes();
        b[..2].copy_from_slice(&n)
    }
}
/// Sequences of DER headers with little sense in the lengths.
pub fn der_soup() -> BoxedStrategy<Vec<u8>> {
    let cert = prop_oneof![
        4 => (0usize..300).prop_map(|n| vcommon::der::tlv(0x30, &vec![1; n])),
        1 => (prop_oneof![Just(127usize), Just(128), Just(255), Just(256), Just(0), Just(600)]).prop_map(|n| vcommon::der::tlv(0x30, &vec![2; n])),
        1 => (gen::byte(), gen::byte(), gen::byte(), gen::byte(), 0usize..20).prop_map(|(a, b, c, d, n)| { let mut v = vec![a, b, c, d]; v.extend(vec![3; n]); v }),
        1 => (0usize..140).prop_map(|n| { let mut v = vec![0x30, 0x81, n as u8]; v.extend(vec![4; n]); v }),
        1 => (0usize..280).prop_map(|n| { let mut v = vec![0x30, 0x82, (n >> 8) as u8, n as u8]; v.extend(vec![5; n]); v }),
        1 => (0usize..40).prop_map(|n| { let mut v = vec![0x30, 0x83, 0, 0, n as u8]; v.extend(vec![6; n]); v }),
        1 => (0usize..40, gen::byte()).prop_map(|(n, t)| vcommon::der::tlv(t, &vec![7; n])),
    ];
    let depth = cfg().depth + 3;
    (
        prop::sample::select(vec![32usize, 32, 32, 48, 64, 31]),
        vec(cert, 0..depth),
        prop_oneof![6 => Just(0i32), 1 => -3i32..4],
        prop_oneof![8 => Just(0u8), 1 => gen::byte()],
    )
        .prop_map(|(d, certs, off, res)| {
            let mut v = vec![0, 0, res, 0];
            v.extend(vec![0xab; d]);
            for c in certs {
                v.extend(c)
            }
            let n = (v.len() as i32 + off) as u16;
            v[..2].copy_from_slice(&n.to_le_bytes());
            v
        })
        .boxed()
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Value {
    l: Limits,
    m: Msg,
}
fn values() -> BoxedStrategy<Value> {
    (gen::any_kind(), gen::limits())
        .prop_flat_map(|(k, l)| gen::msg(k, l).prop_map(move |m| Value { l, m: codec::canonical(&m) }))
        .boxed()
}

fn round_trip(c: &Value, o: &mut Obs) -> Check {
    let k = c.m.kind();
    if glue::build(&c.m).is_none() {
        return Err(format!("no value for {:?}", c.m));
    }
    let (v, bytes, n) = lib_bytes(&c.m).map_err(|e| format!("a valid {k:?} cannot be encoded: {e}: {:?}", c.m))?;
    if n < 2 || glue::parse_header(k, &bytes) != Ok(true) {
        return Err(format!("the encoding {} is not taken for a {k:?}", short(&bytes)));
    }
    let back = glue::parse(k, &bytes[2..], &c.l).map_err(|e| format!("the encoding {} of {:?} is refused: {e}", short(&bytes), c.m))?;
    // where the nonce is the library's own choice the value came from bytes
    if back != v {
        return Err(format!("encoding and decoding {v:?} gives {back:?}"));
    }
    let m = glue::value(&back, &c.l)?;
    if m != c.m {
        return Err(format!("encoding and decoding {:?} gives {m:?}", c.m));
    }
    // decoding what is on the wire and encoding it again
    let wire = codec::encode(&c.m);
    if let Ok(x) = glue::parse(k, &wire[2..], &c.l) {
        let mut buf = vec![0x33; big_buf()];
        let n2 = glue::write(&x, &mut buf).map_err(|e| format!("a decoded {k:?} cannot be encoded: {e}"))?;
        if buf[..n2] != wire[..] {
            return Err(format!("decoding {} and encoding it gives {}", short(&wire), short(&buf[..n2])));
        }
    }
    // exactly n bytes belong to the message
    if n > 2 && glue::parse(k, &bytes[2..n - 1], &c.l).is_ok() {
        return Err(format!("{n} bytes reported for {}, but fewer are enough", short(&bytes)));
    }
    o.class(format!("{k:?}"));
    o.nontrivial();
    o.note(format!("{n} bytes"));
    Ok(())
}

/// Two messages of a kind with (slightly) different bytes: equal exactly if
/// they say the same.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    v: Value,
    muts: Vec<Mut>,
}
fn distinct(c: &Pair, o: &mut Obs) -> Check {
    let (k, l) = (c.v.m.kind(), &c.v.l);
    let (a, bytes, _) = lib_bytes(&c.v.m).map_err(|e| format!("a valid {k:?} cannot be encoded: {e}: {:?}", c.v.m))?;
    let other = gen::apply_all(&bytes[2..], &c.muts);
    let b = match glue::parse(k, &other, l) {
        Ok(b) => b,
        Err(_) => {
            o.class("not a message");
            return Ok(());
        }
    };
    let (ma, mb) = (glue::value(&a, l)?, glue::value(&b, l)?);
    if (ma == mb) != (a == b) || (a == b) != (b == a) {
        return Err(format!("{a:?} and {b:?} are {} equal, but they were read from {} and {}", if a == b { "" } else { "not" }, short(&bytes[2..]), short(&other)));
    }
    o.class(format!("{k:?}"));
    if ma != mb {
        o.class("different messages");
        o.nontrivial();
    }
    Ok(())
}

/// Values the responder and applications make themselves.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChainValue {
    root: u8,
    inter: Vec<u16>,
    leaf: u16,
}
fn chain_round_trip(c: &ChainValue, o: &mut Obs) -> Check {
    let root = vec![7u8; [32, 48, 64][c.root as usize % 3]];
    let mk = |n: u16, i: usize| vcommon::der::tlv(0x30, &vec![i as u8; n as usize]);
    let inter: Vec<Vec<u8>> = c.inter.iter().take(cfg().depth).enumerate().map(|(i, n)| mk(*n, i)).collect();
    let leaf = mk(c.leaf, 99);
    let mut ch = lib!(CertificateChain::new(&root, &leaf));
    for i in &inter {
        lib!(ch.append_intermediate_cert(i)).map_err(|_| "within the depth, but refused")?;
    }
    let total = 4 + root.len() + inter.iter().map(|x| x.len()).sum::<usize>() + leaf.len();
    let mut buf = vec![0x11; 70000];
    let mut w = Writer::new(&mut buf);
    match lib!(ch.write(&mut w)) {
        Ok(n) => {
            if n != total || total > 65535 {
                return Err(format!("{n} bytes written of a chain of {total}"));
            }
            let p = lib!(CertificateChain::parse(&buf[..n], glue::dsize(root.len()))).map_err(|e| format!("refused: {e:?}"))?;
            if p != ch || p.root_hash != root || p.leaf_cert != leaf || p.intermediate_certs() != &inter[..] {
                return Err("a chain reads back differently".into());
            }
            o.nontrivial();
        }
        Err(e) => {
            if total <= 65535 {
                return Err(format!("a chain of {total} bytes cannot be written: {e:?}"));
            }
            o.class("longer than the length field can say");
        }
    }
    Ok(())
}

pub fn c06() -> Vec<Part> {
    vec![
        prop(
            "messages",
            "every value, drawn from the whole range of each kind up to the configured limits, counts",
            (30000, 400000),
            values,
            round_trip,
        ),
        prop(
            "distinct",
            "both were messages, and they differed in what they say",
            (10000, 100000),
            || (values(), gen::mutations(2)).prop_map(|(v, muts)| Pair { v, muts }).boxed(),
            distinct,
        ),
        prop(
            "chains",
            "the chain was written and read back",
            (2000, 20000),
            || {
                let len = prop_oneof![3 => 0u16..300, 1 => 100u16..3000, 1 => Just(127u16), 1 => Just(128u16), 1 => Just(255u16), 1 => Just(256u16)];
                (any::<u8>(), vec(len.clone(), 0..=cfg().depth), len).prop_map(|(root, inter, leaf)| ChainValue { root, inter, leaf })
            },
            chain_round_trip,
        ),
    ]
}

// The names applications use, and where the specification puts them.

struct Set {
    what: &'static str,
    /// name, bits, and whether it can be given as text
    names: Vec<(&'static str, u64)>,
    /// a message whose field says the union of these names, and the same
    /// made by the reference
    made: fn(&[&str]) -> Option<(Lib, Msg)>,
    /// the name as text
    parse: fn(&str) -> Option<u64>,
}
macro_rules! flags {
    ($t:ty, $ns:expr, $($n:ident)*) => {{
        let mut f = <$t>::empty();
        for n in $ns {
            match *n {
                $(stringify!($n) => f |= <$t>::$n,)*
                _ => return None,
            }
        }
        f
    }};
}
const ASYM: [(&str, u64); 9] = [
    ("RSASSA_2048", 1),
    ("RSAPSS_2048", 2),
    ("RSASSA_3072", 4),
    ("RSAPSS_3072", 8),
    ("ECDSA_ECC_NIST_P256", 0x10),
    ("RSASSA_4096", 0x20),
    ("RSAPSS_4096", 0x40),
    ("ECDSA_ECC_NIST_P384", 0x80),
    ("ECDSA_ECC_NIST_P521", 0x100),
];
const HASH: [(&str, u64); 6] = [("SHA_256", 1), ("SHA_384", 2), ("SHA_512", 4), ("SHA3_256", 8), ("SHA3_384", 0x10), ("SHA3_512", 0x20)];

fn bits_of(ns: &[&str], t: &[(&str, u64)]) -> u64 {
    ns.iter().map(|n| t.iter().find(|x| x.0 == *n).unwrap().1).fold(0, |a, b| a | b)
}
fn algs(t: u8, a: AlgorithmRequest, bits: u64) -> Option<(Lib, Msg)> {
    let mut x = [AlgorithmRequest::default(); MAX_ALGORITHM_REQUESTS];
    x[0] = a;
    Some((
        Lib::NegotiateAlgorithms(la::NegotiateAlgorithms {
            measurement_spec: MeasurementSpec::DMTF,
            base_asym_algo: BaseAsymAlgo::ECDSA_ECC_NIST_P256,
            base_hash_algo: BaseHashAlgo::SHA_256,
            num_algorithm_requests: 1,
            algorithm_requests: x,
        }),
        Msg::NegotiateAlgorithms { spec: 1, asym: 0x10, hash: 1, algs: vec![(t, bits as u16)] },
    ))
}
const REQ: [(&str, u64); 12] = [
    ("CERT_CAP", 1 << 1),
    ("CHAL_CAP", 1 << 2),
    ("ENCRYPT_CAP", 1 << 6),
    ("MAC_CAP", 1 << 7),
    ("MUT_AUTH_CAP", 1 << 8),
    ("KEY_EX_CAP", 1 << 9),
    ("PSK_CAP", 1 << 10),
    ("ENCAP_CAP", 1 << 12),
    ("HBEAT_CAP", 1 << 13),
    ("KEY_UPD_CAP", 1 << 14),
    ("HANDSHAKE_IN_THE_CLEAR_CAP", 1 << 15),
    ("PUB_KEY_ID_CAP", 1 << 16),
];
const RSP: [(&str, u64); 16] = [
    ("CACHE_CAP", 1),
    ("CERT_CAP", 1 << 1),
    ("CHAL_CAP", 1 << 2),
    ("MEAS_CAP_NO_SIG", 1 << 3),
    ("MEAS_CAP_SIG", 1 << 4),
    ("MEAS_FRESH_CAP", 1 << 5),
    ("ENCRYPT_CAP", 1 << 6),
    ("MAC_CAP", 1 << 7),
    ("MUT_AUTH_CAP", 1 << 8),
    ("KEY_EX_CAP", 1 << 9),
    ("PSK_CAP", 1 << 10),
    ("ENCAP_CAP", 1 << 12),
    ("HBEAT_CAP", 1 << 13),
    ("KEY_UPD_CAP", 1 << 14),
    ("HANDSHAKE_IN_THE_CLEAR_CAP", 1 << 15),
    ("PUB_KEY_ID_CAP", 1 << 16),
];
const DHE: [(&str, u64); 6] = [("FFDHE_2048", 1), ("FFDHE_3072", 2), ("FFDHE_4096", 4), ("SECP_256_R1", 8), ("SECP_384_R1", 0x10), ("SECP_521_R1", 0x20)];
const AEAD: [(&str, u64); 3] = [("AES_128_GCM", 1), ("AES_256_GCM", 2), ("CHACHA20_POLY1305", 4)];
const SCHED: [(&str, u64); 1] = [("SPDM", 1)];

fn sets() -> Vec<Set> {
    vec![
        Set {
            what: "ReqFlags",
            names: REQ.to_vec(),
            made: |ns| {
                let flags = flags!(ReqFlags, ns, CERT_CAP CHAL_CAP ENCRYPT_CAP MAC_CAP MUT_AUTH_CAP KEY_EX_CAP PSK_CAP ENCAP_CAP HBEAT_CAP KEY_UPD_CAP HANDSHAKE_IN_THE_CLEAR_CAP PUB_KEY_ID_CAP);
                Some((Lib::GetCapabilities(GetCapabilities { ct_exponent: 0, flags }), Msg::GetCapabilities { ct: 0, flags: bits_of(ns, &REQ) as u32 }))
            },
            parse: |n| n.parse::<ReqFlags>().ok().map(|f| f.bits() as u64),
        },
        Set {
            what: "RspFlags",
            names: RSP.to_vec(),
            made: |ns| {
                let flags = flags!(RspFlags, ns, CACHE_CAP CERT_CAP CHAL_CAP MEAS_CAP_NO_SIG MEAS_CAP_SIG MEAS_FRESH_CAP ENCRYPT_CAP MAC_CAP MUT_AUTH_CAP KEY_EX_CAP PSK_CAP ENCAP_CAP HBEAT_CAP KEY_UPD_CAP HANDSHAKE_IN_THE_CLEAR_CAP PUB_KEY_ID_CAP);
                Some((Lib::Capabilities(Capabilities { ct_exponent: 0, flags }), Msg::Capabilities { ct: 0, flags: bits_of(ns, &RSP) as u32 }))
            },
            parse: |n| n.parse::<RspFlags>().ok().map(|f| f.bits() as u64),
        },
        Set {
            what: "BaseAsymAlgo",
            names: ASYM.to_vec(),
            made: |ns| {
                let a = flags!(BaseAsymAlgo, ns, RSASSA_2048 RSAPSS_2048 RSASSA_3072 RSAPSS_3072 ECDSA_ECC_NIST_P256 RSASSA_4096 RSAPSS_4096 ECDSA_ECC_NIST_P384 ECDSA_ECC_NIST_P521);
                let (l, m) = algs(2, AlgorithmRequest::Dhe(DheAlgorithm { supported: DheFixedAlgorithms::empty() }), 0)?;
                match (l, m) {
                    (Lib::NegotiateAlgorithms(mut l), Msg::NegotiateAlgorithms { spec, hash, algs, .. }) => {
                        l.base_asym_algo = a;
                        Some((Lib::NegotiateAlgorithms(l), Msg::NegotiateAlgorithms { spec, asym: bits_of(ns, &ASYM) as u32, hash, algs }))
                    }
                    _ => None,
                }
            },
            parse: |n| n.parse::<BaseAsymAlgo>().ok().map(|f| f.bits() as u64),
        },
        Set {
            what: "BaseHashAlgo",
            names: HASH.to_vec(),
            made: |ns| {
                let a = flags!(BaseHashAlgo, ns, SHA_256 SHA_384 SHA_512 SHA3_256 SHA3_384 SHA3_512);
                let (l, m) = algs(2, AlgorithmRequest::Dhe(DheAlgorithm { supported: DheFixedAlgorithms::empty() }), 0)?;
                match (l, m) {
                    (Lib::NegotiateAlgorithms(mut l), Msg::NegotiateAlgorithms { spec, asym, algs, .. }) => {
                        l.base_hash_algo = a;
                        Some((Lib::NegotiateAlgorithms(l), Msg::NegotiateAlgorithms { spec, asym, hash: bits_of(ns, &HASH) as u32, algs }))
                    }
                    _ => None,
                }
            },
            parse: |n| n.parse::<BaseHashAlgo>().ok().map(|f| f.bits() as u64),
        },
        Set {
            what: "DheFixedAlgorithms",
            names: DHE.to_vec(),
            made: |ns| {
                let supported = flags!(DheFixedAlgorithms, ns, FFDHE_2048 FFDHE_3072 FFDHE_4096 SECP_256_R1 SECP_384_R1 SECP_521_R1);
                algs(2, AlgorithmRequest::Dhe(DheAlgorithm { supported }), bits_of(ns, &DHE))
            },
            parse: |_| None,
        },
        Set {
            what: "AeadFixedAlgorithms",
            names: AEAD.to_vec(),
            made: |ns| {
                let supported = flags!(AeadFixedAlgorithms, ns, AES_128_GCM AES_256_GCM CHACHA20_POLY1305);
                algs(3, AlgorithmRequest::Aead(AeadAlgorithm { supported }), bits_of(ns, &AEAD))
            },
            parse: |_| None,
        },
        Set {
            what: "ReqBaseAsymFixedAlgorithms",
            names: ASYM.to_vec(),
            made: |ns| {
                let supported = flags!(ReqBaseAsymFixedAlgorithms, ns, RSASSA_2048 RSAPSS_2048 RSASSA_3072 RSAPSS_3072 ECDSA_ECC_NIST_P256 RSASSA_4096 RSAPSS_4096 ECDSA_ECC_NIST_P384 ECDSA_ECC_NIST_P521);
                algs(4, AlgorithmRequest::ReqBaseAsym(ReqBaseAsymAlgorithm { supported }), bits_of(ns, &ASYM))
            },
            parse: |_| None,
        },
        Set {
            what: "KeyScheduleFixedAlgorithms",
            names: SCHED.to_vec(),
            made: |ns| {
                let supported = flags!(KeyScheduleFixedAlgorithms, ns, SPDM);
                algs(5, AlgorithmRequest::KeySchedule(KeyScheduleAlgorithm { supported }), bits_of(ns, &SCHED))
            },
            parse: |_| None,
        },
    ]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Named {
    set: u8,
    names: u32,
}
fn named(c: &Named, o: &mut Obs) -> Check {
    let sets = sets();
    let s = &sets[c.set as usize % sets.len()];
    let ns: Vec<&str> = s.names.iter().enumerate().filter(|(i, _)| c.names >> i & 1 == 1).map(|x| x.1 .0).collect();
    let (l, m) = lib!((s.made)(&ns)).ok_or("no such name")?;
    let mut buf = vec![0x77; 200];
    let n = glue::write(&l, &mut buf)?;
    let want = codec::encode(&m);
    if buf[..n] != want[..] {
        return Err(format!("{} {ns:?} is {} on the wire, not {}", s.what, short(&buf[..n]), short(&want)));
    }
    let back = glue::parse(m.kind(), &want[2..], &cfg().limits(32)).map_err(|e| format!("{} {ns:?}: {} is refused: {e}", s.what, short(&want)))?;
    if back != l {
        return Err(format!("{} {ns:?}: {} is read as {back:?}", s.what, short(&want)));
    }
    // as text, where it has one
    for n in &ns {
        let bits = bits_of(&[n], &s.names);
        match lib!((s.parse)(n)) {
            Some(b) if b != bits => return Err(format!("{} \"{n}\" stands for {b:#x}, not {bits:#x}", s.what)),
            _ => (),
        }
    }
    if let [n] = ns[..] {
        let size = match (s.what, n) {
            ("BaseAsymAlgo", "RSASSA_2048" | "RSAPSS_2048") => 256,
            ("BaseAsymAlgo", "RSASSA_3072" | "RSAPSS_3072") => 384,
            ("BaseAsymAlgo", "RSASSA_4096" | "RSAPSS_4096") => 512,
            ("BaseAsymAlgo", "ECDSA_ECC_NIST_P256") => 64,
            ("BaseAsymAlgo", "ECDSA_ECC_NIST_P384") => 96,
            ("BaseAsymAlgo", "ECDSA_ECC_NIST_P521") => 132,
            ("BaseHashAlgo", "SHA_256" | "SHA3_256") => 32,
            ("BaseHashAlgo", "SHA_384" | "SHA3_384") => 48,
            ("BaseHashAlgo", "SHA_512" | "SHA3_512") => 64,
            _ => 0,
        };
        let max = if s.what == "BaseAsymAlgo" { spdm::config::MAX_SIGNATURE_SIZE } else { cfg().max_digest };
        let size = if size > max { 0 } else { size };
        let have = match (&l, size) {
            (_, 0) => 0,
            (Lib::NegotiateAlgorithms(a), _) if s.what == "BaseAsymAlgo" => usize::from(lib!(a.base_asym_algo.get_signature_size())),
            (Lib::NegotiateAlgorithms(a), _) => usize::from(lib!(a.base_hash_algo.get_digest_size())),
            _ => 0,
        };
        if have != size {
            return Err(format!("{} {n} is {have} bytes, not {size}", s.what));
        }
        o.class("a single name");
    }
    o.class(s.what);
    o.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C07

fn layout(c: &Value, o: &mut Obs) -> Check {
    let want = codec::encode(&c.m);
    let (_, got, _) = lib_bytes(&c.m).map_err(|e| format!("{:?} cannot be encoded: {e}", c.m))?;
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!(
            "{:?} is encoded as {} instead of {} (first difference at byte {at})",
            c.m,
            short(&got),
            short(&want)
        ));
    }
    o.class(format!("{:?}", c.m.kind()));
    o.nontrivial();
    Ok(())
}

/// The library's decoder against the reference's.
fn compare(k: Kind, b: &[u8], l: &Limits, o: &mut Obs) -> Check {
    let v = glue::parse(k, b, l);
    let r = codec::decode_body(k, b, l);
    match (v, r) {
        (Ok(v), Ok((m, _))) => {
            let mut have = glue::value(&v, l)?;
            let want = codec::canonical(&m);
            // without a signature the slot means nothing
            if let Msg::Measurements { slot, sig: None, .. } = &mut have {
                *slot = 0
            }
            if have != want {
                return Err(format!("{k:?} {} is decoded as {have:?} instead of {want:?}", short(b)));
            }
            o.class(format!("{k:?} accepted"));
            o.nontrivial();
        }
        (Err(_), Err(e)) => {
            o.class(format!("{k:?} refused"));
            if let Reject::Invalid(_) = e {
                o.nontrivial();
            }
            o.note(format!("{e:?}"));
        }
        (Ok(v), Err(e)) => return Err(format!("{k:?} {} is accepted ({v:?}) although {e:?}", short(b))),
        (Err(e), Ok((m, _))) => {
            return Err(format!("{k:?} {} is refused ({e}) although it is {m:?}", short(b)));
        }
    }
    Ok(())
}
fn differential(c: &Wire, o: &mut Obs) -> Check {
    compare(c.kind, &c.bytes, &c.l, o)
}

/// One sample of each kind, every byte set to every value.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Poke {
    kind: Kind,
    which: u8,
    at: u16,
    to: u8,
}
fn sample_msg(k: Kind, which: u8) -> (Msg, Limits) {
    let l = cfg().limits(32);
    let m = match which {
        0 => sample(&gen::msg(k, l), 1),
        n => {
            // the richest of a few
            let mut best = sample(&gen::msg(k, l), 2);
            for s in 0..6 {
                let x = sample(&gen::msg(k, l), 100 * n as u64 + s);
                let (a, b) = (codec::encode(&x).len(), codec::encode(&best).len());
                if a > b && a < 700 || b > 700 && a < b {
                    best = x
                }
            }
            best
        }
    };
    (m, l)
}
fn poke(c: &Poke, o: &mut Obs) -> Check {
    let (m, l) = fixtures()[&(c.kind, c.which)].clone();
    let mut b = codec::encode_body(&m);
    let i = c.at as usize;
    if i < b.len() {
        b[i] = c.to;
    }
    compare(c.kind, &b, &l, o)
}
fn fixtures() -> &'static std::collections::BTreeMap<(Kind, u8), (Msg, Limits)> {
    static F: std::sync::OnceLock<std::collections::BTreeMap<(Kind, u8), (Msg, Limits)>> = std::sync::OnceLock::new();
    F.get_or_init(|| KINDS.iter().flat_map(|k| (0..3u8).map(move |w| ((*k, w), sample_msg(*k, w)))).collect())
}

fn header(c: &(Kind, u8, u8), o: &mut Obs) -> Check {
    let (k, v, code) = *c;
    let got = glue::parse_header(k, &[v, code]);
    let want = if code != k.code() {
        Some(false)
    } else if v == k.version() {
        Some(true)
    } else {
        None
    };
    let ok = match want {
        Some(w) => got == Ok(w),
        // a wrong version: an error, or not this message
        None => got != Ok(true),
    };
    if !ok {
        return Err(format!("{k:?}: header {v:#x} {code:#x} gives {got:?}"));
    }
    o.nontrivial();
    Ok(())
}

pub fn c07() -> Vec<Part> {
    let span = |k: Kind, w: u8| {
        let n = codec::encode_body(&fixtures()[&(k, w)].0).len();
        n.min(160)
    };
    let index: Vec<(Kind, u8, usize)> = KINDS.iter().flat_map(|k| (0..3u8).map(move |w| (*k, w, span(*k, w)))).collect();
    let total: usize = index.iter().map(|x| x.2 * 256).sum();
    vec![
        prop(
            "encode",
            "every valid value counts: its encoding is compared with the reference layout byte for byte",
            (30000, 400000),
            values,
            layout,
        ),
        prop(
            "decode",
            "the input was accepted by both decoders with equal values, or refused by both for its content (not for its length)",
            (60000, 800000),
            wire_strategy,
            differential,
        ),
        sweep(
            "names",
            "every named flag alone and every pair of names, in a message, as text, and its size: counts always",
            |_| 8 * 16 * 16,
            |i| Named { set: (i / 256) as u8, names: {
                let n = sets()[i / 256].names.len();
                1u32 << ((i / 16) % 16 % n) | 1 << (i % 16 % n)
            } },
            |c, o| {
                o.key((c.set as u64) << 32 | c.names as u64);
                named(c, o)
            },
        ),
        prop(
            "named",
            "random unions of names: every case counts",
            (2000, 20000),
            || (0u8..8, any::<u32>()).prop_map(|(set, names)| Named { set, names }).boxed(),
            named,
        ),
        sweep(
            "every-byte",
            "three messages of each kind, each of the first 160 body bytes set to each value: accepted by both or refused by both for its content",
            move |_| total,
            move |i| {
                let mut i = i;
                for (k, w, n) in &index {
                    if i < n * 256 {
                        return Poke { kind: *k, which: *w, at: (i / 256) as u16, to: (i % 256) as u8 };
                    }
                    i -= n * 256;
                }
                unreachable!()
            },
            poke,
        ),
        sweep(
            "every-header",
            "every pair of the two header bytes, offered to the decoder of each kind",
            |_| 15 * 65536,
            |i| (KINDS[i / 65536], (i >> 8) as u8, i as u8),
            |c, o| {
                // distinct by construction
                o.key((KINDS.iter().position(|k| *k == c.0).unwrap() as u64) << 16 | (c.1 as u64) << 8 | c.2 as u64);
                header(c, o)
            },
        ),
    ]
}

#[allow(dead_code)]
fn unused(_: Mut) {}
