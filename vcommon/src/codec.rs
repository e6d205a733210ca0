//! An independent codec for the SPDM messages this library handles, written
//! from the layout tables of the specification (DSP0274) and sharing no code
//! with the crate under test. `encode` lays a value out; `decode` accepts
//! exactly the byte strings that follow the layout with supported values.

use serde::{Deserialize, Serialize};

pub const GET_VERSION: u8 = 0x84;
pub const VERSION: u8 = 0x04;
pub const GET_CAPABILITIES: u8 = 0xE1;
pub const CAPABILITIES: u8 = 0x61;
pub const NEGOTIATE_ALGORITHMS: u8 = 0xE3;
pub const ALGORITHMS: u8 = 0x63;
pub const GET_DIGESTS: u8 = 0x81;
pub const DIGESTS: u8 = 0x01;
pub const GET_CERTIFICATE: u8 = 0x82;
pub const CERTIFICATE: u8 = 0x02;
pub const CHALLENGE: u8 = 0x83;
pub const CHALLENGE_AUTH: u8 = 0x03;
pub const GET_MEASUREMENTS: u8 = 0xE0;
pub const MEASUREMENTS: u8 = 0x60;
pub const ERROR: u8 = 0x7F;

pub const REQ_FLAGS: u32 = 0x1FFC6;
pub const RSP_FLAGS: u32 = 0x1FFFF;
pub const REQ_DEFINED: [u32; 13] = [
    1 << 1, 1 << 2, 1 << 6, 1 << 7, 1 << 8, 1 << 9, 1 << 10, 1 << 11, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16,
];
pub const ASYM_MASK: u32 = 0x1FF;
pub const HASH_MASK: u32 = 0x3F;
pub const DHE_MASK: u16 = 0x3F;
pub const AEAD_MASK: u16 = 0x7;
pub const RBA_MASK: u16 = 0x1FF;
pub const KS_MASK: u16 = 0x1;
pub const CERT_CAP: u32 = 1 << 1;
pub const CHAL_CAP: u32 = 1 << 2;
pub const MUT_AUTH_CAP: u32 = 1 << 8;
pub const P256: u32 = 0x10;
pub const SHA256: u32 = 1;
pub const SHA384: u32 = 2;
pub const SHA512: u32 = 4;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Kind {
    GetVersion,
    Version,
    GetCapabilities,
    Capabilities,
    NegotiateAlgorithms,
    Algorithms,
    GetDigests,
    Digests,
    GetCertificate,
    Certificate,
    Challenge,
    ChallengeAuth,
    GetMeasurements,
    Measurements,
    Error,
}
pub use Kind::*;
pub const KINDS: [Kind; 15] = [
    GetVersion,
    Version,
    GetCapabilities,
    Capabilities,
    NegotiateAlgorithms,
    Algorithms,
    GetDigests,
    Digests,
    GetCertificate,
    Certificate,
    Challenge,
    ChallengeAuth,
    GetMeasurements,
    Measurements,
    Error,
];
impl Kind {
    pub fn code(self) -> u8 {
        match self {
            GetVersion => GET_VERSION,
            Version => VERSION,
            GetCapabilities => GET_CAPABILITIES,
            Capabilities => CAPABILITIES,
            NegotiateAlgorithms => NEGOTIATE_ALGORITHMS,
            Algorithms => ALGORITHMS,
            GetDigests => GET_DIGESTS,
            Digests => DIGESTS,
            GetCertificate => GET_CERTIFICATE,
            Certificate => CERTIFICATE,
            Challenge => CHALLENGE,
            ChallengeAuth => CHALLENGE_AUTH,
            GetMeasurements => GET_MEASUREMENTS,
            Measurements => MEASUREMENTS,
            Error => ERROR,
        }
    }
    pub fn version(self) -> u8 {
        match self {
            GetVersion | Version => 0x10,
            Error | GetMeasurements | Measurements => 0x12,
            _ => 0x11,
        }
    }
    pub fn header(self) -> [u8; 2] {
        [self.version(), self.code()]
    }
    pub fn from_code(c: u8) -> Option<Kind> {
        KINDS.iter().copied().find(|k| k.code() == c)
    }
}

/// The configured capacities a decoder enforces, and the negotiated sizes it
/// is given.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Limits {
    pub slots: usize,
    pub cert_buf: usize,
    pub depth: usize,
    pub max_digest: usize,
    pub opaque_elems: usize,
    pub opaque_data: usize,
    pub meas_blocks: usize,
    pub meas_size: usize,
    pub digest: usize,
    pub sig: usize,
    pub meas_sig: bool,
    /// false in a build without a random source: nonces have no bytes there
    pub nonce: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Vid {
    None,
    U16(u16),
    U32(u32),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Elem {
    pub registry: u8,
    pub vid: Vid,
    pub data: Vec<u8>,
}
pub fn vid_len(registry: u8) -> usize {
    match registry {
        0 => 0,
        4 | 5 => 4,
        _ => 2,
    }
}
/// (type, bits)
pub type Alg = (u8, u16);
pub const ALG_TYPES: [(u8, u16); 4] = [(2, DHE_MASK), (3, AEAD_MASK), (4, RBA_MASK), (5, KS_MASK)];
pub fn alg_mask(t: u8) -> Option<u16> {
    ALG_TYPES.iter().find(|(x, _)| *x == t).map(|(_, m)| *m)
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Block {
    pub index: u8,
    pub raw: bool,
    pub vtype: u8,
    pub value: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Msg {
    GetVersion,
    /// (major, minor, update, alpha)
    Version(Vec<(u8, u8, u8, u8)>),
    GetCapabilities { ct: u8, flags: u32 },
    Capabilities { ct: u8, flags: u32 },
    NegotiateAlgorithms { spec: u8, asym: u32, hash: u32, algs: Vec<Alg> },
    Algorithms { spec: u8, mhash: u32, asym: u32, hash: u32, algs: Vec<Alg> },
    GetDigests,
    /// the mask as on the wire, and the digests of the slots that exist here
    Digests { mask: u8, digests: Vec<Vec<u8>> },
    GetCertificate { slot: u8, offset: u16, length: u16 },
    Certificate { slot: u8, remainder: u16, portion: Vec<u8> },
    Challenge { slot: u8, mht: u8, nonce: Vec<u8> },
    ChallengeAuth {
        slot: u8,
        mutual: bool,
        mask: u8,
        chain_hash: Vec<u8>,
        nonce: Vec<u8>,
        meas_hash: Vec<u8>,
        opaque: Vec<Elem>,
        sig: Vec<u8>,
    },
    GetMeasurements { sig: bool, raw: bool, index: u8, nonce: Vec<u8>, slot: u8 },
    Measurements {
        total: u8,
        changed: u8,
        slot: u8,
        blocks: Vec<Block>,
        nonce: Vec<u8>,
        opaque: Vec<Elem>,
        sig: Option<Vec<u8>>,
    },
    /// code, data byte, extra bytes
    Error { code: u8, data: u8, ext: Vec<u8> },
}

impl Msg {
    pub fn kind(&self) -> Kind {
        match self {
            Msg::GetVersion => GetVersion,
            Msg::Version(_) => Version,
            Msg::GetCapabilities { .. } => GetCapabilities,
            Msg::Capabilities { .. } => Capabilities,
            Msg::NegotiateAlgorithms { .. } => NegotiateAlgorithms,
            Msg::Algorithms { .. } => Algorithms,
            Msg::GetDigests => GetDigests,
            Msg::Digests { .. } => Digests,
            Msg::GetCertificate { .. } => GetCertificate,
            Msg::Certificate { .. } => Certificate,
            Msg::Challenge { .. } => Challenge,
            Msg::ChallengeAuth { .. } => ChallengeAuth,
            Msg::GetMeasurements { .. } => GetMeasurements,
            Msg::Measurements { .. } => Measurements,
            Msg::Error { .. } => Error,
        }
    }
}

fn le16(v: &mut Vec<u8>, x: u16) {
    v.push((x & 0xff) as u8);
    v.push((x >> 8) as u8);
}
fn le32(v: &mut Vec<u8>, x: u32) {
    for i in 0..4 {
        v.push((x >> (8 * i)) as u8);
    }
}

pub fn opaque_bytes(elems: &[Elem]) -> Vec<u8> {
    let mut o = vec![elems.len() as u8, 0, 0, 0];
    for e in elems {
        let start = o.len();
        o.push(e.registry);
        match e.vid {
            Vid::None => o.push(0),
            Vid::U16(x) => {
                o.push(2);
                le16(&mut o, x)
            }
            Vid::U32(x) => {
                o.push(4);
                le32(&mut o, x)
            }
        }
        le16(&mut o, e.data.len() as u16);
        o.extend_from_slice(&e.data);
        while (o.len() - start) % 4 != 0 {
            o.push(0);
        }
    }
    o
}

pub fn encode_body(m: &Msg) -> Vec<u8> {
    let mut v = vec![];
    match m {
        Msg::GetVersion | Msg::GetDigests => v.extend([0, 0]),
        Msg::Version(es) => {
            v.extend([0, 0, 0, es.len() as u8]);
            for (major, minor, update, alpha) in es {
                let word: u16 = ((*major as u16) << 12) | ((*minor as u16) << 8) | ((*update as u16) << 4) | *alpha as u16;
                le16(&mut v, word);
            }
        }
        Msg::GetCapabilities { ct, flags } | Msg::Capabilities { ct, flags } => {
            v.extend([0, 0, 0, *ct, 0, 0]);
            le32(&mut v, *flags);
        }
        Msg::NegotiateAlgorithms { spec, asym, hash, algs } => {
            v.extend([algs.len() as u8, 0]);
            le16(&mut v, 32 + 4 * algs.len() as u16);
            v.extend([*spec, 0]);
            le32(&mut v, *asym);
            le32(&mut v, *hash);
            v.extend([0; 12]);
            v.extend([0, 0, 0, 0]);
            for (t, b) in algs {
                v.extend([*t, 0x20]);
                le16(&mut v, *b);
            }
        }
        Msg::Algorithms { spec, mhash, asym, hash, algs } => {
            v.extend([algs.len() as u8, 0]);
            le16(&mut v, 36 + 4 * algs.len() as u16);
            v.extend([*spec, 0]);
            le32(&mut v, *mhash);
            le32(&mut v, *asym);
            le32(&mut v, *hash);
            v.extend([0; 12]);
            v.extend([0, 0, 0, 0]);
            for (t, b) in algs {
                v.extend([*t, 0x20]);
                le16(&mut v, *b);
            }
        }
        Msg::Digests { mask, digests } => {
            v.extend([0, *mask]);
            for d in digests {
                v.extend(d);
            }
        }
        Msg::GetCertificate { slot, offset, length } => {
            v.extend([*slot, 0]);
            le16(&mut v, *offset);
            le16(&mut v, *length);
        }
        Msg::Certificate { slot, remainder, portion } => {
            v.extend([*slot, 0]);
            le16(&mut v, portion.len() as u16);
            le16(&mut v, *remainder);
            v.extend(portion);
        }
        Msg::Challenge { slot, mht, nonce } => {
            v.extend([*slot, *mht]);
            v.extend(nonce);
        }
        Msg::ChallengeAuth { slot, mutual, mask, chain_hash, nonce, meas_hash, opaque, sig } => {
            v.push(slot | if *mutual { 0x80 } else { 0 });
            v.push(*mask);
            v.extend(chain_hash);
            v.extend(nonce);
            v.extend(meas_hash);
            let o = opaque_bytes(opaque);
            le16(&mut v, o.len() as u16);
            v.extend(o);
            v.extend(sig);
        }
        Msg::GetMeasurements { sig, raw, index, nonce, slot } => {
            v.push(*sig as u8 | (*raw as u8) << 1);
            v.push(*index);
            if *sig {
                v.extend(nonce);
                v.push(*slot);
            }
        }
        Msg::Measurements { total, changed, slot, blocks, nonce, opaque, sig } => {
            v.push(*total);
            v.push((changed << 4) | if sig.is_some() { *slot } else { 0 });
            v.push(blocks.len() as u8);
            let mut b = vec![];
            for k in blocks {
                b.push(k.index);
                b.push(1);
                le16(&mut b, 3 + k.value.len() as u16);
                b.push(k.vtype | if k.raw { 0x80 } else { 0 });
                le16(&mut b, k.value.len() as u16);
                b.extend(&k.value);
            }
            let l = b.len();
            v.extend([l as u8, (l >> 8) as u8, (l >> 16) as u8]);
            v.extend(b);
            v.extend(nonce);
            let o = opaque_bytes(opaque);
            le16(&mut v, o.len() as u16);
            v.extend(o);
            if let Some(s) = sig {
                v.extend(s);
            }
        }
        Msg::Error { code, data, ext } => {
            v.extend([*code, *data]);
            v.extend(ext);
        }
    }
    v
}

pub fn encode(m: &Msg) -> Vec<u8> {
    let mut v = m.kind().header().to_vec();
    v.extend(encode_body(m));
    v
}

/// Why a byte string is not an acceptable message.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Reject {
    /// the bytes end before the layout does
    Truncated,
    /// a value at its position is not allowed, or over capacity
    Invalid(String),
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}
fn inv<T>(s: &str) -> Result<T, Reject> {
    Err(Reject::Invalid(s.to_string()))
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Reject> {
        if self.b.len() - self.p < n {
            return Err(Reject::Truncated);
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u8(&mut self) -> Result<u8, Reject> {
        Ok(self.take(1)?[0])
    }
    fn le(&mut self, n: usize) -> Result<u32, Reject> {
        Ok(self.take(n)?.iter().rev().fold(0u32, |a, b| (a << 8) | *b as u32))
    }
    fn zero(&mut self, n: usize) -> Result<(), Reject> {
        for _ in 0..n {
            if self.u8()? != 0 {
                return inv("reserved byte");
            }
        }
        Ok(())
    }
}

fn opaque(c: &mut Cur, l: &Limits) -> Result<Vec<Elem>, Reject> {
    let n = c.u8()? as usize;
    if n > l.opaque_elems {
        return inv("opaque elements");
    }
    c.zero(3)?;
    let mut v = vec![];
    for _ in 0..n {
        let start = c.p;
        let registry = c.u8()?;
        if registry > 8 {
            return inv("registry");
        }
        let vl = c.u8()? as usize;
        if vl != vid_len(registry) {
            return inv("vendor id length");
        }
        let vid = match vl {
            0 => Vid::None,
            2 => Vid::U16(c.le(2)? as u16),
            _ => Vid::U32(c.le(4)?),
        };
        let dl = c.le(2)? as usize;
        if dl > l.opaque_data {
            return inv("opaque element data size");
        }
        let data = c.take(dl)?.to_vec();
        while (c.p - start) % 4 != 0 {
            c.zero(1)?;
        }
        v.push(Elem { registry, vid, data });
    }
    Ok(v)
}

/// A whole opaque data block, with nothing after it.
pub fn parse_opaque(b: &[u8], l: &Limits) -> Result<Vec<Elem>, Reject> {
    let mut c = Cur { b, p: 0 };
    let v = opaque(&mut c, l)?;
    if c.p != b.len() {
        return inv("bytes after the last element");
    }
    Ok(v)
}

fn algs(c: &mut Cur, n: usize, single: bool) -> Result<Vec<Alg>, Reject> {
    let mut v = vec![];
    for _ in 0..n {
        let t = c.u8()?;
        let mask = match alg_mask(t) {
            Some(m) => m,
            None => return inv("algorithm type"),
        };
        let counts = c.u8()?;
        if counts >> 4 != 2 {
            return inv("fixed algorithm count");
        }
        let bits = c.le(2)? as u16;
        if bits & !mask != 0 {
            return inv("algorithm bits");
        }
        c.take(4 * (counts & 15) as usize)?;
        if single && bits.count_ones() != 1 {
            return inv("not exactly one algorithm");
        }
        v.push((t, bits));
    }
    Ok(v)
}

fn one(x: u32, mask: u32, what: &str) -> Result<(), Reject> {
    if x & !mask != 0 || x.count_ones() != 1 {
        inv(what)
    } else {
        Ok(())
    }
}

/// Decode a body. Returns the value and how many bytes it occupies.
pub fn decode_body(k: Kind, b: &[u8], l: &Limits) -> Result<(Msg, usize), Reject> {
    let mut c = Cur { b, p: 0 };
    let nl = if l.nonce { 32 } else { 0 };
    let m = match k {
        GetVersion => {
            c.zero(2)?;
            Msg::GetVersion
        }
        GetDigests => {
            c.zero(2)?;
            Msg::GetDigests
        }
        Version => {
            c.zero(3)?;
            let n = c.u8()?;
            if n > 2 {
                return inv("too many versions");
            }
            let mut v = vec![];
            for _ in 0..n {
                let w = c.le(2)?;
                v.push(((w >> 12) as u8, (w >> 8 & 15) as u8, (w >> 4 & 15) as u8, (w & 15) as u8));
            }
            Msg::Version(v)
        }
        GetCapabilities | Capabilities => {
            c.zero(3)?;
            let ct = c.u8()?;
            c.zero(2)?;
            let flags = c.le(4)?;
            if k == GetCapabilities {
                if flags & !REQ_FLAGS != 0 {
                    return inv("requester flags");
                }
                Msg::GetCapabilities { ct, flags }
            } else {
                if flags & !RSP_FLAGS != 0 {
                    return inv("responder flags");
                }
                Msg::Capabilities { ct, flags }
            }
        }
        NegotiateAlgorithms => {
            let n = c.u8()?;
            if n > 4 {
                return inv("too many algorithm structures");
            }
            c.zero(1)?;
            if c.le(2)? > 128 {
                return inv("length");
            }
            let spec = c.u8()?;
            if spec & !1 != 0 {
                return inv("measurement spec");
            }
            c.zero(1)?;
            let asym = c.le(4)?;
            if asym & !ASYM_MASK != 0 {
                return inv("asym");
            }
            let hash = c.le(4)?;
            if hash & !HASH_MASK != 0 {
                return inv("hash");
            }
            c.zero(12)?;
            let ea = c.u8()? as usize;
            let eh = c.u8()? as usize;
            c.zero(2)?;
            c.take(4 * ea)?;
            c.take(4 * eh)?;
            let algs = algs(&mut c, n as usize, false)?;
            Msg::NegotiateAlgorithms { spec, asym, hash, algs }
        }
        Algorithms => {
            let n = c.u8()?;
            if n > 4 {
                return inv("too many algorithm structures");
            }
            c.zero(1)?;
            c.le(2)?;
            let spec = c.u8()?;
            one(spec as u32, 1, "measurement spec")?;
            c.zero(1)?;
            let mhash = c.le(4)?;
            one(mhash, HASH_MASK, "measurement hash")?;
            let asym = c.le(4)?;
            one(asym, ASYM_MASK, "asym")?;
            let hash = c.le(4)?;
            one(hash, HASH_MASK, "hash")?;
            c.zero(12)?;
            c.zero(4)?;
            let algs = algs(&mut c, n as usize, true)?;
            Msg::Algorithms { spec, mhash, asym, hash, algs }
        }
        Digests => {
            c.zero(1)?;
            let mask = c.u8()?;
            let mut digests = vec![];
            for i in 0..l.slots {
                if mask >> i & 1 == 1 {
                    digests.push(c.take(l.digest)?.to_vec());
                }
            }
            Msg::Digests { mask, digests }
        }
        GetCertificate => {
            let slot = c.u8()?;
            c.zero(1)?;
            let offset = c.le(2)? as u16;
            let length = c.le(2)? as u16;
            Msg::GetCertificate { slot, offset, length }
        }
        Certificate => {
            let slot = c.u8()?;
            c.zero(1)?;
            let n = c.le(2)? as usize;
            if n > l.cert_buf {
                return inv("portion length");
            }
            let remainder = c.le(2)? as u16;
            let portion = c.take(n)?.to_vec();
            Msg::Certificate { slot, remainder, portion }
        }
        Challenge => {
            let slot = c.u8()?;
            let mht = c.u8()?;
            if ![0, 1, 0xFF].contains(&mht) {
                return inv("measurement hash type");
            }
            let nonce = c.take(nl)?.to_vec();
            Msg::Challenge { slot, mht, nonce }
        }
        ChallengeAuth => {
            let p1 = c.u8()?;
            let slot = p1 & 15;
            if slot as usize >= l.slots {
                return inv("slot");
            }
            let mask = c.u8()?;
            let chain_hash = c.take(l.digest)?.to_vec();
            let nonce = c.take(nl)?.to_vec();
            let meas_hash = c.take(l.digest)?.to_vec();
            if c.le(2)? > 1024 {
                return inv("opaque length");
            }
            let opaque = opaque(&mut c, l)?;
            let sig = c.take(l.sig)?.to_vec();
            Msg::ChallengeAuth { slot, mutual: p1 & 0x80 != 0, mask, chain_hash, nonce, meas_hash, opaque, sig }
        }
        GetMeasurements => {
            let a = c.u8()?;
            if a & !3 != 0 {
                return inv("attributes");
            }
            let index = c.u8()?;
            let (mut nonce, mut slot) = (vec![], 0);
            if a & 1 == 1 {
                nonce = c.take(nl)?.to_vec();
                slot = c.u8()?;
                if slot as usize >= l.slots {
                    return inv("slot");
                }
            }
            Msg::GetMeasurements { sig: a & 1 == 1, raw: a & 2 == 2, index, nonce, slot }
        }
        Measurements => {
            let total = c.u8()?;
            if total as usize > l.meas_blocks {
                return inv("total blocks");
            }
            let p2 = c.u8()?;
            let slot = p2 & 15;
            if slot as usize >= l.slots {
                return inv("slot");
            }
            let changed = p2 >> 4 & 3;
            if changed == 3 {
                return inv("content changed");
            }
            let n = c.u8()? as usize;
            if n > l.meas_blocks {
                return inv("blocks");
            }
            let len = c.le(3)? as usize;
            let start = c.p;
            let mut blocks = vec![];
            for _ in 0..n {
                let index = c.u8()?;
                if c.u8()? != 1 {
                    return inv("block spec");
                }
                let size = c.le(2)? as usize;
                let t = c.u8()?;
                let vtype = t & 0x7f;
                if vtype > 7 {
                    return inv("value type");
                }
                let raw = t & 0x80 != 0;
                let vl = c.le(2)? as usize;
                if vl > if raw { l.meas_size } else { l.max_digest } {
                    return inv("value size");
                }
                let value = c.take(vl)?.to_vec();
                if size != 3 + vl {
                    return inv("block size");
                }
                blocks.push(Block { index, raw, vtype, value });
            }
            if len != c.p - start {
                return inv("record length");
            }
            let nonce = c.take(nl)?.to_vec();
            if c.le(2)? > 1024 {
                return inv("opaque length");
            }
            let opaque = opaque(&mut c, l)?;
            let sig = if l.meas_sig { Some(c.take(l.sig)?.to_vec()) } else { None };
            Msg::Measurements { total, changed, slot, blocks, nonce, opaque, sig }
        }
        Error => {
            let code = c.u8()?;
            let data = c.u8()?;
            let ext = match code {
                1 | 3..=0xC | 0xE | 0x10 | 0x41 | 0x43 => vec![],
                0xD => c.take(4)?.to_vec(),
                0xF => c.take(1)?.to_vec(),
                0x42 => c.take(4)?.to_vec(),
                0xFF => {
                    if data > 8 {
                        return inv("registry");
                    }
                    let n = c.u8()?;
                    if ![0, 2, 4].contains(&n) {
                        return inv("vendor id length");
                    }
                    let mut e = vec![n];
                    e.extend(c.take(n as usize)?);
                    e
                }
                _ => return inv("error code"),
            };
            Msg::Error { code, data, ext }
        }
    };
    Ok((m, c.p))
}

/// Decode a whole message, header included.
pub fn decode(b: &[u8], l: &Limits) -> Result<(Msg, usize), Reject> {
    if b.len() < 2 {
        return Err(Reject::Truncated);
    }
    let k = match Kind::from_code(b[1]) {
        Some(k) => k,
        None => return inv("code"),
    };
    if b[0] != k.version() {
        return inv("version");
    }
    decode_body(k, &b[2..], l).map(|(m, n)| (m, n + 2))
}

/// The value as a decoder keeps it: what cannot be recovered from the wire in
/// a canonical message is normalised.
pub fn canonical(m: &Msg) -> Msg {
    let mut m = m.clone();
    match &mut m {
        Msg::Measurements { slot, sig, .. } => {
            if sig.is_none() {
                *slot = 0
            }
        }
        Msg::Error { code, data, .. } => {
            if *code != 7 && *code != 0xFF {
                *data = 0
            }
        }
        _ => {}
    }
    m
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Chain {
    pub root_hash: Vec<u8>,
    pub inter: Vec<Vec<u8>>,
    pub leaf: Vec<u8>,
}

/// Total DER length at the start of `b` (header included), if it is a
/// SEQUENCE with a minimal definite length of at most two length bytes.
pub fn der_seq_len(b: &[u8]) -> Result<usize, Reject> {
    let get = |i: usize| b.get(i).copied().ok_or(Reject::Truncated);
    if get(0)? != 0x30 {
        return inv("not a sequence");
    }
    let n = get(1)? as usize;
    if n < 0x80 {
        return Ok(n + 2);
    }
    if n == 0x81 {
        let x = get(2)? as usize;
        return if x < 0x80 { inv("length not minimal") } else { Ok(x + 3) };
    }
    if n == 0x82 {
        let x = (get(2)? as usize) << 8 | get(3)? as usize;
        return if x < 0x100 { inv("length not minimal") } else { Ok(x + 4) };
    }
    inv("length form")
}

pub fn chain_bytes(c: &Chain) -> Vec<u8> {
    let n = 4 + c.root_hash.len() + c.inter.iter().map(|x| x.len()).sum::<usize>() + c.leaf.len();
    let mut v = vec![n as u8, (n >> 8) as u8, 0, 0];
    v.extend(&c.root_hash);
    for i in &c.inter {
        v.extend(i);
    }
    v.extend(&c.leaf);
    v
}

pub fn parse_chain(b: &[u8], digest: usize, depth: usize) -> Result<Chain, Reject> {
    let mut c = Cur { b, p: 0 };
    if c.le(2)? as usize != b.len() {
        return inv("total length");
    }
    c.zero(2)?;
    let root_hash = c.take(digest)?.to_vec();
    let mut certs: Vec<Vec<u8>> = vec![];
    loop {
        let n = der_seq_len(&b[c.p..])?;
        if b.len() - c.p < n {
            return inv("certificate longer than the data");
        }
        certs.push(c.take(n)?.to_vec());
        if c.p == b.len() {
            break;
        }
    }
    let leaf = certs.pop().unwrap();
    if certs.len() > depth {
        return inv("too deep");
    }
    Ok(Chain { root_hash, inter: certs, leaf })
}
