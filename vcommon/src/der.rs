//! A minimal X.509 builder: P-256 (or P-384) keys that are a function of a
//! small number, and certificates whose every relevant field can be chosen,
//! including ones no sensible CA would issue.
use ring::signature::{
    EcdsaKeyPair, EcdsaSigningAlgorithm, KeyPair, ECDSA_P256_SHA256_ASN1_SIGNING, ECDSA_P256_SHA256_FIXED_SIGNING,
    ECDSA_P384_SHA384_ASN1_SIGNING, ECDSA_P384_SHA384_FIXED_SIGNING,
};
use ring::test::rand::FixedByteRandom;
use serde::{Deserialize, Serialize};

pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = body.len();
    if n < 0x80 {
        v.push(n as u8)
    } else if n < 0x100 {
        v.extend([0x81, n as u8])
    } else if n < 0x10000 {
        v.extend([0x82, (n >> 8) as u8, n as u8])
    } else {
        v.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8])
    }
    v.extend_from_slice(body);
    v
}
fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Curve {
    P256,
    P384,
}

/// Key number `id` (1..=126) of a curve.
pub struct Key {
    pub curve: Curve,
    pkcs8: Vec<u8>,
    asn1: EcdsaKeyPair,
    fixed: EcdsaKeyPair,
    public: Vec<u8>,
}

fn algs(c: Curve) -> (&'static EcdsaSigningAlgorithm, &'static EcdsaSigningAlgorithm) {
    match c {
        Curve::P256 => (&ECDSA_P256_SHA256_ASN1_SIGNING, &ECDSA_P256_SHA256_FIXED_SIGNING),
        Curve::P384 => (&ECDSA_P384_SHA384_ASN1_SIGNING, &ECDSA_P384_SHA384_FIXED_SIGNING),
    }
}

impl Key {
    pub fn new(curve: Curve, id: u8) -> Key {
        assert!(id >= 1 && id <= 126);
        let (a, f) = algs(curve);
        let doc = EcdsaKeyPair::generate_pkcs8(a, &FixedByteRandom { byte: id }).expect("key");
        let asn1 = EcdsaKeyPair::from_pkcs8(a, doc.as_ref()).expect("key");
        let fixed = EcdsaKeyPair::from_pkcs8(f, doc.as_ref()).expect("key");
        let public = asn1.public_key().as_ref().to_vec();
        Key { curve, pkcs8: doc.as_ref().to_vec(), asn1, fixed, public }
    }
    pub fn pkcs8(&self) -> &[u8] {
        &self.pkcs8
    }
    pub fn public(&self) -> &[u8] {
        &self.public
    }
    /// r || s, each padded to the field size
    pub fn sign_raw(&self, msg: &[u8], salt: u8) -> ring::signature::Signature {
        self.fixed.sign(&FixedByteRandom { byte: salt }, msg).expect("sign")
    }
    pub fn sign_der(&self, msg: &[u8], salt: u8) -> Vec<u8> {
        self.asn1.sign(&FixedByteRandom { byte: salt }, msg).expect("sign").as_ref().to_vec()
    }
    fn sig_alg(&self) -> Vec<u8> {
        match self.curve {
            Curve::P256 => tlv(0x30, &tlv(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2])),
            Curve::P384 => tlv(0x30, &tlv(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3])),
        }
    }
    fn spki(&self) -> Vec<u8> {
        let curve = match self.curve {
            Curve::P256 => tlv(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7]),
            Curve::P384 => tlv(6, &[0x2b, 0x81, 4, 0, 0x22]),
        };
        let alg = tlv(0x30, &cat(&[tlv(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), curve]));
        let mut bits = vec![0u8];
        bits.extend(&self.public);
        tlv(0x30, &cat(&[alg, tlv(3, &bits)]))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Eku {
    None,
    Server,
    Client,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Spec {
    pub subject: String,
    pub issuer: String,
    /// seconds since 1970 are awkward to read: YYYYMMDDHHMMSS
    pub not_before: String,
    pub not_after: String,
    /// None: no basicConstraints extension at all
    pub ca: Option<bool>,
    pub path_len: Option<u8>,
    pub eku: Eku,
    /// bytes in an unknown non-critical extension
    pub pad: usize,
    /// an unknown extension marked critical
    pub critical_unknown: bool,
    pub serial: u8,
}

impl Spec {
    pub fn new(subject: &str, issuer: &str, ca: bool) -> Spec {
        Spec {
            subject: subject.into(),
            issuer: issuer.into(),
            not_before: "20000101000000".into(),
            not_after: "20491231235959".into(),
            ca: if ca { Some(true) } else { None },
            path_len: None,
            eku: Eku::None,
            // webpki wants at least one extension
            pad: if ca { 0 } else { 4 },
            critical_unknown: false,
            serial: 1,
        }
    }
}

fn name(cn: &str) -> Vec<u8> {
    let atv = tlv(0x30, &cat(&[tlv(6, &[0x55, 4, 3]), tlv(0x0c, cn.as_bytes())]));
    tlv(0x30, &tlv(0x31, &atv))
}
fn time(t: &str) -> Vec<u8> {
    let y: u32 = t[..4].parse().unwrap();
    if (1950..2050).contains(&y) {
        tlv(0x17, format!("{}Z", &t[2..]).as_bytes())
    } else {
        tlv(0x18, format!("{}Z", t).as_bytes())
    }
}
fn ext(oid: &[u8], critical: bool, val: &[u8]) -> Vec<u8> {
    let mut p = vec![tlv(6, oid)];
    if critical {
        p.push(tlv(1, &[0xff]));
    }
    p.push(tlv(4, val));
    tlv(0x30, &cat(&p))
}

/// The certificate `spec` for the public key of `subject`, signed by `issuer`.
pub fn cert(spec: &Spec, subject: &Key, issuer: &Key) -> Vec<u8> {
    let mut exts = vec![];
    if let Some(ca) = spec.ca {
        let mut b = vec![];
        if ca {
            b.extend(tlv(1, &[0xff]));
        }
        if let Some(n) = spec.path_len {
            b.extend(tlv(2, &[n]));
        }
        exts.push(ext(&[0x55, 0x1d, 0x13], true, &tlv(0x30, &b)));
    }
    match spec.eku {
        Eku::None => {}
        Eku::Server => exts.push(ext(&[0x55, 0x1d, 0x25], false, &tlv(0x30, &tlv(6, &[0x2b, 6, 1, 5, 5, 7, 3, 1])))),
        Eku::Client => exts.push(ext(&[0x55, 0x1d, 0x25], false, &tlv(0x30, &tlv(6, &[0x2b, 6, 1, 5, 5, 7, 3, 2])))),
    }
    if spec.pad > 0 {
        // an extension under a private-enterprise arc
        exts.push(ext(&[0x2b, 6, 1, 4, 1, 0x82, 0x37, 0x63], false, &vec![0x5a; spec.pad]));
    }
    if spec.critical_unknown {
        exts.push(ext(&[0x2b, 6, 1, 4, 1, 0x82, 0x37, 0x64], true, &[5, 0]));
    }
    let mut parts = vec![
        tlv(0xa0, &tlv(2, &[2])),
        tlv(2, &[spec.serial & 0x7f]),
        issuer.sig_alg(),
        name(&spec.issuer),
        tlv(0x30, &cat(&[time(&spec.not_before), time(&spec.not_after)])),
        name(&spec.subject),
        subject.spki(),
    ];
    if !exts.is_empty() {
        parts.push(tlv(0xa3, &tlv(0x30, &cat(&exts))));
    }
    let tbs = tlv(0x30, &cat(&parts));
    let mut sig = vec![0u8];
    sig.extend(issuer.sign_der(&tbs, 7));
    tlv(0x30, &cat(&[tbs, issuer.sig_alg(), tlv(3, &sig)]))
}

/// The same with the padding chosen so that the certificate is `size` bytes
/// long, if that is possible.
pub fn cert_of_size(spec: &Spec, subject: &Key, issuer: &Key, size: usize) -> Option<Vec<u8>> {
    let mut s = spec.clone();
    s.pad = 1;
    let base = cert(&s, subject, issuer).len();
    if size < base {
        return None;
    }
    let est = size - base + 1;
    for back in 0..16 {
        s.pad = est.saturating_sub(back).max(1);
        // the signature's length varies with what is signed
        for serial in 1..6 {
            s.serial = serial;
            let c = cert(&s, subject, issuer);
            if c.len() == size {
                return Some(c);
            }
        }
    }
    None
}
