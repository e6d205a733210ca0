//! Between the reference codec's values and the library's.
use spdm::config::*;
use spdm::crypto::Nonce;
use spdm::msgs::algorithms::*;
use spdm::msgs::capabilities::*;
use spdm::msgs::common::*;
use spdm::msgs::encoding::{Reader, Writer};
use spdm::msgs::measurements as mm;
use spdm::msgs::{self as lm, Msg as _, OpaqueData};
use std::convert::TryFrom;
use vcommon::codec::{self, Elem, Kind, Limits, Msg};

pub fn dsize(n: usize) -> DigestSize {
    DigestSize::try_from(n).expect("digest size")
}
pub fn ssize(n: usize) -> SignatureSize {
    SignatureSize::try_from(n).expect("signature size")
}
pub fn nonce(b: &[u8]) -> Option<Nonce> {
    let mut r = Reader::new(b);
    let n = lib!(Nonce::read(&mut r)).ok()?;
    if n.as_ref() == b {
        Some(n)
    } else {
        None
    }
}
pub fn lib_opaque(e: &[Elem]) -> Option<OpaqueData> {
    let b = codec::opaque_bytes(e);
    let mut r = Reader::new(&b);
    lib!(OpaqueData::read(&mut r)).ok()
}
/// The elements of a library value, read off its serialized form.
pub fn opaque_elems(o: &OpaqueData, l: &Limits) -> Result<Vec<Elem>, String> {
    let mut buf = vec![0u8; 8 + l.opaque_elems * (16 + l.opaque_data)];
    let mut w = Writer::new(&mut buf);
    lib!(o.write(&mut w)).map_err(|e| format!("a decoded opaque data block cannot be written: {e:?}"))?;
    let n = w.offset();
    if n != o.serialized_size() {
        return Err(format!("opaque data wrote {n} bytes but reports a size of {}", o.serialized_size()));
    }
    codec::parse_opaque(&buf[..n], l).map_err(|e| format!("opaque data was written malformed: {e:?}"))
}

pub fn alg_req(t: u8, bits: u16) -> Option<AlgorithmRequest> {
    Some(match t {
        2 => AlgorithmRequest::Dhe(DheAlgorithm { supported: DheFixedAlgorithms::from_bits(bits)? }),
        3 => AlgorithmRequest::Aead(AeadAlgorithm { supported: AeadFixedAlgorithms::from_bits(bits)? }),
        4 => AlgorithmRequest::ReqBaseAsym(ReqBaseAsymAlgorithm {
            supported: ReqBaseAsymFixedAlgorithms::from_bits(bits)?,
        }),
        5 => AlgorithmRequest::KeySchedule(KeyScheduleAlgorithm {
            supported: KeyScheduleFixedAlgorithms::from_bits(bits)?,
        }),
        _ => return None,
    })
}
pub fn alg_of(a: &AlgorithmRequest) -> (u8, u16) {
    match a {
        AlgorithmRequest::Dhe(x) => (2, x.supported.bits()),
        AlgorithmRequest::Aead(x) => (3, x.supported.bits()),
        AlgorithmRequest::ReqBaseAsym(x) => (4, x.supported.bits()),
        AlgorithmRequest::KeySchedule(x) => (5, x.supported.bits()),
    }
}
fn alg_array(a: &[(u8, u16)]) -> Option<[AlgorithmRequest; MAX_ALGORITHM_REQUESTS]> {
    let mut out = [AlgorithmRequest::default(); MAX_ALGORITHM_REQUESTS];
    if a.len() > out.len() {
        return None;
    }
    for (i, (t, b)) in a.iter().enumerate() {
        out[i] = alg_req(*t, *b)?;
    }
    Some(out)
}
fn algs_of(n: u8, a: &[AlgorithmRequest]) -> Result<Vec<(u8, u16)>, String> {
    if n as usize > a.len() {
        return Err(format!("{n} algorithm structures in an array of {}", a.len()));
    }
    Ok(a[..n as usize].iter().map(alg_of).collect())
}

pub fn algorithms_of(a: &Algorithms) -> Result<Msg, String> {
    Ok(Msg::Algorithms {
        spec: a.measurement_spec_selected.bits(),
        mhash: a.measurement_hash_algo_selected.bits(),
        asym: a.base_asym_algo_selected.bits(),
        hash: a.base_hash_algo_selected.bits(),
        algs: algs_of(a.num_algorithm_responses, &a.algorithm_responses)?,
    })
}
pub fn negotiate_of(a: &NegotiateAlgorithms) -> Result<Msg, String> {
    Ok(Msg::NegotiateAlgorithms {
        spec: a.measurement_spec.bits(),
        asym: a.base_asym_algo.bits(),
        hash: a.base_hash_algo.bits(),
        algs: algs_of(a.num_algorithm_requests, &a.algorithm_requests)?,
    })
}
pub fn digests_of(d: &lm::Digests, l: &Limits) -> Result<Msg, String> {
    let mut v = vec![];
    for i in 0..d.digests.len() {
        match &d.digests[i] {
            Some(x) => {
                if d.slot_mask >> i & 1 == 0 {
                    return Err(format!("a digest for slot {i}, which is not in the mask"));
                }
                if x.as_ref().len() != l.digest || x.len() != l.digest {
                    return Err(format!("digest of {} bytes", x.len()));
                }
                v.push(x.as_ref().to_vec())
            }
            None => {
                if d.slot_mask >> i & 1 == 1 {
                    return Err(format!("no digest for slot {i}, which is in the mask"));
                }
            }
        }
    }
    Ok(Msg::Digests { mask: d.slot_mask, digests: v })
}

fn blocks(b: &[codec::Block]) -> Option<mm::MeasurementBlocks> {
    use mm::*;
    let mut out = MeasurementBlocks::default();
    if b.len() > out.blocks.len() {
        return None;
    }
    out.len = b.len();
    for (i, x) in b.iter().enumerate() {
        let value = if x.raw {
            if x.value.len() > MAX_MEASUREMENT_SIZE {
                return None;
            }
            DmtfMeasurementValue::BitStream(BitStream::new(&x.value))
        } else {
            DmtfMeasurementValue::Digest(DigestBuf::try_from(&x.value[..]).ok()?)
        };
        out.blocks[i] = Some(MeasurementBlock {
            index: x.index,
            measurement_spec_selected: MeasurementSpec::DMTF,
            measurement: DmtfMeasurement {
                value_representation: if x.raw {
                    DmtfMeasurementValueRepresentation::RawBitStream
                } else {
                    DmtfMeasurementValueRepresentation::Digest
                },
                value_type: DmtfMeasurementValueType::try_from(x.vtype).ok()?,
                value,
            },
        });
    }
    Some(out)
}
fn content(c: u8) -> mm::ContentChanged {
    match c {
        1 => mm::ContentChanged::True,
        2 => mm::ContentChanged::False,
        _ => mm::ContentChanged::NotSupported,
    }
}
pub fn measurements(m: &Msg) -> Option<lm::Measurements> {
    if let Msg::Measurements { total, changed, slot, blocks: b, nonce: n, opaque, sig } = m {
        Some(lm::Measurements {
            total_blocks: *total,
            content_changed: content(*changed),
            slot_id: *slot,
            blocks: blocks(b)?,
            nonce: nonce(n)?,
            opaque_data: lib_opaque(opaque)?,
            signature: match sig {
                Some(s) => Some(SignatureBuf::try_from(&s[..]).ok()?),
                None => None,
            },
        })
    } else {
        None
    }
}

pub fn error_of(code: u8, data: u8) -> Option<lm::Error> {
    use lm::Error::*;
    Some(match code {
        0x01 => InvalidRequest,
        0x03 => Busy,
        0x04 => UnexpectedRequest,
        0x05 => Unspecified,
        0x06 => DecryptError,
        0x07 => UnsupportedRequest(data),
        0x08 => RequestInFlight,
        0x09 => InvalidResponseCode,
        0x0A => SessionLimitExceeded,
        0x0B => SessionRequired,
        0x0C => ResetRequired,
        0x0E => RequestTooLarge,
        0x10 => MessageLost,
        0x41 => VersionMismatch,
        0x43 => RequestResynch,
        _ => return None,
    })
}

/// The library's value for `m`, when one can be built through its API.
#[derive(Debug, Clone, PartialEq)]
pub enum Lib {
    GetVersion,
    Version(lm::Version),
    GetCapabilities(GetCapabilities),
    Capabilities(Capabilities),
    NegotiateAlgorithms(NegotiateAlgorithms),
    Algorithms(Algorithms),
    GetDigests,
    Digests(lm::Digests),
    GetCertificate(lm::GetCertificate),
    Certificate(Box<lm::Certificate>),
    Challenge(lm::Challenge),
    ChallengeAuth(Box<lm::ChallengeAuth>),
    GetMeasurements(lm::GetMeasurements),
    Measurements(Box<lm::Measurements>),
    Error(lm::Error),
}

pub fn build(m: &Msg) -> Option<Lib> {
    Some(match m {
        Msg::GetVersion => Lib::GetVersion,
        Msg::GetDigests => Lib::GetDigests,
        Msg::Version(es) => {
            let mut v = lm::Version { num_entries: es.len() as u8, entries: Default::default() };
            if es.len() > v.entries.len() {
                return None;
            }
            for (i, e) in es.iter().enumerate() {
                v.entries[i] = lm::VersionEntry { major: e.0, minor: e.1, update: e.2, alpha: e.3 };
            }
            Lib::Version(v)
        }
        Msg::GetCapabilities { ct, flags } => {
            Lib::GetCapabilities(GetCapabilities { ct_exponent: *ct, flags: ReqFlags::from_bits(*flags)? })
        }
        Msg::Capabilities { ct, flags } => {
            Lib::Capabilities(Capabilities { ct_exponent: *ct, flags: RspFlags::from_bits(*flags)? })
        }
        Msg::NegotiateAlgorithms { spec, asym, hash, algs } => Lib::NegotiateAlgorithms(NegotiateAlgorithms {
            measurement_spec: MeasurementSpec::from_bits(*spec)?,
            base_asym_algo: BaseAsymAlgo::from_bits(*asym)?,
            base_hash_algo: BaseHashAlgo::from_bits(*hash)?,
            num_algorithm_requests: algs.len() as u8,
            algorithm_requests: alg_array(algs)?,
        }),
        Msg::Algorithms { spec, mhash, asym, hash, algs } => Lib::Algorithms(Algorithms {
            measurement_spec_selected: MeasurementSpec::from_bits(*spec)?,
            measurement_hash_algo_selected: BaseHashAlgo::from_bits(*mhash)?,
            base_asym_algo_selected: BaseAsymAlgo::from_bits(*asym)?,
            base_hash_algo_selected: BaseHashAlgo::from_bits(*hash)?,
            num_algorithm_responses: algs.len() as u8,
            algorithm_responses: alg_array(algs)?,
        }),
        Msg::Digests { mask, digests } => {
            const NONE: Option<DigestBuf> = None;
            let mut out = [NONE; NUM_SLOTS];
            let mut it = digests.iter();
            for (i, o) in out.iter_mut().enumerate() {
                if mask >> i & 1 == 1 {
                    *o = Some(DigestBuf::try_from(&it.next()?[..]).ok()?);
                }
            }
            if it.next().is_some() {
                return None;
            }
            Lib::Digests(lm::Digests { slot_mask: *mask, digests: out })
        }
        Msg::GetCertificate { slot, offset, length } => {
            Lib::GetCertificate(lm::GetCertificate { slot: *slot, offset: *offset, length: *length })
        }
        Msg::Certificate { slot, remainder, portion } => {
            let mut cert_chain = [0u8; MAX_CERT_CHAIN_SIZE];
            if portion.len() > cert_chain.len() {
                return None;
            }
            cert_chain[..portion.len()].copy_from_slice(portion);
            Lib::Certificate(Box::new(lm::Certificate {
                slot: *slot,
                portion_length: portion.len() as u16,
                remainder_length: *remainder,
                cert_chain,
            }))
        }
        Msg::Challenge { slot, mht, nonce: n } => Lib::Challenge(lm::Challenge {
            slot: *slot,
            measurement_hash_type: lm::MeasurementHashType::try_from(*mht).ok()?,
            nonce: nonce(n)?,
        }),
        Msg::ChallengeAuth { slot, mutual, mask, chain_hash, nonce: n, meas_hash, opaque, sig } => {
            DigestBuf::try_from(&chain_hash[..]).ok()?;
            DigestBuf::try_from(&meas_hash[..]).ok()?;
            SignatureBuf::try_from(&sig[..]).ok()?;
            Lib::ChallengeAuth(Box::new(lm::ChallengeAuth::new(
                *slot,
                *mask,
                *mutual,
                chain_hash,
                nonce(n)?,
                meas_hash,
                lib_opaque(opaque)?,
                sig,
            )))
        }
        Msg::GetMeasurements { .. } => {
            // its nonce cannot be chosen: take it from the bytes
            Lib::GetMeasurements(lm::GetMeasurements::parse_body(&codec::encode_body(m)).ok()?)
        }
        Msg::Measurements { .. } => Lib::Measurements(Box::new(measurements(m)?)),
        Msg::Error { code, data, ext } => Lib::Error(match code {
            0x0D => lm::Error::ResponseTooLarge(u32::from_le_bytes(<[u8; 4]>::try_from(&ext[..]).ok()?)),
            0x0F => lm::Error::LargeResponse(*ext.first()?),
            0x42 => lm::Error::parse_body(&codec::encode_body(m)).ok()?,
            0xFF => {
                if ext != &[0u8] {
                    return None;
                }
                lm::Error::VendorDefined(VendorRegistryId::try_from(*data).ok()?, lm::error::VendorDefined::empty())
            }
            c => error_of(*c, *data)?,
        }),
    })
}

pub fn write(v: &Lib, buf: &mut [u8]) -> Result<usize, String> {
    fn s<E: std::fmt::Debug>(e: E) -> String {
        format!("{e:?}")
    }
    match v {
        Lib::GetVersion => lib!(lm::GetVersion {}.write(buf)).map_err(s),
        Lib::GetDigests => lib!(lm::GetDigests {}.write(buf)).map_err(s),
        Lib::Version(x) => lib!(x.write(buf)).map_err(s),
        Lib::GetCapabilities(x) => lib!(x.write(buf)).map_err(s),
        Lib::Capabilities(x) => lib!(x.write(buf)).map_err(s),
        Lib::NegotiateAlgorithms(x) => lib!(x.write(buf)).map_err(s),
        Lib::Algorithms(x) => lib!(x.write(buf)).map_err(s),
        Lib::Digests(x) => lib!(x.write(buf)).map_err(s),
        Lib::GetCertificate(x) => lib!(x.write(buf)).map_err(s),
        Lib::Certificate(x) => lib!(x.write(buf)).map_err(s),
        Lib::Challenge(x) => lib!(x.write(buf)).map_err(s),
        Lib::ChallengeAuth(x) => lib!(x.write(buf)).map_err(s),
        Lib::GetMeasurements(x) => lib!(x.write(buf)).map_err(s),
        Lib::Measurements(x) => lib!(x.write(buf)).map_err(s),
        Lib::Error(x) => lib!(x.write(buf)).map_err(s),
    }
}

pub fn parse_header(k: Kind, b: &[u8]) -> Result<bool, ()> {
    use Kind::*;
    match k {
        GetVersion => lib!(lm::GetVersion::parse_header(b)),
        Version => lib!(lm::Version::parse_header(b)),
        GetCapabilities => lib!(lm::GetCapabilities::parse_header(b)),
        Capabilities => lib!(lm::Capabilities::parse_header(b)),
        NegotiateAlgorithms => lib!(lm::NegotiateAlgorithms::parse_header(b)),
        Algorithms => lib!(lm::Algorithms::parse_header(b)),
        GetDigests => lib!(lm::GetDigests::parse_header(b)),
        Digests => lib!(lm::Digests::parse_header(b)),
        GetCertificate => lib!(lm::GetCertificate::parse_header(b)),
        Certificate => lib!(lm::Certificate::parse_header(b)),
        Challenge => lib!(lm::Challenge::parse_header(b)),
        ChallengeAuth => lib!(lm::ChallengeAuth::parse_header(b)),
        GetMeasurements => lib!(lm::GetMeasurements::parse_header(b)),
        Measurements => lib!(lm::Measurements::parse_header(b)),
        Error => lib!(lm::Error::parse_header(b)),
    }
    .map_err(|_| ())
}

pub fn parse(k: Kind, b: &[u8], l: &Limits) -> Result<Lib, String> {
    fn s<E: std::fmt::Debug>(e: E) -> String {
        format!("{e:?}")
    }
    use Kind::*;
    Ok(match k {
        GetVersion => {
            lib!(lm::GetVersion::parse_body(b)).map_err(s)?;
            Lib::GetVersion
        }
        Version => Lib::Version(lib!(lm::Version::parse_body(b)).map_err(s)?),
        GetCapabilities => Lib::GetCapabilities(lib!(lm::GetCapabilities::parse_body(b)).map_err(s)?),
        Capabilities => Lib::Capabilities(lib!(lm::Capabilities::parse_body(b)).map_err(s)?),
        NegotiateAlgorithms => Lib::NegotiateAlgorithms(lib!(lm::NegotiateAlgorithms::parse_body(b)).map_err(s)?),
        Algorithms => Lib::Algorithms(lib!(lm::Algorithms::parse_body(b)).map_err(s)?),
        GetDigests => {
            lib!(lm::GetDigests::parse_body(b)).map_err(s)?;
            Lib::GetDigests
        }
        Digests => Lib::Digests(lib!(lm::Digests::parse_body(dsize(l.digest), b)).map_err(s)?),
        GetCertificate => Lib::GetCertificate(lib!(lm::GetCertificate::parse_body(b)).map_err(s)?),
        Certificate => Lib::Certificate(Box::new(lib!(lm::Certificate::parse_body(b)).map_err(s)?)),
        Challenge => Lib::Challenge(lib!(lm::Challenge::parse_body(b)).map_err(s)?),
        ChallengeAuth => {
            Lib::ChallengeAuth(Box::new(lib!(lm::ChallengeAuth::parse_body(b, dsize(l.digest), ssize(l.sig))).map_err(s)?))
        }
        GetMeasurements => Lib::GetMeasurements(lib!(lm::GetMeasurements::parse_body(b)).map_err(s)?),
        Measurements => {
            Lib::Measurements(Box::new(lib!(lm::Measurements::parse_body(b, l.meas_sig, ssize(l.sig))).map_err(s)?))
        }
        Error => Lib::Error(lib!(lm::Error::parse_body(b)).map_err(s)?),
    })
}

/// The reference value of a library value. What cannot be read through the
/// API is read off the serialized form. Err: the value is not a consistent
/// one, or exceeds the configured capacity.
pub fn value(v: &Lib, l: &Limits) -> Result<Msg, String> {
    Ok(match v {
        Lib::GetVersion => Msg::GetVersion,
        Lib::GetDigests => Msg::GetDigests,
        Lib::Version(v) => {
            if v.num_entries as usize > v.entries.len() {
                return Err(format!("{} entries in an array of {}", v.num_entries, v.entries.len()));
            }
            Msg::Version(
                v.entries[..v.num_entries as usize].iter().map(|e| (e.major, e.minor, e.update, e.alpha)).collect(),
            )
        }
        Lib::GetCapabilities(c) => Msg::GetCapabilities { ct: c.ct_exponent, flags: c.flags.bits() },
        Lib::Capabilities(c) => Msg::Capabilities { ct: c.ct_exponent, flags: c.flags.bits() },
        Lib::NegotiateAlgorithms(a) => negotiate_of(a)?,
        Lib::Algorithms(a) => algorithms_of(a)?,
        Lib::Digests(d) => digests_of(d, l)?,
        Lib::GetCertificate(c) => Msg::GetCertificate { slot: c.slot, offset: c.offset, length: c.length },
        Lib::Certificate(c) => {
            if c.portion_length as usize > c.cert_chain.len() {
                return Err(format!("a portion of {} bytes in {}", c.portion_length, c.cert_chain.len()));
            }
            Msg::Certificate {
                slot: c.slot,
                remainder: c.remainder_length,
                portion: c.cert_chain[..c.portion_length as usize].to_vec(),
            }
        }
        Lib::Challenge(c) => {
            Msg::Challenge { slot: c.slot, mht: c.measurement_hash_type as u8, nonce: c.nonce.as_ref().to_vec() }
        }
        Lib::ChallengeAuth(c) => Msg::ChallengeAuth {
            slot: c.slot,
            mutual: c.use_mutual_auth,
            mask: c.slot_mask,
            chain_hash: c.cert_chain_hash.as_ref().to_vec(),
            nonce: c.nonce.as_ref().to_vec(),
            meas_hash: c.measurement_summary_hash.as_ref().to_vec(),
            opaque: opaque_elems(&c.opaque_data, l)?,
            sig: c.signature.as_ref().to_vec(),
        },
        Lib::GetMeasurements(_) | Lib::Error(_) => {
            let k = if matches!(v, Lib::Error(_)) { Kind::Error } else { Kind::GetMeasurements };
            let mut b = [0u8; 256];
            let n = write(v, &mut b).map_err(|e| format!("a decoded value cannot be written: {e}"))?;
            if b[..2] != k.header() {
                return Err(format!("header {:02x?}", &b[..2]));
            }
            let (m, used) = codec::decode_body(k, &b[2..n], l).map_err(|e| format!("written malformed: {e:?}"))?;
            if used + 2 != n {
                return Err(format!("{n} bytes written, of which {} belong to the message", used + 2));
            }
            m
        }
        Lib::Measurements(m) => {
            if m.blocks.len > m.blocks.blocks.len() {
                return Err(format!("{} blocks in an array of {}", m.blocks.len, m.blocks.blocks.len()));
            }
            let mut bl = vec![];
            for b in m.blocks.as_slice() {
                let b = b.as_ref().ok_or("a block in use is absent")?;
                let (raw, value) = match &b.measurement.value {
                    mm::DmtfMeasurementValue::Digest(d) => (false, d.as_ref().to_vec()),
                    mm::DmtfMeasurementValue::BitStream(s) => (true, s.as_slice().to_vec()),
                };
                if raw
                    != (b.measurement.value_representation == mm::DmtfMeasurementValueRepresentation::RawBitStream)
                {
                    return Err("representation and value disagree".into());
                }
                if b.measurement_spec_selected != MeasurementSpec::DMTF {
                    return Err("measurement specification".into());
                }
                bl.push(codec::Block { index: b.index, raw, vtype: b.measurement.value_type as u8, value });
            }
            Msg::Measurements {
                total: m.total_blocks,
                changed: match m.content_changed {
                    mm::ContentChanged::NotSupported => 0,
                    mm::ContentChanged::True => 1,
                    mm::ContentChanged::False => 2,
                },
                slot: m.slot_id,
                blocks: bl,
                nonce: m.nonce.as_ref().to_vec(),
                opaque: opaque_elems(&m.opaque_data, l)?,
                sig: m.signature.as_ref().map(|s| s.as_ref().to_vec()),
            }
        }
    })
}
