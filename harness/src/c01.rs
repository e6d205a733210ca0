//! Honest sessions complete with both sides in agreement.
use crate::cfg::{cfg, CRYPTO};
use crate::gen;
use crate::model::*;
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::codec::{self, *};
use vcommon::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lib {
    slots: Vec<SlotSpec>,
    /// room beyond what is needed in the requester's and responder's buffers
    slack: (u8, u8),
    again: bool,
}

fn max_len(s: &Slots) -> usize {
    s.iter().flatten().map(|s| s.bytes.len()).max().unwrap_or(0)
}
fn usable(s: &SlotFix) -> bool {
    s.bytes.len() <= cfg().max_chain() && s.chain.inter.len() <= cfg().depth.min(6)
}

fn lib_lib(c: &Lib, o: &mut Obs) -> Check {
    let s = slots(&c.slots);
    let s0 = s[0].as_ref().ok_or("no chain in slot 0")?;
    let filled = s.iter().flatten().count();
    let need_cert = complete_after(cfg().caps()) != Kind::Algorithms;
    if need_cert && (!usable(s0) || max_len(&s) > cfg().max_chain() || s0.bytes.len() > gen::session_room(filled, 32)) {
        o.class("chain beyond the limits (skipped)");
        return Ok(());
    }
    let root = root_cert(0);
    let mut p = Pair::new(&s, &root);
    // the largest message, and a little
    let rcap = [36 + 16, 8 + s0.bytes.len(), 4 + 32 * filled, 106 + 64].iter().max().unwrap() + c.slack.1 as usize;
    let qcap = 36 + 16 + c.slack.0 as usize;
    let n = p.complete(qcap, rcap)?;
    if c.again {
        // the same responder serves the next requester
        p.q = Box::new(requester(&root));
        p.qm = ReqModel::new();
        p.complete(qcap, rcap)?;
        o.class("a second session on the same responder");
    }
    o.nontrivial();
    o.class(format!("{n} exchanges, {} intermediates", s0.chain.inter.len()));
    if s0.bytes.len() + 1 >= cfg().max_chain().min(gen::session_room(filled, 32)) {
        o.class("chain at the limit");
    }
    o.note(format!("completed in {n} exchanges, {filled} slots filled, chain of {} bytes", s0.bytes.len()));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RefCase {
    slots: Vec<SlotSpec>,
    versions: u8,
    ct: u8,
    flags: u32,
    pick: u32,
    answer: u8,
    mutual: bool,
    opaque: Vec<Elem>,
    nonce: u8,
    meas: u8,
}

fn set_hash(specs: &[SlotSpec], hash: u32) -> Vec<SlotSpec> {
    specs
        .iter()
        .map(|s| match s {
            SlotSpec::Pki(c) => SlotSpec::Pki(ChainSpec { hash, ..c.clone() }),
            s => s.clone(),
        })
        .collect()
}

fn lib_ref(c: &RefCase, o: &mut Obs) -> Check {
    let h = nth_bit(cfg().hashes(), c.pick);
    let s = slots(&set_hash(&c.slots, h));
    let s0 = s[0].as_ref().ok_or("no chain in slot 0")?;
    let filled = s.iter().flatten().count();
    let d = vcommon::hash::size(h);
    let need_cert = complete_after(c.flags) != Kind::Algorithms;
    let opaque = codec::opaque_bytes(&c.opaque).len();
    if need_cert && (!usable(s0) || s0.bytes.len() + opaque > gen::session_room(filled, d)) {
        o.class("beyond the limits (skipped)");
        return Ok(());
    }
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    let v = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 2, 0, 0), (2, 0, 0, 0), (1, 1, 0, 3)];
    peer.versions = match c.versions {
        0 => vec![v[1]],
        1 => vec![v[1], v[0]],
        2 => vec![v[1], v[2]],
        3 => vec![v[3], v[1]],
        4 => vec![v[4], v[1]],
        _ => vec![v[0], v[1]],
    };
    peer.ct = c.ct;
    peer.flags = c.flags;
    peer.pick = c.pick;
    peer.answer = c.answer;
    peer.mutual = c.mutual;
    peer.opaque = c.opaque.clone();
    peer.rsp_nonce = c.nonce;
    peer.meas = c.meas;
    let t = trust_of(s0);
    with_ref(&mut q, &mut qm, &mut peer, &t, QPhase::Done)?;
    if q.transcript().get() != &peer.t[..] {
        return Err("the requester's transcript is not the peer's".into());
    }
    o.nontrivial();
    o.class(format!("last: {:?}, hash {h}", complete_after(c.flags)));
    o.note(format!("completed with hash {h}, {filled} slots, {opaque} bytes of opaque data"));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReqCase {
    slots: Vec<SlotSpec>,
    ct: u8,
    flags: u32,
    asym: u32,
    hash: u32,
    algs: Vec<(u8, u16)>,
    spec: u8,
    digests: u8,
    cert: u8,
    offset: u16,
    length: u16,
    /// slot, measurement hash type, nonce
    challenges: Vec<(u8, u8, u8)>,
}

fn ref_lib(c: &ReqCase, o: &mut Obs) -> Check {
    let s = slots(&c.slots);
    let filled: Vec<usize> = (0..s.len()).filter(|i| s[*i].is_some()).collect();
    if max_len(&s) > cfg().max_chain() {
        o.class("beyond the limits (skipped)");
        return Ok(());
    }
    let nl = cfg().nonce_len();
    let mut reqs = vec![
        Msg::GetVersion,
        Msg::GetCapabilities { ct: c.ct, flags: c.flags },
        Msg::NegotiateAlgorithms {
            spec: c.spec,
            asym: c.asym | P256,
            hash: c.hash,
            algs: c.algs.clone(),
        },
    ];
    if cfg().cert() {
        for _ in 0..c.digests {
            reqs.push(Msg::GetDigests);
        }
        let slot = filled[c.cert as usize % filled.len()] as u8;
        reqs.push(Msg::GetCertificate { slot, offset: 0, length: 0xffff });
        if cfg().chal() {
            for (sl, mht, n) in &c.challenges {
                let slot = filled[*sl as usize % filled.len()] as u8;
                reqs.push(Msg::Challenge { slot, mht: *mht, nonce: vec![*n; nl] });
            }
        }
    }
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    let mut auths = 0;
    for q in &reqs {
        let b = codec::encode(q);
        let step = m.step(&mut r, &b, rsp_cap())?;
        if !step.accepted {
            if step.why == "transcript full" {
                o.class("stopped: transcript full");
                break;
            }
            return Err(format!("refused an honest request ({}): {}", step.why, short(&b)));
        }
        if q.kind() == Kind::Challenge {
            auths += 1;
        }
    }
    o.nontrivial();
    o.class(format!("hash {}, {auths} challenges", m.hash()));
    o.note(format!("{} requests answered, {auths} challenge replies verified, hash {}", reqs.len(), m.hash()));
    Ok(())
}

pub fn parts() -> Vec<Part> {
    let max = cfg().max_chain();
    let mut v = vec![prop(
        "lib-lib",
        "the session ran to completion, both models and the endpoints' agreement checked after every exchange",
        (1600, 24000),
        move || {
            let room = gen::session_room(cfg().slots, 32).min(max).max(700);
            (gen::population(room), (prop_oneof![Just(0u8), any::<u8>()], prop_oneof![Just(0u8), any::<u8>()]), any::<bool>())
                .prop_map(|(slots, slack, again)| Lib { slots, slack, again })
        },
        lib_lib,
    )];
    v.push(prop(
        "lib-ref",
        "the requester completed with an independent responder that chose among everything the specification allows",
        (1200, 20000),
        move || {
            let room = gen::session_room(cfg().slots, 64).saturating_sub(100).min(max).max(700);
            (
                gen::population(room),
                0u8..6,
                any::<u8>(),
                (gen::bits(RSP_FLAGS), 0u8..4).prop_map(|(f, k)| if k > 0 { f | CERT_CAP | CHAL_CAP } else { f }),
                any::<u32>(),
                any::<u8>(),
                any::<bool>(),
                gen::elems(&cfg().limits(32)),
                (any::<u8>(), any::<u8>()),
            )
                .prop_map(|(slots, versions, ct, flags, pick, answer, mutual, opaque, (nonce, meas))| RefCase {
                    slots,
                    versions,
                    ct,
                    flags,
                    pick,
                    answer,
                    mutual,
                    opaque,
                    nonce,
                    meas,
                })
        },
        lib_ref,
    ));
    v.push(prop(
        "ref-lib",
        "an independent requester's whole session was served, every reply byte predicted (challenge replies verified)",
        (1200, 20000),
        move || {
            let room = gen::session_room(cfg().slots, 64).min(max).max(700);
            (
                gen::population(room),
                (any::<u8>(), gen::bits(REQ_FLAGS), gen::bits(ASYM_MASK), any::<u32>().prop_map(|x| x & 0x33f)),
                gen::alg_list(false).prop_map(|v| v.into_iter().map(|(t, b)| (t, b.max(1))).collect::<Vec<_>>()),
                0u8..2,
                0u8..4,
                (any::<u8>(), any::<u16>(), any::<u16>()),
                vec((any::<u8>(), prop::sample::select(vec![0u8, 1, 0xff]), any::<u8>()), 0..4),
            )
                .prop_map(|(slots, (ct, flags, asym, hash), algs, spec, digests, (cert, offset, length), challenges)| ReqCase {
                    slots,
                    ct,
                    flags,
                    asym,
                    hash,
                    algs,
                    spec,
                    digests,
                    cert,
                    offset,
                    length,
                    challenges,
                })
        },
        |c: &ReqCase, o: &mut Obs| {
            let mut c = c.clone();
            // bit 8 and 9 pick the hash that is in the offer for sure
            let pick = 1u32 << (c.hash >> 8 & 3).min(2);
            let pick = if CRYPTO { pick } else { 1 };
            c.hash = c.hash & HASH_MASK | pick;
            ref_lib(&c, o)
        },
    ));
    v
}
