//! A requester survives any bytes a responder may answer with.
use crate::cfg::cfg;
use crate::gen::{self, Mut};
use crate::model::*;
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::codec::{self, Msg, *};
use vcommon::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rsp {
    /// the honest response, changed
    Near(Vec<Mut>),
    /// an honest response of some kind for the current negotiation
    Msg(Msg, Vec<Mut>),
    Raw(Vec<u8>),
    /// a response of the kind awaited with arbitrary content
    Kind(u8, gen::Fill),
    /// a certificate chain of arbitrary content, in a well-formed response
    Chain(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub slots: Vec<SlotSpec>,
    pub flags: u32,
    pub pick: u32,
    /// how many honest exchanges come first
    pub after: u8,
    pub rsp: Rsp,
    /// after an accepted response: further ones
    pub more: Vec<Rsp>,
    /// asked this often for the request
    pub ask: u8,
}

pub fn bytes(r: &Rsp, honest: &[u8], want: QPhase) -> Vec<u8> {
    match r {
        Rsp::Near(m) => gen::apply_all(honest, m),
        Rsp::Msg(m, x) => gen::apply_all(&codec::encode(m), x),
        Rsp::Raw(b) => b.clone(),
        Rsp::Kind(p, f) => {
            let k = want.awaits().unwrap_or(Kind::Error);
            let mut v = k.header().to_vec();
            v.push(*p);
            v.extend(f.get());
            v
        }
        Rsp::Chain(b) => codec::encode(&Msg::Certificate { slot: 0, remainder: 0, portion: b.clone() }),
    }
}

/// What the requester awaits after this request.
pub fn wanted(req: &[u8]) -> QPhase {
    match req.get(1) {
        Some(&GET_VERSION) => QPhase::Version,
        Some(&GET_CAPABILITIES) => QPhase::Capabilities,
        Some(&NEGOTIATE_ALGORITHMS) => QPhase::Algorithms,
        Some(&GET_DIGESTS) => QPhase::Digests,
        Some(&GET_CERTIFICATE) => QPhase::Certificate,
        _ => QPhase::Challenge,
    }
}

fn check(c: &Case, o: &mut Obs) -> Check {
    let h = nth_bit(cfg().hashes(), c.pick);
    let mut sp = c.slots.clone();
    for s in sp.iter_mut() {
        if let SlotSpec::Pki(p) = s {
            p.hash = h
        }
    }
    let s = slots(&sp);
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut peer = RefRsp::new(&s);
    peer.flags = c.flags;
    peer.pick = c.pick;
    let mut buf = vec![0u8; 512];
    let mut n = 0;
    let after = if cfg().cert() { c.after } else { c.after % 3 };
    let (mut accepted, mut refused) = (0, 0);
    let mut hostile = [&c.rsp].into_iter().chain(c.more.iter());
    let mut phase_at = String::new();
    loop {
        if q.state().name() == "Error" || q.state().name() == "NewSession" || n > 20 {
            break;
        }
        let mut req = vec![];
        for _ in 0..1 + c.ask {
            req = match lib!(q.next_request(&mut buf)) {
                Ok(b) => b.to_vec(),
                Err(e) => {
                    if q.state().name() == "Error" {
                        return Err(format!("asking for a request stopped the requester: {e:?}"));
                    }
                    o.class("no further request");
                    return Ok(());
                }
            };
        }
        let turn = if n < after { None } else { hostile.next() };
        if let Some(Rsp::Chain(b)) = turn {
            // from here on a consistent story around this chain
            if req.get(1) == Some(&GET_CERTIFICATE) {
                peer.chain = Some(b.clone())
            }
        }
        let honest = peer.reply(&req).unwrap_or_default();
        let name = q.state().name();
        let want = wanted(&req);
        let rsp = match turn {
            None => honest,
            Some(r) => {
                phase_at = format!("{want:?}");
                bytes(r, &honest, want)
            }
        };
        n += 1;
        let res = lib!(q.handle_msg(&rsp));
        let now = q.state().name();
        let ctx = |w: &str| format!("{w}: in state {name} response {} gave {res:?}, now {now}", short(&rsp));
        match &res {
            Err(_) => {
                refused += 1;
                if now != "Error" {
                    return Err(ctx("an error without stopping"));
                }
            }
            Ok(done) => {
                accepted += 1;
                if now == "Error" {
                    return Err(ctx("accepted, but stopped"));
                }
                if *done != (now == "NewSession") {
                    return Err(ctx("completion and state disagree"));
                }
                // requests for digests and certificates share a state
                if now == name && want != QPhase::Digests {
                    return Err(ctx("accepted without advancing"));
                }
            }
        }
        if q.transcript().len() > cfg().transcript || q.transcript().get().len() != q.transcript().len() {
            return Err(ctx("the transcript exceeds its size"));
        }
    }
    if q.state().name() == "NewSession" {
        let r = lib!(q.next_request(&mut buf)).map(|b| b.to_vec());
        if r != Err(spdm::RequesterError::InitializationComplete) {
            return Err(format!("a request after completion gave {r:?}"));
        }
    }
    if !phase_at.is_empty() {
        o.nontrivial();
        o.class(format!("hostile in {phase_at}: {}", if refused > 0 { "refused" } else { "accepted" }));
        o.note(format!("{accepted} responses accepted, {refused} refused, hostile from {phase_at} on"));
    }
    Ok(())
}

pub fn rsp() -> BoxedStrategy<Rsp> {
    prop_oneof![
        8 => gen::mutations(4).prop_map(Rsp::Near),
        4 => (prop::sample::select(vec![Version, Capabilities, Algorithms, Digests, Certificate, ChallengeAuth, Measurements, Error]), gen::limits())
            .prop_flat_map(|(k, l)| (gen::msg(k, l), prop_oneof![2 => Just(vec![]), 1 => gen::mutations(3)]))
            .prop_map(|(m, x)| Rsp::Msg(m, x)),
        2 => gen::bytes(200).prop_map(Rsp::Raw),
        2 => (gen::byte(), 0u32..1200, any::<u8>()).prop_map(|(p, len, seed)| Rsp::Kind(p, gen::Fill { len, seed })),
        4 => chain_bytes().prop_map(Rsp::Chain),
    ]
    .boxed()
}
/// Chains in all stages of disrepair.
pub fn chain_bytes() -> BoxedStrategy<Vec<u8>> {
    let spec = gen::chain_spec(cfg().depth, cfg().max_chain());
    (spec, prop_oneof![1 => Just(vec![]), 4 => gen::mutations(4)], any::<bool>())
        .prop_map(|(mut s, m, fix)| {
            // another key than any chain's in slot 0: the peer cannot sign for it
            s.leaf = 1 + s.leaf % 7;
            let mut b = gen::apply_all(&chain(&s).bytes(), &m);
            if fix && b.len() >= 2 {
                let n = b.len() as u16;
                b[..2].copy_from_slice(&n.to_le_bytes())
            }
            b.truncate(65535);
            b
        })
        .boxed()
}

pub fn parts() -> Vec<Part> {
    vec![prop(
        "fuzz",
        "at least one arbitrary response was delivered while a request was outstanding",
        (12000, 150000),
        || {
            let room = gen::session_room(cfg().slots, 64).min(cfg().max_chain()).max(700);
            (
                gen::population(room),
                prop_oneof![5 => Just(RSP_FLAGS), 2 => gen::bits(RSP_FLAGS)],
                any::<u32>(),
                prop_oneof![1 => Just(0u8), 1 => Just(1), 2 => Just(2), 2 => Just(3), 3 => Just(4), 4 => Just(5)],
                rsp(),
                vec(rsp(), 0..4),
                prop_oneof![6 => Just(0u8), 1 => 0u8..3],
            )
                .prop_map(|(slots, flags, pick, after, rsp, more, ask)| Case { slots, flags, pick, after, rsp, more, ask })
        },
        check,
    )]
}
