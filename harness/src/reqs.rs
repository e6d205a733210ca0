//! C10: the requester follows the protocol order its capabilities dictate.
use crate::c04::{self, Rsp};
use crate::cfg::cfg;
use crate::gen;
use crate::model::*;
use crate::order::VERSIONS;
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::codec::{self, Msg, *};
use vcommon::run::*;

const ALL: [QPhase; 6] =
    [QPhase::Version, QPhase::Capabilities, QPhase::Algorithms, QPhase::Digests, QPhase::Certificate, QPhase::Challenge];
/// The phases a requester with these capabilities gets to, with a peer that
/// has them all.
fn phases() -> usize {
    match complete_after(RSP_FLAGS) {
        Kind::Algorithms => 3,
        Kind::Certificate => 5,
        _ => 6,
    }
}
/// A requester in a phase with its request sent, and the honest response.
fn at<T>(
    phase: QPhase,
    pick: u32,
    f: impl FnOnce(&mut spdm::RequesterInit<'_, TSigner>, &mut ReqModel, &mut RefRsp<'_>, &[u8], Vec<u8>, &dyn Fn(&codec::Chain) -> Trust) -> Result<T, String>,
) -> Result<T, String> {
    let s = slots(&[SlotSpec::Pki(ChainSpec { hash: nth_bit(cfg().hashes(), pick), ..ChainSpec::plain(0, 1) })]);
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    peer.pick = pick;
    peer.flags = RSP_FLAGS;
    let trust = trust_of(s[0].as_ref().unwrap());
    with_ref(&mut q, &mut qm, &mut peer, &trust, phase)?;
    let req = qm.send(&mut q, 512)?.ok_or("no request")?;
    let honest = peer.reply(&req)?;
    f(&mut q, &mut qm, &mut peer, &req, honest, &trust)
}

fn header(c: &(u8, u8, u8), o: &mut Obs) -> Check {
    let phase = ALL[c.0 as usize];
    at(phase, c.2 as u32, |q, qm, _, _, honest, trust| {
        let mut b = honest;
        b[0] = c.1;
        b[1] = c.2;
        let ok = qm.deliver(q, &b, trust)?;
        let k = phase.awaits().unwrap();
        // independent of the model
        if ok != (b[..2] == k.header()) {
            return Err(format!("in phase {phase:?} header {:02x?}: accepted {ok}", &b[..2]));
        }
        o.nontrivial();
        o.key((c.0 as u64) << 16 | (c.1 as u64) << 8 | c.2 as u64);
        o.class(format!("{phase:?}: {}", if ok { "accepted" } else { "refused" }));
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Code {
    phase: u8,
    version: u8,
    code: u8,
    body: u8,
}
/// A proper message for this code.
fn sample_msg(code: u8, body: u8) -> Option<Vec<u8>> {
    let k = Kind::from_code(code)?;
    Some(codec::encode(&vcommon::run::sample(&gen::msg(k, cfg().limits(32)), body as u64)))
}
fn code(c: &Code, o: &mut Obs) -> Check {
    let phase = ALL[c.phase as usize];
    at(phase, 0, |q, qm, _, _, honest, trust| {
        let mut b = match c.body {
            0 => honest,
            1 => vec![0; 40],
            2 => vec![0; 2],
            v => match sample_msg(c.code, v) {
                Some(b) => b,
                None => vec![0; 4],
            },
        };
        b[0] = c.version;
        b[1] = c.code;
        let ok = qm.deliver(q, &b, trust)?;
        o.nontrivial();
        o.class(format!("{phase:?}: {}", if ok { "accepted" } else { "refused" }));
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Turn {
    /// buffers the request is first asked for with
    asks: Vec<u16>,
    /// None: the honest response
    rsp: Option<Rsp>,
    pad: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Story {
    slots: Vec<SlotSpec>,
    flags: u32,
    pick: u32,
    peer: Choices,
    turns: Vec<Turn>,
}
fn bytes(r: &Rsp, honest: &[u8], phase: QPhase, peer: &mut RefRsp<'_>) -> Vec<u8> {
    match r {
        Rsp::Near(m) => gen::apply_all(honest, m),
        Rsp::Msg(m, x) => gen::apply_all(&codec::encode(m), x),
        Rsp::Raw(b) => b.clone(),
        Rsp::Kind(p, f) => {
            let mut v = phase.awaits().unwrap_or(Kind::Error).header().to_vec();
            v.push(*p);
            v.extend(f.get());
            v
        }
        Rsp::Chain(b) => {
            if phase == QPhase::Certificate {
                peer.chain = Some(b.clone())
            }
            codec::encode(&Msg::Certificate { slot: 0, remainder: 0, portion: b.clone() })
        }
    }
}
fn story(c: &Story, o: &mut Obs) -> Check {
    let mut sp = c.slots.clone();
    let h = nth_bit(cfg().hashes(), c.pick);
    for s in sp.iter_mut() {
        if let SlotSpec::Pki(p) = s {
            p.hash = h
        }
    }
    let s = slots(&sp);
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    peer.flags = c.flags;
    peer.pick = c.pick;
    c.peer.put(&mut peer);
    let trust = trust_of(s[0].as_ref().unwrap());
    let (mut failed, mut hostile, mut repeated) = (0, 0, 0);
    let mut turns = c.turns.iter();
    let honest_turn = Turn { asks: vec![], rsp: None, pad: 0 };
    for _ in 0..12 {
        if matches!(qm.phase, QPhase::Done | QPhase::Error) {
            break;
        }
        let t = turns.next().unwrap_or(&honest_turn);
        let mut last = None;
        for a in &t.asks {
            match qm.send(&mut q, *a as usize)? {
                None => failed += 1,
                r => {
                    repeated += last.is_some() as u32;
                    last = r;
                }
            }
        }
        if last.is_none() {
            last = qm.send(&mut q, 512)?;
        }
        let req = match last {
            Some(r) => r,
            None => {
                o.class("the transcript is full");
                break;
            }
        };
        // the peer is told of every request that was recorded
        let phase = qm.phase;
        let honest = {
            let before = qm.t[..qm.t.len() - req.len()].to_vec();
            if req[1] != GET_VERSION {
                peer.t = before;
            }
            match peer.reply(&req) {
                Ok(b) => b,
                // it may have been led to ask for what is not there
                Err(_) if hostile > 0 => vec![0x12, ERROR, 1, 0],
                Err(e) => return Err(e),
            }
        };
        let mut b = match &t.rsp {
            None => honest,
            Some(r) => {
                hostile += 1;
                bytes(r, &honest, phase, &mut peer)
            }
        };
        if t.rsp.is_none() && phase != QPhase::Challenge {
            b.extend(vec![0x77; t.pad as usize]);
        }
        let ok = qm.deliver(&mut q, &b, &trust)?;
        if ok {
            if let Some(a) = &qm.algs {
                peer.algs = Some(a.clone());
            }
        }
        o.class(format!("{phase:?}: {} {}", if t.rsp.is_some() { "hostile" } else { "honest" }, if ok { "accepted" } else { "refused" }));
    }
    if qm.phase == QPhase::Done {
        for cap in [512, 0, 3, 512] {
            qm.send(&mut q, cap)?;
        }
        o.class("complete, and stays complete");
    }
    o.nontrivial();
    o.note(format!("{failed} requests that did not fit, {repeated} repeated, {hostile} hostile responses, ends in {:?}", qm.phase));
    Ok(())
}
fn turn() -> BoxedStrategy<Turn> {
    (
        prop_oneof![4 => Just(vec![]), 2 => vec(prop_oneof![0u16..64, Just(512u16)], 1..4)],
        prop_oneof![5 => Just(None), 2 => c04::rsp().prop_map(Some)],
        prop_oneof![4 => Just(0u8), 1 => 0u8..40],
    )
        .prop_map(|(asks, rsp, pad)| Turn { asks, rsp, pad })
        .boxed()
}

/// A phase in which the request is asked for very many times.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asks {
    phase: u8,
    /// so many buffers that are too small
    small: u32,
    cap: u8,
    /// then so many that do
    large: u16,
    pick: u32,
}
fn asks(c: &Asks, o: &mut Obs) -> Check {
    let phase = ALL[c.phase as usize % phases()];
    let s = slots(&[SlotSpec::Pki(ChainSpec { hash: nth_bit(cfg().hashes(), c.pick), ..ChainSpec::plain(0, 1) })]);
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    peer.pick = c.pick;
    peer.flags = RSP_FLAGS;
    let trust = trust_of(s[0].as_ref().unwrap());
    with_ref(&mut q, &mut qm, &mut peer, &trust, phase)?;
    for i in 0..c.small {
        // the shortest request has four bytes
        if qm.send(&mut q, c.cap as usize % 4).map_err(|e| format!("request {i} that does not fit: {e}"))?.is_some() {
            return Err(format!("a request in {} bytes", c.cap % 4));
        }
    }
    let mut last = None;
    for i in 0..=c.large {
        match qm.send(&mut q, 512).map_err(|e| format!("request {i} repeated: {e}"))? {
            None => {
                o.class("the transcript is full");
                o.nontrivial();
                return Ok(());
            }
            r => last = r,
        }
    }
    let req = last.unwrap();
    if req[1] != GET_VERSION {
        peer.t = qm.t[..qm.t.len() - req.len()].to_vec();
    }
    let rsp = peer.reply(&req)?;
    let full = qm.judge(&rsp, &trust) == Verdict::Reject(FULL);
    if !qm.deliver(&mut q, &rsp, &trust)? {
        if full {
            o.class("the transcript is full");
            return Ok(());
        }
        return Err(format!("the response {} to a request asked for {} times is refused", short(&rsp), c.small + c.large as u32));
    }
    let done = with_ref_room(&mut q, &mut qm, &mut peer, &trust, QPhase::Done)?;
    o.nontrivial();
    o.class(format!("{phase:?}: {}", if done { "completed" } else { "the transcript is full" }));
    o.note(format!("{phase:?}: {} too small, {} repeated", c.small, c.large));
    Ok(())
}

pub fn c10() -> Vec<Part> {
    vec![
        prop(
            "asks",
            "a request was asked for many times, with buffers too small (up to tens of thousands of times) and large enough: each was compared with the model, and the session completed",
            (200, 3000),
            || {
                let small = prop_oneof![4 => 0u32..1000, 4 => 250u32..262, 2 => Just(0), 1 => 65530u32..65545];
                let large = prop_oneof![3 => Just(0u16), 2 => 0u16..6, 1 => 0u16..700];
                (0u8..6, small, 0u8..4, large, any::<u32>()).prop_map(|(phase, small, cap, large, pick)| Asks { phase, small, cap, large, pick })
            },
            asks,
        ),
        sweep(
            "headers",
            "both header bytes take every value in every phase, before the body of the honest response",
            |_| phases() * 65536,
            |i| ((i >> 16) as u8, (i >> 8) as u8, i as u8),
            header,
        ),
        sweep(
            "codes",
            "every message code in every phase, with five versions and six bodies, among them proper ones of that code",
            |_| phases() * 256 * 5 * 6,
            |i| Code { body: (i % 6) as u8, version: VERSIONS[i / 6 % 5], code: (i / 30 % 256) as u8, phase: (i / 7680) as u8 },
            code,
        ),
        crate::order::gates(),
        prop(
            "stories",
            "a session with repeated and failing requests and hostile or padded responses; every request, verdict, state and recorded value was compared with the model",
            (8000, 150000),
            || {
                let room = gen::session_room(cfg().slots, 64).min(cfg().max_chain()).max(700);
                (
                    gen::population(room),
                    prop_oneof![5 => Just(RSP_FLAGS), 3 => gen::bits(RSP_FLAGS)],
                    any::<u32>(),
                    gen::choices(),
                    prop_oneof![1 => Just(vec![]), 2 => vec(turn(), 0..7)],
                )
                    .prop_map(|(slots, flags, pick, peer, turns)| Story {
                        slots,
                        flags,
                        pick,
                        peer,
                        turns,
                    })
            },
            story,
        ),
    ]
}
