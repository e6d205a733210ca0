//! A responder survives any bytes in any order.
use crate::cfg::cfg;
use crate::gen::{self, Mut};
use crate::model::{phase_of, short, Phase};
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::codec::{self, Msg, *};
use vcommon::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// the request an honest requester would send now
    Good { slot: u8, v: u8 },
    /// the same, with changes
    Near { slot: u8, muts: Vec<Mut> },
    Msg { msg: Msg, muts: Vec<Mut> },
    Raw(Vec<u8>),
    Big { code: u8, fill: gen::Fill },
    Reset,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub op: Op,
    pub cap: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub slots: Vec<SlotSpec>,
    pub steps: Vec<Step>,
    pub fail: u8,
}

pub fn good(phase: Phase, slot: u8, v: u8) -> Vec<u8> {
    match phase {
        Phase::Version | Phase::Error => req_version(),
        Phase::Capabilities => req_caps(if v & 1 == 0 { REQ_FLAGS } else { CERT_CAP | CHAL_CAP }),
        Phase::Algorithms => req_algs(1 << (v % 3) & cfg().hashes() | (v as u32 >> 7)),
        Phase::IdAuth if v & 3 == 0 => req_digests(),
        Phase::IdAuth => req_cert(slot),
        Phase::Challenge => req_challenge(slot, v),
    }
}
pub fn op_bytes(op: &Op, phase: Phase) -> Option<Vec<u8>> {
    Some(match op {
        Op::Good { slot, v } => good(phase, *slot, *v),
        Op::Near { slot, muts } => gen::apply_all(&good(phase, *slot, 1), muts),
        Op::Msg { msg, muts } => gen::apply_all(&codec::encode(msg), muts),
        Op::Raw(b) => b.clone(),
        Op::Big { code, fill } => {
            let mut v = vec![0x11, *code];
            v.extend(fill.get());
            v
        }
        Op::Reset => return None,
    })
}

/// The response code an accepted request must be answered with.
fn response_to(code: u8) -> Option<u8> {
    Some(match code {
        GET_VERSION => VERSION,
        GET_CAPABILITIES => CAPABILITIES,
        NEGOTIATE_ALGORITHMS => ALGORITHMS,
        GET_DIGESTS => DIGESTS,
        GET_CERTIFICATE => CERTIFICATE,
        CHALLENGE => CHALLENGE_AUTH,
        _ => return None,
    })
}

fn check(c: &Case, o: &mut Obs) -> Check {
    let s = slots(&c.slots);
    for (i, f) in s.iter().enumerate() {
        if let Some(f) = f {
            f.signer.fail.store(c.fail >> i & 1 == 1, std::sync::atomic::Ordering::Relaxed)
        }
    }
    let mut r = Box::new(responder(&s));
    let (mut accepted, mut refused, mut deepest) = (0, 0, Phase::Version);
    for st in &c.steps {
        let phase = phase_of(r.state());
        if phase == Phase::Error {
            // stopped: only a reset brings it back
            lib!(r.reset());
            if phase_of(r.state()) != Phase::Version || r.transcript().len() != 0 {
                return Err("a reset does not bring back the initial phase".into());
            }
        }
        let phase = phase_of(r.state());
        let b = match op_bytes(&st.op, phase) {
            None => {
                lib!(r.reset());
                if phase_of(r.state()) != Phase::Version || r.transcript().len() != 0 {
                    return Err("a reset does not bring back the initial phase".into());
                }
                continue;
            }
            Some(b) => b,
        };
        let cap = gen::cap_of(st.cap);
        let mut whole = vec![0xC3u8; cap + 32];
        let (buf, guard) = whole.split_at_mut(cap);
        let range = buf.as_ptr() as usize..buf.as_ptr() as usize + cap;
        let (out, res) = lib!(r.handle_msg(&b, buf));
        let at = out.as_ptr() as usize;
        let n = out.len();
        let reply = out.to_vec();
        let ctx = |w: &str| format!("{w}: phase {phase:?}, request {}, buffer of {cap}, reply {} ({res:?})", short(&b), short(&reply));
        if n > 0 && (at < range.start || at + n > range.end) {
            return Err(ctx("the reply lies outside the buffer"));
        }
        if guard.iter().any(|x| *x != 0xC3) {
            return Err(ctx("wrote past the buffer"));
        }
        let now = phase_of(r.state());
        if now > deepest && now != Phase::Error {
            deepest = now
        }
        match &res {
            Ok(()) => {
                accepted += 1;
                if now == Phase::Error {
                    return Err(ctx("accepted, but stopped"));
                }
                if b.len() < 2 || n < 2 || response_to(b[1]) != Some(reply[1]) {
                    return Err(ctx("accepted without the matching response"));
                }
            }
            Err(_) => {
                refused += 1;
                if now != Phase::Error {
                    return Err(ctx("an error without stopping"));
                }
            }
        }
        if r.transcript().len() > cfg().transcript || r.transcript().get().len() != r.transcript().len() {
            return Err(ctx("the transcript exceeds its size"));
        }
    }
    // whatever happened, it can still serve an honest peer
    for f in s.iter().flatten() {
        f.signer.fail.store(false, std::sync::atomic::Ordering::Relaxed)
    }
    let stopped = phase_of(r.state()) == Phase::Error;
    if stopped {
        lib!(r.reset());
    }
    let root = root_cert(0);
    plain_session(&mut r, &s, &root).map_err(|e| {
        format!("afterwards an honest session fails ({}): {e}", if stopped { "after a reset" } else { "by restarting the protocol" })
    })?;
    if refused > 0 || accepted > 2 {
        o.nontrivial();
    }
    o.class(format!("deepest phase {deepest:?}"));
    o.class(format!("{} refusals", refused.min(4)));
    o.note(format!("{accepted} accepted, {refused} refused, deepest phase {deepest:?}"));
    Ok(())
}

pub fn step() -> BoxedStrategy<Step> {
    let op = prop_oneof![
        12 => (prop_oneof![3 => Just(0u8), 2 => 0u8..9], any::<u8>()).prop_map(|(slot, v)| Op::Good { slot, v }),
        6 => (prop_oneof![2 => Just(0u8), 1 => any::<u8>()], gen::mutations(4)).prop_map(|(slot, muts)| Op::Near { slot, muts }),
        3 => (gen::any_kind(), gen::limits())
            .prop_flat_map(|(k, l)| (gen::msg(k, l), prop_oneof![Just(vec![]), gen::mutations(4)]))
            .prop_map(|(msg, muts)| Op::Msg { msg, muts }),
        2 => gen::bytes(200).prop_map(Op::Raw),
        1 => (gen::byte(), 0u32..3000, any::<u8>()).prop_map(|(code, len, seed)| Op::Big { code, fill: gen::Fill { len, seed } }),
        1 => Just(Op::Reset),
    ];
    (op, gen::cap()).prop_map(|(op, cap)| Step { op, cap }).boxed()
}

/// Slot 0 can serve a session; the others are arbitrary and may be too large.
pub fn case(n: usize) -> BoxedStrategy<Case> {
    let room = gen::session_room(cfg().slots, 64).min(cfg().max_chain()).max(700);
    let broken = prop_oneof![5 => Just(None), 1 => (0usize..8, gen::junk_spec(cfg().max_chain())).prop_map(Some)];
    // in some, many requests in order before anything else
    let run = prop_oneof![
        3 => Just(vec![]),
        1 => (prop_oneof![1 => 0u8..8, 1 => Just(0u8)], 1usize..4 * n, prop_oneof![Just(0xfcu8), Just(0xff), Just(0xfd)], vec(any::<u8>(), 60)).prop_map(|(slot, n, mask, v)| {
            (0..n).map(|i| Step { op: Op::Good { slot, v: v[i % v.len()] & mask }, cap: u16::MAX }).collect::<Vec<_>>()
        }),
    ];
    (gen::population(room), broken, (0u8..6, any::<u8>(), run, vec(step(), 1..n)), prop_oneof![4 => Just(0u8), 1 => any::<u8>()])
        .prop_map(|(mut slots, broken, (ahead, v, run, more), fail)| {
            // begin some way into a session
            let ahead = if run.is_empty() { ahead } else { ahead.min(3) };
            let mut steps: Vec<Step> =
                (0..ahead).map(|_| Step { op: Op::Good { slot: 0, v: v | 1 }, cap: u16::MAX }).collect();
            steps.extend(run);
            steps.extend(more);
            if let Some((i, j)) = broken {
                if i > 0 && i < slots.len() {
                    slots[i] = j
                }
            }
            Case { slots, steps, fail }
        })
        .boxed()
}

pub fn parts() -> Vec<Part> {
    vec![prop(
        "fuzz",
        "at least one request was refused or three accepted, and the final honest session on the same responder completed",
        (8000, 120000),
        || case(14),
        check,
    )]
}
