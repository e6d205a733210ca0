//! C16 (digests and certificates), C17 (challenge replies), C27 (nonces).
use crate::c03;
use crate::cfg::{cfg, CRYPTO};
use crate::gen;
use crate::model::*;
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;
use vcommon::codec::{self, Msg, *};
use vcommon::hash;
use vcommon::run::*;

// ------------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Provision {
    slots: Vec<SlotSpec>,
    hash: u8,
    digests: u8,
    /// the slots asked for in turn, each in a session of its own
    ask: Vec<(u8, u16, u16)>,
    cap: u16,
}
fn provision(c: &Provision, o: &mut Obs) -> Check {
    let s = slots(&c.slots);
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    let h = nth_bit(cfg().hashes(), c.hash as u32);
    let l = cfg().limits(hash::size(h));
    let over = s.iter().flatten().any(|x| x.bytes.len() > cfg().max_chain());
    for (slot, offset, length) in &c.ask {
        if m.phase == Phase::Error {
            lib!(r.reset());
            m = RspModel::new(&s);
        }
        reach(&mut r, &mut m, Phase::IdAuth, CERT_CAP, h, 0)?;
        let mut digests = None;
        for _ in 0..c.digests {
            let st = m.step(&mut r, &req_digests(), rsp_cap())?;
            if st.accepted {
                match codec::decode(&st.reply, &l) {
                    Ok((Msg::Digests { mask, digests: d }, _)) => digests = Some((mask, d)),
                    x => return Err(format!("digests: {x:?}")),
                }
            } else {
                if over != (st.why == "chain too large") {
                    return Err(format!("digests refused: {}", st.why));
                }
                break;
            }
        }
        if m.phase == Phase::Error {
            o.class(if over { "digests refused: a chain is too large" } else { "digests refused" });
            o.nontrivial();
            lib!(r.reset());
            m = RspModel::new(&s);
            reach(&mut r, &mut m, Phase::IdAuth, CERT_CAP, h, 0)?;
        }
        let q = codec::encode(&Msg::GetCertificate { slot: *slot, offset: *offset, length: *length });
        let st = m.step(&mut r, &q, gen::cap_of(c.cap))?;
        o.nontrivial();
        if !st.accepted {
            o.class(format!("certificate refused: {}", st.why));
            continue;
        }
        // beside the model: the two replies against each other and the chain
        match codec::decode(&st.reply, &l) {
            Ok((Msg::Certificate { slot: rs, remainder, portion }, n)) if n == st.reply.len() => {
                if rs != *slot || remainder != 0 {
                    return Err(format!("asked for slot {slot}, got slot {rs} with {remainder} to come"));
                }
                let want = s[*slot as usize].as_ref().map(|x| x.bytes.clone()).unwrap_or_default();
                if portion != want {
                    return Err(format!("slot {slot}: {} instead of {}", short(&portion), short(&want)));
                }
                if let Some((mask, d)) = &digests {
                    let filled = mask >> slot & 1 == 1;
                    if filled == portion.is_empty() {
                        return Err(format!("slot {slot}: digests say {filled}, its portion has {} bytes", portion.len()));
                    }
                    if filled {
                        let i = (mask & ((1u16 << slot) - 1) as u8).count_ones() as usize;
                        if d[i] != hash::sha(h, &portion) {
                            return Err(format!("slot {slot}: the digest is not that of the chain"));
                        }
                    }
                    o.class(if filled { "digest and chain agree" } else { "empty slot" });
                } else {
                    o.class("chain without digests");
                }
            }
            x => return Err(format!("certificate: {x:?}")),
        }
    }
    o.note(format!("slots {:#x}, hash {h}, {} asked for", mask(&s), c.ask.len()));
    Ok(())
}
/// A population for a mask: a real chain in even slots, junk in odd ones.
fn masked(mask: u32) -> Vec<SlotSpec> {
    (0..cfg().slots)
        .map(|i| {
            if mask >> i & 1 == 0 {
                SlotSpec::Empty
            } else if i % 2 == 0 {
                SlotSpec::Pki(ChainSpec::plain((i / 2 % 2).min(cfg().depth) as u8, i as u8))
            } else {
                SlotSpec::Junk { root: 32, inter: vec![20; 1.min(cfg().depth)], leaf: 100 + i as u16, key: i as u8, fill: i as u8 }
            }
        })
        .collect()
}
/// Chain lengths: all up to the configured size and a little more, or with
/// large buffers a selection.
fn lengths() -> &'static Vec<usize> {
    static L: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let max = cfg().max_chain();
        (4..=max + 40).filter(|n| *n <= 70_000 && (max <= 8000 || n % 97 == 0 || *n < 600 || *n + 20 > max || (n + 3) % 256 < 6)).collect()
    })
}
fn exact(n: usize) -> SlotSpec {
    // several pieces, none above 65535
    let root = 32.min(n - 4);
    let rest = n - 4 - root;
    let (a, b) = if cfg().depth > 0 { (rest / 3, rest - rest / 3) } else { (0, rest) };
    if b > 65535 {
        return SlotSpec::Empty;
    }
    SlotSpec::Junk { root: root as u16, inter: if cfg().depth > 0 { vec![a as u16] } else { vec![] }, leaf: b as u16, key: 1, fill: n as u8 }
}

pub fn c16() -> Vec<Part> {
    vec![
        sweep(
            "slots",
            "every set of filled slots, asked for every slot number there is",
            |_| 256 << cfg().slots,
            |i| Provision {
                slots: masked((i >> 8) as u32),
                hash: (i % 3) as u8,
                digests: (i % 2) as u8,
                ask: vec![(i as u8, [0, 1, 0xffff][i % 3], [0xffff, 0, 100, 1024][i / 3 % 4])],
                cap: u16::MAX,
            },
            provision,
        ),
        sweep(
            "lengths",
            "every total chain length up to and beyond the configured size, in the first or the last slot",
            |_| lengths().len() * 2,
            |i| {
                let mut v = vec![SlotSpec::Empty; cfg().slots];
                let at = if i % 2 == 0 { 0 } else { cfg().slots - 1 };
                v[at] = exact(lengths()[i / 2]);
                Provision { slots: v, hash: (i / 2 % 3) as u8, digests: 1, ask: vec![(at as u8, 0, 0xffff), (at as u8, 0, 0)], cap: u16::MAX }
            },
            provision,
        ),
        prop(
            "random",
            "a random population, digests and certificates of random slots; replies were held against each other and against the provisioned chains",
            (6000, 100000),
            || {
                let room = gen::session_room(cfg().slots, 64).max(700).min(cfg().max_chain());
                (
                    prop_oneof![3 => gen::any_population(room), 1 => gen::population(room)],
                    prop_oneof![6 => Just(None), 1 => (0usize..8, 1usize..30).prop_map(Some)],
                    any::<u8>(),
                    prop_oneof![1 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
                    vec((prop_oneof![5 => 0u8..cfg().slots as u8, 1 => 0u8..10, 1 => any::<u8>()], any::<u16>(), any::<u16>()), 1..6),
                    prop_oneof![6 => Just(u16::MAX), 1 => gen::cap()],
                )
                    .prop_map(|(mut slots, over, hash, digests, ask, cap)| {
                        if let Some((i, by)) = over {
                            let i = i % slots.len();
                            slots[i] = exact(cfg().max_chain() + by)
                        }
                        Provision { slots, hash, digests, ask, cap }
                    })
            },
            provision,
        ),
    ]
}

// ------------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ask {
    slot: u8,
    mht: u8,
    nonce: u8,
    pad: u8,
    /// which signers fail now
    fail: u8,
    cap: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Challenges {
    slots: Vec<SlotSpec>,
    flags: u32,
    hash: u8,
    digests: u8,
    via: u8,
    asks: Vec<Ask>,
}
fn challenges(c: &Challenges, o: &mut Obs) -> Check {
    let s = slots(&c.slots);
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    let h = nth_bit(cfg().hashes(), c.hash as u32);
    let via = c.via % cfg().slots as u8;
    let start = |r: &mut spdm::Responder<'_, TSigner>, m: &mut RspModel<'_>| -> Result<bool, String> {
        for f in s.iter().flatten() {
            f.signer.fail.store(false, Ordering::Relaxed)
        }
        reach(r, m, Phase::IdAuth, c.flags, h, 0)?;
        for _ in 0..c.digests {
            if !m.step(r, &req_digests(), rsp_cap())?.accepted {
                return Ok(false);
            }
        }
        Ok(m.step(r, &req_cert(via), rsp_cap())?.accepted)
    };
    if !start(&mut r, &mut m)? {
        o.class("no certificate to be had");
        return Ok(());
    }
    let mut seen: Vec<Vec<u8>> = vec![];
    for a in &c.asks {
        if m.phase == Phase::Error {
            lib!(r.reset());
            m = RspModel::new(&s);
            if !start(&mut r, &mut m)? {
                return Ok(());
            }
        }
        for (i, f) in s.iter().enumerate() {
            if let Some(f) = f {
                f.signer.fail.store(a.fail >> i & 1 == 1, Ordering::Relaxed)
            }
        }
        let signed = |i: usize| s.get(i).and_then(|x| x.as_ref()).map(|x| x.signer.log.lock().unwrap().len()).unwrap_or(0);
        let before: Vec<usize> = (0..s.len()).map(signed).collect();
        let mut q = codec::encode(&Msg::Challenge { slot: a.slot, mht: a.mht, nonce: vec![a.nonce; cfg().nonce_len()] });
        q.extend(vec![0x33; a.pad as usize]);
        getrandom::control::take();
        let st = m.step(&mut r, &q, gen::cap_of(a.cap))?;
        let drawn = getrandom::control::take();
        o.nontrivial();
        for i in 0..s.len() {
            let by = signed(i) - before[i];
            if by > 0 && (i != a.slot as usize || by > 1) {
                return Err(format!("a challenge for slot {} made slot {i}'s key sign {by} times", a.slot));
            }
            if st.accepted && i == a.slot as usize && by != 1 {
                return Err("a challenge reply without a signature by that slot's signer".into());
            }
        }
        if st.accepted {
            // the nonce is fresh; the model has checked all the rest
            let d = m.digest_len();
            let nonce = st.reply[4 + d..4 + d + 32].to_vec();
            if seen.contains(&nonce) || !drawn.windows(32).any(|w| w == nonce) {
                return Err(format!("nonce {} is not fresh", short(&nonce)));
            }
            seen.push(nonce);
            o.class(format!("signed{}", if st.reply[2] & 0x80 != 0 { ", mutual authentication" } else { "" }));
        } else {
            o.class(format!("refused: {}", st.why));
        }
    }
    o.note(format!("{} challenges, {} answered", c.asks.len(), seen.len()));
    Ok(())
}

/// The library's own signer in place of the test's.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Own {
    chain: ChainSpec,
    slot: u8,
    mht: u8,
    hash: u8,
    times: u8,
}
#[cfg(feature = "crypto")]
fn own(c: &Own, o: &mut Obs) -> Check {
    use spdm::crypto::signing::Signer;
    use spdm::crypto::FilledSlot;
    use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
    let fix = chain(&c.chain);
    let bytes = fix.bytes();
    let slot = c.slot as usize % cfg().slots;
    let arr: [Option<FilledSlot<'_, spdm::crypto::ring::signing::RingSigner>>; spdm::config::NUM_SLOTS] =
        std::array::from_fn(|i| {
            (i == slot).then(|| FilledSlot {
                signing_algorithm: BaseAsymAlgo::ECDSA_ECC_NIST_P256,
                hash_algorithm: BaseHashAlgo::SHA_256,
                cert_chain: fix.lib(),
                signer: lib!(spdm::crypto::ring::signing::new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, fix.key.pkcs8())).expect("key"),
            })
        });
    let _ = |s: &spdm::crypto::ring::signing::RingSigner| s.sign(&[]);
    let mut r = Box::new(lib!(spdm::Responder::new(arr)));
    let h = nth_bit(cfg().hashes(), c.hash as u32);
    let mut buf = vec![0u8; rsp_cap()];
    let mut t = vec![];
    let mut reqs = vec![req_version(), req_caps(REQ_FLAGS), req_algs(h), req_cert(slot as u8)];
    reqs.extend((0..c.times).map(|i| codec::encode(&Msg::Challenge { slot: slot as u8, mht: c.mht, nonce: vec![i; cfg().nonce_len()] })));
    for q in reqs {
        let (rsp, res) = lib!(r.handle_msg(&q, &mut buf));
        let rsp = rsp.to_vec();
        res.map_err(|e| format!("{} refused: {e:?}", short(&q)))?;
        t.extend(&q);
        if q[1] != CHALLENGE {
            t.extend(&rsp);
            continue;
        }
        let l = cfg().limits(hash::size(h));
        match codec::decode(&rsp, &l) {
            Ok((Msg::ChallengeAuth { slot: rs, mask, chain_hash, sig, .. }, n)) if n == rsp.len() => {
                if rs as usize != slot || mask != 1 << slot || chain_hash != hash::sha(h, &bytes) {
                    return Err(format!("slot {slot}: reply {}", short(&rsp)));
                }
                t.extend(&rsp[..n - 64]);
                if !verify_raw(fix.key.public(), &hash::sha(h, &t), &sig) {
                    return Err("the signature does not cover the transcript".into());
                }
            }
            x => return Err(format!("reply {x:?}")),
        }
        o.nontrivial();
        if r.transcript().get() != &t[..] {
            return Err("transcript".into());
        }
    }
    o.class(format!("{} challenges", c.times));
    Ok(())
}

pub fn c17() -> Vec<Part> {
    let ask = || {
        (
            prop_oneof![6 => 0u8..cfg().slots as u8, 1 => 0u8..10, 1 => any::<u8>()],
            prop_oneof![6 => prop::sample::select(vec![0u8, 1, 0xff]), 1 => any::<u8>()],
            any::<u8>(),
            prop_oneof![5 => Just(0u8), 1 => 0u8..20],
            prop_oneof![5 => Just(0u8), 1 => any::<u8>()],
            prop_oneof![6 => Just(u16::MAX), 1 => 0u16..300],
        )
            .prop_map(|(slot, mht, nonce, pad, fail, cap)| Ask { slot, mht, nonce, pad, fail, cap })
    };
    let mut v = vec![
        sweep(
            "slots",
            "every set of filled slots, challenged for every slot number there is, with varying measurement hash types, flags and hashes, twice where it is accepted",
            |_| 256 << cfg().slots,
            |i| {
                let a = |n| Ask { slot: i as u8, mht: [0, 1, 0xff, 2][if i % 13 == 0 { 3 } else { i % 3 }], nonce: n, pad: 0, fail: 0, cap: u16::MAX };
                Challenges {
                    slots: masked((i >> 8) as u32),
                    flags: [CERT_CAP, MUT_AUTH_CAP, REQ_FLAGS, 0][i / 3 % 4],
                    hash: (i % 3) as u8,
                    digests: (i % 2) as u8,
                    via: (i / 5 % 8) as u8,
                    asks: vec![a(1), a(1)],
                }
            },
            challenges,
        ),
        sweep(
            "types",
            "every measurement hash type and every flag of the requester",
            |_| 256 * 32,
            |i| Challenges {
                slots: masked(1),
                flags: (1u32 << (i / 256)) & REQ_FLAGS,
                hash: (i % 3) as u8,
                digests: 0,
                via: 0,
                asks: vec![Ask { slot: 0, mht: i as u8, nonce: 3, pad: 0, fail: 0, cap: u16::MAX }],
            },
            challenges,
        ),
        prop(
            "random",
            "challenges of random slots after random negotiation, some of them with a failing signer, malformed or without room; every reply was verified independently",
            (8000, 120000),
            move || {
                let room = gen::session_room(cfg().slots, 64).max(700).min(cfg().max_chain());
                (
                    gen::any_population(room),
                    gen::bits(REQ_FLAGS),
                    any::<u8>(),
                    0u8..3,
                    any::<u8>(),
                    vec(ask(), 1..5),
                )
                    .prop_map(|(slots, flags, hash, digests, via, asks)| Challenges { slots, flags, hash, digests, via, asks })
            },
            challenges,
        ),
    ];
    #[cfg(feature = "crypto")]
    v.push(prop(
        "own_signer",
        "challenges answered with the library's own signer; every reply was verified independently",
        (3000, 40000),
        || {
            let room = gen::session_room(0, 64).max(700).min(cfg().max_chain());
            (gen::chain_spec(cfg().depth, room), any::<u8>(), prop::sample::select(vec![0u8, 1, 0xff]), any::<u8>(), 1u8..3)
                .prop_map(|(chain, slot, mht, hash, times)| Own { chain, slot, mht, hash, times })
        },
        |c, o| {
            // an overlong chain is another property's business
            if chain(&c.chain).len() > gen::session_room(2, 64).min(cfg().max_chain()) {
                o.class("chain too long (skipped)");
                return Ok(());
            }
            own(c, o)
        },
    ));
    v
}

// ------------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// a faithful session of a new requester with the responder; its challenge
    /// is first asked for with `short` bytes of room, then `asks` times
    /// needlessly; `extra` more challenges follow the session
    Session { asks: u8, short: u8, extra: Vec<(u8, u8, u8)> },
    /// the responder with requests made by hand: negotiation with these flags
    /// and hash, then challenges: slot, measurement hash type, what nonce the
    /// requester uses, room
    Hand { flags: u32, hash: u8, digests: u8, via: u8, asks: Vec<(u8, u8, u8, u16)> },
    /// a signed measurement request
    Measurements { sig: bool, raw: bool, index: u8, slot: u8 },
    /// a challenge request made directly
    Challenge { slot: u8, mht: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nonces {
    /// None: the system's own randomness
    seed: Option<u64>,
    slots: Vec<SlotSpec>,
    acts: Vec<Act>,
}
/// What was drawn from the random source since the last call.
fn drawn() -> Vec<u8> {
    getrandom::control::take()
}
#[derive(Default)]
struct Taken {
    all: Vec<Vec<u8>>,
}
impl Taken {
    /// A nonce: exactly what was drawn for it, and never seen before.
    fn take(&mut self, nonce: &[u8], d: &[u8], what: &str) -> Check {
        if nonce.len() != 32 {
            return Err(format!("{what}: a nonce of {} bytes", nonce.len()));
        }
        if d.len() < 32 || !d.windows(32).any(|w| w == nonce) {
            return Err(format!("{what}: nonce {} is not what was drawn for it ({})", short(nonce), short(d)));
        }
        if self.all.iter().any(|x| x == nonce) {
            return Err(format!("{what}: nonce {} was used before", short(nonce)));
        }
        self.all.push(nonce.to_vec());
        Ok(())
    }
    /// A challenge by hand. Ok(false): refused.
    fn challenge(&mut self, m: &mut RspModel<'_>, r: &mut spdm::Responder<'_, TSigner>, slot: u8, mht: u8, with: u8, cap: usize) -> Result<bool, String> {
        let nonce = match with {
            // also one that was used before, so that it shows when it comes back
            250..=255 if !self.all.is_empty() => self.all[with as usize % self.all.len()].clone(),
            n => vec![n; cfg().nonce_len()],
        };
        let q = codec::encode(&Msg::Challenge { slot, mht, nonce });
        drawn();
        let st = m.step(r, &q, cap)?;
        let d = drawn();
        if st.accepted {
            let at = 4 + m.digest_len();
            self.take(&st.reply[at..at + 32], &d, "challenge reply")?;
            // the transcript both authenticate holds these bytes
            if !m.t.ends_with(&st.reply[..st.reply.len() - 64]) {
                return Err("the reply is not in the transcript".into());
            }
        }
        Ok(st.accepted)
    }
}
fn nonces(c: &Nonces, o: &mut Obs) -> Check {
    match c.seed {
        Some(s) => getrandom::control::seed(s),
        None => getrandom::control::unseed(),
    }
    let s = slots(&c.slots);
    let root = root_cert(0);
    let mut r = Box::new(responder(&s));
    let mut t = Taken::default();
    drawn();
    for a in &c.acts {
        match a {
            Act::Session { asks, short: sh, extra } => {
                let trust = match &s[0] {
                    Some(f) => trust_of(f),
                    None => continue,
                };
                if !cfg().chal() {
                    continue;
                }
                let mut q = Box::new(requester(&root));
                let mut qm = ReqModel::new();
                let mut rm = RspModel::new(&s);
                while qm.phase != QPhase::Done && qm.phase != QPhase::Error {
                    let challenge = qm.phase == QPhase::Challenge;
                    if challenge {
                        for i in 0..*sh {
                            if qm.send(&mut q, 35 - i as usize)?.is_some() {
                                return Err("a challenge in less than 36 bytes".into());
                            }
                        }
                        for i in 0..*asks {
                            // it becomes part of the history, so the session
                            // cannot succeed
                            drawn();
                            let cap = [512, 36, 37][(i + *sh) as usize % 3];
                            if let Some(b) = qm.send(&mut q, cap)? {
                                t.take(&b[4..36], &drawn(), "repeated challenge")?;
                            }
                        }
                    }
                    drawn();
                    let req = qm.send(&mut q, if challenge && *sh == 1 { 36 } else { 512 })?;
                    let d = drawn();
                    let req = match req {
                        Some(b) => b,
                        None => break,
                    };
                    if challenge {
                        t.take(&req[4..], &d, "challenge")?;
                    }
                    drawn();
                    let st = rm.step(&mut r, &req, rsp_cap())?;
                    let d = drawn();
                    if !st.accepted {
                        o.class(format!("refused: {}", st.why));
                        break;
                    }
                    if challenge {
                        let at = 4 + rm.digest_len();
                        t.take(&st.reply[at..at + 32], &d, "challenge reply")?;
                        if !rm.t.ends_with(&st.reply[..st.reply.len() - 64]) {
                            return Err("the reply is not in the transcript".into());
                        }
                        if *asks > 0 {
                            o.class("challenge asked for several times");
                            break;
                        }
                    }
                    if !qm.deliver(&mut q, &st.reply, &trust)? {
                        o.class("session failed");
                        break;
                    }
                }
                if qm.phase == QPhase::Done {
                    o.class("session");
                }
                if rm.phase == Phase::Challenge {
                    for (slot, mht, with) in extra {
                        if !t.challenge(&mut rm, &mut r, *slot, *mht, *with, rsp_cap())? {
                            break;
                        }
                    }
                }
                if rm.phase == Phase::Error {
                    lib!(r.reset());
                }
            }
            Act::Hand { flags, hash, digests, via, asks } => {
                if !cfg().cert() || !cfg().chal() {
                    continue;
                }
                let mut rm = RspModel::new(&s);
                let h = nth_bit(cfg().hashes(), *hash as u32);
                reach(&mut r, &mut rm, Phase::IdAuth, *flags, h, 0)?;
                let mut ok = true;
                for _ in 0..*digests {
                    ok = ok && rm.step(&mut r, &req_digests(), rsp_cap())?.accepted;
                }
                ok = ok && rm.step(&mut r, &req_cert(via % cfg().slots as u8), rsp_cap())?.accepted;
                for (slot, mht, with, cap) in asks {
                    ok = ok && t.challenge(&mut rm, &mut r, *slot, *mht, *with, gen::cap_of(*cap))?;
                }
                o.class(if ok { "challenges by hand" } else { "challenges by hand, one refused" });
                if rm.phase == Phase::Error {
                    lib!(r.reset());
                }
            }
            Act::Measurements { sig, raw, index, slot } => {
                use spdm::msgs::measurements::{GetMeasurements, MeasurementIndex, RequestAttributes};
                use spdm::msgs::Msg as _;
                let at = RequestAttributes { signature_requested: *sig, raw_bit_stream_requested: *raw };
                let ix = MeasurementIndex::from(*index);
                drawn();
                let m = GetMeasurements::new(at, ix, slot % cfg().slots as u8);
                let d = drawn();
                let mut b = [0u8; 64];
                let n = lib!(m.write(&mut b)).map_err(|e| format!("{e:?}"))?;
                if *sig {
                    if n != 37 {
                        return Err(format!("a signed measurement request of {n} bytes"));
                    }
                    t.take(&b[4..36], &d, "measurement request")?;
                } else if n != 4 {
                    return Err(format!("an unsigned measurement request of {n} bytes"));
                }
                o.class(if *sig { "signed measurement request" } else { "unsigned measurement request" });
            }
            Act::Challenge { slot, mht } => {
                use spdm::msgs::Msg as _;
                drawn();
                let m = spdm::msgs::Challenge::new(*slot, spdm::msgs::MeasurementHashType::try_from(*mht).map_err(|_| "type")?);
                let d = drawn();
                let mut b = [0u8; 64];
                let n = lib!(m.write(&mut b)).map_err(|e| format!("{e:?}"))?;
                if n != 36 || m.nonce.as_ref() != &b[4..36] {
                    return Err(format!("challenge {}", short(&b[..n])));
                }
                t.take(&b[4..36], &d, "challenge")?;
            }
        }
    }
    let all = &t.all;
    if c.seed.is_none() && all.len() > 40 {
        // real randomness: no bit is the same in all of them (probability
        // 2^-40 per bit if they are random)
        for bit in 0..256 {
            let ones = all.iter().filter(|n| n[bit / 8] >> (bit % 8) & 1 == 1).count();
            if ones == 0 || ones == all.len() {
                return Err(format!("bit {bit} is the same in {} nonces", all.len()));
            }
        }
        o.class("system randomness");
    }
    if all.len() > 1 {
        o.nontrivial();
    }
    o.class(format!("{} nonces", all.len().min(9)));
    o.note(format!("{} nonces", all.len()));
    Ok(())
}
fn act() -> BoxedStrategy<Act> {
    let mht = || prop::sample::select(vec![0u8, 1, 0xff]);
    let slot = || prop_oneof![8 => 0u8..cfg().slots as u8, 1 => any::<u8>()];
    let with = || prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => 250u8..=255];
    prop_oneof![
        4 => (prop_oneof![3 => Just(0u8), 1 => 1u8..4], 0u8..3, vec((slot(), mht(), with()), 0..4))
            .prop_map(|(asks, short, extra)| Act::Session { asks, short, extra }),
        4 => (
            gen::bits(REQ_FLAGS),
            0u8..3,
            0u8..3,
            any::<u8>(),
            vec((slot(), mht(), with(), prop_oneof![8 => Just(u16::MAX), 1 => 0u16..300]), 1..5),
        )
            .prop_map(|(flags, hash, digests, via, asks)| Act::Hand { flags, hash, digests, via, asks }),
        2 => (any::<bool>(), any::<bool>(), any::<u8>(), any::<u8>()).prop_map(|(sig, raw, index, slot)| Act::Measurements { sig, raw, index, slot }),
        2 => (any::<u8>(), mht()).prop_map(|(slot, mht)| Act::Challenge { slot, mht }),
    ]
    .boxed()
}
fn nonce_slots() -> BoxedStrategy<Vec<SlotSpec>> {
    let room = gen::session_room(cfg().slots, 64).max(700).min(cfg().max_chain()).min(4000);
    prop_oneof![
        4 => gen::population(room),
        2 => gen::any_population(room),
        2 => (0u32..1 << cfg().slots).prop_map(|m| masked(m | 1)),
        1 => Just(masked(1)),
    ]
    .boxed()
}

pub fn c27() -> Vec<Part> {
    let _ = (CRYPTO, c03::good as fn(_, _, _) -> _);
    vec![
        prop(
            "drawn",
            "more than one nonce: each was exactly 32 bytes drawn from the (recorded, seeded) random source at that moment, and none repeated",
            (24000, 200000),
            || (any::<u64>(), nonce_slots(), vec(act(), 1..8)).prop_map(|(s, slots, acts)| Nonces { seed: Some(s), slots, acts }),
            nonces,
        ),
        prop(
            "system",
            "many nonces from the system's randomness: none repeated, no bit fixed",
            (400, 3000),
            || (nonce_slots(), vec(act(), 60..90)).prop_map(|(slots, acts)| Nonces { seed: None, slots, acts }),
            nonces,
        ),
    ]
}
