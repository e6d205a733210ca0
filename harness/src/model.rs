//! Reference models of the two endpoints: what each must do with a message,
//! down to the bytes, given only the configuration, the slots and the history.
use serde::{Deserialize, Serialize};
use crate::cfg::{cfg, CRYPTO};
use crate::glue;
use crate::world::*;
use spdm::requester::AllStates as QState;
use spdm::responder::AllStates as PState;
use spdm::{RequesterError, RequesterInit, Responder, ResponderError};
use std::sync::atomic::Ordering;
use vcommon::codec::{self, *};
use vcommon::hash;

pub const UNEXPECTED: &[u8] = &[0x04, 0x07, 0x41];
pub const INVALID: &[u8] = &[0x01, 0x0E];
pub const TOO_LARGE: &[u8] = &[0x0D, 0x0F];
pub const INTERNAL: &[u8] = &[0x05];
/// why a message is refused that the transcript has no room for
pub const FULL: &str = "transcript full";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Phase {
    Version,
    Capabilities,
    Algorithms,
    IdAuth,
    Challenge,
    Error,
}
impl Phase {
    pub fn name(self) -> &'static str {
        match self {
            Phase::Version => "Version",
            Phase::Capabilities => "Capabilities",
            Phase::Algorithms => "Algorithms",
            Phase::IdAuth => "IdAuth",
            Phase::Challenge => "Challenge",
            Phase::Error => "Error",
        }
    }
}
pub fn phase_of(s: &PState) -> Phase {
    match s {
        PState::Error => Phase::Error,
        PState::Version(_) => Phase::Version,
        PState::Capabilities(_) => Phase::Capabilities,
        PState::Algorithms(_) => Phase::Algorithms,
        PState::IdAuth(_) => Phase::IdAuth,
        PState::Challenge(_) => Phase::Challenge,
    }
}

/// What the responder must do with a request.
#[derive(Clone, Debug)]
pub enum Exp {
    /// exactly these bytes
    Reply(Vec<u8>, Phase),
    /// a CHALLENGE_AUTH for this slot
    Auth { slot: usize },
    /// an error of one of these classes; and, when the code was the reason,
    /// the code that must be named
    Refuse { classes: Vec<u8>, got: Option<u8>, why: &'static str },
    /// both are within the specification
    Either(Box<Exp>, Box<Exp>),
}
fn refuse(classes: &[&[u8]], why: &'static str) -> Exp {
    Exp::Refuse { classes: classes.concat(), got: None, why }
}

#[derive(Clone)]
pub struct RspModel<'a> {
    pub phase: Phase,
    pub t: Vec<u8>,
    pub req_ct: u8,
    pub req_flags: u32,
    pub algs: Option<Msg>,
    pub slots: &'a Slots,
}

/// Which algorithms the responder picks: the lowest it can carry out of each
/// category.
pub fn select(neg: &Msg) -> Option<Msg> {
    if let Msg::NegotiateAlgorithms { spec, asym, hash, algs } = neg {
        let asym = asym & P256;
        let hash = hash & cfg().hashes();
        if asym == 0 || hash == 0 || algs.iter().any(|(_, b)| *b == 0) {
            return None;
        }
        let low = |x: u32| 1u32 << x.trailing_zeros();
        Some(Msg::Algorithms {
            spec: *spec,
            mhash: low(hash),
            asym: low(asym),
            hash: low(hash),
            algs: algs.iter().map(|(t, b)| (*t, low(*b as u32) as u16)).collect(),
        })
    } else {
        None
    }
}

/// An ALGORITHMS as a responder may send it: with no measurement
/// specification selected where none was offered, which a requester that
/// always offers one would not accept.
pub fn decode_selection(reply: &[u8]) -> Result<Msg, String> {
    let mut b = reply.to_vec();
    let none = b.len() > 6 && b[6] == 0;
    if none {
        b[6] = 1
    }
    match codec::decode(&b, &cfg().limits(32)) {
        Ok((Msg::Algorithms { spec, mhash, asym, hash, algs }, n)) if n == b.len() => {
            let m = Msg::Algorithms { spec: if none { 0 } else { spec }, mhash, asym, hash, algs };
            if codec::encode(&m) != reply {
                return Err(format!("{} is not in canonical form", short(reply)));
            }
            Ok(m)
        }
        other => Err(format!("{} is not an ALGORITHMS: {other:?}", short(reply))),
    }
}

/// Whether `sel` answers the offer `neg`: for every category offered exactly
/// one algorithm, offered and one the responder can carry out.
pub fn valid_selection(neg: &Msg, sel: &Msg) -> Result<(), String> {
    if let (
        Msg::NegotiateAlgorithms { spec, asym, hash, algs },
        Msg::Algorithms { spec: s, mhash: m, asym: a, hash: h, algs: al },
    ) = (neg, sel)
    {
        let one = |what: &str, sel: u32, of: u32| {
            if sel.count_ones() == 1 && sel & of == sel {
                Ok(())
            } else {
                Err(format!("{what} selection {sel:#x}, of those offered and supported {of:#x}"))
            }
        };
        if s != spec {
            return Err(format!("measurement specification {s:#x} for an offer of {spec:#x}"));
        }
        one("signature", *a, asym & P256)?;
        one("hash", *h, hash & cfg().hashes())?;
        one("measurement hash", *m, hash & cfg().hashes())?;
        if al.len() != algs.len() {
            return Err(format!("{} structures for {} offered", al.len(), algs.len()));
        }
        for ((t, b), (u, x)) in algs.iter().zip(al) {
            if t != u {
                return Err(format!("structure of type {u} where type {t} was offered"));
            }
            one(&format!("type {t}"), *x as u32, *b as u32)?;
        }
        Ok(())
    } else {
        Err("not a selection".into())
    }
}

pub fn version_reply() -> Vec<u8> {
    codec::encode(&Msg::Version(vec![(1, 0, 0, 0), (1, 1, 0, 0)]))
}

/// What a step did, for the checks that look further.
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub reply: Vec<u8>,
    pub accepted: bool,
    pub phase: Phase,
    pub why: &'static str,
}

impl<'a> RspModel<'a> {
    pub fn new(slots: &'a Slots) -> RspModel<'a> {
        RspModel { phase: Phase::Version, t: vec![], req_ct: 0, req_flags: 0, algs: None, slots }
    }
    pub fn hash(&self) -> u32 {
        match &self.algs {
            Some(Msg::Algorithms { hash, .. }) => *hash,
            _ => 1,
        }
    }
    pub fn digest_len(&self) -> usize {
        hash::size(self.hash())
    }
    fn fits(&self, req: &[u8], reply: &[u8], recorded: usize, cap: usize, clear: bool, next: Phase) -> Exp {
        let used = if clear { 0 } else { self.t.len() };
        if used + req.len() + recorded > cfg().transcript {
            return refuse(&[TOO_LARGE, INTERNAL], FULL);
        }
        if reply.len() > cap {
            return refuse(&[TOO_LARGE], "reply does not fit");
        }
        Exp::Reply(reply.to_vec(), next)
    }
    /// What must happen to `req` with a reply buffer of `cap` bytes. Where
    /// several things are wrong with it, any of them may be the one reported.
    pub fn expect(&self, req: &[u8], cap: usize) -> Exp {
        self.also(self.expect_one(req, cap), req, cap)
    }
    fn also(&self, e: Exp, req: &[u8], cap: usize) -> Exp {
        match e {
            Exp::Refuse { mut classes, got: None, why } => {
                let fresh = req.len() > 1 && req[1] == GET_VERSION;
                let used = if fresh { 0 } else { self.t.len() };
                if used + req.len() > cfg().transcript {
                    classes.extend([TOO_LARGE, INTERNAL].concat())
                }
                // the shortest reply there is but for an error
                let least = match (req.get(1), self.phase) {
                    (Some(&CHALLENGE), Phase::Challenge) => 4 + 2 * self.digest_len() + 32 + 2 + 4 + 64,
                    _ => 4,
                };
                if cap < least {
                    classes.extend(TOO_LARGE)
                }
                let dead = |s: &SlotFix| s.signer.fail.load(Ordering::Relaxed);
                if why == "chain too large" && self.slots.iter().flatten().any(dead) {
                    classes.extend(INTERNAL)
                }
                Exp::Refuse { classes, got: None, why }
            }
            Exp::Either(a, b) => Exp::Either(Box::new(self.also(*a, req, cap)), Box::new(self.also(*b, req, cap))),
            e => e,
        }
    }
    fn expect_one(&self, req: &[u8], cap: usize) -> Exp {
        if req.len() < 2 {
            return refuse(&[UNEXPECTED, INVALID], "no header");
        }
        let l = cfg().limits(self.digest_len());
        let body = |k: Kind| codec::decode_body(k, &req[2..], &l).map(|(m, _)| m);
        let wrong = || Exp::Refuse { classes: UNEXPECTED.to_vec(), got: Some(req[1]), why: "unexpected code" };
        let bad_version = || refuse(&[UNEXPECTED], "wrong version");
        let invalid = |_| refuse(&[INVALID], "malformed");
        if req[1] == GET_VERSION {
            if req[0] != 0x10 {
                return bad_version();
            }
            return match body(GetVersion) {
                Err(e) => invalid(e),
                Ok(_) => {
                    let r = version_reply();
                    self.fits(req, &r, r.len(), cap, true, Phase::Capabilities)
                }
            };
        }
        match self.phase {
            Phase::Error => unreachable!("a terminated responder gets no requests"),
            Phase::Version => wrong(),
            Phase::Capabilities => {
                if req[1] != GET_CAPABILITIES {
                    return wrong();
                }
                if req[0] != 0x11 {
                    return bad_version();
                }
                match body(GetCapabilities) {
                    Err(e) => invalid(e),
                    Ok(_) => {
                        let r = codec::encode(&Msg::Capabilities { ct: 12, flags: cfg().caps() });
                        self.fits(req, &r, r.len(), cap, false, Phase::Algorithms)
                    }
                }
            }
            Phase::Algorithms => {
                if req[1] != NEGOTIATE_ALGORITHMS {
                    return wrong();
                }
                if req[0] != 0x11 {
                    return bad_version();
                }
                match body(NegotiateAlgorithms) {
                    Err(e) => invalid(e),
                    Ok(m) => match select(&m) {
                        None => refuse(&[INVALID], "no common algorithm"),
                        Some(sel) => {
                            let r = codec::encode(&sel);
                            self.fits(req, &r, r.len(), cap, false, Phase::IdAuth)
                        }
                    },
                }
            }
            Phase::IdAuth => {
                if !cfg().cert() || (req[1] != GET_DIGESTS && req[1] != GET_CERTIFICATE) {
                    return wrong();
                }
                if req[0] != 0x11 {
                    return bad_version();
                }
                if req[1] == GET_DIGESTS {
                    let ok = if self.slots.iter().flatten().any(|s| s.bytes.len() > cfg().max_chain()) {
                        refuse(&[TOO_LARGE], "chain too large")
                    } else {
                        let r = codec::encode(&Msg::Digests {
                            mask: mask(self.slots),
                            digests: self.slots.iter().flatten().map(|s| hash::sha(self.hash(), &s.bytes)).collect(),
                        });
                        self.fits(req, &r, r.len(), cap, false, Phase::IdAuth)
                    };
                    return match body(GetDigests) {
                        Ok(_) => ok,
                        // whether reserved bytes of this request are looked at
                        // is left open
                        Err(e) => Exp::Either(Box::new(ok), Box::new(invalid(e))),
                    };
                }
                match body(GetCertificate) {
                    Err(e) => invalid(e),
                    Ok(Msg::GetCertificate { slot, .. }) => {
                        if slot as usize >= cfg().slots {
                            return refuse(&[INVALID], "no such slot");
                        }
                        let portion = match &self.slots[slot as usize] {
                            None => vec![],
                            Some(s) if s.bytes.len() > cfg().max_chain() => {
                                return refuse(&[TOO_LARGE], "chain too large")
                            }
                            Some(s) => s.bytes.clone(),
                        };
                        let r = codec::encode(&Msg::Certificate { slot, remainder: 0, portion });
                        self.fits(req, &r, r.len(), cap, false, Phase::Challenge)
                    }
                    Ok(_) => unreachable!(),
                }
            }
            Phase::Challenge => {
                if !cfg().chal() || req[1] != CHALLENGE {
                    return wrong();
                }
                if req[0] != 0x11 {
                    return bad_version();
                }
                match body(Challenge) {
                    Err(e) => invalid(e),
                    Ok(Msg::Challenge { slot, .. }) => {
                        let s = match self.slots.get(slot as usize) {
                            Some(Some(s)) if (slot as usize) < cfg().slots => s,
                            _ => return refuse(&[INVALID], "no such slot"),
                        };
                        if s.bytes.len() > cfg().max_chain() {
                            return refuse(&[TOO_LARGE], "chain too large");
                        }
                        let d = self.digest_len();
                        let body = 4 + d + 32 + d + 2 + 4;
                        let signs = !s.signer.fail.load(Ordering::Relaxed);
                        if self.t.len() + req.len() + body > cfg().transcript {
                            return refuse(&[TOO_LARGE, INTERNAL], FULL);
                        }
                        if body + 64 > cap {
                            return if signs {
                                refuse(&[TOO_LARGE], "reply does not fit")
                            } else {
                                refuse(&[TOO_LARGE, INTERNAL], "reply does not fit and signing fails")
                            };
                        }
                        if !signs {
                            return refuse(&[INTERNAL], "signing fails");
                        }
                        Exp::Auth { slot: slot as usize }
                    }
                    Ok(_) => unreachable!(),
                }
            }
        }
    }

    /// Give `req` to the responder with a reply buffer of `cap` bytes and hold
    /// what it does against the model.
    pub fn step(&mut self, r: &mut Responder<'_, TSigner>, req: &[u8], cap: usize) -> Result<Step, String> {
        let exp = self.expect(req, cap);
        // what follows the buffer in memory is ours, and must stay as it is
        let mut whole = vec![0xA5u8; cap + 64];
        let (buf, guard) = whole.split_at_mut(cap);
        let start = buf.as_ptr();
        let (out, res) = lib!(r.handle_msg(req, buf));
        let reply = out.to_vec();
        if !out.is_empty() && out.as_ptr() != start {
            return Err("the reply does not start at the start of the buffer".into());
        }
        if guard.iter().any(|b| *b != 0xA5) {
            return Err("wrote past the reply buffer".into());
        }
        let got = phase_of(r.state());
        self.judge(exp, req, cap, reply, res, got, r)
    }

    fn judge(
        &mut self,
        exp: Exp,
        req: &[u8],
        cap: usize,
        reply: Vec<u8>,
        res: Result<(), ResponderError>,
        got: Phase,
        r: &Responder<'_, TSigner>,
    ) -> Result<Step, String> {
        let ctx = |s: &str| {
            format!(
                "{s}: in phase {:?}, request {} with {cap} bytes of reply buffer gave {} ({res:?}, now {got:?})",
                self.phase,
                short(req),
                short(&reply)
            )
        };
        let exp = match exp {
            Exp::Either(a, b) => {
                if res.is_ok() {
                    *a
                } else {
                    match (*a, *b) {
                        (Exp::Refuse { classes: x, .. }, Exp::Refuse { classes: y, got, why }) => {
                            Exp::Refuse { classes: [x, y].concat(), got, why }
                        }
                        (_, b) => b,
                    }
                }
            }
            e => e,
        };
        match exp {
            Exp::Either(..) => unreachable!(),
            Exp::Refuse { classes, got: code, why } => {
                if res.is_ok() {
                    return Err(ctx(&format!("accepted although {why}")));
                }
                if got != Phase::Error {
                    return Err(ctx(&format!("refused ({why}) without stopping")));
                }
                if let (Some(code), Err(ResponderError::UnexpectedMsgCode { got: g, .. })) = (code, &res) {
                    if *g != code {
                        return Err(ctx(&format!("refused naming code {g:#x}")));
                    }
                }
                if let (Some(_), false) = (code, matches!(&res, Err(ResponderError::UnexpectedMsgCode { .. }))) {
                    return Err(ctx("refused for its code without naming it"));
                }
                check_error_reply(&reply, cap, &classes).map_err(|e| ctx(&format!("{e} ({why})")))?;
                self.phase = Phase::Error;
                Ok(Step { reply, accepted: false, phase: Phase::Error, why })
            }
            Exp::Reply(bytes, next) => {
                if res.is_err() {
                    return Err(ctx("refused although acceptable"));
                }
                let mut chosen = None;
                if reply != bytes {
                    // which of the common algorithms it picks is its choice
                    let l = cfg().limits(32);
                    match (codec::decode(req, &l), decode_selection(&reply)) {
                        (Ok((n @ Msg::NegotiateAlgorithms { .. }, _)), Ok(s)) => {
                            valid_selection(&n, &s).map_err(|e| ctx(&e))?;
                            chosen = Some(s);
                        }
                        _ => return Err(ctx(&format!("expected the reply {}", short(&bytes)))),
                    }
                }
                if got != next {
                    return Err(ctx(&format!("expected phase {next:?}")));
                }
                if req[1] == GET_VERSION {
                    *self = RspModel::new(self.slots);
                }
                let l = cfg().limits(self.digest_len());
                match codec::decode_body(Kind::from_code(req[1]).unwrap(), &req[2..], &l) {
                    Ok((Msg::GetCapabilities { ct, flags }, _)) => {
                        self.req_ct = ct;
                        self.req_flags = flags
                    }
                    Ok((m @ Msg::NegotiateAlgorithms { .. }, _)) => self.algs = chosen.or_else(|| select(&m)),
                    _ => {}
                }
                self.t.extend(req);
                self.t.extend(&reply);
                self.phase = next;
                self.compare(r).map_err(|e| ctx_after(&e, req))?;
                Ok(Step { reply, accepted: true, phase: next, why: "" })
            }
            Exp::Auth { slot } => {
                if res.is_err() {
                    return Err(ctx("refused although acceptable"));
                }
                if got != Phase::Challenge {
                    return Err(ctx("expected to stay in the challenge phase"));
                }
                let l = cfg().limits(self.digest_len());
                let (m, n) = codec::decode(&reply, &l).map_err(|e| ctx(&format!("malformed reply {e:?}")))?;
                if n != reply.len() {
                    return Err(ctx("bytes after the reply"));
                }
                let s = self.slots[slot].as_ref().unwrap();
                if codec::encode(&m) != reply {
                    return Err(ctx("reply not in canonical form"));
                }
                if let Msg::ChallengeAuth { slot: rs, mutual, mask: rm, chain_hash, nonce, meas_hash, opaque, sig } = m {
                    if rs as usize != slot {
                        return Err(ctx(&format!("the reply is for slot {rs}")));
                    }
                    let want = self.req_flags & MUT_AUTH_CAP != 0 && cfg().mut_auth();
                    if mutual != want {
                        return Err(ctx(&format!("mutual authentication {mutual}, expected {want}")));
                    }
                    if rm != mask(self.slots) {
                        return Err(ctx(&format!("slot mask {rm:#x}, filled slots {:#x}", mask(self.slots))));
                    }
                    if chain_hash != hash::sha(self.hash(), &s.bytes) {
                        return Err(ctx("wrong chain hash"));
                    }
                    if nonce.len() != 32 || meas_hash.len() != self.digest_len() || !opaque.is_empty() {
                        return Err(ctx("wrong content"));
                    }
                    let mut t = self.t.clone();
                    t.extend(req);
                    t.extend(&reply[..reply.len() - 64]);
                    let signed = hash::sha(self.hash(), &t);
                    if !verify_raw(s.signer.key.public(), &signed, &sig) {
                        return Err(ctx("the signature does not cover the transcript up to the signature"));
                    }
                    self.t = t;
                } else {
                    return Err(ctx("not a CHALLENGE_AUTH"));
                }
                self.compare(r).map_err(|e| ctx_after(&e, req))?;
                Ok(Step { reply, accepted: true, phase: Phase::Challenge, why: "" })
            }
        }
    }

    /// The responder's visible state against the model's.
    pub fn compare(&self, r: &Responder<'_, TSigner>) -> Result<(), String> {
        if phase_of(r.state()) != self.phase {
            return Err(format!("phase {} instead of {:?}", r.state().name(), self.phase));
        }
        if r.state().name() != self.phase.name() {
            return Err(format!("phase named {} instead of {}", r.state().name(), self.phase.name()));
        }
        if self.phase == Phase::Error {
            return Ok(());
        }
        if r.transcript().get() != &self.t[..] {
            return Err(format!("transcript {} instead of {}", short(r.transcript().get()), short(&self.t)));
        }
        if r.transcript().len() != self.t.len() {
            return Err("transcript length".into());
        }
        let want = (self.req_ct, self.req_flags, 12u8, cfg().caps());
        let have = match r.state() {
            PState::Algorithms(s) => {
                Some((s.requester_ct_exponent, s.requester_cap.bits(), s.responder_ct_exponent, s.responder_cap.bits()))
            }
            PState::IdAuth(s) => {
                Some((s.requester_ct_exponent, s.requester_cap.bits(), s.responder_ct_exponent, s.responder_cap.bits()))
            }
            PState::Challenge(s) => {
                Some((s.requester_ct_exponent, s.requester_cap.bits(), s.responder_ct_exponent, s.responder_cap.bits()))
            }
            PState::Capabilities(s) => {
                if s != &spdm::responder::capabilities::State::new() {
                    return Err(format!("{s:?} after a version request"));
                }
                None
            }
            _ => None,
        };
        if let Some(h) = have {
            if h != want {
                return Err(format!("recorded capabilities (exponent, flags, exponent, flags) {h:x?} instead of {want:x?}"));
            }
        }
        let algs = match r.state() {
            PState::IdAuth(s) => Some(&s.algorithms),
            PState::Challenge(s) => Some(&s.algorithms),
            _ => None,
        };
        if let Some(a) = algs {
            let have = glue::algorithms_of(a)?;
            if Some(&have) != self.algs.as_ref() {
                return Err(format!("recorded algorithms {have:?} instead of {:?}", self.algs));
            }
        }
        Ok(())
    }
}

fn ctx_after(e: &str, req: &[u8]) -> String {
    format!("after request {}: {e}", short(req))
}

pub fn check_error_reply(reply: &[u8], cap: usize, classes: &[u8]) -> Result<(), String> {
    if reply.is_empty() {
        // ResponseTooLarge takes eight bytes, LargeResponse five, others four
        let need = if classes.contains(&0x0D) {
            8
        } else if classes.contains(&0x0F) {
            5
        } else {
            4
        };
        return if cap >= need { Err("no error reply although there is room for one".into()) } else { Ok(()) };
    }
    let l = cfg().limits(32);
    match codec::decode(reply, &l) {
        Ok((m @ Msg::Error { .. }, n)) => {
            if n != reply.len() {
                return Err("bytes after the error reply".into());
            }
            if codec::encode(&codec::canonical(&m)) != reply {
                return Err(format!("error reply not in canonical form: {m:?}"));
            }
            if let Msg::Error { code, data, ext } = m {
                if !classes.contains(&code) {
                    return Err(format!("error code {code:#x}, which does not fit the cause"));
                }
                if code != 7 && (data != 0 || ext.iter().any(|b| *b != 0)) {
                    return Err("content beyond the error code".into());
                }
            }
            Ok(())
        }
        other => Err(format!("the reply is not an error message: {other:?}")),
    }
}

pub fn short(b: &[u8]) -> String {
    let h: String = b.iter().take(40).map(|x| format!("{x:02x}")).collect();
    if b.len() > 40 {
        format!("{h}..({} bytes, {:016x})", b.len(), hash::fnv(b))
    } else {
        format!("[{h}]")
    }
}

// ---------------------------------------------------------------- requester

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum QPhase {
    Version,
    Capabilities,
    Algorithms,
    Digests,
    Certificate,
    Challenge,
    Done,
    Error,
}
impl QPhase {
    pub fn state_name(self) -> &'static str {
        match self {
            QPhase::Version => "Version",
            QPhase::Capabilities => "Capabilities",
            QPhase::Algorithms => "Algorithms",
            QPhase::Digests | QPhase::Certificate => "IdAuth",
            QPhase::Challenge => "Challenge",
            QPhase::Done => "NewSession",
            QPhase::Error => "Error",
        }
    }
    pub fn awaits(self) -> Option<Kind> {
        Some(match self {
            QPhase::Version => Kind::Version,
            QPhase::Capabilities => Kind::Capabilities,
            QPhase::Algorithms => Kind::Algorithms,
            QPhase::Digests => Kind::Digests,
            QPhase::Certificate => Kind::Certificate,
            QPhase::Challenge => Kind::ChallengeAuth,
            _ => return None,
        })
    }
    pub fn request(self) -> Option<Kind> {
        Some(match self {
            QPhase::Version => Kind::GetVersion,
            QPhase::Capabilities => Kind::GetCapabilities,
            QPhase::Algorithms => Kind::NegotiateAlgorithms,
            QPhase::Digests => Kind::GetDigests,
            QPhase::Certificate => Kind::GetCertificate,
            QPhase::Challenge => Kind::Challenge,
            _ => return None,
        })
    }
}

pub const OFFERED: [(u8, u16); 4] = [(2, 0x12), (3, 0x6), (4, 0x90), (5, 1)];
pub fn offer() -> Msg {
    Msg::NegotiateAlgorithms { spec: 1, asym: P256, hash: cfg().hashes(), algs: OFFERED.to_vec() }
}

/// Which certificate chains lead to the configured root: Some(leaf public
/// key), None: not trusted. `Unknown`: the check does not want to say.
pub enum Trust {
    Yes(Vec<u8>),
    No,
    Unknown(Vec<u8>),
}

#[derive(Clone)]
pub struct ReqModel {
    pub phase: QPhase,
    pub t: Vec<u8>,
    pub version: (u8, u8, u8, u8),
    pub rsp: (u8, u32),
    pub algs: Option<Msg>,
    pub chain: Option<(u8, Vec<u8>)>,
    pub nonce: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(&'static str),
    /// accepted or rejected, both would do
    Open,
}

impl ReqModel {
    pub fn new() -> ReqModel {
        ReqModel {
            phase: QPhase::Version,
            t: vec![],
            version: (0, 0, 0, 0),
            rsp: (0, 0),
            algs: None,
            chain: None,
            nonce: vec![],
        }
    }
    pub fn hash(&self) -> u32 {
        match &self.algs {
            Some(Msg::Algorithms { hash, .. }) => *hash,
            _ => 1,
        }
    }
    pub fn digest_len(&self) -> usize {
        hash::size(self.hash())
    }
    /// The request due now; for a challenge, with `nonce`.
    pub fn request(&self, nonce: &[u8]) -> Option<Msg> {
        Some(match self.phase {
            QPhase::Version => Msg::GetVersion,
            QPhase::Capabilities => Msg::GetCapabilities { ct: 12, flags: cfg().caps() },
            QPhase::Algorithms => offer(),
            QPhase::Digests => Msg::GetDigests,
            QPhase::Certificate => {
                Msg::GetCertificate { slot: 0, offset: 0, length: cfg().buf.min(65535) as u16 }
            }
            QPhase::Challenge => Msg::Challenge { slot: self.chain.as_ref().unwrap().0, mht: 0, nonce: nonce.to_vec() },
            _ => return None,
        })
    }
    pub fn request_len(&self) -> usize {
        self.request(&vec![0; cfg().nonce_len()]).map(|m| codec::encode(&m).len()).unwrap_or(0)
    }

    /// Ask the requester for its next request in a buffer of `cap` bytes.
    /// Ok(None): it did not fit (or the transcript is full).
    pub fn send(&mut self, q: &mut RequesterInit<'_, TSigner>, cap: usize) -> Result<Option<Vec<u8>>, String> {
        let mut whole = vec![0xA5u8; cap + 64];
        let (buf, guard) = whole.split_at_mut(cap);
        let start = buf.as_ptr();
        let want = self.request_len();
        let used = if self.phase == QPhase::Version { 0 } else { self.t.len() };
        let res = lib!(q.next_request(buf)).map(|s| (s.to_vec(), s.as_ptr() == start));
        if guard.iter().any(|b| *b != 0xA5) {
            return Err("wrote past the request buffer".into());
        }
        if self.phase == QPhase::Done {
            return match res {
                Err(RequesterError::InitializationComplete) => Ok(None),
                other => Err(format!("next_request after completion gave {other:?}")),
            };
        }
        match res {
            Ok((req, at_start)) => {
                if !at_start {
                    return Err("the request does not start at the start of the buffer".into());
                }
                if want > cap {
                    return Err(format!("a {want}-byte request in {cap} bytes of buffer: {}", short(&req)));
                }
                if used + want > cfg().transcript {
                    return Err("a request that the transcript has no room for".into());
                }
                let nonce = if self.phase == QPhase::Challenge && req.len() >= 4 { req[4..].to_vec() } else { vec![] };
                if self.phase == QPhase::Challenge && nonce.len() != cfg().nonce_len() {
                    return Err(format!("challenge {}", short(&req)));
                }
                let exp = codec::encode(&self.request(&nonce).unwrap());
                if req != exp {
                    return Err(format!("in phase {:?} requested {} instead of {}", self.phase, short(&req), short(&exp)));
                }
                if self.phase == QPhase::Version {
                    *self = ReqModel::new();
                }
                self.nonce = nonce;
                self.t.extend(&req);
                self.compare(q)?;
                Ok(Some(req))
            }
            Err(e) => {
                if want <= cap && used + want <= cfg().transcript {
                    return Err(format!("no request in phase {:?} although there is room: {e:?}", self.phase));
                }
                if e != RequesterError::BufferFull {
                    return Err(format!("a request that does not fit gave {e:?}"));
                }
                if q.state().name() != self.phase.state_name() {
                    return Err(format!("a request that did not fit moved the requester to {}", q.state().name()));
                }
                // nothing was sent, so nothing may have been recorded (a
                // version request may have discarded the old session)
                let ok = q.transcript().get() == &self.t[..] || (self.phase == QPhase::Version && q.transcript().len() == 0);
                if !ok {
                    return Err("a request that did not fit changed the transcript".into());
                }
                Ok(None)
            }
        }
    }

    /// What must become of `rsp`; `trust` is asked for the received chain.
    pub fn judge(&self, rsp: &[u8], trust: &dyn Fn(&codec::Chain) -> Trust) -> Verdict {
        let k = match self.phase.awaits() {
            Some(k) => k,
            None => return Verdict::Reject("not waiting"),
        };
        if rsp.len() < 2 {
            return Verdict::Reject("no header");
        }
        if rsp[1] != k.code() {
            return Verdict::Reject("code");
        }
        if rsp[0] != k.version() {
            return Verdict::Reject("version");
        }
        let l = cfg().limits(self.digest_len());
        let (m, used) = match codec::decode_body(k, &rsp[2..], &l) {
            Ok(x) => x,
            Err(_) => return Verdict::Reject("malformed"),
        };
        let recorded = if k == Kind::ChallengeAuth { rsp.len() - 64 } else { rsp.len() };
        if self.t.len() + recorded > cfg().transcript {
            return Verdict::Reject(FULL);
        }
        match &m {
            Msg::Version(_) => {
                if best_version(&m).is_none() {
                    return Verdict::Reject("no common version");
                }
            }
            Msg::Algorithms { spec, mhash, asym, hash, algs } => {
                let o = cfg().hashes();
                let ok = *spec == 1
                    && asym & P256 != 0
                    && hash & o != 0
                    && mhash & o != 0
                    && algs.iter().all(|(t, b)| OFFERED.iter().any(|(u, x)| u == t && x & b == *b));
                if !ok {
                    return Verdict::Reject("not offered");
                }
                if (1..algs.len()).any(|i| algs[..i].iter().any(|a| a.0 == algs[i].0)) {
                    // one category answered twice: left open
                    return Verdict::Open;
                }
            }
            Msg::ChallengeAuth { slot, mask, chain_hash, sig, .. } => {
                let (want, bytes) = self.chain.as_ref().unwrap();
                if slot != want {
                    return Verdict::Reject("slot");
                }
                if mask >> slot & 1 == 0 {
                    return Verdict::Reject("slot mask");
                }
                if *chain_hash != hash::sha(self.hash(), bytes) {
                    return Verdict::Reject("chain hash");
                }
                let c = match codec::parse_chain(bytes, self.digest_len(), cfg().depth) {
                    Ok(c) => c,
                    Err(_) => return Verdict::Reject("malformed chain"),
                };
                let (public, sure) = match trust(&c) {
                    Trust::No => return Verdict::Reject("untrusted chain"),
                    Trust::Yes(p) => (p, true),
                    Trust::Unknown(p) => (p, false),
                };
                // the signature is the last 64 bytes of the message; bytes
                // after it make the message something else
                if used + 2 != rsp.len() {
                    let mut t = self.t.clone();
                    t.extend(&rsp[..rsp.len() - 64]);
                    if !verify_raw(&public, &hash::sha(self.hash(), &t), sig) {
                        return Verdict::Reject("signature");
                    }
                    return Verdict::Open;
                }
                let mut t = self.t.clone();
                t.extend(&rsp[..rsp.len() - 64]);
                if !verify_raw(&public, &hash::sha(self.hash(), &t), sig) {
                    return Verdict::Reject("signature");
                }
                if !sure {
                    return Verdict::Open;
                }
            }
            _ => {}
        }
        Verdict::Accept
    }

    /// Deliver `rsp`. Ok(true): it was accepted.
    pub fn deliver(
        &mut self,
        q: &mut RequesterInit<'_, TSigner>,
        rsp: &[u8],
        trust: &dyn Fn(&codec::Chain) -> Trust,
    ) -> Result<bool, String> {
        let v = self.judge(rsp, trust);
        let res = lib!(q.handle_msg(rsp));
        let ctx = |s: String| format!("in phase {:?}, response {}: {s} ({res:?}, now {})", self.phase, short(rsp), q.state().name());
        let accepted = res.is_ok();
        match (&v, accepted) {
            (Verdict::Accept, false) => return Err(ctx("refused although acceptable".into())),
            (Verdict::Reject(why), true) => return Err(ctx(format!("accepted although to be refused: {why}"))),
            _ => {}
        }
        if let Err(e) = &res {
            if !matches!(q.state(), QState::Error) {
                return Err(ctx("refused without stopping".into()));
            }
            if v == Verdict::Reject("code") {
                let want = self.phase.awaits().unwrap().code();
                match e {
                    RequesterError::UnexpectedMsgCode { expected, got } if *got == rsp[1] && *expected == want => {}
                    _ => return Err(ctx(format!("refused without naming code {:#x}", rsp[1]))),
                }
            }
            self.phase = QPhase::Error;
            return Ok(false);
        }
        // accepted: follow
        let k = self.phase.awaits().unwrap();
        let l = cfg().limits(self.digest_len());
        let m = codec::decode_body(k, &rsp[2..], &l).map_err(|e| ctx(format!("{e:?}")))?.0;
        let recorded = if k == Kind::ChallengeAuth { rsp.len() - 64 } else { rsp.len() };
        self.t.extend(&rsp[..recorded]);
        let both = |bit: u32, flags: u32| cfg().caps() & bit != 0 && flags & bit != 0;
        let next = match m {
            Msg::Version(_) => {
                self.version = best_version(&m).unwrap();
                QPhase::Capabilities
            }
            Msg::Capabilities { ct, flags } => {
                self.rsp = (ct, flags);
                QPhase::Algorithms
            }
            Msg::Algorithms { .. } => {
                self.algs = Some(m);
                if both(CERT_CAP, self.rsp.1) {
                    QPhase::Digests
                } else {
                    QPhase::Done
                }
            }
            Msg::Digests { .. } => QPhase::Certificate,
            Msg::Certificate { slot, portion, .. } => {
                self.chain = Some((slot, portion));
                if both(CHAL_CAP, self.rsp.1) {
                    QPhase::Challenge
                } else {
                    QPhase::Done
                }
            }
            _ => QPhase::Done,
        };
        let done = matches!(res, Ok(true));
        if done != (next == QPhase::Done) {
            return Err(ctx(format!("completion reported: {done}, expected phase {next:?}")));
        }
        self.phase = next;
        self.compare(q).map_err(|e| format!("after response {}: {e}", short(rsp)))?;
        Ok(true)
    }

    pub fn compare(&self, q: &RequesterInit<'_, TSigner>) -> Result<(), String> {
        if q.state().name() != self.phase.state_name() {
            return Err(format!("state {} instead of {}", q.state().name(), self.phase.state_name()));
        }
        if self.phase == QPhase::Error {
            return Ok(());
        }
        if q.transcript().get() != &self.t[..] || q.transcript().len() != self.t.len() {
            return Err(format!("transcript {} instead of {}", short(q.transcript().get()), short(&self.t)));
        }
        let v = |e: &spdm::msgs::VersionEntry| (e.major, e.minor, e.update, e.alpha);
        let (version, caps, algs) = match q.state() {
            QState::Capabilities(s) => (v(&s.version), None, None),
            QState::Algorithms(s) => (
                v(&s.version),
                Some((s.requester_ct_exponent, s.requester_cap.bits(), s.responder_ct_exponent, s.responder_cap.bits())),
                s.algorithms.as_ref(),
            ),
            QState::IdAuth(s) => (
                v(&s.version),
                Some((s.requester_ct_exponent, s.requester_cap.bits(), s.responder_ct_exponent, s.responder_cap.bits())),
                Some(&s.algorithms),
            ),
            QState::Challenge(s) => {
                if let Some((slot, c)) = &self.chain {
                    if s.cert_slot != *slot
                        || s.cert_chain_size as usize != c.len()
                        || &s.cert_chain[..c.len()] != &c[..]
                    {
                        return Err("the recorded certificate chain is not the one received".into());
                    }
                }
                if !self.nonce.is_empty() && s.nonce.as_ref().map(|n| n.as_ref().to_vec()).as_ref() != Some(&self.nonce) {
                    return Err("the recorded nonce is not the one sent".into());
                }
                (
                    v(&s.version),
                    Some((s.requester_ct_exponent, s.requester_cap.bits(), s.responder_ct_exponent, s.responder_cap.bits())),
                    Some(&s.algorithms),
                )
            }
            _ => return Ok(()),
        };
        if version != self.version {
            return Err(format!("version {version:?} instead of {:?}", self.version));
        }
        if let Some(c) = caps {
            let want = (12, cfg().caps(), self.rsp.0, self.rsp.1);
            if c != want {
                return Err(format!("recorded capabilities (exponent, flags, exponent, flags) {c:x?} instead of {want:x?}"));
            }
        }
        if let (Some(a), Some(w)) = (algs, &self.algs) {
            let a = glue::algorithms_of(a)?;
            if a != *w {
                return Err(format!("recorded algorithms {a:?} instead of {w:?}"));
            }
        }
        Ok(())
    }
}

pub fn best_version(m: &Msg) -> Option<(u8, u8, u8, u8)> {
    match m {
        Msg::Version(v) => v.iter().copied().filter(|e| *e == (1, 0, 0, 0) || *e == (1, 1, 0, 0)).max(),
        _ => None,
    }
}

// ------------------------------------------------- honest reference peers

/// An honest responder that is not the library's: it may choose anything the
/// specification lets it choose.
pub struct RefRsp<'a> {
    pub versions: Vec<(u8, u8, u8, u8)>,
    pub ct: u8,
    pub flags: u32,
    /// which of the offered algorithms to pick in each category
    pub pick: u32,
    /// which structures to answer (bit per offered structure), and in which order
    pub answer: u8,
    pub mutual: bool,
    pub opaque: Vec<Elem>,
    /// what the measurement summary hash consists of
    pub meas: u8,
    pub remainder: u16,
    pub rsp_nonce: u8,
    /// slots that are kept from the digests reply
    pub hide: u8,
    /// what is done to the challenge reply before it is signed
    pub twist: Vec<crate::gen::Mut>,
    pub slots: &'a Slots,
    /// presented in place of slot 0's chain
    pub chain: Option<Vec<u8>>,
    pub t: Vec<u8>,
    pub algs: Option<Msg>,
}

pub fn nth_bit(x: u32, n: u32) -> u32 {
    let bits: Vec<u32> = (0..32).filter(|i| x >> i & 1 == 1).collect();
    if bits.is_empty() {
        0
    } else {
        1 << bits[n as usize % bits.len()]
    }
}

impl<'a> RefRsp<'a> {
    pub fn new(slots: &'a Slots) -> RefRsp<'a> {
        RefRsp {
            versions: vec![(1, 0, 0, 0), (1, 1, 0, 0)],
            ct: 12,
            flags: CERT_CAP | CHAL_CAP,
            pick: 0,
            answer: 0xff,
            mutual: false,
            opaque: vec![],
            meas: 0,
            remainder: 0,
            rsp_nonce: 1,
            hide: 0,
            twist: vec![],
            slots,
            chain: None,
            t: vec![],
            algs: None,
        }
    }
    pub fn hash(&self) -> u32 {
        match &self.algs {
            Some(Msg::Algorithms { hash, .. }) => *hash,
            _ => 1,
        }
    }
    fn shown(&self, slot: usize) -> Vec<u8> {
        match (&self.chain, slot) {
            (Some(c), 0) => c.clone(),
            _ => self.slots.get(slot).and_then(|s| s.as_ref()).map(|s| s.bytes.clone()).unwrap_or_default(),
        }
    }
    /// The reply to an acceptable request.
    pub fn reply(&mut self, req: &[u8]) -> Result<Vec<u8>, String> {
        let l = cfg().limits(hash::size(self.hash()));
        let (m, n) = codec::decode(req, &l).map_err(|e| format!("the request {} is malformed: {e:?}", short(req)))?;
        if n != req.len() || codec::encode(&m) != req {
            return Err(format!("the request {} is not in canonical form", short(req)));
        }
        let reply = match m {
            Msg::GetVersion => {
                self.t.clear();
                Msg::Version(self.versions.clone())
            }
            Msg::GetCapabilities { .. } => Msg::Capabilities { ct: self.ct, flags: self.flags },
            Msg::NegotiateAlgorithms { spec, asym, hash, algs } => {
                let p = self.pick;
                if hash & 7 == 0 || hash & !0x3f != 0 || !matches!(nth_bit(hash, p), 1 | 2 | 4) {
                    return Err("no hash to pick".into());
                }
                let sel = Msg::Algorithms {
                    spec,
                    mhash: nth_bit(hash, p >> 3),
                    asym: nth_bit(asym, p >> 6),
                    hash: nth_bit(hash, p),
                    algs: algs
                        .iter()
                        .enumerate()
                        .filter(|(i, _)| self.answer >> i & 1 == 1)
                        .map(|(i, (t, b))| (*t, nth_bit(*b as u32, p >> (9 + 3 * i)) as u16))
                        .collect(),
                };
                self.algs = Some(sel.clone());
                sel
            }
            Msg::GetDigests => Msg::Digests {
                mask: mask(self.slots) & !self.hide,
                digests: (0..self.slots.len())
                    .filter(|i| self.slots[*i].is_some() && self.hide >> i & 1 == 0)
                    .map(|i| hash::sha(self.hash(), &self.shown(i)))
                    .collect(),
            },
            Msg::GetCertificate { slot, .. } => Msg::Certificate {
                slot,
                remainder: self.remainder,
                portion: self.shown(slot as usize),
            },
            Msg::Challenge { slot, .. } => {
                let s = self.slots.get(slot as usize).and_then(|s| s.as_ref()).ok_or("challenged an empty slot")?;
                let d = hash::size(self.hash());
                let m = Msg::ChallengeAuth {
                    slot,
                    mutual: self.mutual,
                    mask: mask(self.slots),
                    chain_hash: hash::sha(self.hash(), &self.shown(slot as usize)),
                    nonce: vec![self.rsp_nonce; 32],
                    meas_hash: vec![self.meas; d],
                    opaque: self.opaque.clone(),
                    sig: vec![0; 64],
                };
                let mut b = codec::encode(&m);
                b.truncate(b.len() - 64);
                let mut b = crate::gen::apply_all(&b, &self.twist);
                self.t.extend(req);
                self.t.extend(&b);
                let signed = hash::sha(self.hash(), &self.t);
                let sig = s.signer.key.sign_raw(&signed, 11);
                s.signer.log.lock().unwrap().push(signed);
                b.extend(sig.as_ref());
                return Ok(b);
            }
            other => return Err(format!("{other:?} is not a request")),
        };
        let b = codec::encode(&reply);
        self.t.extend(req);
        self.t.extend(&b);
        Ok(b)
    }
}

/// Choices a responder is free to make, and some it is not.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Choices {
    pub ct: u8,
    pub answer: u8,
    pub mutual: bool,
    pub meas: u8,
    pub remainder: u16,
    pub opaque: Vec<Elem>,
    pub hide: u8,
    pub twist: Vec<crate::gen::Mut>,
}
impl Choices {
    pub fn put(&self, r: &mut RefRsp<'_>) {
        r.ct = self.ct;
        r.answer = self.answer;
        r.mutual = self.mutual;
        r.meas = self.meas;
        r.remainder = self.remainder;
        r.opaque = self.opaque.clone();
        r.hide = self.hide;
        r.twist = self.twist.clone();
    }
}

/// The trust a chain of a slot deserves under the root it was built for.
pub fn trust_of<'a>(s: &'a SlotFix) -> impl Fn(&codec::Chain) -> Trust + 'a {
    move |c: &codec::Chain| {
        if c.leaf != s.chain.leaf {
            return Trust::No;
        }
        let p = s.signer.key.public().to_vec();
        if c.inter == s.chain.inter {
            return if c.inter.len() <= 6 { Trust::Yes(p) } else { Trust::No };
        }
        if s.chain.inter.iter().all(|i| c.inter.contains(i)) {
            Trust::Unknown(p)
        } else {
            Trust::No
        }
    }
}
pub fn no_trust(_: &codec::Chain) -> Trust {
    Trust::No
}

pub fn crypto() -> bool {
    CRYPTO
}
