//! Whole sessions between the endpoints, each step held against the models.
use crate::cfg::cfg;
use crate::model::*;
use crate::world::*;
use spdm::{RequesterInit, Responder};
use vcommon::codec::{self, Msg, *};
use vcommon::hash;

/// Where a session between honest endpoints must end, by the capabilities.
pub fn complete_after(caps: u32) -> Kind {
    let both = cfg().caps() & caps;
    if both & CERT_CAP == 0 {
        Kind::Algorithms
    } else if both & CHAL_CAP == 0 {
        Kind::Certificate
    } else {
        Kind::ChallengeAuth
    }
}

pub struct Pair<'s> {
    pub q: Box<RequesterInit<'s, TSigner>>,
    pub qm: ReqModel,
    pub r: Box<Responder<'s, TSigner>>,
    pub rm: RspModel<'s>,
    pub slots: &'s Slots,
}
impl<'s> Pair<'s> {
    pub fn new(slots: &'s Slots, root: &'s [u8]) -> Pair<'s> {
        Pair {
            q: Box::new(requester(root)),
            qm: ReqModel::new(),
            r: Box::new(responder(slots)),
            rm: RspModel::new(slots),
            slots,
        }
    }
    pub fn trust(&self) -> impl Fn(&codec::Chain) -> Trust + 's {
        let s = self.slots;
        move |c: &codec::Chain| match &s[0] {
            Some(f) => trust_of(f)(c),
            None => Trust::No,
        }
    }
    /// One faithful exchange. Ok(true): the requester reports completion.
    pub fn exchange(&mut self, qcap: usize, rcap: usize) -> Result<bool, String> {
        let req = match self.qm.send(&mut self.q, qcap)? {
            Some(r) => r,
            None => return Err(format!("no request in phase {:?}", self.qm.phase)),
        };
        let step = self.rm.step(&mut self.r, &req, rcap)?;
        if !step.accepted {
            return Err(format!("the responder refused {}: {}", short(&req), step.why));
        }
        let trust = self.trust();
        if !self.qm.deliver(&mut self.q, &step.reply, &trust)? {
            return Err(format!("the requester refused {}", short(&step.reply)));
        }
        agree(&self.q, &self.r)?;
        Ok(self.qm.phase == QPhase::Done)
    }
    pub fn complete(&mut self, qcap: usize, rcap: usize) -> Result<usize, String> {
        for n in 1..10 {
            if self.exchange(qcap, rcap)? {
                let last = complete_after(cfg().caps());
                let want = if last == Kind::Algorithms { 3 } else if last == Kind::Certificate { 5 } else { 6 };
                if n != want {
                    return Err(format!("completed after {n} exchanges instead of {want}"));
                }
                return Ok(n);
            }
        }
        Err("the session does not complete".into())
    }
}

/// Both endpoints hold the same transcript and negotiated the same values.
pub fn agree(q: &RequesterInit<'_, TSigner>, r: &Responder<'_, TSigner>) -> Result<(), String> {
    if q.transcript().get() != r.transcript().get() {
        return Err(format!(
            "the endpoints' transcripts differ: {} and {}",
            short(q.transcript().get()),
            short(r.transcript().get())
        ));
    }
    if q.transcript() != r.transcript() {
        return Err("transcripts with the same content compare unequal".into());
    }
    use spdm::requester::AllStates as Q;
    use spdm::responder::AllStates as P;
    let qc = match q.state() {
        Q::Algorithms(s) => Some((s.requester_ct_exponent, s.requester_cap, s.responder_ct_exponent, s.responder_cap)),
        Q::IdAuth(s) => Some((s.requester_ct_exponent, s.requester_cap, s.responder_ct_exponent, s.responder_cap)),
        Q::Challenge(s) => Some((s.requester_ct_exponent, s.requester_cap, s.responder_ct_exponent, s.responder_cap)),
        _ => None,
    };
    let pc = match r.state() {
        P::Algorithms(s) => Some((s.requester_ct_exponent, s.requester_cap, s.responder_ct_exponent, s.responder_cap)),
        P::IdAuth(s) => Some((s.requester_ct_exponent, s.requester_cap, s.responder_ct_exponent, s.responder_cap)),
        P::Challenge(s) => Some((s.requester_ct_exponent, s.requester_cap, s.responder_ct_exponent, s.responder_cap)),
        _ => None,
    };
    if let (Some(a), Some(b)) = (&qc, &pc) {
        if a != b {
            return Err(format!("the endpoints disagree on the capabilities: {a:?} and {b:?}"));
        }
    }
    let qa = match q.state() {
        Q::IdAuth(s) => Some(&s.algorithms),
        Q::Challenge(s) => Some(&s.algorithms),
        _ => None,
    };
    let pa = match r.state() {
        P::IdAuth(s) => Some(&s.algorithms),
        P::Challenge(s) => Some(&s.algorithms),
        _ => None,
    };
    if let (Some(a), Some(b)) = (qa, pa) {
        if a != b {
            return Err(format!("the endpoints disagree on the algorithms: {a:?} and {b:?}"));
        }
    }
    Ok(())
}

/// The library's requester against the reference responder. Ok(true) when it
/// reports completion.
pub fn with_ref(
    q: &mut RequesterInit<'_, TSigner>,
    qm: &mut ReqModel,
    peer: &mut RefRsp<'_>,
    trust: &dyn Fn(&codec::Chain) -> Trust,
    upto: QPhase,
) -> Result<(), String> {
    if with_ref_room(q, qm, peer, trust, upto)? {
        Ok(())
    } else {
        Err("the transcript is too small for the session".into())
    }
}
/// The same after messages longer than an honest peer's: Ok(false) when the
/// transcript has no room for the rest of the session.
pub fn with_ref_room(
    q: &mut RequesterInit<'_, TSigner>,
    qm: &mut ReqModel,
    peer: &mut RefRsp<'_>,
    trust: &dyn Fn(&codec::Chain) -> Trust,
    upto: QPhase,
) -> Result<bool, String> {
    for _ in 0..8 {
        if qm.phase == upto {
            return Ok(true);
        }
        let req = match qm.send(q, 512)? {
            Some(r) => r,
            None => return Ok(false),
        };
        let rsp = peer.reply(&req)?;
        let full = qm.judge(&rsp, trust) == Verdict::Reject(FULL);
        if !qm.deliver(q, &rsp, trust)? {
            if full {
                return Ok(false);
            }
            return Err(format!("the requester refused the honest response {}", short(&rsp)));
        }
    }
    if qm.phase == upto {
        Ok(true)
    } else {
        Err(format!("did not reach {upto:?}"))
    }
}

/// Requests an honest requester could send to get a responder to a phase.
pub fn req_version() -> Vec<u8> {
    codec::encode(&Msg::GetVersion)
}
pub fn req_caps(flags: u32) -> Vec<u8> {
    codec::encode(&Msg::GetCapabilities { ct: 12, flags })
}
pub fn req_algs(hash: u32) -> Vec<u8> {
    codec::encode(&Msg::NegotiateAlgorithms { spec: 1, asym: P256, hash, algs: OFFERED.to_vec() })
}
pub fn req_cert(slot: u8) -> Vec<u8> {
    codec::encode(&Msg::GetCertificate { slot, offset: 0, length: 0xffff })
}
pub fn req_challenge(slot: u8, nonce: u8) -> Vec<u8> {
    codec::encode(&Msg::Challenge { slot, mht: 0, nonce: vec![nonce; cfg().nonce_len()] })
}
pub fn req_digests() -> Vec<u8> {
    codec::encode(&Msg::GetDigests)
}

/// Drive a responder to a phase with the hash given; the model follows.
pub fn reach(
    r: &mut Responder<'_, TSigner>,
    m: &mut RspModel<'_>,
    to: Phase,
    flags: u32,
    hash: u32,
    slot: u8,
) -> Result<(), String> {
    let reqs = [req_version(), req_caps(flags), req_algs(hash), req_cert(slot)];
    let n = match to {
        Phase::Version => 0,
        Phase::Capabilities => 1,
        Phase::Algorithms => 2,
        Phase::IdAuth => 3,
        _ => 4,
    };
    for q in &reqs[..n] {
        let s = m.step(r, q, rsp_cap())?;
        if !s.accepted {
            return Err(format!("an honest request was refused ({}): {}", s.why, short(q)));
        }
    }
    Ok(())
}

/// An honest session between the given responder and a fresh requester, judged
/// only by its outcome.
pub fn plain_session(r: &mut Responder<'_, TSigner>, slots: &Slots, root: &[u8]) -> Result<(), String> {
    let mut q = Box::new(requester(root));
    let mut qbuf = vec![0u8; 512];
    let mut rbuf = vec![0u8; rsp_cap()];
    for _ in 0..8 {
        let req = lib!(q.next_request(&mut qbuf)).map_err(|e| format!("no request: {e:?}"))?.to_vec();
        let (rsp, res) = lib!(r.handle_msg(&req, &mut rbuf));
        let rsp = rsp.to_vec();
        res.map_err(|e| format!("request {} failed: {e:?}", short(&req)))?;
        if lib!(q.handle_msg(&rsp)).map_err(|e| format!("response {} failed: {e:?}", short(&rsp)))? {
            if complete_after(cfg().caps()) == Kind::ChallengeAuth {
                let s = slots[0].as_ref().ok_or("completed without a chain")?;
                let signed = hash::sha(1, q.transcript().get());
                if !s.signer.log.lock().unwrap().contains(&signed) {
                    return Err("completed although the history was not signed".into());
                }
            }
            return Ok(());
        }
    }
    Err("the session does not complete".into())
}
