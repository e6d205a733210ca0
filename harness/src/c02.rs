//! A tampered or replayed session is never accepted as authenticated.
use crate::cfg::cfg;
use crate::gen::{self, Mut};
use crate::model::{nth_bit, short, RefRsp};
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::codec::{self, Msg, *};
use vcommon::hash;
use vcommon::run::*;

/// What the transport does to one message.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    Mutate(Vec<Mut>),
    /// the message at the same place of an earlier session
    Old,
    /// another message of the earlier session
    OldAt(u8),
    /// an earlier message of this session, same direction
    Earlier(u8),
    /// requests: delivered twice, the second reply goes on
    Twice,
    /// requests: another one goes first
    First(Inject),
    /// requests: another one goes after it
    After(Inject),
    /// replaced by a message made up by the transport
    Forge(Inject),
    /// with the slot field changed
    Slot(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Inject {
    Digests,
    Cert(u8),
    Challenge(u8, u8),
    Caps(u32),
    Algs(u32),
    Version,
}
impl Inject {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Inject::Digests => req_digests(),
            Inject::Cert(s) => req_cert(*s),
            Inject::Challenge(s, n) => req_challenge(*s, *n),
            Inject::Caps(f) => req_caps(*f),
            Inject::Algs(h) => req_algs(*h),
            Inject::Version => req_version(),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Act {
    exchange: u8,
    reply: bool,
    what: Tamper,
}
/// The independent responder, and the choices it makes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ref {
    pick: u32,
    mutual: bool,
    meas: u8,
    opaque: Vec<Elem>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mitm {
    leaf: u8,
    depth: u8,
    /// the length of the chain to aim for
    size: Option<u32>,
    others: u8,
    nonce_seed: u8,
    /// none: the library's responder
    peer: Option<Ref>,
    acts: Vec<Act>,
}

fn specs(leaf: u8, depth: u8, size: Option<u32>, others: u8, hash: u32) -> Vec<SlotSpec> {
    let depth = depth.min(cfg().depth as u8).min(((cfg().buf - 40) / 330).saturating_sub(1) as u8);
    (0..cfg().slots)
        .map(|i| {
            if i == 0 || others >> i & 1 == 1 {
                let (depth, size) = if i == 0 { (depth, size) } else { (0, None) };
                SlotSpec::Pki(ChainSpec { hash, size, pad_at: leaf, ..ChainSpec::plain(depth, leaf) })
            } else {
                SlotSpec::Empty
            }
        })
        .collect()
}
fn slots_for(leaf: u8, depth: u8, size: Option<u32>, others: u8, peer: &Option<Ref>) -> Slots {
    let h = peer.as_ref().map(|p| nth_bit(cfg().hashes(), p.pick)).unwrap_or(1);
    // one with as many digests as the transcript has room for
    let opaque = peer.as_ref().map(|p| codec::opaque_bytes(&p.opaque).len()).unwrap_or(0);
    let fits = |s: &Slots| {
        let n = s.iter().flatten().count();
        let len = s[0].as_ref().unwrap().bytes.len();
        len <= cfg().max_chain() && len + opaque <= gen::session_room(n, hash::size(h))
    };
    for (depth, size, others) in [(depth, size, others), (depth, None, others), (0, size, 0)] {
        let s = slots(&specs(leaf, depth, size, others, h));
        if fits(&s) {
            return s;
        }
    }
    slots(&specs(leaf, 0, None, 0, h))
}

enum Peer<'s> {
    Lib(Box<spdm::Responder<'s, TSigner>>, Vec<u8>),
    Ref(RefRsp<'s>),
}
impl<'s> Peer<'s> {
    fn new(slots: &'s Slots, peer: &Option<Ref>, nonce: u8) -> Peer<'s> {
        match peer {
            None => Peer::Lib(Box::new(responder(slots)), vec![0u8; rsp_cap()]),
            Some(p) => {
                let mut r = RefRsp::new(slots);
                r.pick = p.pick;
                r.mutual = p.mutual;
                r.meas = p.meas;
                r.opaque = p.opaque.clone();
                r.rsp_nonce = nonce;
                Peer::Ref(r)
            }
        }
    }
    /// The reply, and whether it was the last.
    fn handle(&mut self, req: &[u8]) -> (Vec<u8>, bool) {
        match self {
            Peer::Lib(r, buf) => {
                let (out, res) = lib!(r.handle_msg(req, buf));
                (out.to_vec(), res.is_err())
            }
            // lenient about the order once a session is open
            Peer::Ref(r) if !r.t.is_empty() || req == req_version() => match r.reply(req) {
                Ok(b) => (b, false),
                Err(_) => (vec![0x11, 0x7f, 1, 0], true),
            },
            Peer::Ref(_) => (vec![0x11, 0x7f, 4, 0], true),
        }
    }
}

/// What the responder took part in: the messages of each session, a session
/// being what follows a version request.
#[derive(Default)]
struct Met {
    sessions: Vec<Vec<Vec<u8>>>,
}
impl Met {
    fn note(&mut self, req: &[u8], rsp: &[u8], dead: bool) {
        if dead {
            return;
        }
        if req == req_version() || self.sessions.is_empty() {
            self.sessions.push(vec![]);
        }
        let s = self.sessions.last_mut().unwrap();
        s.push(req.to_vec());
        s.push(rsp.to_vec());
    }
}

/// `altered`: for a session that completed, whether the responder took part in
/// no session with the same messages; otherwise whether the transport did
/// anything at all.
pub struct Outcome {
    pub completed: bool,
    pub altered: bool,
    pub exchanges: usize,
    pub why: String,
}

/// Everything the requester sent and received since its version request.
struct Seen {
    history: Vec<Vec<u8>>,
    flags: u32,
    hash: u32,
    chain: Vec<u8>,
}
impl Seen {
    fn reply(&mut self, b: &[u8]) {
        let l = cfg().limits(hash::size(self.hash));
        if let Ok((m, _)) = codec::decode(b, &l) {
            match m {
                Msg::Capabilities { flags, .. } => self.flags = flags,
                Msg::Algorithms { hash, .. } if hash & 7 != 0 => self.hash = hash,
                Msg::Certificate { portion, .. } => self.chain = portion,
                _ => {}
            }
        }
        self.history.push(b.to_vec());
    }
    /// Whether the holder of the received leaf's key signed the history.
    fn authentic(&self, slots: &Slots) -> Result<(), String> {
        let mut all: Vec<u8> = self.history.concat();
        let n = all.len();
        if n < 64 {
            return Err("no history".into());
        }
        all.truncate(n - 64);
        let signed = hash::sha(self.hash, &all);
        let c = codec::parse_chain(&self.chain, hash::size(self.hash), cfg().depth)
            .map_err(|e| format!("the received chain is malformed: {e:?}"))?;
        let s = slots
            .iter()
            .flatten()
            .find(|s| s.chain.leaf == c.leaf)
            .ok_or("the received leaf certificate is nobody's")?;
        let log = s.signer.log.lock().unwrap();
        if log.iter().any(|m| *m == signed) {
            Ok(())
        } else {
            Err("the leaf's key never signed what the requester sent and received".into())
        }
    }
}

fn session(
    slots: &Slots,
    root: &[u8],
    mut r: Peer<'_>,
    old: &[Vec<u8>],
    acts: &[Act],
    record: &mut Vec<Vec<u8>>,
) -> Result<Outcome, String> {
    let mut q = Box::new(requester(root));
    let mut qbuf = vec![0u8; 512];
    let mut seen = Seen { history: vec![], flags: 0, hash: 1, chain: vec![] };
    let mut met = Met::default();
    let mut altered = false;
    let mut dead = false;
    for i in 0..6u8 {
        let req = match lib!(q.next_request(&mut qbuf)) {
            Ok(b) => b.to_vec(),
            Err(e) => return Ok(Outcome { completed: false, altered, exchanges: i as usize, why: format!("{e:?}") }),
        };
        seen.history.push(req.clone());
        record.push(req.clone());
        let mut to = vec![req.clone()];
        for a in acts.iter().filter(|a| a.exchange == i && !a.reply) {
            let last = to.last_mut().unwrap();
            match &a.what {
                Tamper::Mutate(m) => *last = gen::apply_all(last, m),
                Tamper::Old => *last = old.get(2 * i as usize).cloned().unwrap_or_default(),
                Tamper::OldAt(k) => *last = old[2 * (*k as usize % (old.len() / 2).max(1))].clone(),
                Tamper::Earlier(k) => *last = record[2 * (*k as usize % (i as usize + 1))].clone(),
                Tamper::Twice => {
                    let l = last.clone();
                    to.push(l)
                }
                Tamper::First(x) => {
                    let n = to.len();
                    to.insert(n - 1, x.bytes())
                }
                Tamper::After(x) => to.push(x.bytes()),
                Tamper::Forge(x) => *last = x.bytes(),
                Tamper::Slot(s) => {
                    if last.len() > 2 {
                        last[2] = *s
                    }
                }
            }
        }
        altered |= to != [req.clone()];
        let mut rsp = vec![];
        for b in &to {
            if dead {
                break;
            }
            (rsp, dead) = r.handle(b);
            met.note(b, &rsp, dead);
        }
        record.push(rsp.clone());
        let sent = rsp.clone();
        for a in acts.iter().filter(|a| a.exchange == i && a.reply) {
            match &a.what {
                Tamper::Mutate(m) => rsp = gen::apply_all(&rsp, m),
                Tamper::Old | Tamper::Twice => rsp = old.get(2 * i as usize + 1).cloned().unwrap_or_default(),
                Tamper::OldAt(k) => rsp = old[2 * (*k as usize % (old.len() / 2).max(1)) + 1].clone(),
                Tamper::Earlier(k) => rsp = record[2 * (*k as usize % (i as usize + 1)) + 1].clone(),
                Tamper::Slot(s) => {
                    if rsp.len() > 2 {
                        rsp[2] = rsp[2] & 0xf0 | s & 15
                    }
                }
                Tamper::First(x) | Tamper::After(x) | Tamper::Forge(x) => {
                    // what the responder says to another request, of which the
                    // requester knows nothing
                    if !dead {
                        (rsp, dead) = r.handle(&x.bytes());
                        altered = true;
                        met.note(&x.bytes(), &rsp, dead);
                    }
                }
            }
        }
        altered |= rsp != sent;
        seen.reply(&rsp);
        match lib!(q.handle_msg(&rsp)) {
            Err(e) => return Ok(Outcome { completed: false, altered, exchanges: i as usize + 1, why: format!("{e:?}") }),
            Ok(true) => {
                if seen.flags & (CERT_CAP | CHAL_CAP) != CERT_CAP | CHAL_CAP {
                    // no authentication was agreed on
                    return Ok(Outcome { completed: false, altered, exchanges: i as usize + 1, why: "not negotiated".into() });
                }
                seen.authentic(slots).map_err(|e| {
                    format!(
                        "completed although {e}; messages: {}",
                        seen.history.iter().map(|b| short(b)).collect::<Vec<_>>().join(" ")
                    )
                })?;
                // what came before a version request is not of the session it opens
                let altered = !met.sessions.iter().any(|v| v.starts_with(&seen.history));
                return Ok(Outcome { completed: true, altered, exchanges: i as usize + 1, why: String::new() });
            }
            Ok(false) => {}
        }
    }
    Ok(Outcome { completed: false, altered, exchanges: 6, why: "open".into() })
}

/// n - s for the group order n: the signature's other form.
fn malleated(orig: &[u8], got: &[u8]) -> bool {
    if orig.len() != got.len() || orig.len() < 64 {
        return false;
    }
    let k = orig.len() - 32;
    const N: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7,
        0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
    ];
    let mut borrow = 0i16;
    let mut d = [0u8; 32];
    for i in (0..32).rev() {
        let x = N[i] as i16 - orig[k + i] as i16 - borrow;
        borrow = (x < 0) as i16;
        d[i] = (x & 0xff) as u8;
    }
    orig[..k] == got[..k] && got[k..] == d
}

fn mitm(c: &Mitm, o: &mut Obs) -> Check {
    let s = slots_for(c.leaf, c.depth, c.size, c.others, &c.peer);
    let root = root_cert(0);
    let mut old = vec![];
    getrandom::control::seed(1000 + c.nonce_seed as u64);
    let first = session(&s, &root, Peer::new(&s, &c.peer, !c.nonce_seed), &[], &[], &mut old)?;
    if !first.completed {
        return Err(format!("an untouched session did not complete: {}", first.why));
    }
    let mut rec = vec![];
    getrandom::control::seed(1 + c.nonce_seed as u64);
    let out = session(&s, &root, Peer::new(&s, &c.peer, c.nonce_seed), &old, &c.acts, &mut rec)?;
    if out.altered && out.completed {
        return Err(format!("completed although the transport altered the session: {:?}", c.acts));
    }
    if !out.altered && !out.completed && out.why != "not negotiated" {
        return Err(format!("an unaltered session failed: {}", out.why));
    }
    if out.altered {
        o.nontrivial();
        o.class(format!("refused at exchange {}", out.exchanges));
        o.note(format!("refused at exchange {}: {}", out.exchanges, out.why));
    } else {
        o.class("no effect");
    }
    Ok(())
}

// ------------------------------------------------------------ every bit

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flip {
    peer: Option<Ref>,
    exchange: u8,
    reply: bool,
    byte: u32,
    bit: u8,
}
/// The library's responder, and independent ones with every hash.
fn flip_peers() -> Vec<Option<Ref>> {
    let l = cfg().limits(32);
    let e = |registry: u8, n: usize| Elem {
        registry,
        vid: match codec::vid_len(registry) {
            0 => Vid::None,
            2 => Vid::U16(0x1234),
            _ => Vid::U32(0x9abc),
        },
        data: gen::Fill { len: n.min(l.opaque_data) as u32, seed: 7 }.get(),
    };
    let mut v = vec![None];
    for pick in 0..cfg().hashes().count_ones() {
        let mut opaque = vec![e(0, 9), e(1, 3), e(2, 0)];
        opaque.truncate(if pick == 0 { 0 } else { l.opaque_elems.min(pick as usize) });
        v.push(Some(Ref { pick, mutual: false, meas: 0x5a, opaque }));
    }
    v
}
fn flip_layout() -> Vec<(Option<Ref>, u8, bool, usize)> {
    let mut all = vec![];
    for p in flip_peers() {
        let s = slots_for(0, 1, None, 2, &p);
        let root = root_cert(0);
        let mut rec = vec![];
        getrandom::control::seed(5);
        match session(&s, &root, Peer::new(&s, &p, 1), &[], &[], &mut rec) {
            Ok(o) if o.completed => {}
            // the sweep itself reports it: with nothing to flip, its one case fails
            _ => {
                all.push((p, 0, false, 1));
                continue;
            }
        }
        all.extend(rec.iter().enumerate().map(|(i, m)| (p.clone(), (i / 2) as u8, i % 2 == 1, m.len())));
    }
    all
}
fn flip(c: &Flip, o: &mut Obs) -> Check {
    let s = slots_for(0, 1, None, 2, &c.peer);
    let root = root_cert(0);
    let mut rec = vec![];
    getrandom::control::seed(5);
    let act = Act {
        exchange: c.exchange,
        reply: c.reply,
        what: Tamper::Mutate(vec![Mut::Flip { at: c.byte as u16, bit: c.bit }]),
    };
    let out = session(&s, &root, Peer::new(&s, &c.peer, 1), &[], &[act], &mut rec)?;
    if out.completed {
        return Err(format!("completed although a bit was changed: {c:?}"));
    }
    if !out.altered {
        return Err("nothing was altered: an honest session does not get this far".into());
    }
    o.nontrivial();
    o.class(format!("{} {}: refused at {}", if c.reply { "reply" } else { "request" }, c.exchange, out.exchanges));
    o.note(out.why);
    Ok(())
}

// -------------------------------------- responders without the right to sign

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Forgery {
    /// the real thing, to see that the check is not vacuous
    None,
    Key(u8),
    /// the history without its message i
    Omit(u8),
    /// message i altered before signing
    Alter(u8, Mut),
    /// two messages exchanged
    Swap(u8, u8),
    /// another challenge nonce
    Nonce(Mut),
    /// signed over the transcript itself, not its hash
    NoHash,
    OtherHash(u32),
    /// the reply left out of what is signed
    WithoutReply,
    /// the signature included as zeros
    WithSignature,
    /// only the challenge and its reply
    OnlyChallenge,
    Empty,
    /// an old signature for the same messages but another challenge nonce
    Replay(u8),
    Const(u8),
    Sig(Vec<Mut>),
    Negated,
    /// r and s exchanged
    Reversed,
    /// fields of the reply that are wrong, though signed
    Slot(u8),
    Mask(u8),
    ChainHash(Mut),
    /// the certificate and key of another slot
    OtherChain(u8),
    /// the key of the root or of an intermediate certificate
    Ca(u8),
    /// signed over these pieces of the session
    Over(Vec<Piece>, With),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum With {
    /// the session's hash
    Agreed,
    Hash(u32),
    /// no hash
    Plain,
}
/// What a signature might be over.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Piece {
    /// a message, the last being the reply without its signature
    Msg(u8),
    /// consecutive messages
    Msgs(u8, u8),
    /// some of the bytes of all of it
    Bytes(u16, u16),
    ReqNonce,
    RspNonce,
    Chain,
    ChainHash,
    Leaf,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Forged {
    leaf: u8,
    depth: u8,
    size: Option<u32>,
    peer: Ref,
    what: Forgery,
}

fn forged(c: &Forged, o: &mut Obs) -> Check {
    let h = nth_bit(cfg().hashes(), c.peer.pick);
    let s = slots_for(c.leaf, c.depth, c.size, 2, &Some(c.peer.clone()));
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut peer = RefRsp::new(&s);
    peer.pick = c.peer.pick;
    peer.mutual = c.peer.mutual;
    peer.meas = c.peer.meas;
    peer.opaque = c.peer.opaque.clone();
    let mut msgs: Vec<Vec<u8>> = vec![];
    let mut buf = vec![0u8; 512];
    for _ in 0..5 {
        let req = lib!(q.next_request(&mut buf)).map_err(|e| format!("no request: {e:?}"))?.to_vec();
        let rsp = peer.reply(&req)?;
        lib!(q.handle_msg(&rsp)).map_err(|e| format!("honest response {} refused: {e:?}", short(&rsp)))?;
        msgs.push(req);
        msgs.push(rsp);
    }
    let req = lib!(q.next_request(&mut buf)).map_err(|e| format!("no challenge: {e:?}"))?.to_vec();
    let good = peer.reply(&req)?;
    msgs.push(req);
    let cut = good.len() - 64;
    let d = hash::size(h);
    let mut body = good[..cut].to_vec();
    let mut key_ = s[0].as_ref().unwrap().signer.key.clone();
    let mut hist = msgs.clone();
    let mut hash_with = Some(h);
    let mut tail = true;
    let mut sig: Option<Vec<u8>> = None;
    let mut honest = false;
    match &c.what {
        Forgery::None => honest = true,
        Forgery::Key(k) => {
            let k = 60 + k % 60;
            if key(k).public() == key_.public() {
                honest = true
            }
            key_ = key(k)
        }
        Forgery::Omit(i) => {
            let i = *i as usize % hist.len();
            hist.remove(i);
        }
        Forgery::Alter(i, m) => {
            let i = *i as usize % hist.len();
            gen::apply(&mut hist[i], m);
            honest = hist == msgs
        }
        Forgery::Swap(i, j) => {
            let n = hist.len();
            hist.swap(*i as usize % n, *j as usize % n);
            honest = hist.concat() == msgs.concat()
        }
        Forgery::Nonce(m) => {
            let n = hist.len() - 1;
            let mut x = hist[n][4..].to_vec();
            gen::apply(&mut x, m);
            hist[n].truncate(4);
            hist[n].extend(x);
            honest = hist == msgs
        }
        Forgery::NoHash => hash_with = None,
        Forgery::OtherHash(x) => {
            let x = nth_bit(cfg().hashes(), *x);
            honest = x == h;
            hash_with = Some(x)
        }
        Forgery::WithoutReply => tail = false,
        Forgery::WithSignature => hist.push(vec![]),
        Forgery::OnlyChallenge => hist = vec![hist.last().unwrap().clone()],
        Forgery::Empty => {
            hist.clear();
            tail = false
        }
        Forgery::Replay(n) => {
            let k = hist.len() - 1;
            let mut old = hist[k].clone();
            let x = old.len() - 1;
            old[x] ^= n | 1;
            hist[k] = old
        }
        Forgery::Const(b) => sig = Some(vec![*b; 64]),
        Forgery::Sig(m) => {
            let mut x = gen::apply_all(&good[cut..], m);
            x.resize(64, 0);
            honest = x == good[cut..] || malleated(&good, &[&good[..cut], &x[..]].concat());
            sig = Some(x)
        }
        Forgery::Negated => {
            let mut x = good[cut..].to_vec();
            for b in x[..32].iter_mut() {
                *b = !*b
            }
            sig = Some(x)
        }
        Forgery::Reversed => sig = Some([&good[cut + 32..], &good[cut..cut + 32]].concat()),
        Forgery::Slot(x) => {
            body[2] = body[2] & 0xf0 | x & 15;
            honest = body == good[..cut]
        }
        Forgery::Mask(x) => {
            // what the mask says of other slots is not the requester's matter,
            // but it must have the one challenged
            body[3] = *x & !1
        }
        Forgery::ChainHash(m) => {
            let mut x = body[4..4 + d].to_vec();
            gen::apply(&mut x, m);
            x.resize(d, 0);
            body[4..4 + d].copy_from_slice(&x);
            honest = body == good[..cut]
        }
        Forgery::Ca(i) => {
            let inter = s[0].as_ref().unwrap().chain.inter.len() as u8;
            key_ = match i % (inter + 1) {
                0 => key(1),
                n => key(20 + inter - n),
            }
        }
        Forgery::Over(pieces, h2) => {
            let mut all = msgs.clone();
            all.push(body.clone());
            let flat = all.concat();
            let n = all.len();
            let mut over = vec![];
            for p in pieces {
                match p {
                    Piece::Msg(i) => over.extend(&all[*i as usize % n]),
                    Piece::Msgs(i, j) => {
                        let (i, j) = (*i as usize % n, *j as usize % n);
                        over.extend(all[i.min(j)..=i.max(j)].concat())
                    }
                    Piece::Bytes(i, j) => {
                        let f = |x: u16| (x as usize * (flat.len() + 1)) >> 16;
                        over.extend(&flat[f(*i.min(j))..f(*i.max(j))])
                    }
                    Piece::ReqNonce => over.extend(&msgs[n - 2][4..]),
                    Piece::RspNonce => over.extend(&body[4 + d..4 + d + 32]),
                    Piece::Chain => over.extend(&s[0].as_ref().unwrap().bytes),
                    Piece::ChainHash => over.extend(&body[4..4 + d]),
                    Piece::Leaf => over.extend(&s[0].as_ref().unwrap().chain.leaf),
                }
            }
            hash_with = match h2 {
                With::Agreed => Some(h),
                With::Hash(x) => Some(nth_bit(cfg().hashes(), *x)),
                With::Plain => None,
            };
            honest = over == flat && hash_with == Some(h);
            hist = vec![over];
            tail = false
        }
        Forgery::OtherChain(_) => match s.get(1) {
            Some(Some(f)) => {
                key_ = f.signer.key.clone();
                body[4..4 + d].copy_from_slice(&hash::sha(h, &f.bytes))
            }
            _ => {
                o.class("no other slot");
                return Ok(());
            }
        },
    }
    let sig = sig.unwrap_or_else(|| {
        let mut t = hist.concat();
        if tail {
            t.extend(&body)
        }
        if matches!(c.what, Forgery::WithSignature) {
            t.extend([0; 64])
        }
        let m = match hash_with {
            Some(h) => hash::sha(h, &t),
            None => t,
        };
        key_.sign_raw(&m, 13).as_ref().to_vec()
    });
    let rsp = [&body[..], &sig[..]].concat();
    let res = lib!(q.handle_msg(&rsp));
    let is = |done: bool| {
        if done {
            "completed"
        } else {
            "did not complete"
        }
    };
    let done = matches!(res, Ok(true));
    if done != honest {
        return Err(format!("{} with the challenge reply {} ({:?}): {res:?}", is(done), short(&rsp), c.what));
    }
    if !done && q.state().name() != "Error" {
        return Err(format!("refused without stopping: {}", q.state().name()));
    }
    o.class(format!("{}: {}", format!("{:?}", c.what).split(['(', ' ']).next().unwrap(), is(done)));
    if !honest {
        o.nontrivial();
        o.note(format!("{res:?}"));
    }
    Ok(())
}

fn reference() -> BoxedStrategy<Ref> {
    (any::<u32>(), any::<bool>(), any::<u8>(), gen::elems(&cfg().limits(32)))
        .prop_map(|(pick, mutual, meas, opaque)| Ref { pick, mutual, meas, opaque })
        .boxed()
}
fn over() -> BoxedStrategy<Forgery> {
    let piece = prop_oneof![
        2 => (0u8..12).prop_map(Piece::Msg),
        3 => (0u8..12, 0u8..12).prop_map(|(a, b)| Piece::Msgs(a, b)),
        3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Piece::Bytes(a, b)),
        1 => any::<u16>().prop_map(|a| Piece::Bytes(0, a)),
        1 => any::<u16>().prop_map(|a| Piece::Bytes(a, 0xffff)),
        3 => Just(Piece::ReqNonce),
        2 => Just(Piece::RspNonce),
        1 => Just(Piece::Chain),
        1 => Just(Piece::ChainHash),
        1 => Just(Piece::Leaf),
    ];
    let with = prop_oneof![4 => Just(With::Agreed), 1 => (0u32..3).prop_map(With::Hash), 1 => Just(With::Plain)];
    let n = prop_oneof![3 => Just(1usize), 1 => Just(2), 1 => Just(3)];
    (n.prop_flat_map(move |n| vec(piece.clone(), n)), with).prop_map(|(p, w)| Forgery::Over(p, w)).boxed()
}
/// The length of the chain: mostly what it comes to.
fn size() -> BoxedStrategy<Option<u32>> {
    let max = cfg().max_chain();
    prop_oneof![
        3 => Just(None),
        1 => (300..=max as u32).prop_map(Some),
        1 => (0..600u32).prop_map(move |x| Some((max as u32).saturating_sub(x))),
    ]
    .boxed()
}
fn inject() -> BoxedStrategy<Inject> {
    prop_oneof![
        3 => Just(Inject::Digests),
        3 => (0u8..4).prop_map(Inject::Cert),
        3 => (0u8..4, any::<u8>()).prop_map(|(a, b)| Inject::Challenge(a, b)),
        1 => gen::bits(REQ_FLAGS).prop_map(Inject::Caps),
        1 => (1u32..8).prop_map(Inject::Algs),
        1 => Just(Inject::Version),
    ]
    .boxed()
}
fn tamper() -> BoxedStrategy<Tamper> {
    prop_oneof![
        4 => gen::mutations(3).prop_map(Tamper::Mutate),
        3 => Just(Tamper::Old),
        1 => (0u8..6).prop_map(Tamper::OldAt),
        1 => (0u8..6).prop_map(Tamper::Earlier),
        2 => Just(Tamper::Twice),
        3 => inject().prop_map(Tamper::First),
        1 => inject().prop_map(Tamper::After),
        1 => inject().prop_map(Tamper::Forge),
        1 => (0u8..8).prop_map(Tamper::Slot),
    ]
    .boxed()
}

pub fn parts() -> Vec<Part> {
    let layout = flip_layout();
    let total: usize = layout.iter().map(|x| x.3 * 8).sum();
    vec![
        prop(
            "mitm",
            "the transport altered, replayed, repeated, inserted or reordered at least one message (and the session was refused)",
            (6000, 60000),
            || {
                (
                    0u8..8,
                    0u8..3,
                    size(),
                    any::<u8>(),
                    any::<u8>(),
                    proptest::option::of(reference()),
                    vec(
                        (prop_oneof![1 => Just(0u8), 5 => 0u8..6], any::<bool>(), tamper())
                            .prop_map(|(exchange, reply, what)| Act { exchange, reply, what }),
                        1..3,
                    ),
                )
                    .prop_map(|(leaf, depth, size, others, nonce_seed, peer, acts)| Mitm { leaf, depth, size, others, nonce_seed, peer, acts })
            },
            mitm,
        ),
        sweep(
            "every-bit",
            "one bit of one message of the session was flipped in transit: every bit of all twelve messages, with the library's responder and with independent ones of each hash",
            move |_| total,
            {
                let layout = layout.clone();
                move |i| {
                    let mut i = i;
                    for (p, e, r, n) in &layout {
                        if i < n * 8 {
                            return Flip { peer: p.clone(), exchange: *e, reply: *r, byte: (i / 8) as u32, bit: (i % 8) as u8 };
                        }
                        i -= n * 8;
                    }
                    unreachable!()
                }
            },
            flip,
        ),
        prop(
            "forged-reply",
            "the challenge reply was well formed but not a signature over the requester's history by the leaf's key",
            (4000, 50000),
            || {
                (
                    0u8..8,
                    0u8..3,
                    size(),
                    reference(),
                    prop_oneof![
                        1 => Just(Forgery::None),
                        2 => any::<u8>().prop_map(Forgery::Key),
                        3 => (0u8..11).prop_map(Forgery::Omit),
                        4 => (0u8..11, gen::mutation()).prop_map(|(a, b)| Forgery::Alter(a, b)),
                        2 => (0u8..11, 0u8..11).prop_map(|(a, b)| Forgery::Swap(a, b)),
                        2 => gen::mutation().prop_map(Forgery::Nonce),
                        1 => Just(Forgery::NoHash),
                        1 => any::<u32>().prop_map(Forgery::OtherHash),
                        1 => Just(Forgery::WithoutReply),
                        1 => Just(Forgery::WithSignature),
                        1 => Just(Forgery::OnlyChallenge),
                        1 => Just(Forgery::Empty),
                        1 => any::<u8>().prop_map(Forgery::Replay),
                        1 => gen::byte().prop_map(Forgery::Const),
                        3 => gen::mutations(3).prop_map(Forgery::Sig),
                        1 => Just(Forgery::Negated),
                        1 => Just(Forgery::Reversed),
                        2 => any::<u8>().prop_map(Forgery::Slot),
                        1 => any::<u8>().prop_map(Forgery::Mask),
                        2 => gen::mutation().prop_map(Forgery::ChainHash),
                        1 => any::<u8>().prop_map(Forgery::OtherChain),
                        2 => any::<u8>().prop_map(Forgery::Ca),
                        6 => over(),
                    ],
                )
                    .prop_map(|(leaf, depth, size, peer, what)| Forged { leaf, depth, size, peer, what })
            },
            forged,
        ),
    ]
}
