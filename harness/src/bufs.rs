//! C11 (transcripts) and C18 (output buffers).
use crate::c03;
use crate::cfg::cfg;
use crate::gen;
use crate::glue;
use crate::model::*;
use crate::order::{accepted_paths, Sym};
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;
use vcommon::codec::{self, Msg, *};
use vcommon::run::*;

fn small_specs(hash: u32) -> Vec<SlotSpec> {
    let mut v = vec![SlotSpec::Pki(ChainSpec { hash, ..ChainSpec::plain(0, 1) })];
    if cfg().slots > 1 {
        v.push(SlotSpec::Junk { root: 32, inter: vec![], leaf: 50, key: 2, fill: 3 });
    }
    v
}

// ------------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fill {
    path: Vec<Sym>,
    hash: u8,
    /// the request that is followed by padding
    pad_at: u8,
    /// the message after which the transcript should be full, counted from
    /// the padded one: requests and replies alternate
    target: u8,
    /// how far beyond full
    delta: i8,
}
fn sym(s: Sym, hash: u32) -> Vec<u8> {
    match s {
        Sym::V => req_version(),
        Sym::C => req_caps(REQ_FLAGS),
        Sym::A => req_algs(hash),
        Sym::D => req_digests(),
        Sym::G => req_cert(0),
        Sym::H => req_challenge(0, 7),
    }
}
fn fill_responder(c: &Fill, o: &mut Obs) -> Check {
    if c.path.is_empty() {
        return Ok(());
    }
    let h = nth_bit(cfg().hashes(), c.hash as u32);
    let s = slots(&small_specs(h));
    let n = c.path.len();
    let pad_at = c.pad_at as usize % n;
    // lengths without padding
    let mut lens = vec![];
    {
        let mut r = Box::new(responder(&s));
        let mut m = RspModel::new(&s);
        for x in &c.path {
            let b = sym(*x, h);
            let st = m.step(&mut r, &b, rsp_cap())?;
            if !st.accepted {
                break;
            }
            let rec = if b[1] == CHALLENGE { st.reply.len() - 64 } else { st.reply.len() };
            lens.push(m.t.len() - rec);
            lens.push(m.t.len());
        }
    }
    // the padded session ends with the next version request
    let end = (pad_at + 1..n).find(|i| c.path[*i] == Sym::V).unwrap_or(n).min(lens.len() / 2);
    if pad_at >= end {
        o.class("full without padding (skipped)");
        return Ok(());
    }
    let target = 2 * pad_at + c.target as usize % (2 * (end - pad_at));
    let want = cfg().transcript as i64 + c.delta as i64 - lens[target] as i64;
    if want < 0 {
        o.class("longer without padding (skipped)");
        return Ok(());
    }
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    for (i, x) in c.path.iter().enumerate() {
        let mut b = sym(*x, h);
        if i == pad_at {
            b.extend((0..want).map(|k| (k as u8).wrapping_mul(29)));
        }
        let before = m.t.clone();
        let st = m.step(&mut r, &b, rsp_cap()).map_err(|e| format!("request {i} of {:?}: {e}", c.path))?;
        o.nontrivial();
        if st.accepted {
            if i == target / 2 {
                o.class(format!("{x:?} fits, {} bytes left", cfg().transcript - m.t.len()));
            }
            continue;
        }
        if st.why != "transcript full" {
            return Err(format!("request {i} of {:?} refused: {}", c.path, st.why));
        }
        // whole messages only
        let t = r.transcript().get();
        let with = [&before[..], &b[..]].concat();
        let ok = t == &before[..] || t == &with[..] || (*x == Sym::V && (t.is_empty() || t == &b[..]));
        if !ok {
            return Err(format!("request {i} of {:?} did not fit, and the transcript went from {} to {}", c.path, short(&before), short(t)));
        }
        o.class(format!("{x:?} does not fit by {}", c.delta));
        break;
    }
    o.note(format!("{:?}, {want} bytes of padding after request {pad_at}, message {target} ends {} beyond full", c.path, c.delta));
    Ok(())
}
fn long_paths() -> &'static Vec<Vec<Sym>> {
    static P: OnceLock<Vec<Vec<Sym>>> = OnceLock::new();
    P.get_or_init(|| accepted_paths(7).into_iter().filter(|p| !p.is_empty()).collect())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FillQ {
    pick: u8,
    /// how often each request is asked for beyond once
    again: [u8; 6],
    pad_at: u8,
    target: u8,
    delta: i8,
    flags: u32,
    peer: Choices,
}
/// Whole sessions of the requester with the pad given; the lengths after each
/// recorded message, or where it stopped.
fn run_requester(c: &FillQ, pad: Option<(usize, usize)>, o: &mut Obs) -> Result<(Vec<(usize, bool)>, bool), String> {
    let h = nth_bit(cfg().hashes(), c.pick as u32);
    let s = slots(&small_specs(h));
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    peer.pick = c.pick as u32;
    peer.flags = c.flags;
    c.peer.put(&mut peer);
    let trust = trust_of(s[0].as_ref().unwrap());
    let mut lens = vec![];
    let mut rsp_no = 0;
    loop {
        let phase = qm.phase;
        let i = match phase {
            QPhase::Version => 0,
            QPhase::Capabilities => 1,
            QPhase::Algorithms => 2,
            QPhase::Digests => 3,
            QPhase::Certificate => 4,
            QPhase::Challenge => 5,
            _ => break,
        };
        let mut req = vec![];
        for _ in 0..1 + c.again[i] {
            let before = qm.t.clone();
            match qm.send(&mut q, 512)? {
                None => {
                    // the model has seen that nothing was recorded
                    o.class(format!("{phase:?}: the request does not fit the transcript"));
                    let _ = before;
                    return Ok((lens, true));
                }
                Some(b) => req = b,
            }
            lens.push((qm.t.len(), false));
        }
        if req[1] != GET_VERSION {
            peer.t = qm.t[..qm.t.len() - req.len()].to_vec();
        }
        let mut rsp = peer.reply(&req)?;
        if let Some((at, n)) = pad {
            if at == rsp_no {
                rsp.extend((0..n).map(|k| (k as u8).wrapping_mul(31)));
            }
        }
        let before = qm.t.clone();
        if !qm.deliver(&mut q, &rsp, &trust)? {
            let t = q.transcript().get();
            let with = [&before[..], &rsp[..if req[1] == CHALLENGE { rsp.len() - 64 } else { rsp.len() }]].concat();
            if t != &before[..] && t != &with[..] {
                return Err(format!("{phase:?}: a response of {} bytes was refused, and the transcript went from {} to {}", rsp.len(), short(&before), short(t)));
            }
            o.class(format!("{phase:?}: the response does not fit the transcript"));
            return Ok((lens, true));
        }
        lens.push((qm.t.len(), phase != QPhase::Challenge));
        rsp_no += 1;
    }
    Ok((lens, false))
}
fn fill_requester(c: &FillQ, o: &mut Obs) -> Check {
    let mut dry = Obs::default();
    let (lens, _) = run_requester(c, None, &mut dry)?;
    // which recorded messages are responses that can be padded
    let pads: Vec<usize> = lens.iter().enumerate().filter(|(_, l)| l.1).map(|(i, _)| i).collect();
    if pads.is_empty() {
        o.class("full at once (skipped)");
        return Ok(());
    }
    let p = c.pad_at as usize % pads.len();
    let at = pads[p];
    let target = at + c.target as usize % (lens.len() - at);
    let want = cfg().transcript as i64 + c.delta as i64 - lens[target].0 as i64;
    if want < 0 {
        o.class("longer without padding (skipped)");
        return Ok(());
    }
    let (_, full) = run_requester(c, Some((p, want as usize)), o)?;
    o.nontrivial();
    o.class(if full { "full" } else { "fits" });
    o.note(format!("{want} bytes of padding, message {target} of {} ends {} beyond full", lens.len(), c.delta));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TOp {
    Extend(gen::Fill),
    Clear,
    /// up to this far from full
    Fill(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unit {
    a: Vec<TOp>,
    b: Vec<TOp>,
    /// b afterwards gets the contents of a, by another way
    same: u8,
    /// but for one byte
    but: Option<(u16, u8)>,
}
fn run_ops(ops: &[TOp]) -> Result<(Box<spdm::Transcript>, Vec<u8>, u32), String> {
    let mut t = Box::new(lib!(spdm::Transcript::new()));
    let mut m: Vec<u8> = vec![];
    let mut failed = 0;
    for (i, op) in ops.iter().enumerate() {
        let d = match op {
            TOp::Clear => {
                lib!(t.clear());
                m.clear();
                vec![]
            }
            TOp::Extend(f) => f.get(),
            TOp::Fill(short) => vec![*short; (cfg().transcript - m.len()).saturating_sub(*short as usize)],
        };
        if !matches!(op, TOp::Clear) {
            let fits = m.len() + d.len() <= cfg().transcript;
            let r = lib!(t.extend(&d));
            if r.is_ok() != fits {
                return Err(format!("operation {i}: {} bytes onto {} gave {r:?}", d.len(), m.len()));
            }
            if fits {
                m.extend(d)
            } else {
                failed += 1
            }
        }
        if t.get() != &m[..] || t.len() != m.len() {
            return Err(format!("operation {i} ({op:?}): {} instead of {}", short(t.get()), short(&m)));
        }
        let c = t.clone();
        if c.get() != &m[..] || *c != *t {
            return Err("a copy differs".into());
        }
    }
    Ok((t, m, failed))
}
fn unit(c: &Unit, o: &mut Obs) -> Check {
    let (ta, ma, f) = run_ops(&c.a)?;
    let (mut tb, mut mb, _) = run_ops(&c.b)?;
    if c.same > 0 {
        lib!(tb.clear());
        mb = ma.clone();
        if let (Some((at, bit)), false) = (c.but, ma.is_empty()) {
            let n = mb.len();
            mb[if at & 1 == 0 { n - 1 - (at as usize / 2) % n } else { (at as usize / 2) % n }] ^= 1 << (bit & 7);
        }
        for p in mb.clone().chunks(c.same as usize) {
            lib!(tb.extend(p)).map_err(|e| format!("{e:?}"))?;
        }
    }
    if (*ta == *tb) != (ma == mb) || (*tb == *ta) != (ma == mb) {
        return Err(format!("{} and {} compare equal: {}", short(&ma), short(&mb), *ta == *tb));
    }
    if f > 0 || ma == mb || !ma.is_empty() {
        o.nontrivial();
    }
    o.class(format!("equal: {}, {} did not fit", ma == mb, f.min(3)));
    Ok(())
}

pub fn c11() -> Vec<Part> {
    let top = || {
        prop_oneof![
            4 => (0u32..300, any::<u8>()).prop_map(|(len, seed)| TOp::Extend(gen::Fill { len, seed })),
            2 => (0usize..=cfg().transcript + 2, any::<u8>()).prop_map(|(len, seed)| TOp::Extend(gen::Fill { len: len as u32, seed })),
            2 => (0u8..4).prop_map(TOp::Fill),
            1 => Just(TOp::Clear),
        ]
    };
    vec![
        sweep(
            "responder",
            "every accepted sequence of up to seven requests, padded so that one of its messages ends between two bytes short of and two beyond a full transcript",
            |t| long_paths().len() * if t == Tier::Quick { 24 } else { 400 },
            |i| {
                let p = &long_paths()[i % long_paths().len()];
                let v = i / long_paths().len();
                let x = (i as u32).wrapping_mul(0x9E37_79B9) >> 8;
                Fill { path: p.clone(), hash: (v % 3) as u8, pad_at: (x % 251) as u8, target: (x / 251 % 253) as u8, delta: (v % 5) as i8 - 2 }
            },
            fill_responder,
        ),
        prop(
            "requester",
            "a session with repeated requests, padded so that one of its messages ends between two bytes short of and two beyond a full transcript",
            (12000, 200000),
            || {
                (
                    any::<u8>(),
                    prop_oneof![2 => Just([0u8; 6]), 1 => any::<[u8; 6]>().prop_map(|a| a.map(|x| x % 3))],
                    any::<u8>(),
                    any::<u8>(),
                    -2i8..=2,
                    prop_oneof![3 => Just(RSP_FLAGS), 1 => gen::bits(RSP_FLAGS)],
                    gen::choices().prop_map(|c| Choices { twist: vec![], ..c }),
                )
                    .prop_map(|(pick, again, pad_at, target, delta, flags, peer)| FillQ { pick, again, pad_at, target, delta, flags, peer })
            },
            fill_requester,
        ),
        prop(
            "histories",
            "a random history of good and bad requests; the transcript was compared with the list of messages after each",
            (6000, 100000),
            || c03::case(20),
            crate::order::history,
        ),
        prop(
            "values",
            "transcripts built by random operations, compared with byte lists after each, and with one another",
            (20000, 300000),
            move || {
                let but = prop_oneof![Just(None), (any::<u16>(), 0u8..8).prop_map(Some)];
                (vec(top(), 0..8), vec(top(), 0..8), prop_oneof![1 => Just(0u8), 2 => 1u8..100], but).prop_map(|(a, b, same, but)| Unit { a, b, same, but })
            },
            unit,
        ),
    ]
}

// ------------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cap {
    what: u8,
    cap: u32,
}
/// The things a responder can be asked, and where.
const RSP: usize = 12;
fn rsp_case(what: u8) -> (Phase, Vec<u8>) {
    let l = cfg();
    match what {
        0 => (Phase::Version, req_version()),
        1 => (Phase::Capabilities, req_caps(REQ_FLAGS)),
        2 => (Phase::Algorithms, req_algs(1)),
        3 => (Phase::Algorithms, codec::encode(&Msg::NegotiateAlgorithms { spec: 1, asym: P256, hash: l.hashes(), algs: vec![] })),
        4 => (Phase::IdAuth, req_digests()),
        5 => (Phase::IdAuth, req_cert(0)),
        6 => (Phase::IdAuth, req_cert(1)),
        7 => (Phase::Challenge, req_challenge(0, 1)),
        // refused ones
        8 => (Phase::Version, vec![0x11, 0x77, 0, 0]),
        9 => (Phase::IdAuth, req_cert(200)),
        10 => (Phase::Algorithms, req_algs(8)),
        _ => (Phase::Challenge, req_challenge(7, 1)),
    }
}
fn cap_rsp(c: &Cap, o: &mut Obs) -> Check {
    let (phase, b) = rsp_case(c.what);
    let s = slots(&small_specs(1));
    if phase > Phase::IdAuth && !cfg().cert() {
        return Ok(());
    }
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    reach(&mut r, &mut m, phase, REQ_FLAGS, 1, 0)?;
    let mut wide = Box::new(responder(&s));
    let mut wm = RspModel::new(&s);
    reach(&mut wide, &mut wm, phase, REQ_FLAGS, 1, 0)?;
    getrandom::control::seed(77);
    let full = wm.step(&mut wide, &b, rsp_cap())?;
    getrandom::control::seed(77);
    let st = m.step(&mut r, &b, c.cap as usize)?;
    o.nontrivial();
    if full.accepted {
        // accepted exactly if it fits, and then the same
        if st.accepted != (full.reply.len() <= c.cap as usize) {
            return Err(format!("a reply of {} bytes in {} bytes: accepted {}", full.reply.len(), c.cap, st.accepted));
        }
        if st.accepted && st.reply != full.reply {
            return Err(format!("in {} bytes {}, in an ample buffer {}", c.cap, short(&st.reply), short(&full.reply)));
        }
        if st.accepted && r.transcript() != wide.transcript() {
            return Err("the transcript depends on the buffer".into());
        }
    } else if st.accepted {
        return Err("accepted only in a small buffer".into());
    } else if c.cap as usize >= full.reply.len() && st.reply != full.reply {
        return Err(format!("error {} in {} bytes, {} in an ample buffer", short(&st.reply), c.cap, short(&full.reply)));
    }
    o.class(format!(
        "{}: {}",
        c.what,
        if st.accepted {
            "fits"
        } else if st.reply.is_empty() {
            "nothing fits"
        } else {
            "an error fits"
        }
    ));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Retry {
    /// buffers each request is first tried with
    caps: Vec<Vec<u16>>,
    /// so much more than needed is in the buffer each request is then made in
    more: Vec<u16>,
    pick: u8,
    flags: u32,
}
/// A requester whose requests do not fit at first.
fn retry(c: &Retry, o: &mut Obs) -> Check {
    let h = nth_bit(cfg().hashes(), c.pick as u32);
    let s = slots(&small_specs(h));
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    peer.pick = c.pick as u32;
    peer.flags = c.flags;
    let trust = trust_of(s[0].as_ref().unwrap());
    let mut failed = 0;
    let mut n = 0;
    while qm.phase != QPhase::Done {
        let need = qm.request_len();
        for cap in c.caps.get(n).into_iter().flatten() {
            // relative to what is needed
            let cap = (*cap as usize) % need;
            if qm.send(&mut q, cap)?.is_some() {
                return Err(format!("a request of {need} bytes in {cap}"));
            }
            failed += 1;
        }
        // exactly what is needed will do
        let more = c.more.get(n).copied().unwrap_or(0) as usize;
        let req = qm.send(&mut q, need + more)?.ok_or("no request in a sufficient buffer")?;
        if req.len() != need {
            return Err(format!("a request of {} bytes, {need} expected, in a buffer of {}", req.len(), need + more));
        }
        let rsp = peer.reply(&req)?;
        if !qm.deliver(&mut q, &rsp, &trust)? {
            return Err(format!("after {failed} requests that did not fit, {} was refused", short(&rsp)));
        }
        n += 1;
    }
    if failed > 0 {
        o.nontrivial();
    }
    o.class(format!("{n} exchanges"));
    o.note(format!("{failed} requests did not fit at first"));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wr {
    msg: Msg,
    limits_digest: u8,
}
fn writes(c: &Wr, o: &mut Obs) -> Check {
    let l = {
        let d = gen::digest_sizes();
        let mut l = cfg().limits(d[c.limits_digest as usize % d.len()]);
        l.meas_sig = !matches!(&c.msg, Msg::Measurements { sig: None, .. });
        l
    };
    let _ = &l;
    let v = match glue::build(&c.msg) {
        Some(v) => v,
        None => {
            o.class("not representable (skipped)");
            return Ok(());
        }
    };
    let want = codec::encode(&c.msg);
    let n = want.len();
    // every size, or with long messages those around its structure and end
    let sizes: Vec<usize> = if n <= 400 { (0..n + 4).collect() } else { (0..150).chain(n - 150..n + 4).chain((150..n - 150).step_by(n / 60)).collect() };
    for size in sizes {
        let mut whole = vec![0xEEu8; size + 32];
        let (buf, guard) = whole.split_at_mut(size);
        let r = glue::write(&v, buf);
        if guard.iter().any(|b| *b != 0xEE) {
            return Err(format!("{:?} wrote past {size} bytes", c.msg.kind()));
        }
        match r {
            Ok(k) => {
                if size < n {
                    return Err(format!("{:?} of {n} bytes written into {size}", c.msg.kind()));
                }
                if k != n || buf[..n] != want[..] {
                    return Err(format!("{:?} in {size} bytes: {k} bytes, {} instead of {}", c.msg.kind(), short(&buf[..k.min(size)]), short(&want)));
                }
            }
            Err(e) => {
                if size >= n {
                    return Err(format!("{:?} of {n} bytes does not fit {size}: {e}", c.msg.kind()));
                }
            }
        }
    }
    o.nontrivial();
    o.class(format!("{:?}", c.msg.kind()));
    o.note(format!("{:?} of {n} bytes", c.msg.kind()));
    Ok(())
}

pub fn c18() -> Vec<Part> {
    fn caps() -> usize {
        700.min(rsp_cap())
    }
    vec![
        sweep(
            "responses",
            "twelve requests (four of them to be refused), with every reply buffer size up to beyond the reply; the same reply as in an ample buffer",
            |_| RSP * caps(),
            |i| Cap { what: (i / caps()) as u8, cap: (i % caps()) as u32 },
            cap_rsp,
        ),
        prop(
            "large_responses",
            "certificate replies of random chains, with reply buffers around their length",
            (12000, 100000),
            || {
                let room = gen::session_room(1, 64).max(700).min(cfg().max_chain());
                (gen::any_population(room), 0u8..8, -6i32..6, any::<u8>()).prop_map(|(slots, slot, by, h)| Around { slots, slot, by, hash: h })
            },
            around,
        ),
        prop(
            "requests",
            "a session in which requests are first tried with buffers that are too small, then with exactly sufficient ones",
            (8000, 100000),
            || {
                let more = prop_oneof![2 => Just(0u16), 2 => 0u16..8, 2 => 0u16..600];
                (vec(vec(prop_oneof![2 => 0u16..60, 1 => Just(u16::MAX)], 0..4), 0..6), vec(more, 6), any::<u8>(), prop_oneof![3 => Just(RSP_FLAGS), 1 => gen::bits(RSP_FLAGS)])
                    .prop_map(|(caps, more, pick, flags)| Retry { caps, more, pick, flags })
            },
            retry,
        ),
        sweep(
            "request_sizes",
            "every buffer size that is too small, for every request of a session, once or twice",
            |_| 6 * 52 * 2,
            |i| {
                let (p, cap) = (i / 2 % 6, i / 12);
                let mut caps = vec![vec![]; p];
                caps.push(vec![cap as u16; 1 + i % 2]);
                Retry { caps, more: vec![], pick: i as u8, flags: RSP_FLAGS }
            },
            retry,
        ),
        sweep(
            "request_room",
            "every buffer size from exactly sufficient to 700 bytes more, for every request of a session, after one that did not fit",
            |_| 6 * 701,
            |i| {
                let (p, more) = (i % 6, i / 6);
                let (mut caps, mut m) = (vec![vec![]; p], vec![0; p]);
                caps.push(vec![3]);
                m.push(more as u16);
                Retry { caps, more: m, pick: i as u8, flags: RSP_FLAGS }
            },
            retry,
        ),
        prop(
            "messages",
            "a message of any kind written into every size of buffer",
            (16000, 160000),
            || {
                (gen::any_kind(), any::<u8>()).prop_flat_map(|(k, d)| {
                    let ds = gen::digest_sizes();
                    let l = cfg().limits(ds[d as usize % ds.len()]);
                    (gen::msg(k, l), Just(d)).prop_map(|(msg, limits_digest)| Wr { msg, limits_digest })
                })
            },
            writes,
        ),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Around {
    slots: Vec<SlotSpec>,
    slot: u8,
    by: i32,
    hash: u8,
}
fn around(c: &Around, o: &mut Obs) -> Check {
    let s = slots(&c.slots);
    let slot = c.slot as usize % cfg().slots;
    let h = nth_bit(cfg().hashes(), c.hash as u32);
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    reach(&mut r, &mut m, Phase::IdAuth, REQ_FLAGS, h, 0)?;
    let reqs = [req_digests(), req_cert(slot as u8), req_challenge(slot as u8, 1)];
    for q in &reqs {
        let len = match m.expect(q, usize::MAX) {
            Exp::Reply(b, _) => b.len(),
            Exp::Auth { .. } => 42 + 2 * m.digest_len() + 64,
            Exp::Refuse { .. } | Exp::Either(..) => {
                o.class("nothing to be had (skipped)");
                return Ok(());
            }
        };
        if q[1] == if c.by % 2 == 0 { GET_CERTIFICATE } else if c.by % 3 == 0 { CHALLENGE } else { GET_DIGESTS } {
            let cap = (len as i64 + c.by as i64).max(0) as usize;
            let st = m.step(&mut r, q, cap)?;
            if st.accepted != (cap >= len) {
                return Err(format!("a reply of {len} bytes in {cap}: accepted {}", st.accepted));
            }
            o.nontrivial();
            o.class(format!("{:#x} by {}", q[1], c.by));
            return Ok(());
        }
        if !m.step(&mut r, q, rsp_cap())?.accepted {
            return Ok(());
        }
    }
    Ok(())
}
