//! C08 (protocol order), C09 (restarts), C19 (error replies), C26 (features
//! that were not negotiated).
use crate::c03::{self, Op};
use crate::cfg::{cfg, CRYPTO};
use crate::gen;
use crate::model::*;
use crate::session::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;
use std::sync::OnceLock;
use vcommon::codec::{self, *};
use vcommon::run::*;

// ------------------------------------------------------------------- C08

/// One request of a path through the protocol.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sym {
    V,
    C,
    A,
    D,
    G,
    H,
}
pub const SYMS: [Sym; 6] = [Sym::V, Sym::C, Sym::A, Sym::D, Sym::G, Sym::H];
/// What the other side advertises.
const FLAGS: [u32; 4] = [CERT_CAP | CHAL_CAP | MUT_AUTH_CAP, 0, REQ_FLAGS, CERT_CAP];
fn sym_bytes_with(s: Sym, flags: u8) -> Vec<u8> {
    match s {
        Sym::C => req_caps(FLAGS[flags as usize % 4]),
        s => sym_bytes(s),
    }
}
fn sym_bytes(s: Sym) -> Vec<u8> {
    match s {
        Sym::V => req_version(),
        Sym::C => req_caps(CERT_CAP | CHAL_CAP | MUT_AUTH_CAP),
        Sym::A => req_algs(cfg().hashes()),
        Sym::D => req_digests(),
        Sym::G => req_cert(0),
        Sym::H => req_challenge(0, 7),
    }
}
/// Where an accepted request leads.
fn follow(p: Phase, s: Sym) -> Option<Phase> {
    Some(match (p, s) {
        (Phase::Error, _) => return None,
        (_, Sym::V) => Phase::Capabilities,
        (Phase::Capabilities, Sym::C) => Phase::Algorithms,
        (Phase::Algorithms, Sym::A) => Phase::IdAuth,
        (Phase::IdAuth, Sym::D) if cfg().cert() => Phase::IdAuth,
        (Phase::IdAuth, Sym::G) if cfg().cert() => Phase::Challenge,
        (Phase::Challenge, Sym::H) if cfg().chal() => Phase::Challenge,
        _ => return None,
    })
}
/// Every accepted sequence of up to `n` requests.
pub fn accepted_paths(n: usize) -> Vec<Vec<Sym>> {
    let mut all = vec![vec![]];
    let mut last: Vec<(Vec<Sym>, Phase)> = vec![(vec![], Phase::Version)];
    for _ in 0..n {
        let mut next = vec![];
        for (p, ph) in &last {
            for s in SYMS {
                if let Some(to) = follow(*ph, s) {
                    let mut q = p.clone();
                    q.push(s);
                    all.push(q.clone());
                    next.push((q, to));
                }
            }
        }
        last = next;
    }
    all
}
fn paths(t: Tier) -> &'static Vec<Vec<Sym>> {
    static Q: OnceLock<Vec<Vec<Sym>>> = OnceLock::new();
    static T: OnceLock<Vec<Vec<Sym>>> = OnceLock::new();
    match t {
        Tier::Quick => Q.get_or_init(|| accepted_paths(9)),
        Tier::Thorough => T.get_or_init(|| accepted_paths(12)),
    }
}

/// Small fixed slots: what is tested is the order.
pub fn plain_specs() -> Vec<SlotSpec> {
    let mut v = vec![SlotSpec::Pki(ChainSpec::plain(0, 1))];
    for i in 1..cfg().slots {
        v.push(if i % 2 == 0 {
            SlotSpec::Junk { root: 32, inter: vec![40], leaf: 60, key: i as u8, fill: i as u8 }
        } else {
            SlotSpec::Empty
        });
    }
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Path {
    path: Vec<Sym>,
    /// index into the alphabet of last requests
    last: u8,
    /// which capabilities the other side has
    flags: u8,
}
/// The requests tried after every accepted path: the six in turn, and others
/// that are in order nowhere.
fn last_bytes(i: u8) -> Vec<u8> {
    match i {
        0..=5 => sym_bytes(SYMS[i as usize]),
        6 => vec![0x12, GET_MEASUREMENTS, 0, 0],
        7 => vec![0x11, 0xE4, 0, 0],
        8 => codec::encode(&Msg::Version(vec![(1, 1, 0, 0)])),
        9 => vec![0x11, GET_VERSION, 0, 0],
        _ => {
            let mut b = sym_bytes(SYMS[(i as usize - 10) % 6]);
            b[0] = if b[0] == 0x10 { 0x12 } else { 0x10 };
            b
        }
    }
}
const LASTS: usize = 16;

fn path(c: &Path, o: &mut Obs) -> Check {
    let s = slots(&plain_specs());
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    for (i, x) in c.path.iter().enumerate() {
        let st = m.step(&mut r, &sym_bytes_with(*x, c.flags), rsp_cap()).map_err(|e| format!("request {i} of {:?}: {e}", c.path))?;
        if !st.accepted {
            if st.why == "transcript full" {
                // repeated requests have filled it up
                o.class("the transcript is full");
                o.nontrivial();
                return Ok(());
            }
            return Err(format!("request {i} of {:?} was refused: {}", c.path, st.why));
        }
    }
    let before = m.phase;
    let b = last_bytes(c.last);
    let st = m.step(&mut r, &b, rsp_cap()).map_err(|e| format!("after {:?}: {e}", c.path))?;
    if !st.accepted {
        let (reply, n) = codec::decode(&st.reply, &cfg().limits(32)).map_err(|e| format!("{e:?}"))?;
        if n != st.reply.len() || reply.kind() != Kind::Error {
            return Err(format!("after {:?} a refused {} is answered with {reply:?}", c.path, short(&b)));
        }
    }
    o.nontrivial();
    o.class(format!("{before:?}: {}", if st.accepted { "accepted" } else { "refused" }));
    o.note(format!("{} in phase {before:?}: {}", short(&b), if st.accepted { "accepted" } else { st.why }));
    Ok(())
}

/// Every code in every phase, with each of five versions and three bodies.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Code {
    phase: u8,
    version: u8,
    code: u8,
    body: u8,
    flags: u8,
}
const PHASES: [Phase; 5] = [Phase::Version, Phase::Capabilities, Phase::Algorithms, Phase::IdAuth, Phase::Challenge];
pub const VERSIONS: [u8; 5] = [0x10, 0x11, 0x12, 0x00, 0xff];

fn phases() -> usize {
    if cfg().cert() {
        5
    } else {
        4
    }
}
fn code_bytes(c: &Code) -> Vec<u8> {
    let mut b = vec![c.version, c.code];
    let proper = |p: Phase| c03::good(p, 0, 1)[2..].to_vec();
    match c.body {
        // what that code calls for
        0 => b.extend(match c.code {
            GET_VERSION => proper(Phase::Version),
            GET_CAPABILITIES => proper(Phase::Capabilities),
            NEGOTIATE_ALGORITHMS => proper(Phase::Algorithms),
            GET_DIGESTS => vec![0, 0],
            CHALLENGE => proper(Phase::Challenge),
            GET_CERTIFICATE => proper(Phase::IdAuth),
            _ => vec![0, 0],
        }),
        // what the phase calls for
        1 => b.extend(proper(PHASES[c.phase as usize])),
        _ => b.extend([0; 40]),
    }
    b
}
fn code(c: &Code, o: &mut Obs) -> Check {
    let s = slots(&plain_specs());
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    let phase = PHASES[c.phase as usize];
    reach(&mut r, &mut m, phase, FLAGS[c.flags as usize % 4], nth_bit(cfg().hashes(), c.flags as u32), 0)?;
    let b = code_bytes(c);
    let st = m.step(&mut r, &b, rsp_cap())?;
    o.nontrivial();
    o.class(format!("{phase:?}: {}", if st.accepted { "accepted" } else { st.why }));
    Ok(())
}
fn all_headers(c: &(u8, u8, u8), o: &mut Obs) -> Check {
    let s = slots(&plain_specs());
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    let phase = PHASES[c.0 as usize];
    let x = c.1.wrapping_add(c.2);
    reach(&mut r, &mut m, phase, FLAGS[x as usize % 4], nth_bit(cfg().hashes(), x as u32), 0)?;
    let mut b = c03::good(phase, 0, 1);
    b[0] = c.1;
    b[1] = c.2;
    let st = m.step(&mut r, &b, rsp_cap())?;
    o.nontrivial();
    o.key((c.0 as u64) << 16 | (c.1 as u64) << 8 | c.2 as u64);
    o.class(format!("{phase:?}: {}", if st.accepted { "accepted" } else { st.why }));
    Ok(())
}

/// Random histories of good and bad requests, every step against the model.
pub fn history(c: &c03::Case, o: &mut Obs) -> Check {
    let s = slots(&c.slots);
    for (i, f) in s.iter().enumerate() {
        if let Some(f) = f {
            f.signer.fail.store(c.fail >> i & 1 == 1, Ordering::Relaxed)
        }
    }
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    let (mut ok, mut no) = (0, 0);
    for (i, st) in c.steps.iter().enumerate() {
        if m.phase == Phase::Error || matches!(st.op, Op::Reset) {
            lib!(r.reset());
            m = RspModel::new(&s);
            m.compare(&r).map_err(|e| format!("after a reset before request {i}: {e}"))?;
        }
        let b = match c03::op_bytes(&st.op, m.phase) {
            Some(b) => b,
            None => continue,
        };
        let phase = m.phase;
        let x = m.step(&mut r, &b, gen::cap_of(st.cap)).map_err(|e| format!("request {i}: {e}"))?;
        if x.accepted {
            ok += 1;
            o.class(format!("accepted in {phase:?}"));
        } else {
            no += 1;
            o.class(format!("refused in {phase:?}: {}", x.why));
        }
    }
    if ok > 1 || no > 0 {
        o.nontrivial();
    }
    o.note(format!("{ok} accepted, {no} refused"));
    Ok(())
}

/// The same thing very many times, then a session: nothing is counted.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Again {
    Version,
    Reset,
    /// refused, and reset
    Refused(u8),
    /// sessions up to a phase
    Session(u8),
    Digests,
    Challenge(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    what: Again,
    n: u32,
    hash: u8,
}
fn run_of(c: &Run, o: &mut Obs) -> Check {
    let s = slots(&plain_specs());
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    let h = nth_bit(cfg().hashes(), c.hash as u32);
    let flags = CERT_CAP | CHAL_CAP;
    let mut start = Phase::Version;
    let mut done = 0;
    match &c.what {
        Again::Digests => start = Phase::IdAuth,
        Again::Challenge(_) => start = Phase::Challenge,
        _ => (),
    }
    reach(&mut r, &mut m, start, flags, h, 0)?;
    for i in 0..c.n {
        let ctx = |e: String| format!("after {i} times {:?}: {e}", c.what);
        let bytes = match &c.what {
            Again::Version => Some(req_version()),
            Again::Reset => {
                lib!(r.reset());
                m = RspModel::new(&s);
                m.compare(&r).map_err(ctx)?;
                None
            }
            Again::Refused(code) => {
                let st = m.step(&mut r, &[0x10, code & 0x7f, 0, 0], rsp_cap()).map_err(ctx)?;
                if st.accepted {
                    return Err(ctx("a response is accepted as a request".into()));
                }
                lib!(r.reset());
                m = RspModel::new(&s);
                m.compare(&r).map_err(ctx)?;
                None
            }
            Again::Session(p) => {
                // restarted by the version request it begins with
                reach(&mut r, &mut m, PHASES[1 + *p as usize % (phases() - 1)], flags, h, 0).map_err(ctx)?;
                None
            }
            Again::Digests => Some(req_digests()),
            Again::Challenge(v) => Some(req_challenge(0, v.wrapping_add(i as u8))),
        };
        if let Some(b) = bytes {
            let st = m.step(&mut r, &b, rsp_cap()).map_err(ctx)?;
            if !st.accepted {
                if st.why == "transcript full" {
                    lib!(r.reset());
                    m = RspModel::new(&s);
                    break;
                }
                return Err(ctx(format!("refused: {}", st.why)));
            }
        }
        done += 1;
    }
    if matches!(m.phase, Phase::Version) || !matches!(c.what, Again::Digests | Again::Challenge(_)) {
        reach(&mut r, &mut m, if cfg().cert() { Phase::Challenge } else { Phase::IdAuth }, flags, h, 0)
            .map_err(|e| format!("a session after {done} times {:?}: {e}", c.what))?;
    }
    if m.phase == Phase::IdAuth && cfg().cert() {
        m.step(&mut r, &req_cert(0), rsp_cap())?;
    }
    if m.phase == Phase::Challenge {
        m.step(&mut r, &req_challenge(0, 9), rsp_cap())?;
    }
    if done > 1 {
        o.nontrivial();
    }
    o.class(format!("{:?}: {}", c.what, if done > 65535 { "more than 65535" } else if done > 255 { "more than 255" } else { "up to 255" }));
    o.note(format!("{:?}, {done} times", c.what));
    Ok(())
}
fn runs() -> Part {
    prop(
        "runs",
        "the same thing happened more than once (up to tens of thousands of times): every reply, phase, transcript and recorded value was compared with the model, and a session after them",
        (100, 2000),
        || {
            let upto = |n: u32| prop_oneof![2 => 2..n, 2 => 250..262u32, 1 => 2..40u32];
            let many = move || prop_oneof![20 => upto(1000), 1 => 65530..65545u32];
            let mut w: Vec<(u32, BoxedStrategy<(Again, u32)>)> = vec![
                (2, (Just(Again::Version), many()).boxed()),
                (2, (Just(Again::Reset), many()).boxed()),
                (2, (any::<u8>().prop_map(Again::Refused), many()).boxed()),
                (2, (any::<u8>().prop_map(Again::Session), upto(300)).boxed()),
            ];
            if cfg().cert() {
                w.push((3, (Just(Again::Digests), upto(600)).boxed()));
            }
            if cfg().chal() {
                w.push((3, (any::<u8>().prop_map(Again::Challenge), upto(300)).boxed()));
            }
            (proptest::strategy::Union::new_weighted(w), any::<u8>()).prop_map(|((what, n), hash)| Run { what, n, hash })
        },
        run_of,
    )
}

pub fn c08() -> Vec<Part> {
    vec![
        runs(),
        sweep(
            "paths",
            "every accepted sequence of up to 9 (thorough: 12) requests followed by each of 16 requests: the last one was judged",
            |t| paths(t).len() * LASTS,
            |i| {
                // the quick tier's paths are the first of the thorough ones
                let all = if i / LASTS < paths(Tier::Quick).len() { paths(Tier::Quick) } else { paths(Tier::Thorough) };
                Path { path: all[i / LASTS].clone(), last: (i % LASTS) as u8, flags: (i / LASTS) as u8 }
            },
            path,
        ),
        sweep(
            "codes",
            "every request code in every phase, with five versions and three bodies, after four sets of requester capabilities",
            |_| phases() * 256 * 5 * 3 * 4,
            |i| {
                let (flags, i) = ((i % 4) as u8, i / 4);
                Code { body: (i % 3) as u8, version: VERSIONS[i / 3 % 5], code: (i / 15 % 256) as u8, phase: (i / 3840) as u8, flags }
            },
            code,
        ),
        sweep(
            "headers",
            "both header bytes take every value in every phase, before the body this phase expects",
            |_| phases() * 65536,
            |i| ((i >> 16) as u8, (i >> 8) as u8, i as u8),
            all_headers,
        ),
        prop(
            "histories",
            "at least one request was refused or two accepted; every reply, phase, transcript and recorded value was compared with the model",
            (10000, 150000),
            || c03::case(14),
            history,
        ),
    ]
}

// ------------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Restart {
    before: c03::Case,
    /// restart by a version request (if the phase is a live one) or by a reset
    by_request: bool,
    /// reset more than once
    twice: bool,
    after: Vec<c03::Step>,
    seed: u64,
    /// so many bytes short of a full transcript when restarted
    room: Option<u8>,
}
fn set_fail(s: &Slots, fail: u8) {
    for (i, f) in s.iter().enumerate() {
        if let Some(f) = f {
            f.signer.fail.store(fail >> i & 1 == 1, Ordering::Relaxed)
        }
    }
}
/// A responder after some requests, one of which may be padded, and which of
/// them it recorded last.
fn before<'s>(c: &c03::Case, s: &'s Slots, pad: Option<(usize, usize)>) -> Result<(Box<spdm::responder::Responder<'s, TSigner>>, Option<usize>), String> {
    set_fail(s, c.fail);
    let mut old = Box::new(responder(s));
    let mut buf = vec![0u8; rsp_cap()];
    let mut phase = Phase::Version;
    let mut last = None;
    for (i, st) in c.steps.iter().enumerate() {
        if phase == Phase::Error || matches!(st.op, Op::Reset) {
            lib!(old.reset());
        }
        phase = phase_of(old.state());
        if let Some(mut b) = c03::op_bytes(&st.op, phase) {
            if let Some((_, n)) = pad.filter(|p| p.0 == i) {
                b.extend(vec![0x5a; n])
            }
            let cap = gen::cap_of(st.cap).min(buf.len());
            let (_, r) = lib!(old.handle_msg(&b, &mut buf[..cap]));
            if r.is_ok() {
                last = Some(i)
            }
            phase = phase_of(old.state());
        }
    }
    Ok((old, last))
}
fn restart(c: &Restart, o: &mut Obs) -> Check {
    let s = slots(&c.before.slots);
    let mut buf = vec![0u8; rsp_cap()];
    let (mut old, last) = before(&c.before, &s, None)?;
    if let (Some(room), Some(i)) = (c.room, last) {
        let pad = cfg().transcript.saturating_sub(old.transcript().len() + room as usize);
        old = before(&c.before, &s, Some((i, pad)))?.0;
        o.class(format!("{} bytes short of a full transcript", (cfg().transcript - old.transcript().len()).min(9)));
    }
    let from = phase_of(old.state());
    let used = old.transcript().len();
    set_fail(&s, 0);
    let mut new = Box::new(responder(&s));
    let mut buf2 = vec![0u8; rsp_cap()];
    let by_request = c.by_request && from != Phase::Error;
    if !by_request {
        lib!(old.reset());
        if c.twice {
            lib!(old.reset());
        }
        if phase_of(old.state()) != Phase::Version || old.state().name() != "Version" {
            return Err(format!("a reset from {from:?} leads to {}", old.state().name()));
        }
        if old.transcript().len() != 0 || !old.transcript().get().is_empty() {
            return Err(format!("a reset from {from:?} leaves a transcript of {} bytes", old.transcript().len()));
        }
    }
    // the very same requests to both, with the same randomness
    let mut reqs: Vec<(Vec<u8>, usize)> = vec![];
    if by_request {
        reqs.push((req_version(), rsp_cap()));
    }
    let mut m = RspModel::new(&s);
    let (mut n, mut refused) = (0, false);
    let mut it = c.after.iter();
    loop {
        let (b, cap) = match reqs.pop() {
            Some(x) => x,
            None => match it.next() {
                None => break,
                Some(st) => match c03::op_bytes(&st.op, phase_of(new.state())) {
                    Some(b) => (b, gen::cap_of(st.cap).min(buf.len())),
                    None => continue,
                },
            },
        };
        getrandom::control::seed(c.seed.wrapping_add(n));
        let (a, ra) = lib!(old.handle_msg(&b, &mut buf[..cap]));
        let a = a.to_vec();
        let oka = ra.is_ok();
        getrandom::control::seed(c.seed.wrapping_add(n));
        let st = m.step(&mut new, &b, cap).map_err(|e| format!("a fresh responder: {e}"))?;
        let ctx = |w: &str| {
            format!(
                "restarted {} from {from:?} with {used} transcript bytes, request {n} after it, {}: {w}",
                if by_request { "by a version request" } else { "by a reset" },
                short(&b)
            )
        };
        let _ = &mut buf2;
        if oka != st.accepted {
            return Err(ctx(&format!("accepted {oka}, by a fresh responder {}", st.accepted)));
        }
        if a != st.reply {
            return Err(ctx(&format!("answered with {}, by a fresh responder with {}", short(&a), short(&st.reply))));
        }
        if phase_of(old.state()) != phase_of(new.state()) {
            return Err(ctx(&format!("now {}, a fresh responder {}", old.state().name(), new.state().name())));
        }
        if !st.accepted {
            refused = true;
            break;
        }
        if old.transcript().get() != new.transcript().get() || old.transcript() != new.transcript() {
            return Err(ctx(&format!(
                "transcript {}, a fresh responder's {}",
                short(old.transcript().get()),
                short(new.transcript().get())
            )));
        }
        // everything negotiated since
        m.compare(&old).map_err(|e| ctx(&e))?;
        n += 1;
    }
    if used > 0 || from == Phase::Error {
        o.nontrivial();
    }
    o.class(format!("{} from {from:?}", if by_request { "version request" } else { "reset" }));
    o.class(format!("then up to {:?}{}", m.phase, if refused { " and refused" } else { "" }));
    o.note(format!("from {from:?}, {used} transcript bytes, then {n} requests accepted"));
    Ok(())
}

/// Every accepted path, then a restart, then every accepted path.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TwoPaths {
    first: Vec<Sym>,
    refuse: bool,
    second: Vec<Sym>,
}
fn two_paths(c: &TwoPaths, o: &mut Obs) -> Check {
    let s = slots(&plain_specs());
    let mut old = Box::new(responder(&s));
    let mut buf = vec![0u8; rsp_cap()];
    for x in &c.first {
        let (_, r) = old.handle_msg(&sym_bytes_rich(*x), &mut buf);
        if r.is_err() {
            break;
        }
    }
    if c.refuse && phase_of(old.state()) != Phase::Error {
        let _ = lib!(old.handle_msg(&[0x11, 0x55], &mut buf));
    }
    if c.refuse || phase_of(old.state()) == Phase::Error || c.second.first() != Some(&Sym::V) {
        lib!(old.reset());
    }
    let mut m = RspModel::new(&s);
    for (i, x) in c.second.iter().enumerate() {
        let st = m
            .step(&mut old, &sym_bytes(*x), rsp_cap())
            .map_err(|e| format!("after {:?} and a restart, request {i} of {:?}: {e}", c.first, c.second))?;
        if !st.accepted {
            if st.why == "transcript full" {
                break;
            }
            return Err(format!("after {:?} and a restart, request {i} of {:?} is refused: {}", c.first, c.second, st.why));
        }
    }
    if !c.first.is_empty() {
        o.nontrivial();
    }
    o.class(format!("{} then {}", c.first.len(), c.second.len()));
    Ok(())
}
/// The first session negotiates other values than the second.
fn sym_bytes_rich(s: Sym) -> Vec<u8> {
    match s {
        Sym::C => codec::encode(&Msg::GetCapabilities { ct: 99, flags: REQ_FLAGS }),
        Sym::A => codec::encode(&Msg::NegotiateAlgorithms {
            spec: 1,
            asym: ASYM_MASK,
            hash: HASH_MASK & !if CRYPTO { 3 } else { 0 },
            algs: vec![(5, 1), (4, 0x100), (3, 4), (2, 0x20)],
        }),
        s => sym_bytes(s),
    }
}

pub fn c09() -> Vec<Part> {
    fn firsts() -> &'static Vec<Vec<Sym>> {
        static F: OnceLock<Vec<Vec<Sym>>> = OnceLock::new();
        F.get_or_init(|| accepted_paths(6))
    }
    fn seconds() -> &'static Vec<Vec<Sym>> {
        static F: OnceLock<Vec<Vec<Sym>>> = OnceLock::new();
        F.get_or_init(|| accepted_paths(6).into_iter().filter(|p| p.len() >= 4 || p.is_empty()).collect())
    }
    vec![
        prop(
            "restarts",
            "the responder had a transcript or was stopped when it was restarted; replies, phase, transcript and recorded values of everything after were compared with a fresh responder's",
            (8000, 120000),
            || {
                let after = (1usize..6, any::<u8>(), vec(c03::step(), 0..6)).prop_map(|(n, v, more)| {
                    let mut a: Vec<c03::Step> =
                        (0..n).map(|i| c03::Step { op: Op::Good { slot: 0, v: v.wrapping_add(i as u8) | 1 }, cap: u16::MAX }).collect();
                    a.extend(more);
                    a
                });
                let room = prop_oneof![2 => Just(None), 1 => (0u8..6).prop_map(Some)];
                (c03::case(8), any::<bool>(), any::<bool>(), after, any::<u64>(), room).prop_map(|(before, by_request, twice, after, seed, room)| {
                    Restart { before, by_request, twice, after, seed, room }
                })
            },
            restart,
        ),
        sweep(
            "paths",
            "every accepted sequence of up to six requests (and a refusal), a restart, and every accepted sequence of four to six requests",
            |_| firsts().len() * 2 * seconds().len(),
            |i| TwoPaths {
                first: firsts()[i / 2 / seconds().len()].clone(),
                refuse: i / seconds().len() % 2 == 1,
                second: seconds()[i % seconds().len()].clone(),
            },
            two_paths,
        ),
    ]
}

// ------------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cause {
    /// a code that is not in order
    Code(u8),
    /// a wrong version of the right code
    Version(u8),
    /// fewer bytes than a header, or than the message
    Cut(u16),
    /// malformed in one field
    Field(Vec<gen::Mut>),
    /// a slot that is empty or does not exist
    Slot(u8),
    /// no common algorithm
    Offer { asym: u32, hash: u32, algs: Vec<Alg> },
    /// the reply does not fit, by this many bytes
    Buffer(u16),
    /// the transcript has no room: repeated requests first
    Transcript(u16),
    /// a chain beyond the configured size
    Oversize { over: u16, ask: u8 },
    /// the signer fails
    Signer,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refusal {
    slots: Vec<SlotSpec>,
    phase: u8,
    cause: Cause,
    /// the reply buffer
    cap: u16,
    hash: u8,
}

fn refusal(c: &Refusal, o: &mut Obs) -> Check {
    let mut specs = c.slots.clone();
    let mut phase = PHASES[c.phase as usize % phases()];
    if let Cause::Oversize { over, .. } = &c.cause {
        let want = cfg().max_chain() + 1 + *over as usize % 5;
        let i = specs.len() - 1;
        specs[i] = SlotSpec::Junk { root: 32, inter: vec![], leaf: (want - 36).min(65535) as u16, key: 5, fill: 9 };
        if phase < Phase::IdAuth {
            phase = if cfg().cert() { Phase::IdAuth } else { phase };
        }
    }
    if matches!(c.cause, Cause::Signer) {
        phase = if cfg().cert() { Phase::Challenge } else { phase }
    }
    if matches!(c.cause, Cause::Offer { .. }) {
        phase = Phase::Algorithms
    }
    if matches!(c.cause, Cause::Transcript(_)) && phase < Phase::IdAuth {
        phase = if cfg().cert() { Phase::IdAuth } else { phase }
    }
    let s = slots(&specs);
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    let h = nth_bit(cfg().hashes(), c.hash as u32);
    // a slot whose chain can be had, to get to the challenge phase
    let via = s.iter().position(|x| x.as_ref().map(|x| x.bytes.len() <= cfg().max_chain()).unwrap_or(true)).unwrap_or(0);
    if let Cause::Transcript(_) = c.cause {
        reach(&mut r, &mut m, Phase::IdAuth, REQ_FLAGS, h, via as u8)?;
    } else if reach(&mut r, &mut m, phase, REQ_FLAGS, h, via as u8).is_err() {
        if m.phase != Phase::Error {
            return Err(format!("phase {phase:?} cannot be reached, only {:?}", m.phase));
        }
        o.class("phase not reachable with these slots (skipped)");
        return Ok(());
    }
    let mut cap = gen::cap_of(c.cap).min(rsp_cap());
    let filled = s.iter().position(|x| x.is_some()).unwrap_or(0) as u8;
    let good = c03::good(phase, filled, 1);
    let req = match &c.cause {
        Cause::Code(x) => {
            let mut b = good;
            b[1] = *x;
            b
        }
        Cause::Version(x) => {
            let mut b = good;
            b[0] = *x;
            b
        }
        Cause::Cut(n) => good[..*n as usize % good.len()].to_vec(),
        Cause::Field(x) => gen::apply_all(&good, x),
        Cause::Slot(x) => {
            if phase == Phase::Challenge {
                req_challenge(*x, 3)
            } else {
                c03::good(phase, *x, 1)
            }
        }
        Cause::Offer { asym, hash, algs } => {
            codec::encode(&Msg::NegotiateAlgorithms { spec: 1, asym: *asym, hash: *hash, algs: algs.clone() })
        }
        Cause::Buffer(by) => {
            // how large a reply would be
            let len = match m.expect(&good, usize::MAX) {
                Exp::Reply(b, _) => b.len(),
                Exp::Auth { .. } => 106 + 2 * (m.digest_len() - 32) + 64,
                _ => 100,
            };
            cap = len.saturating_sub(1 + *by as usize % len);
            good
        }
        Cause::Transcript(pad) => {
            // fill up with digest requests followed by bytes that are ignored
            let d = {
                let mut x = req_digests();
                x.extend(vec![0x5a; 20 + *pad as usize % 900]);
                x
            };
            let mut last = d.clone();
            for _ in 0..200 {
                if let Exp::Refuse { .. } = m.expect(&d, rsp_cap()) {
                    last = d.clone();
                    break;
                }
                let st = m.step(&mut r, &d, rsp_cap())?;
                if !st.accepted {
                    o.class("digests cannot be had (skipped)");
                    return Ok(());
                }
            }
            last
        }
        Cause::Oversize { ask, .. } => {
            let i = (specs.len() - 1) as u8;
            if phase == Phase::Challenge {
                req_challenge(i, 1)
            } else if ask % 2 == 0 {
                req_cert(i)
            } else {
                req_digests()
            }
        }
        Cause::Signer => {
            for f in s.iter().flatten() {
                f.signer.fail.store(true, Ordering::Relaxed)
            }
            good
        }
    };
    let phase = m.phase;
    let st = m.step(&mut r, &req, cap)?;
    if st.accepted {
        o.class(format!("{phase:?}: accepted after all"));
        return Ok(());
    }
    if st.reply.is_empty() {
        o.class(format!("{}: no room for a reply ({cap} bytes)", st.why));
    } else {
        o.class(format!("{}: error {:#x}", st.why, st.reply[2]));
    }
    o.nontrivial();
    o.note(format!("{phase:?}, {}: {} in a buffer of {cap}", st.why, short(&st.reply)));
    Ok(())
}
fn cause() -> BoxedStrategy<Cause> {
    prop_oneof![
        2 => prop_oneof![any::<u8>(), prop::sample::select(vec![VERSION, CAPABILITIES, ALGORITHMS, DIGESTS, CERTIFICATE, CHALLENGE_AUTH, MEASUREMENTS, ERROR, GET_MEASUREMENTS, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS, GET_DIGESTS, GET_CERTIFICATE, CHALLENGE])].prop_map(Cause::Code),
        1 => gen::byte().prop_map(Cause::Version),
        2 => (0u16..60).prop_map(Cause::Cut),
        4 => gen::mutations(3).prop_map(Cause::Field),
        2 => prop_oneof![0u8..10, any::<u8>()].prop_map(Cause::Slot),
        2 => (gen::bits(ASYM_MASK), gen::bits(HASH_MASK), gen::alg_list(false)).prop_map(|(asym, hash, algs)| Cause::Offer { asym, hash, algs }),
        3 => any::<u16>().prop_map(Cause::Buffer),
        1 => any::<u16>().prop_map(Cause::Transcript),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(over, ask)| Cause::Oversize { over, ask }),
        1 => Just(Cause::Signer),
    ]
    .boxed()
}

pub fn c19() -> Vec<Part> {
    vec![
        prop(
            "causes",
            "the request was refused, and its error reply (or, without room for one, its absence) was judged against the cause",
            (16000, 250000),
            || {
                let room = gen::session_room(cfg().slots, 64).min(cfg().max_chain()).max(700);
                (
                    prop_oneof![gen::population(room), gen::any_population(room)],
                    0u8..5,
                    cause(),
                    prop_oneof![3 => Just(u16::MAX), 3 => 0u16..16, 1 => 0u16..300],
                    any::<u8>(),
                )
                    .prop_map(|(slots, phase, cause, cap, hash)| Refusal { slots, phase, cause, cap, hash })
            },
            refusal,
        ),
        prop(
            "histories",
            "at least one request was refused or two accepted; every reply was compared with the model, every error reply judged",
            (5000, 60000),
            || c03::case(14),
            history,
        ),
    ]
}

// ------------------------------------------------------------------- C26

/// The requester against a peer that advertises anything: it never goes
/// beyond what both sides have.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gate {
    flags: u32,
    ct: u8,
    pick: u32,
    /// messages delivered once the session is complete, and asked for more
    leaf: u8,
}
fn gate(c: &Gate, o: &mut Obs) -> Check {
    let s = slots(&[SlotSpec::Pki(ChainSpec { hash: nth_bit(cfg().hashes(), c.pick), ..ChainSpec::plain(0, c.leaf) })]);
    let root = root_cert(0);
    let mut q = Box::new(requester(&root));
    let mut qm = ReqModel::new();
    let mut peer = RefRsp::new(&s);
    peer.flags = c.flags;
    peer.ct = c.ct;
    peer.pick = c.pick;
    let trust = trust_of(s[0].as_ref().unwrap());
    let last = complete_after(c.flags);
    let mut seen = vec![];
    for _ in 0..8 {
        let req = qm.send(&mut q, 512)?.ok_or("no request")?;
        seen.push(req[1]);
        let both = cfg().caps() & c.flags;
        let allowed = match req[1] {
            GET_DIGESTS | GET_CERTIFICATE => both & CERT_CAP != 0,
            CHALLENGE => both & CERT_CAP != 0 && both & CHAL_CAP != 0,
            _ => true,
        };
        if !allowed {
            return Err(format!("request {:#x} although not both sides support it (peer {:#x})", req[1], c.flags));
        }
        let rsp = peer.reply(&req)?;
        if !qm.deliver(&mut q, &rsp, &trust)? {
            return Err(format!("an honest response {} was refused", short(&rsp)));
        }
        if qm.phase == QPhase::Done {
            break;
        }
    }
    if qm.phase != QPhase::Done {
        return Err("the session does not complete".into());
    }
    let n = seen.len();
    let want = match last {
        Kind::Algorithms => 3,
        Kind::Certificate => 5,
        _ => 6,
    };
    if n != want {
        return Err(format!("{n} requests instead of {want}"));
    }
    for _ in 0..2 {
        qm.send(&mut q, 512)?;
    }
    o.nontrivial();
    o.class(format!("ends with {last:?}"));
    Ok(())
}

/// A responder fed requests for features it lacks, in any phase, with the
/// bodies those features take.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Probe {
    slots: Vec<SlotSpec>,
    flags: u32,
    steps: Vec<(Sym, u8, Vec<gen::Mut>)>,
}
fn probe(c: &Probe, o: &mut Obs) -> Check {
    let s = slots(&c.slots);
    let mut r = Box::new(responder(&s));
    let mut m = RspModel::new(&s);
    let mut denied = 0;
    let signed = || s.iter().flatten().map(|s| s.signer.log.lock().unwrap().len()).sum::<usize>();
    for (sym, slot, muts) in &c.steps {
        if m.phase == Phase::Error {
            lib!(r.reset());
            m = RspModel::new(&s);
        }
        // get to where the feature would be next, in most cases
        let next = match sym {
            Sym::D | Sym::G => Phase::IdAuth,
            Sym::H => Phase::Challenge,
            _ => m.phase,
        };
        if m.phase == Phase::Version && next > Phase::Version {
            let upto = if next == Phase::Challenge && !cfg().cert() { Phase::IdAuth } else { next };
            if reach(&mut r, &mut m, upto, c.flags, cfg().hashes() & 1, 0).is_err() {
                continue;
            }
        }
        let base = match sym {
            Sym::G => req_cert(*slot),
            Sym::H => req_challenge(*slot, 1),
            x => sym_bytes(*x),
        };
        let b = gen::apply_all(&base, muts);
        let before = signed();
        let st = m.step(&mut r, &b, rsp_cap())?;
        let code = b.get(1).copied().unwrap_or(0);
        let feature = match code {
            GET_DIGESTS | GET_CERTIFICATE => cfg().cert(),
            CHALLENGE => cfg().chal(),
            _ => true,
        };
        if !feature {
            denied += 1;
            if st.accepted {
                return Err(format!("request {:#x} accepted without the capability", code));
            }
        }
        if signed() != before && !(st.accepted && code == CHALLENGE) {
            return Err("something was signed without an accepted challenge".into());
        }
    }
    if denied > 0 {
        o.nontrivial();
        o.class("a request for a feature that is not there was refused");
    } else if cfg().cert() && cfg().chal() {
        o.nontrivial();
        o.class("every feature is there");
    }
    o.note(format!("{denied} requests for absent features"));
    Ok(())
}

/// The words of the peer's capabilities, each with a whole session.
pub fn gates() -> Part {
    sweep(
        "gates",
        "every word of the peer's capability flags (quick: with CERT and CHAL as they fall, every seventh of the rest): the session ends where the common features end",
        |t| if t == Tier::Quick { 131072 / 7 } else { 131072 },
        |i| {
            let f = (i as u32).wrapping_mul(7) % 131072;
            Gate { flags: f, ct: (i % 251) as u8, pick: (i as u32).wrapping_mul(0x9E37_79B9) >> 7, leaf: (i % 4) as u8 }
        },
        gate,
    )
}

pub fn c26() -> Vec<Part> {
    let small = || {
        let other = prop_oneof![
            1 => Just(SlotSpec::Empty),
            2 => Just(SlotSpec::Pki(ChainSpec::plain(0, 2))),
            1 => gen::junk_spec(cfg().max_chain().min(600)),
        ];
        vec(other, cfg().slots)
    };
    vec![
        gates(),
        sweep(
            "paths",
            "every sequence of up to 9 (thorough: 12) requests this build accepts, followed by each of 16 requests",
            |t| paths(t).len() * LASTS,
            |i| {
                let all = if i / LASTS < paths(Tier::Quick).len() { paths(Tier::Quick) } else { paths(Tier::Thorough) };
                Path { path: all[i / LASTS].clone(), last: (i % LASTS) as u8, flags: (i / LASTS) as u8 }
            },
            path,
        ),
        prop(
            "probes",
            "at least one request for a feature this build lacks was made (in builds that have all: any sequence)",
            (8000, 100000),
            move || {
                (
                    small(),
                    gen::bits(REQ_FLAGS),
                    vec(
                        (
                            prop::sample::select(vec![Sym::V, Sym::C, Sym::A, Sym::D, Sym::G, Sym::H, Sym::D, Sym::G, Sym::H]),
                            prop_oneof![3 => 0u8..9, 1 => any::<u8>()],
                            prop_oneof![4 => Just(vec![]), 1 => gen::mutations(2)],
                        ),
                        1..8,
                    ),
                )
                    .prop_map(|(slots, flags, steps)| Probe { slots, flags, steps })
            },
            probe,
        ),
        prop(
            "histories",
            "at least one request was refused or two accepted",
            (6000, 60000),
            || c03::case(14),
            history,
        ),
    ]
}
