//! An endpoint's behaviour is a function of its own configuration, requests and
//! random bytes: whatever else goes on in the process makes no difference.
//!
//! Every endpoint of a case runs alone in a fresh process; then all of them run
//! in another one, interleaved (or in threads of their own), sharing buffers
//! full of leftovers and being moved about.
use crate::c03;
use crate::c04;
use crate::cfg::cfg;
use crate::gen;
use crate::model::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use vcommon::hash;
use vcommon::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QOp {
    /// ask for the request, in a buffer of this size
    Ask(u16),
    /// deliver the peer's honest answer to the last request
    Honest,
    Hostile(c04::Rsp),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum End {
    Rsp(c03::Case),
    Req { slots: Vec<SlotSpec>, flags: u32, pick: u32, root: u8, steps: Vec<QOp> },
}
impl End {
    fn steps(&self) -> usize {
        match self {
            End::Rsp(c) => c.steps.len(),
            End::Req { steps, .. } => steps.len(),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ends: Vec<End>,
    /// whose turn it is
    pub order: Vec<u8>,
    pub threads: bool,
    /// what the buffers hold beforehand
    pub dirt: u8,
    /// endpoints are moved to another place between steps
    pub moved: bool,
    pub seed: u64,
}

/// What one step of an endpoint amounted to.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Seen {
    pub step: String,
    pub result: String,
    pub out: Vec<u8>,
    pub state: String,
    pub transcript: (usize, Vec<u8>),
}

struct World {
    slots: Slots,
    root: Vec<u8>,
}
fn world(e: &End) -> World {
    match e {
        End::Rsp(c) => {
            let s = slots(&c.slots);
            for (i, f) in s.iter().enumerate() {
                if let Some(f) = f {
                    f.signer.fail.store(c.fail >> i & 1 == 1, std::sync::atomic::Ordering::Relaxed)
                }
            }
            World { slots: s, root: vec![] }
        }
        End::Req { slots: sp, pick, root, .. } => {
            let h = nth_bit(cfg().hashes(), *pick);
            let mut sp = sp.clone();
            for s in sp.iter_mut() {
                if let SlotSpec::Pki(p) = s {
                    p.hash = h
                }
            }
            World { slots: slots(&sp), root: root_cert(*root) }
        }
    }
}

enum Live<'w> {
    Rsp(Box<spdm::Responder<'w, TSigner>>),
    Req { q: Box<spdm::RequesterInit<'w, TSigner>>, peer: Box<RefRsp<'w>>, last: Vec<u8> },
}
struct Run<'w> {
    end: &'w End,
    live: Live<'w>,
    next: usize,
    seed: u64,
    seen: Vec<Seen>,
}
impl<'w> Run<'w> {
    fn new(end: &'w End, w: &'w World, seed: u64) -> Run<'w> {
        getrandom::control::seed(seed);
        let live = match end {
            End::Rsp(_) => Live::Rsp(Box::new(responder(&w.slots))),
            End::Req { flags, pick, .. } => {
                let mut peer = Box::new(RefRsp::new(&w.slots));
                peer.flags = *flags;
                peer.pick = *pick;
                Live::Req { q: Box::new(requester(&w.root)), peer, last: vec![] }
            }
        };
        Run { end, live, next: 0, seed, seen: vec![] }
    }
    /// The next step, in the given buffer. False when there is none.
    fn step(&mut self, buf: &mut [u8]) -> bool {
        let i = self.next;
        if i >= self.end.steps() {
            return false;
        }
        self.next += 1;
        getrandom::control::seed(self.seed.wrapping_add(1 + i as u64));
        let (step, result, out);
        let (state, t);
        match (&mut self.live, self.end) {
            (Live::Rsp(r), End::Rsp(c)) => {
                let st = &c.steps[i];
                if phase_of(r.state()) == Phase::Error {
                    lib!(r.reset())
                }
                match c03::op_bytes(&st.op, phase_of(r.state())) {
                    None => {
                        lib!(r.reset());
                        step = "reset".to_string();
                        result = String::new();
                        out = vec![]
                    }
                    Some(b) => {
                        let cap = gen::cap_of(st.cap).min(buf.len());
                        let (o, res) = lib!(r.handle_msg(&b, &mut buf[..cap]));
                        step = format!("request {}", short(&b));
                        result = format!("{res:?}");
                        out = o.to_vec()
                    }
                }
                state = format!("{:?}", phase_of(r.state()));
                t = r.transcript().get().to_vec();
            }
            (Live::Req { q, peer, last }, End::Req { steps, .. }) => {
                let name = q.state().name();
                match &steps[i] {
                    // misuse: a finished or stopped requester, a response to nothing
                    _ if name == "Error" || (name == "NewSession" && !matches!(steps[i], QOp::Ask(_))) => {
                        (step, result, out) = ("nothing".to_string(), String::new(), vec![])
                    }
                    QOp::Honest | QOp::Hostile(_) if last.is_empty() => (step, result, out) = ("nothing".to_string(), String::new(), vec![]),
                    QOp::Ask(cap) => {
                        let cap = gen::cap_of(*cap).min(buf.len());
                        let res = lib!(q.next_request(&mut buf[..cap]));
                        step = "asked for a request".to_string();
                        match res {
                            Ok(b) => {
                                out = b.to_vec();
                                *last = out.clone();
                                result = "Ok".to_string()
                            }
                            Err(e) => {
                                result = format!("{e:?}");
                                out = vec![]
                            }
                        }
                    }
                    op => {
                        let honest = peer.reply(last).unwrap_or_default();
                        let b = match op {
                            QOp::Hostile(r) => c04::bytes(r, &honest, c04::wanted(last)),
                            _ => honest,
                        };
                        let n = b.len().min(buf.len());
                        buf[..n].copy_from_slice(&b[..n]);
                        let res = lib!(q.handle_msg(if n == b.len() { &buf[..n] } else { &b }));
                        step = format!("response {}", short(&b));
                        result = format!("{res:?}");
                        last.clear();
                        out = vec![]
                    }
                }
                state = q.state().name().to_string();
                t = q.transcript().get().to_vec();
            }
            _ => unreachable!(),
        }
        self.seen.push(Seen { step, result, out, state, transcript: (t.len(), hash::sha(1, &t)) });
        true
    }
    fn moved(self) -> Run<'w> {
        let live = match self.live {
            Live::Rsp(r) => {
                let r = *r;
                Live::Rsp(Box::new(r))
            }
            Live::Req { q, peer, last } => {
                let q = *q;
                Live::Req { q: Box::new(q), peer, last }
            }
        };
        Run { live, ..self }
    }
}
fn seed_of(c: &Case, i: usize) -> u64 {
    c.seed ^ (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
fn whole(e: &End, w: &World, seed: u64, dirt: u8) -> Vec<Seen> {
    let mut r = Run::new(e, w, seed);
    let mut buf = vec![dirt; rsp_cap()];
    while r.step(&mut buf) {}
    r.seen
}
fn alone(c: &Case, w: &World, i: usize) -> Vec<Seen> {
    whole(&c.ends[i], w, seed_of(c, i), 0)
}
fn together(c: &Case, ws: &[World]) -> Vec<Vec<Seen>> {
    if c.threads {
        let gate = std::sync::Barrier::new(c.ends.len());
        return std::thread::scope(|s| {
            let hs: Vec<_> = c
                .ends
                .iter()
                .zip(ws)
                .enumerate()
                .map(|(i, (e, w))| {
                    let gate = &gate;
                    let run = move || {
                        gate.wait();
                        whole(e, w, seed_of(c, i), c.dirt)
                    };
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, run).unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
    }
    let mut buf: Vec<u8> = (0..rsp_cap()).map(|i| c.dirt.wrapping_add((i % 251) as u8)).collect();
    let mut rs: Vec<Option<Run>> = c.ends.iter().zip(ws).enumerate().map(|(i, (e, w))| Some(Run::new(e, w, seed_of(c, i)))).collect();
    for o in &c.order {
        let i = *o as usize % rs.len();
        let mut r = rs[i].take().unwrap();
        if c.moved {
            r = r.moved()
        }
        r.step(&mut buf);
        rs[i] = Some(r);
    }
    for r in rs.iter_mut() {
        while r.as_mut().unwrap().step(&mut buf) {}
    }
    rs.into_iter().map(|r| r.unwrap().seen).collect()
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}
/// The fresh process: a case comes in by stdin. It makes the keys and chains,
/// which involves no code of the library, and then copies itself for each of
/// the endpoints alone, and for all of them together.
pub fn child() {
    install_panic_hook();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let c: Case = serde_json::from_str(&s).unwrap();
        let ws: Vec<World> = c.ends.iter().map(world).collect();
        let mut all: Vec<Result<Vec<Vec<Seen>>, String>> = vec![];
        for i in 0..=c.ends.len() {
            all.push(forked(|| if i < c.ends.len() { vec![alone(&c, &ws[i], i)] } else { together(&c, &ws) }));
            if i < c.ends.len() && all[i].is_err() {
                break;
            }
        }
        println!("{}", serde_json::to_string(&all).unwrap());
    });
    if t.unwrap().join().is_err() {
        std::process::exit(7)
    }
}
/// Err if the copy does not get to the end.
fn forked(f: impl FnOnce() -> Vec<Vec<Seen>>) -> Result<Vec<Vec<Seen>>, String> {
    let (mut rx, mut tx) = std::io::pipe().expect("a pipe");
    // SAFETY: this process has no other thread than the one that waits for us
    let pid = unsafe { fork() };
    assert!(pid >= 0);
    if pid == 0 {
        drop(rx);
        // an endpoint that does not return is for other properties
        unsafe { alarm(25) };
        let ok = tx.write_all(serde_json::to_string(&guarded(f)).unwrap().as_bytes()).is_ok();
        drop(tx);
        unsafe { _exit(if ok { 0 } else { 7 }) }
    }
    drop(tx);
    let mut s = String::new();
    let _ = rx.read_to_string(&mut s);
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    if status != 0 {
        return Err(format!("ended with status {status}"));
    }
    serde_json::from_str(&s).unwrap()
}
fn fresh(c: &Case) -> Vec<Result<Vec<Vec<Seen>>, String>> {
    let mut p = std::process::Command::new(std::env::current_exe().expect("this program"))
        .args(["C29", "child"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        
        .spawn()
        .expect("a process");
    p.stdin.take().unwrap().write_all(serde_json::to_string(c).unwrap().as_bytes()).expect("its input");
    let o = p.wait_with_output().expect("its output");
    serde_json::from_slice(&o.stdout).unwrap_or_else(|_| panic!("the process for a case: {}", o.status))
}

fn check(c: &Case, o: &mut Obs) -> Check {
    let mut all = fresh(c);
    if all[..].len() <= c.ends.len() {
        // whether an endpoint may die is for other properties
        o.class("an endpoint does not survive on its own: not judged");
        return Ok(());
    }
    let got = match all.pop().unwrap() {
        Ok(g) => g,
        Err(e) => return Err(format!("each of {} endpoints ends properly in a process of its own, but not together: {e}", c.ends.len())),
    };
    let want: Vec<Vec<Seen>> = all.into_iter().map(|v| v.unwrap().remove(0)).collect();
    for (i, (w, g)) in want.iter().zip(&got).enumerate() {
        let who = match &c.ends[i] {
            End::Rsp(_) => "responder",
            _ => "requester",
        };
        for (n, (a, b)) in w.iter().zip(g).enumerate() {
            let ctx = |what: &str, x: &dyn std::fmt::Debug, y: &dyn std::fmt::Debug| {
                Err(format!(
                    "endpoint {i} ({who}), step {n} ({}): {what} {x:?} when alone in a process, {y:?} beside {} other endpoints{}",
                    a.step,
                    c.ends.len() - 1,
                    if c.threads { " in threads" } else { "" }
                ))
            };
            if a.result != b.result {
                return ctx("result", &a.result, &b.result);
            }
            if a.out != b.out {
                return ctx("output", &short(&a.out), &short(&b.out));
            }
            if a.state != b.state {
                return ctx("state", &a.state, &b.state);
            }
            if a.transcript != b.transcript {
                return ctx("transcript", &a.transcript, &b.transcript);
            }
            if a.step != b.step {
                return ctx("input", &a.step, &b.step);
            }
        }
        if w.len() != g.len() {
            return Err("the number of steps differs".into());
        }
    }
    let deep = want.iter().filter(|w| w.iter().filter(|s| s.result.starts_with("Ok")).count() >= 3).count();
    let steps: usize = want.iter().map(|w| w.len()).sum();
    if deep >= 2 {
        o.nontrivial();
    }
    let (nr, nq) = c.ends.iter().fold((0, 0), |(r, q), e| if matches!(e, End::Rsp(_)) { (r + 1, q) } else { (r, q + 1) });
    o.class(format!("{nr} responders, {nq} requesters{}", if c.threads { ", in threads" } else { "" }));
    let far = want.iter().flatten().filter(|s| s.state == "Challenge" || s.state == "NewSession").count();
    o.class(if far > 0 { "some challenge or completion" } else { "no challenge" });
    o.note(format!("{} endpoints, {steps} steps, {deep} of them with three accepted", c.ends.len()));
    Ok(())
}

fn qsteps() -> BoxedStrategy<Vec<QOp>> {
    let more = prop_oneof![
        2 => gen::cap().prop_map(QOp::Ask),
        1 => Just(QOp::Honest),
        3 => c04::rsp().prop_map(QOp::Hostile),
    ];
    (0usize..7, vec(prop_oneof![1 => more.prop_map(|m| vec![m]), 2 => c04::rsp().prop_map(|r| vec![QOp::Ask(u16::MAX), QOp::Hostile(r)]), 2 => Just(vec![QOp::Ask(u16::MAX), QOp::Honest])], 0..5))
        .prop_map(|(n, more)| {
            let mut v = vec![];
            for _ in 0..n {
                v.push(QOp::Ask(u16::MAX));
                v.push(QOp::Honest);
            }
            v.extend(more.into_iter().flatten());
            v
        })
        .boxed()
}
fn end() -> BoxedStrategy<End> {
    let room = gen::session_room(cfg().slots, 64).min(cfg().max_chain()).max(700);
    prop_oneof![
        3 => c03::case(8).prop_map(End::Rsp),
        2 => (gen::population(room), prop_oneof![5 => Just(vcommon::codec::RSP_FLAGS), 1 => gen::bits(vcommon::codec::RSP_FLAGS)], any::<u32>(), prop_oneof![9 => Just(0u8), 1 => Just(1)], qsteps())
            .prop_map(|(slots, flags, pick, root, steps)| End::Req { slots, flags, pick, root, steps }),
    ]
    .boxed()
}
/// Endpoints of one case are often alike: the same steps with other chains, or
/// the same chains under another negotiation.
fn case() -> BoxedStrategy<Case> {
    (vec(end(), 1..4), vec(any::<u8>(), 0..60), (prop_oneof![2 => Just(false), 1 => Just(true)], any::<bool>()), any::<u8>(), any::<u64>(), prop_oneof![1 => Just(None), 2 => (end(), any::<bool>()).prop_map(Some)])
        .prop_map(|(mut ends, order, (threads, moved), dirt, seed, twin)| {
            if let Some((t, steps)) = twin {
                let mut e = ends[0].clone();
                match (&mut e, t) {
                    (End::Rsp(a), End::Rsp(b)) => {
                        if steps {
                            a.steps = b.steps
                        } else {
                            a.slots = b.slots
                        }
                    }
                    (End::Req { slots, pick, steps: s, .. }, End::Req { slots: sb, pick: pb, steps: stb, .. }) => {
                        if steps {
                            *s = stb;
                            *pick = pb
                        } else {
                            *slots = sb
                        }
                    }
                    (_, t) => e = t,
                }
                ends.push(e)
            }
            Case { ends, order, threads, dirt, moved, seed }
        })
        .boxed()
}
pub fn parts() -> Vec<Part> {
    vec![prop(
        "together",
        "at least two endpoints took three steps each successfully, each judged against itself alone in a fresh process",
        (500, 12000),
        case,
        check,
    )]
}
