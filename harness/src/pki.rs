//! C28: which certificate chains are trusted. The peer is an attacker who
//! holds the leaf's private key and signs correctly; what it presents is a
//! graph of certificates of which every field is chosen. The oracle searches
//! that graph for a path to the configured root.
use crate::cfg::cfg;
use crate::gen;
use crate::model::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use spdm::crypto::pki::EndEntityCert;
use spdm::crypto::ring::pki::new_end_entity_cert;
use spdm::msgs::algorithms::BaseAsymAlgo;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};
use vcommon::codec::{CERT_CAP, CHAL_CAP};
use vcommon::der::{self, Curve, Eku, Key, Spec};
use vcommon::hash;
use vcommon::run::*;

/// The moment at which chains are judged in a session, roughly: the library
/// has no clock, and a fixed date in its place. The cases below leave more
/// than a decade after it.
const NOW: i64 = 1638316800;

fn civil(secs: i64) -> String {
    let (d, s) = (secs.div_euclid(86400), secs.rem_euclid(86400));
    let z = d + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    format!("{y:04}{m:02}{day:02}{:02}{:02}{:02}", s / 3600, s / 60 % 60, s % 60)
}

/// A certificate of the graph.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Cert {
    subject: u8,
    key: u8,
    issuer: u8,
    /// the key it is really signed with
    signer: u8,
    nb: i64,
    na: i64,
    ca: Option<bool>,
    path_len: Option<u8>,
    eku: Eku,
    critical: bool,
    p384: bool,
    /// a bit of the finished certificate to flip
    flip: Option<u16>,
    pad: u16,
}
/// names and keys below this are a root's
const ROOTS: u8 = 3;
fn leaf_key(n: u8) -> u8 {
    60 + n % 60
}
fn k384(id: u8) -> Arc<Key> {
    static K: OnceLock<Mutex<HashMap<u8, Arc<Key>>>> = OnceLock::new();
    K.get_or_init(Default::default).lock().unwrap().entry(id).or_insert_with(|| Arc::new(Key::new(Curve::P384, id))).clone()
}
impl Cert {
    fn new(subject: u8, key: u8, issuer: u8, signer: u8, ca: bool) -> Cert {
        Cert {
            subject,
            key,
            issuer,
            signer,
            nb: 946684800,
            na: 2524607999,
            ca: if ca { Some(true) } else { None },
            path_len: None,
            eku: Eku::None,
            critical: false,
            p384: false,
            flip: None,
            pad: if ca { 0 } else { 4 },
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let s = Spec {
            subject: format!("N{}", self.subject),
            issuer: format!("N{}", self.issuer),
            not_before: civil(self.nb),
            not_after: civil(self.na),
            ca: self.ca,
            path_len: self.path_len,
            eku: self.eku.clone(),
            pad: self.pad as usize,
            critical_unknown: self.critical,
            serial: 1 + (self.pad % 9) as u8,
        };
        let signer = if self.p384 { k384(1 + self.signer) } else { key(1 + self.signer) };
        let mut b = der::cert(&s, &key(1 + self.key), &signer);
        if let Some(f) = self.flip {
            let n = b.len();
            b[f as usize / 8 % n] ^= 1 << (f % 8);
        }
        b
    }
    fn plain(&self) -> bool {
        self.eku == Eku::None && !self.critical && !self.p384
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Graph {
    /// what the requester was configured with
    root: (u8, u8),
    /// it is not even a certificate
    root_bad: bool,
    inter: Vec<Cert>,
    leaf: Cert,
    now: i64,
}
impl Graph {
    fn root_bytes(&self) -> Vec<u8> {
        let mut b = Cert::new(self.root.0, self.root.1, self.root.0, self.root.1, true).bytes();
        if self.root_bad {
            b.truncate(b.len() / 2)
        }
        b
    }
    /// May `c` be part of a path, and is it the issuer's?
    fn link(&self, c: &Cert, name: u8, key: u8) -> bool {
        c.issuer == name && c.signer == key && c.flip.is_none() && c.nb <= self.now && self.now <= c.na
    }
    fn search(&self, c: &Cert, below: usize, used: &mut Vec<usize>) -> bool {
        if self.link(c, self.root.0, self.root.1) {
            return true;
        }
        for (i, x) in self.inter.iter().enumerate() {
            if used.contains(&i) || !self.link(c, x.subject, x.key) || x.ca != Some(true) {
                continue;
            }
            if x.path_len.map_or(false, |p| (p as usize) < below) {
                continue;
            }
            used.push(i);
            if self.search(x, below + 1, used) {
                return true;
            }
            used.pop();
        }
        false
    }
    /// Exactly the chain it should be.
    fn proper(&self) -> bool {
        let n = self.inter.len();
        let mut up = self.root;
        for (i, x) in self.inter.iter().enumerate() {
            if !self.link(x, up.0, up.1) || x.ca != Some(true) || x.path_len.map_or(false, |p| (p as usize) < n - 1 - i) || !x.plain() {
                return false;
            }
            up = (x.subject, x.key);
        }
        // no two certificates of the same entity
        let ids: std::collections::HashSet<_> = self.inter.iter().map(|x| (x.subject, x.key)).chain([self.root]).collect();
        self.link(&self.leaf, up.0, up.1) && self.leaf.plain() && self.leaf.ca.is_none() && n <= 6 && ids.len() == n + 1
    }
    /// None: either way
    fn trusted(&self) -> Option<bool> {
        if self.root_bad || !self.search(&self.leaf, 0, &mut vec![]) {
            return Some(false);
        }
        if self.proper() {
            return Some(true);
        }
        None
    }
}

/// What is done to a proper chain.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Act {
    /// the requester trusts another root: its name, its key
    Root(u8, u8),
    RootBad,
    Signer(u8, u8),
    Issuer(u8, u8),
    Subject(u8, u8),
    Key(u8, u8),
    NotCa(u8, bool),
    LeafCa(bool),
    Expired(u8, u8),
    Early(u8, u8),
    /// validity ends or begins at this very moment, or a second off
    Edge(u8, bool, i8),
    PathLen(u8, u8),
    Eku(u8, bool),
    Critical(u8),
    P384(u8),
    Flip(u8, u16),
    Drop(u8),
    Dup(u8),
    Swap(u8, u8),
    Reverse,
    /// the root itself is sent along
    WithRoot(bool),
    /// a certificate that has nothing to do with it
    Stray(u8),
    /// the leaf vouches for itself
    SelfSigned,
    /// an intermediate that vouches for itself in the root's name
    FalseRoot(bool),
}
fn plain_graph(depth: u8, leaf: u8) -> Graph {
    let mut up = (0u8, 0u8);
    let mut inter = vec![];
    for i in 0..depth {
        let me = (ROOTS + i, ROOTS + i);
        inter.push(Cert::new(me.0, me.1, up.0, up.1, true));
        up = me;
    }
    Graph { root: (0, 0), root_bad: false, inter, leaf: Cert::new(50, leaf_key(leaf), up.0, up.1, false), now: NOW }
}
impl Graph {
    fn at(&mut self, i: u8) -> &mut Cert {
        let n = self.inter.len();
        match i as usize % (n + 1) {
            i if i == n => &mut self.leaf,
            i => &mut self.inter[i],
        }
    }
    fn apply(&mut self, a: &Act, direct: bool) {
        let n = self.inter.len();
        let now = self.now;
        let old = [946684799 - 86400 * 400, now - 86400, now - 86400 * 365, now - 1];
        let late = [now + 15 * 365 * 86400, 2524607999 + 86400, 4102444800];
        match a {
            Act::Root(n, k) => self.root = (n % ROOTS, k % ROOTS),
            Act::RootBad => self.root_bad = true,
            Act::Signer(i, k) => self.at(*i).signer = k % 12,
            Act::Issuer(i, k) => self.at(*i).issuer = k % 12,
            Act::Subject(i, k) => self.at(*i).subject = k % 12,
            // the leaf's key stays the attacker's
            Act::Key(i, k) if n > 0 => self.inter[*i as usize % n].key = k % 12,
            Act::NotCa(i, none) if n > 0 => self.inter[*i as usize % n].ca = if *none { None } else { Some(false) },
            Act::LeafCa(b) => self.leaf.ca = Some(*b),
            Act::Expired(i, k) => {
                let c = self.at(*i);
                c.nb = 631152000;
                c.na = old[*k as usize % old.len()]
            }
            Act::Early(i, k) => {
                let c = self.at(*i);
                c.nb = late[*k as usize % late.len()];
                c.na = 4300000000
            }
            Act::Edge(i, end, by) if direct => {
                let c = self.at(*i);
                let by = *by as i64;
                if *end {
                    c.na = now + by
                } else {
                    c.nb = now + by
                }
                c.nb = c.nb.min(c.na)
            }
            Act::PathLen(i, p) if n > 0 => self.inter[*i as usize % n].path_len = Some(p % 9),
            Act::Eku(i, server) => self.at(*i).eku = if *server { Eku::Server } else { Eku::Client },
            Act::Critical(i) => self.at(*i).critical = true,
            Act::P384(i) => self.at(*i).p384 = true,
            Act::Flip(i, f) => self.at(*i).flip = Some(*f),
            Act::Drop(i) if n > 0 => {
                self.inter.remove(*i as usize % n);
            }
            Act::Dup(i) if n > 0 => {
                let i = *i as usize % n;
                let c = self.inter[i].clone();
                self.inter.insert(i, c)
            }
            Act::Swap(i, j) if n > 0 => self.inter.swap(*i as usize % n, *j as usize % n),
            Act::Reverse => self.inter.reverse(),
            Act::WithRoot(first) => {
                let c = Cert::new(self.root.0, self.root.1, self.root.0, self.root.1, true);
                let at = if *first { 0 } else { n };
                self.inter.insert(at, c)
            }
            Act::Stray(k) => {
                let c = Cert::new(30 + k % 4, 30 + k % 4, 40, 40, true);
                self.inter.insert(*k as usize % (n + 1), c)
            }
            Act::SelfSigned => {
                let k = self.leaf.key;
                self.leaf.signer = k;
            }
            Act::FalseRoot(own_name) => {
                // everything hangs off a root the attacker made
                let k = 45;
                if let Some(c) = self.inter.first_mut() {
                    c.signer = k
                } else {
                    self.leaf.signer = k
                }
                if *own_name {
                    let c = Cert::new(self.root.0, k, self.root.0, k, true);
                    self.inter.insert(0, c)
                }
            }
            _ => {}
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    depth: u8,
    leaf: u8,
    acts: Vec<Act>,
    pick: u32,
    /// what else the attacker does
    twist: Twist,
    /// which certificates are padded, by how much
    #[serde(default)]
    pads: Vec<(u8, u16)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Twist {
    None,
    /// the chain as a whole: nothing, or mutated
    Empty,
    Mutate(Vec<gen::Mut>),
    /// the digest in the challenge reply is of something else
    Digest(u16),
    /// another key signs
    NotMine(u8),
}

fn word(a: &Act) -> String {
    format!("{a:?}").split('(').next().unwrap().to_string()
}

fn session(c: &Case, o: &mut Obs) -> Check {
    let mut g = plain_graph(c.depth, c.leaf);
    for a in &c.acts {
        g.apply(a, false);
    }
    g.inter.truncate(cfg().depth + 2);
    let root = g.root_bytes();
    let h = nth_bit(cfg().hashes(), c.pick);
    // larger certificates, as far as there is room
    let room = gen::session_room(1, 64);
    for (i, pad) in &c.pads {
        let old = g.at(*i).pad;
        g.at(*i).pad = (*pad).max(4);
        let total = 4 + 64 + g.leaf.bytes().len() + g.inter.iter().map(|x| x.bytes().len()).sum::<usize>();
        if total > room {
            g.at(*i).pad = old
        }
    }
    let fix = ChainFix {
        root_hash: hash::sha(h, &root),
        root: root.clone(),
        inter: g.inter.iter().map(|x| x.bytes()).collect(),
        leaf: g.leaf.bytes(),
        key: key(1 + g.leaf.key),
    };
    let deep = g.inter.len() > cfg().depth;
    let mut slot = SlotFix::new(Arc::new(fix));
    let plain = slot.bytes.clone();
    let mut trusted = if deep { Some(false) } else { g.trusted() };
    let mut why = if deep { "too deep".to_string() } else { String::new() };
    match &c.twist {
        Twist::None => {}
        Twist::Empty => {
            slot.bytes = vec![];
            trusted = Some(false);
        }
        Twist::Mutate(m) => {
            slot.bytes = gen::apply_all(&plain, m);
            slot.bytes.truncate(65535);
            let d = hash::size(h);
            // the root hash in the chain is not what trust rests on
            let same = slot.bytes.len() == plain.len() && slot.bytes[..4] == plain[..4] && slot.bytes[4 + d..] == plain[4 + d..];
            if !same {
                // what was there to be found may still be there
                trusted = if g.proper() { Some(false) } else { trusted.filter(|t| !t) };
                // a flipped bit may have been flipped back
                if g.inter.iter().chain([&g.leaf]).any(|x| x.flip.is_some()) {
                    let mut w = g.clone();
                    w.inter.iter_mut().for_each(|x| x.flip = None);
                    w.leaf.flip = None;
                    let certs: Vec<u8> = w.inter.iter().chain([&w.leaf]).flat_map(|x| x.bytes()).collect();
                    trusted = if deep {
                        Some(false)
                    } else if slot.bytes.len() == plain.len() && slot.bytes[..4] == plain[..4] && slot.bytes[4 + d..] == certs[..] {
                        w.trusted()
                    } else {
                        None
                    }
                }
            } else if slot.bytes != plain {
                trusted = trusted.filter(|t| !t)
            }
        }
        Twist::Digest(_) => {}
        Twist::NotMine(k) => slot.signer = TSigner::new(key(1 + k % 100)),
    }
    let public = key(1 + g.leaf.key).public().to_vec();
    let slots: Slots = (0..cfg().slots).map(|i| if i == 0 { Some(SlotFix { chain: slot.chain.clone(), signer: slot.signer.clone(), bytes: slot.bytes.clone() }) } else { None }).collect();
    let mut q = Box::new(requester(&root));
    let mut m = ReqModel::new();
    let mut peer = RefRsp::new(&slots);
    peer.pick = c.pick;
    peer.flags = CERT_CAP | CHAL_CAP;
    let trust = |_: &vcommon::codec::Chain| match trusted {
        Some(true) => Trust::Yes(public.clone()),
        Some(false) => Trust::No,
        None => Trust::Unknown(public.clone()),
    };
    let mut last = false;
    let mut asked = false;
    while m.phase != QPhase::Done {
        let req = match m.send(&mut q, 4096)? {
            Some(r) => r,
            None => {
                o.class("beyond the transcript (skipped)");
                return Ok(());
            }
        };
        let mut rsp = peer.reply(&req)?;
        if m.phase == QPhase::Challenge {
            asked = true;
            if let Twist::Digest(x) = &c.twist {
                // signed all the same
                let d = hash::size(h);
                rsp[4 + *x as usize / 8 % d] ^= 1 << (x % 8);
                let n = rsp.len() - 64;
                let mut t = m.t.clone();
                t.extend(&rsp[..n]);
                rsp[n..].copy_from_slice(slot.signer.key.sign_raw(&hash::sha(h, &t), 5).as_ref());
            }
        }
        last = m.deliver(&mut q, &rsp, &trust)?;
        if !last {
            break;
        }
    }
    if asked {
        o.nontrivial();
        if why.is_empty() {
            why = match (&c.twist, trusted) {
                (Twist::None, Some(true)) => "trusted".into(),
                (Twist::None, None) => "either way".into(),
                (Twist::None, _) => c.acts.iter().map(word).collect::<Vec<_>>().join("+"),
                (t, _) => format!("{t:?}").split('(').next().unwrap().to_string(),
            };
        }
        if c.acts.len() > 1 && why.contains('+') {
            why = "several things wrong".into()
        }
        o.class(format!("{why}: {}", if last { "accepted" } else { "refused" }));
        o.note(format!("{} intermediates, {}", g.inter.len(), if last { "accepted" } else { "refused" }));
    } else {
        o.class(format!("ended before the challenge ({:?})", m.phase));
    }
    Ok(())
}

/// The library's own function, at any moment.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Direct {
    depth: u8,
    now: i64,
    acts: Vec<Act>,
}
fn judge(g: &Graph, o: &mut Obs, label: &str) -> Check {
    let root = g.root_bytes();
    let inter: Vec<Vec<u8>> = g.inter.iter().map(|x| x.bytes()).collect();
    let refs: Vec<&[u8]> = inter.iter().map(|x| &x[..]).collect();
    let leaf = g.leaf.bytes();
    let ok = guarded(|| match lib!(new_end_entity_cert(&leaf)) {
        Ok(e) => lib!(e.verify_chain_of_trust(BaseAsymAlgo::ECDSA_ECC_NIST_P256, &refs, &root, g.now as u64)).is_ok(),
        Err(_) => false,
    })?;
    let want = g.trusted();
    if want.map_or(false, |w| w != ok) {
        return Err(format!("{} at {}: {}", label, civil(g.now), if ok { "trusted" } else { "not trusted" }));
    }
    o.class(format!(
        "{label}: {}",
        match (want, ok) {
            (Some(true), _) => "trusted",
            (Some(false), _) => "not trusted",
            (None, true) => "either way (trusted)",
            (None, false) => "either way (not trusted)",
        }
    ));
    Ok(())
}
fn direct(c: &Direct, o: &mut Obs) -> Check {
    let mut g = plain_graph(c.depth, 3);
    g.now = c.now;
    for a in &c.acts {
        g.apply(a, true);
    }
    o.nontrivial();
    let l = match &c.acts[..] {
        [] => "unharmed".to_string(),
        [a] => word(a),
        _ => "several".to_string(),
    };
    judge(&g, o, &l)
}
fn graph(g: &Graph, o: &mut Obs) -> Check {
    let mut used = vec![];
    if g.search(&g.leaf, 0, &mut used) {
        o.class(format!("a path through {}", used.len()));
    }
    o.nontrivial();
    judge(g, o, "graph")
}

fn act() -> BoxedStrategy<Act> {
    let b = || any::<u8>();
    prop_oneof![
        2 => (b(), b()).prop_map(|(a, c)| Act::Root(a, c)),
        1 => Just(Act::RootBad),
        3 => (b(), b()).prop_map(|(a, c)| Act::Signer(a, c)),
        3 => (b(), b()).prop_map(|(a, c)| Act::Issuer(a, c)),
        2 => (b(), b()).prop_map(|(a, c)| Act::Subject(a, c)),
        2 => (b(), b()).prop_map(|(a, c)| Act::Key(a, c)),
        3 => (b(), any::<bool>()).prop_map(|(a, c)| Act::NotCa(a, c)),
        1 => any::<bool>().prop_map(Act::LeafCa),
        3 => (b(), b()).prop_map(|(a, c)| Act::Expired(a, c)),
        3 => (b(), b()).prop_map(|(a, c)| Act::Early(a, c)),
        3 => (b(), any::<bool>(), -1i8..=1).prop_map(|(a, e, c)| Act::Edge(a, e, c)),
        3 => (b(), b()).prop_map(|(a, c)| Act::PathLen(a, c)),
        1 => (b(), any::<bool>()).prop_map(|(a, c)| Act::Eku(a, c)),
        1 => b().prop_map(Act::Critical),
        1 => b().prop_map(Act::P384),
        4 => (b(), any::<u16>()).prop_map(|(a, c)| Act::Flip(a, c)),
        2 => b().prop_map(Act::Drop),
        1 => b().prop_map(Act::Dup),
        1 => (b(), b()).prop_map(|(a, c)| Act::Swap(a, c)),
        1 => Just(Act::Reverse),
        1 => any::<bool>().prop_map(Act::WithRoot),
        1 => b().prop_map(Act::Stray),
        2 => Just(Act::SelfSigned),
        2 => any::<bool>().prop_map(Act::FalseRoot),
    ]
    .boxed()
}
fn acts() -> BoxedStrategy<Vec<Act>> {
    prop_oneof![2 => Just(vec![]), 8 => vec(act(), 1..2), 2 => vec(act(), 2..4)].boxed()
}
fn depth() -> BoxedStrategy<u8> {
    let d = cfg().depth as u8;
    // what the buffers hold
    let room = (cfg().buf.min(cfg().transcript / 2).saturating_sub(430) / 330) as u8;
    prop_oneof![12 => 0..=d.min(6).min(room), 1 => Just(d + 1), 1 => 0..=d, 1 => Just(d.min(room))].boxed()
}

pub fn parts() -> Vec<Part> {
    vec![
        prop(
            "sessions",
            "the requester challenged a peer that holds the leaf's key and presents a chain, proper or not",
            (16000, 160000),
            || {
                let twist = prop_oneof![
                    14 => Just(Twist::None),
                    1 => Just(Twist::Empty),
                    3 => gen::mutations(3).prop_map(Twist::Mutate),
                    1 => any::<u16>().prop_map(Twist::Digest),
                    1 => any::<u8>().prop_map(Twist::NotMine),
                ];
                let pad = prop_oneof![2 => 0u16..300, 1 => 0u16..1500, 1 => 0u16..=9000];
                let pads = prop_oneof![2 => Just(vec![]), 1 => vec((any::<u8>(), pad), 1..4)];
                (depth(), any::<u8>(), acts(), any::<u32>(), twist, pads).prop_map(|(depth, leaf, acts, pick, twist, pads)| Case { depth, leaf, acts, pick, twist, pads })
            },
            session,
        ),
        prop(
            "flaws",
            "a proper chain with up to three flaws, judged at a chosen moment by the library's own function",
            (30000, 400000),
            || {
                let now = prop_oneof![
                    2 => Just(NOW),
                    2 => 946684800i64..2524607999,
                    1 => prop::sample::select(vec![946684800i64, 2524607999, 951782400, 1709164800, 1709251199]),
                ];
                (0u8..9, now, acts()).prop_map(|(depth, now, acts)| Direct { depth, now, acts })
            },
            direct,
        ),
        prop(
            "graphs",
            "a random graph of certificates over few names and keys: a path is found exactly if there is one",
            (20000, 300000),
            || {
                fn cert(leaf: bool) -> BoxedStrategy<Cert> {
                    // entities: 0 the root, 1 to 3 others; a name mostly goes with its key
                    let pair = || (0u8..4, prop_oneof![8 => Just(None), 1 => (0u8..4).prop_map(Some)]).prop_map(|(n, k)| (n, k.unwrap_or(n)));
                    (pair(), pair(), prop_oneof![6 => Just(None), 1 => (0u8..3).prop_map(Some)], prop_oneof![12 => Just(0u8), 1 => Just(1), 1 => Just(2), 1 => Just(3)])
                        .prop_map(move |(me, up, path_len, flaw)| {
                            let mut c = Cert::new(me.0, me.1, up.0, up.1, !leaf);
                            if leaf {
                                c.key = leaf_key(1);
                                c.subject = 50;
                            } else {
                                c.path_len = path_len;
                            }
                            match flaw {
                                1 if !leaf => c.ca = Some(false),
                                2 => c.na = NOW - 100,
                                3 => c.flip = Some(3000),
                                _ => {}
                            }
                            c
                        })
                        .boxed()
                }
                (cert(true), vec(cert(false), 0..7))
                    .prop_map(|(leaf, inter)| Graph { root: (0, 0), root_bad: false, inter, leaf, now: NOW })
            },
            graph,
        ),
    ]
}
