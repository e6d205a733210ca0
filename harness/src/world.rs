//! Fixtures: keys, certificate chains, signers, slots; and the endpoints built
//! from them.
use crate::cfg::cfg;
use serde::{Deserialize, Serialize};
use spdm::config::NUM_SLOTS;
use spdm::crypto::signing::{Error as SignError, Signature};
use spdm::crypto::{FilledSlot, Signer};
use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
use spdm::msgs::CertificateChain;
use spdm::{RequesterInit, Responder};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use vcommon::codec;
use vcommon::der::{self, Curve, Key, Spec};
use vcommon::hash;

pub fn key(id: u8) -> Arc<Key> {
    static K: OnceLock<Mutex<HashMap<u8, Arc<Key>>>> = OnceLock::new();
    K.get_or_init(Default::default).lock().unwrap().entry(id).or_insert_with(|| Arc::new(Key::new(Curve::P256, id))).clone()
}

/// A properly built chain: root (not sent), intermediates, leaf.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct ChainSpec {
    /// number of intermediates
    pub depth: u8,
    /// which leaf key
    pub leaf: u8,
    /// which root
    pub root: u8,
    /// the total length of the serialized chain to aim for
    pub size: Option<u32>,
    /// which certificate is padded to get there
    pub pad_at: u8,
    /// the hash the root hash is made with
    pub hash: u32,
}
impl ChainSpec {
    pub fn plain(depth: u8, leaf: u8) -> ChainSpec {
        ChainSpec { depth, leaf, root: 0, size: None, pad_at: 0, hash: 1 }
    }
}

pub struct ChainFix {
    pub root: Vec<u8>,
    pub root_hash: Vec<u8>,
    pub inter: Vec<Vec<u8>>,
    pub leaf: Vec<u8>,
    pub key: Arc<Key>,
}
impl ChainFix {
    pub fn bytes(&self) -> Vec<u8> {
        codec::chain_bytes(&codec::Chain {
            root_hash: self.root_hash.clone(),
            inter: self.inter.clone(),
            leaf: self.leaf.clone(),
        })
    }
    pub fn len(&self) -> usize {
        4 + self.root_hash.len() + self.inter.iter().map(|x| x.len()).sum::<usize>() + self.leaf.len()
    }
    pub fn lib(&self) -> CertificateChain<'_> {
        let mut c = lib!(CertificateChain::new(&self.root_hash, &self.leaf));
        for i in &self.inter {
            lib!(c.append_intermediate_cert(i)).expect("chain depth");
        }
        c
    }
}

pub fn root_cert(root: u8) -> Vec<u8> {
    let n = format!("R{root}");
    let k = key(1 + root);
    der::cert(&Spec::new(&n, &n, true), &k, &k)
}

fn build_chain(s: &ChainSpec) -> ChainFix {
    let root = root_cert(s.root);
    let mut issuer = (format!("R{}", s.root), key(1 + s.root));
    let mut specs = vec![];
    for i in 0..s.depth {
        let name = format!("I{}{i}", s.root);
        let k = key(20 + i);
        specs.push((Spec::new(&name, &issuer.0, true), k.clone(), issuer.1.clone()));
        issuer = (name, k);
    }
    let lk = key(60 + s.leaf % 60);
    specs.push((Spec::new(&format!("L{}", s.leaf), &issuer.0, false), lk.clone(), issuer.1.clone()));
    let mut certs: Vec<Vec<u8>> = specs.iter().map(|(s, k, i)| der::cert(s, k, i)).collect();
    let root_hash = hash::sha(s.hash, &root);
    if let Some(size) = s.size {
        let at = s.pad_at as usize % certs.len();
        let others: usize = certs.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, c)| c.len()).sum();
        let fixed = 4 + root_hash.len() + others;
        if let Some(target) = (size as usize).checked_sub(fixed) {
            let (sp, k, i) = &specs[at];
            if let Some(c) = der::cert_of_size(sp, k, i, target) {
                certs[at] = c;
            }
        }
    }
    let leaf = certs.pop().unwrap();
    ChainFix { root, root_hash, inter: certs, leaf, key: lk }
}

pub fn chain(s: &ChainSpec) -> Arc<ChainFix> {
    static C: OnceLock<Mutex<HashMap<ChainSpec, Arc<ChainFix>>>> = OnceLock::new();
    let m = C.get_or_init(Default::default);
    if let Some(c) = m.lock().unwrap().get(s) {
        return c.clone();
    }
    let c = Arc::new(build_chain(s));
    let mut g = m.lock().unwrap();
    if g.len() > 4000 {
        g.clear();
    }
    g.insert(s.clone(), c.clone());
    c
}

/// A chain of arbitrary bytes: the responder does not look inside.
pub fn junk_chain(root_len: usize, inter: &[usize], leaf_len: usize, leaf_key: u8, fill: u8) -> ChainFix {
    let f = |n: usize, s: u8| (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(s)).collect::<Vec<u8>>();
    ChainFix {
        root: vec![],
        root_hash: f(root_len, fill),
        inter: inter.iter().enumerate().map(|(i, n)| f(*n, fill.wrapping_add(i as u8 + 1))).collect(),
        leaf: f(leaf_len, fill ^ 0x55),
        key: key(60 + leaf_key % 60),
    }
}

#[derive(Clone)]
pub struct TSig(pub [u8; 64]);
impl AsRef<[u8]> for TSig {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Signature for TSig {}

/// Signs like the library's own signer, remembers what it signed, and can be
/// told to fail.
#[derive(Clone)]
pub struct TSigner {
    pub key: Arc<Key>,
    pub log: Arc<Mutex<Vec<Vec<u8>>>>,
    pub fail: Arc<AtomicBool>,
}
impl TSigner {
    pub fn new(key: Arc<Key>) -> TSigner {
        TSigner { key, log: Default::default(), fail: Default::default() }
    }
}
impl Signer for TSigner {
    type Signature = TSig;
    fn sign(&self, msg: &[u8]) -> Result<TSig, SignError> {
        let _app = crate::alloc::leave();
        if self.fail.load(Ordering::Relaxed) {
            return Err(SignError {});
        }
        self.log.lock().unwrap().push(msg.to_vec());
        let s = self.key.sign_raw(msg, 1 + msg.first().copied().unwrap_or(9) % 250);
        let mut o = [0u8; 64];
        o.copy_from_slice(s.as_ref());
        Ok(TSig(o))
    }
}

pub struct SlotFix {
    pub chain: Arc<ChainFix>,
    pub signer: TSigner,
    pub bytes: Vec<u8>,
}
impl SlotFix {
    pub fn new(chain: Arc<ChainFix>) -> SlotFix {
        SlotFix { signer: TSigner::new(chain.key.clone()), bytes: chain.bytes(), chain }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum SlotSpec {
    Empty,
    Pki(ChainSpec),
    Junk { root: u16, inter: Vec<u16>, leaf: u16, key: u8, fill: u8 },
}
pub type Slots = Vec<Option<SlotFix>>;

pub fn slots(specs: &[SlotSpec]) -> Slots {
    (0..NUM_SLOTS)
        .map(|i| match specs.get(i) {
            None | Some(SlotSpec::Empty) => None,
            Some(SlotSpec::Pki(c)) => {
                let mut c = c.clone();
                c.leaf = (c.leaf & 7) * 8 + i as u8;
                Some(SlotFix::new(chain(&c)))
            }
            Some(SlotSpec::Junk { root, inter, leaf, key, fill }) => {
                let inter: Vec<usize> = inter.iter().map(|x| *x as usize).take(cfg().depth).collect();
                Some(SlotFix::new(Arc::new(junk_chain(*root as usize, &inter, *leaf as usize, *key, *fill))))
            }
        })
        .collect()
}

pub fn responder(s: &Slots) -> Responder<'_, TSigner> {
    let arr: [Option<FilledSlot<'_, TSigner>>; NUM_SLOTS] = std::array::from_fn(|i| {
        s.get(i).and_then(|o| o.as_ref()).map(|f| FilledSlot {
            signing_algorithm: BaseAsymAlgo::ECDSA_ECC_NIST_P256,
            // what the slot says of hashes is not what a session negotiates
            hash_algorithm: [
                BaseHashAlgo::SHA_512,
                BaseHashAlgo::SHA3_256,
                BaseHashAlgo::SHA_384,
                BaseHashAlgo::SHA3_512,
                BaseHashAlgo::SHA_256,
                BaseHashAlgo::SHA3_384,
            ][i % 6],
            cert_chain: f.chain.lib(),
            signer: f.signer.clone(),
        })
    });
    lib!(Responder::new(arr))
}

pub fn requester(root: &[u8]) -> RequesterInit<'_, TSigner> {
    const NONE: Option<FilledSlot<'static, TSigner>> = None;
    lib!(RequesterInit::new(root, [NONE; NUM_SLOTS]))
}

pub fn mask(s: &Slots) -> u8 {
    s.iter().enumerate().fold(0, |m, (i, o)| m | (o.is_some() as u8) << i)
}

/// Whether `sig` (r||s) is by `public` (uncompressed point) over `msg`.
pub fn verify_raw(public: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    ring::signature::UnparsedPublicKey::new(&ring::signature::ECDSA_P256_SHA256_FIXED, public).verify(msg, sig).is_ok()
}

/// The buffer a responder needs for its longest reply.
pub fn rsp_cap() -> usize {
    cfg().buf + 600
}
