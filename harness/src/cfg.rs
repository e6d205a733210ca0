//! The configuration this binary was built with, as check.py read it from the
//! TOML file: the oracles use these numbers, not the library's constants.
use serde::Deserialize;
use std::sync::OnceLock;
use vcommon::codec::{Limits, CERT_CAP, CHAL_CAP, MUT_AUTH_CAP};

#[derive(Deserialize, Debug)]
pub struct Cfg {
    pub name: String,
    pub capabilities: Vec<String>,
    pub slots: usize,
    pub buf: usize,
    pub depth: usize,
    pub transcript: usize,
    pub max_digest: usize,
    pub blocks: usize,
    pub meas: usize,
    pub elems: usize,
    pub edata: usize,
}

static CFG: OnceLock<Cfg> = OnceLock::new();

pub fn load() {
    let s = std::env::var("VCFG").expect("VCFG");
    CFG.set(serde_json::from_str(&s).expect("VCFG")).unwrap();
}
pub fn cfg() -> &'static Cfg {
    CFG.get().expect("configuration")
}
pub const CRYPTO: bool = cfg!(feature = "crypto");

impl Cfg {
    pub fn caps(&self) -> u32 {
        self.capabilities
            .iter()
            .map(|c| match c.as_str() {
                "CERT_CAP" => CERT_CAP,
                "CHAL_CAP" => CHAL_CAP,
                "ENCRYPT_CAP" => 1 << 6,
                "MAC_CAP" => 1 << 7,
                "MUT_AUTH_CAP" => MUT_AUTH_CAP,
                "KEY_EX_CAP" => 1 << 9,
                "KEY_UPD_CAP" => 1 << 14,
                c => panic!("{c}"),
            })
            .fold(0, |a, b| a | b)
    }
    pub fn cert(&self) -> bool {
        self.caps() & CERT_CAP != 0
    }
    pub fn chal(&self) -> bool {
        self.caps() & CHAL_CAP != 0
    }
    pub fn mut_auth(&self) -> bool {
        self.caps() & MUT_AUTH_CAP != 0
    }
    pub fn limits(&self, digest: usize) -> Limits {
        Limits {
            slots: self.slots,
            cert_buf: self.buf,
            depth: self.depth,
            max_digest: self.max_digest,
            opaque_elems: self.elems,
            opaque_data: self.edata,
            meas_blocks: self.blocks,
            meas_size: self.meas,
            digest,
            sig: 64,
            meas_sig: true,
            nonce: CRYPTO,
        }
    }
    pub fn nonce_len(&self) -> usize {
        if CRYPTO {
            32
        } else {
            0
        }
    }
    /// hashes the responder can carry out
    pub fn hashes(&self) -> u32 {
        if CRYPTO {
            7
        } else {
            1
        }
    }
    /// the longest chain a session can carry, by the certificate buffers
    pub fn max_chain(&self) -> usize {
        self.buf.min(65535)
    }
}
