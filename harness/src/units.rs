//! C20 (byte and bit codec), C21 (certificate chains), C22 (signatures),
//! C23 (digests): the library's building blocks against reference versions.
use crate::cfg::{cfg, CRYPTO};
use crate::gen;
use crate::glue;
use crate::model::short;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use spdm::msgs::encoding::{ReadError, Reader, Writer};
use spdm::msgs::CertificateChain;
use vcommon::codec;
use vcommon::der::tlv;
use vcommon::run::*;

// ------------------------------------------------------------------- C20

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum R {
    Byte,
    U16,
    U24,
    U32,
    Slice(u16, u8),
    Bits(u8),
    Bit,
    Reserved(u16),
    Ignored(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reads {
    buf: Vec<u8>,
    ops: Vec<R>,
}
/// The bits of `b` from position `p`, least significant first.
fn bits_at(b: &[u8], p: usize, n: usize) -> u32 {
    (0..n).fold(0, |v, i| v | ((b[(p + i) / 8] >> ((p + i) % 8)) as u32 & 1) << i)
}
fn le(b: &[u8]) -> u32 {
    b.iter().rev().fold(0, |v, x| v << 8 | *x as u32)
}
fn reads(c: &Reads, o: &mut Obs) -> Check {
    let b = &c.buf[..];
    let mut r = Reader::new(b);
    // in bits
    let mut p = 0usize;
    let mut failed = 0;
    let mut odd = false;
    for (i, op) in c.ops.iter().enumerate() {
        let (aligned, left) = (p % 8 == 0, b.len() * 8 - p);
        odd |= !aligned;
        // what must come back: Ok(value), or the errors that are right
        enum E {
            V(u32),
            Bytes(Vec<u8>),
            Unit,
            Err(Vec<ReadError>),
        }
        let fixed = |n: usize| -> (usize, E) {
            if !aligned {
                (n * 8, E::Err(vec![ReadError::Unaligned]))
            } else if left < n * 8 {
                (n * 8, E::Err(vec![ReadError::BufferEmpty]))
            } else {
                (n * 8, E::V(le(&b[p / 8..p / 8 + n.min(4)])))
            }
        };
        let (n, want) = match op {
            R::Byte => fixed(1),
            R::U16 => fixed(2),
            R::U24 => fixed(3),
            R::U32 => fixed(4),
            R::Slice(k, _) => match fixed(*k as usize) {
                (n, E::V(_)) => (n, E::Bytes(b[p / 8..][..*k as usize].to_vec())),
                // nothing to read: aligned or not is of no consequence
                (0, _) => (0, E::Bytes(vec![])),
                x => x,
            },
            R::Bit | R::Bits(_) => {
                let k = if let R::Bits(k) = op { *k as usize } else { 1 };
                if k > 7 {
                    (k, E::Err(vec![ReadError::TooManyBits, ReadError::BufferEmpty]))
                } else if left < k {
                    (k, E::Err(vec![ReadError::BufferEmpty]))
                } else {
                    (k, E::V(bits_at(b, p, k)))
                }
            }
            R::Reserved(k) => match fixed(*k as usize) {
                (0, _) => (0, E::Unit),
                (n, e) => {
                    let upto = if aligned { &b[p / 8..b.len().min(p / 8 + *k as usize)] } else { &[] };
                    match e {
                        _ if upto.iter().any(|x| *x != 0) => (n, E::Err(vec![ReadError::ReservedByteNotZero, ReadError::BufferEmpty])),
                        E::V(_) => (n, E::Unit),
                        e => (n, e),
                    }
                }
            },
            R::Ignored(k) => match fixed(*k as usize) {
                (0, _) | (_, E::V(_)) => (*k as usize * 8, E::Unit),
                x => x,
            },
        };
        let mut out = vec![];
        let got: Result<u32, ReadError> = match op {
            R::Byte => lib!(r.get_byte()).map(|x| x as u32),
            R::U16 => lib!(r.get_u16()).map(|x| x as u32),
            R::U24 => lib!(r.get_u24()).map(|x| x as u32),
            R::U32 => lib!(r.get_u32()),
            R::Bit => lib!(r.get_bit()).map(|x| x as u32),
            R::Bits(k) => lib!(r.get_bits(*k)).map(|x| x as u32),
            R::Slice(k, extra) => {
                out = vec![0xA5; *k as usize + *extra as usize];
                lib!(r.get_slice(*k as usize, &mut out)).map(|_| 0)
            }
            R::Reserved(k) => lib!(r.skip_reserved(*k as usize)).map(|_| 0),
            R::Ignored(k) => lib!(r.skip_ignored(*k as usize)).map(|_| 0),
        };
        let was = p;
        let ctx = |m: String| Err(format!("read {i}, {op:?} at bit {was} of {}: {m}", short(b)));
        match (&want, &got) {
            (E::V(v), Ok(g)) if v == g => {}
            (E::Unit, Ok(_)) => {}
            (E::Bytes(v), Ok(_)) if out[..v.len()] == v[..] && out[v.len()..].iter().all(|x| *x == 0xA5) => {}
            (E::Bytes(v), Err(ReadError::Unaligned)) if v.is_empty() && !aligned => {}
            (E::Err(es), Err(e)) if es.contains(e) => {}
            (E::V(v), g) => return ctx(format!("{g:?} instead of {v:#x}")),
            (E::Bytes(v), g) => return ctx(format!("{g:?} and {} instead of {}", short(&out), short(v))),
            (E::Unit, g) => return ctx(format!("{g:?} instead of success")),
            (E::Err(es), g) => return ctx(format!("{g:?} instead of one of {es:?}")),
        }
        if got.is_ok() {
            p += n;
        } else {
            failed += 1;
            // a failed read may have used up some whole bytes
            let at = r.byte_offset();
            if at < p / 8 || at > b.len() || (!aligned && at != p / 8) {
                return ctx(format!("the cursor is at byte {at} after it failed"));
            }
            if aligned {
                p = at * 8
            }
        }
        if r.byte_offset() != p / 8 || r.is_aligned() != (p % 8 == 0) || r.remaining() != b.len() - p / 8 || r.is_empty() != (p / 8 == b.len()) {
            return ctx(format!(
                "then byte {} aligned {} remaining {} empty {}, but it is at bit {p}",
                r.byte_offset(),
                r.is_aligned(),
                r.remaining(),
                r.is_empty()
            ));
        }
    }
    if odd || failed > 0 {
        o.nontrivial();
    }
    o.class(format!("between bytes: {odd}, failed: {}", failed.min(3)));
    Ok(())
}

/// Every pair of bytes, read as a group of `second` bits after one of `first`.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Groups {
    first: u8,
    second: u8,
    third: u8,
    high: u8,
}
fn groups(c: &Groups, o: &mut Obs) -> Check {
    for low in 0..=255u8 {
        let b = [low, c.high];
        let mut r = Reader::new(&b);
        let mut p = 0;
        for k in [c.first, c.second, c.third] {
            let want = if p + k as usize <= 16 { Ok(bits_at(&b, p, k as usize) as u8) } else { Err(ReadError::BufferEmpty) };
            let got = lib!(r.get_bits(k));
            if got != want {
                return Err(format!("{k} bits at bit {p} of {b:x?}: {got:?} instead of {want:?}"));
            }
            if got.is_ok() {
                p += k as usize
            }
            if r.byte_offset() != p / 8 || r.is_aligned() != (p % 8 == 0) {
                return Err(format!("after {k} bits the cursor is at byte {} instead of bit {p}", r.byte_offset()));
            }
        }
    }
    if c.first + c.second > 8 {
        o.nontrivial();
    }
    o.class(format!("{} then {}", c.first, c.second));
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum W {
    Put(u8),
    Reserved(u8),
    U16(u16),
    U24(u32),
    U32(u32),
    Extend(Vec<u8>),
    /// to exactly the end, short of it or beyond it by so much
    Fill(i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Writes {
    size: u16,
    ops: Vec<W>,
}
fn wr(c: &Writes, o: &mut Obs) -> Check {
    let size = c.size as usize;
    let mut whole = vec![0xC3u8; size + 64];
    // what must be there; None: not written, or by a write that failed
    let mut want: Vec<Option<u8>> = vec![Some(0xC3); size];
    let mut failed = 0;
    {
        let (_, rest) = whole.split_at_mut(32);
        let (buf, _) = rest.split_at_mut(size);
        let mut w = Writer::new(buf);
        let mut p = 0usize;
        for (i, op) in c.ops.iter().enumerate() {
            let data = match op {
                W::Put(x) => vec![*x],
                W::Reserved(n) => vec![0; *n as usize],
                W::U16(x) => vec![*x as u8, (*x >> 8) as u8],
                W::U24(x) => vec![*x as u8, (*x >> 8) as u8, (*x >> 16) as u8],
                W::U32(x) => vec![*x as u8, (*x >> 8) as u8, (*x >> 16) as u8, (*x >> 24) as u8],
                W::Extend(d) => d.clone(),
                W::Fill(by) => (0..((size - p) as i64 + *by as i64).max(0)).map(|i| i as u8 ^ 0x3c).collect(),
            };
            let got = match op {
                W::Put(x) => lib!(w.put(*x)),
                W::Reserved(n) => lib!(w.put_reserved(*n)),
                W::U16(x) => lib!(w.put_u16(*x)),
                W::U24(x) => lib!(w.put_u24(*x as usize)),
                W::U32(x) => lib!(w.put_u32(*x)),
                W::Extend(_) | W::Fill(_) => lib!(w.extend(&data)),
            };
            let fits = p + data.len() <= size;
            let was = p;
            let ctx = |m: String| Err(format!("write {i}, {op:?} at byte {was} of {size}: {m}"));
            match got {
                Ok(n) if fits => {
                    if n != p + data.len() {
                        return ctx(format!("reports {n} bytes"));
                    }
                    for (j, x) in data.iter().enumerate() {
                        want[p + j] = Some(*x);
                    }
                    p = n;
                }
                Err(_) if !fits => {
                    failed += 1;
                    // it may have written what there was room for
                    for x in &mut want[p..] {
                        *x = None;
                    }
                    if w.offset() < p || w.offset() > size {
                        return ctx(format!("at byte {} after it failed", w.offset()));
                    }
                    p = w.offset();
                }
                g => return ctx(format!("{g:?}")),
            }
            if w.offset() != p || w.remaining() != size - p || w.is_full() != (p == size) {
                return ctx(format!("then at byte {}, {} remaining, full: {}", w.offset(), w.remaining(), w.is_full()));
            }
        }
    }
    if whole[..32].iter().chain(&whole[32 + size..]).any(|x| *x != 0xC3) {
        return Err("wrote outside the buffer".into());
    }
    for (i, (x, w)) in whole[32..32 + size].iter().zip(&want).enumerate() {
        if w.map_or(false, |w| w != *x) {
            return Err(format!("byte {i} is {x:#x} instead of {:#x}", w.unwrap()));
        }
    }
    if failed > 0 || c.ops.len() > 1 {
        o.nontrivial();
    }
    o.class(format!("{} failed", failed.min(4)));
    Ok(())
}

pub fn c20() -> Vec<Part> {
    fn rop() -> BoxedStrategy<R> {
        let n = || prop_oneof![6 => 0u16..6, 2 => 0u16..60, 1 => any::<u16>()];
        prop_oneof![
            2 => Just(R::Byte),
            2 => Just(R::U16),
            2 => Just(R::U24),
            2 => Just(R::U32),
            2 => (n(), 0u8..9).prop_map(|(n, e)| R::Slice(n, e)),
            7 => (1u8..=7).prop_map(R::Bits),
            1 => prop_oneof![8u8..=16, any::<u8>().prop_map(|x| x.max(8))].prop_map(R::Bits),
            2 => Just(R::Bit),
            2 => n().prop_map(R::Reserved),
            2 => n().prop_map(R::Ignored),
        ]
        .boxed()
    }
    fn wop() -> BoxedStrategy<W> {
        prop_oneof![
            2 => any::<u8>().prop_map(W::Put),
            2 => prop_oneof![4 => 0u8..6, 1 => any::<u8>()].prop_map(W::Reserved),
            2 => any::<u16>().prop_map(W::U16),
            2 => prop_oneof![3 => 0u32..1 << 24, 1 => any::<u32>()].prop_map(W::U24),
            2 => any::<u32>().prop_map(W::U32),
            2 => gen::bytes(40).prop_map(W::Extend),
            1 => (-5i8..6).prop_map(W::Fill),
        ]
        .boxed()
    }
    /// a buffer with runs of zeros, for reserved bytes
    fn data() -> BoxedStrategy<Vec<u8>> {
        prop_oneof![
            2 => vec(any::<u8>(), 0..24),
            2 => vec(prop_oneof![2 => Just(0u8), 1 => any::<u8>()], 0..24),
            1 => vec(any::<u8>(), 0..300),
        ]
        .boxed()
    }
    vec![
        sweep(
            "bit_groups",
            "all pairs of bytes, read as three groups of 1 to 7 bits; counts when the second straddles the bytes",
            |_| 7 * 7 * 7 * 256,
            |i| Groups { first: 1 + (i % 7) as u8, second: 1 + (i / 7 % 7) as u8, third: 1 + (i / 49 % 7) as u8, high: (i / 343) as u8 },
            groups,
        ),
        prop(
            "reads",
            "a random sequence of reads of which some were between bytes or failed",
            (600000, 6_000_000),
            || (data(), vec(rop(), 1..14)).prop_map(|(buf, ops)| Reads { buf, ops }),
            reads,
        ),
        sweep(
            "read_paths",
            "every sequence of three reads of every kind over short buffers",
            |_| 18usize.pow(3) * 7 * 3,
            |i| {
                let ops = [
                    R::Byte, R::U16, R::U24, R::U32, R::Slice(0, 1), R::Slice(2, 0), R::Slice(3, 2), R::Bits(1), R::Bits(2), R::Bits(3),
                    R::Bits(4), R::Bits(5), R::Bits(6), R::Bits(7), R::Bits(8), R::Bit, R::Reserved(2), R::Ignored(2),
                ];
                let fills: [[u8; 6]; 3] = [[0x81, 0x42, 0xF3, 0x24, 0xA5, 0x96], [0; 6], [0, 0, 0x80, 0, 0, 1]];
                let (a, b, c, n, f) = (i % 18, i / 18 % 18, i / 324 % 18, i / 5832 % 7, i / 5832 / 7);
                Reads { buf: fills[f][..n].to_vec(), ops: vec![ops[a].clone(), ops[b].clone(), ops[c].clone()] }
            },
            reads,
        ),
        prop(
            "writes",
            "more than one write, or one that failed",
            (400000, 4_000_000),
            || (prop_oneof![6 => 0u16..40, 1 => 0u16..400], vec(wop(), 1..12)).prop_map(|(size, ops)| Writes { size, ops }),
            wr,
        ),
    ]
}

// ------------------------------------------------------------------- C21

/// A certificate-like block, right or wrong.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Blk {
    tag: u8,
    /// how the length is written: 0 as DER has it; else these many bytes
    form: u8,
    len: u16,
    /// added to the length as written
    by: i8,
    fill: u8,
}
impl Blk {
    fn bytes(&self) -> Vec<u8> {
        let n = (self.len as i64 + self.by as i64).max(0) as usize;
        let mut v = vec![self.tag];
        match self.form {
            0 => {
                let h = tlv(0, &vec![0; n]);
                v.extend(&h[1..h.len() - n])
            }
            1 => v.push(n as u8 & 0x7f),
            2 => v.extend([0x81, n as u8]),
            3 => v.extend([0x82, (n >> 8) as u8, n as u8]),
            4 => v.extend([0x83, 0, (n >> 8) as u8, n as u8]),
            5 => v.extend([0x84, 0, 0, (n >> 8) as u8, n as u8]),
            6 => v.push(0x80),
            f => v.push(0x80 | f),
        }
        v.extend((0..self.len).map(|i| (i as u8).wrapping_mul(29) ^ self.fill));
        v
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    digest: u8,
    blocks: Vec<Blk>,
    /// what is wrong with the header: added to the total, and the reserved bytes
    total: i16,
    reserved: u16,
    /// bytes cut off the end after all that, the total following or not
    cut: u8,
    follow: bool,
}
fn judge_chain(b: &[u8], digest: usize, o: &mut Obs) -> Check {
    let want = codec::parse_chain(b, digest, cfg().depth);
    let got = lib!(CertificateChain::parse(b, glue::dsize(digest)));
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            if g.root_hash != w.root_hash || g.leaf_cert != w.leaf || g.intermediate_certs() != &w.inter[..] {
                return Err(format!(
                    "{} is split into {:?} instead of {:?}",
                    short(b),
                    g.intermediate_certs().iter().chain([&g.leaf_cert]).map(|c| c.len()).collect::<Vec<_>>(),
                    w.inter.iter().chain([&w.leaf]).map(|c| c.len()).collect::<Vec<_>>()
                ));
            }
            // and put together again
            let mut out = vec![0; b.len()];
            let mut w = Writer::new(&mut out);
            if lib!(g.write(&mut w)) != Ok(b.len()) || out != b {
                return Err(format!("{} is written as {}", short(b), short(&out)));
            }
            o.class(format!("{} intermediates", g.intermediate_certs().len()));
        }
        (Err(e), Err(_)) => o.class(format!("refused: {e:?}")),
        (Ok(_), Err(e)) => return Err(format!("{} is refused: {e:?}", short(b))),
        (Err(e), Ok(_)) => return Err(format!("{} is accepted, though {e:?}", short(b))),
    }
    Ok(())
}
fn raw_chain(c: &Raw, o: &mut Obs) -> Check {
    let ds = gen::digest_sizes();
    let d = ds[c.digest as usize % ds.len()];
    let mut b = vec![0; 4];
    b.extend((0..d).map(|i| i as u8 ^ 0x30));
    for x in &c.blocks {
        b.extend(x.bytes());
    }
    let full = b.len();
    b.truncate(full - (c.cut as usize).min(full - 4));
    b.truncate(65600);
    let n = (if c.follow { b.len() } else { full }) as i64 + c.total as i64;
    b[..2].copy_from_slice(&(n as u16).to_le_bytes());
    b[2..4].copy_from_slice(&c.reserved.to_be_bytes());
    o.nontrivial();
    judge_chain(&b, d, o)
}

/// Chains as an application builds them.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    digest: u8,
    inter: Vec<u16>,
    leaf: u16,
    /// the buffer, relative to what is needed; i32::MAX: an ample one
    room: i32,
}
fn built(c: &Built, o: &mut Obs) -> Check {
    let ds = gen::digest_sizes();
    let root = vec![0x5au8; ds[c.digest as usize % ds.len()]];
    let mk = |n: u16, i: usize| tlv(0x30, &(0..n).map(|x| (x as u8).wrapping_mul(7) ^ i as u8).collect::<Vec<u8>>());
    let inter: Vec<Vec<u8>> = c.inter.iter().enumerate().map(|(i, n)| mk(*n, i)).collect();
    let leaf = mk(c.leaf, 77);
    let mut ch = lib!(CertificateChain::new(&root, &leaf));
    let mut kept = 0;
    for (i, x) in inter.iter().enumerate() {
        let before = ch;
        let r = lib!(ch.append_intermediate_cert(x));
        if r.is_ok() != (i < cfg().depth) {
            return Err(format!("appending certificate {} gave {r:?}, the depth is {}", i + 1, cfg().depth));
        }
        if r.is_ok() {
            kept += 1;
            if ch == before {
                return Err("an appended certificate makes no difference".into());
            }
        } else if ch != before {
            return Err("refused, but the chain changed".into());
        }
        if ch.intermediate_certs() != &inter[..kept] {
            return Err(format!("{} intermediates instead of {kept}", ch.intermediate_certs().len()));
        }
    }
    if kept < inter.len() {
        o.class("deeper than configured");
    }
    let reference = codec::Chain { root_hash: root.clone(), inter: inter[..kept].to_vec(), leaf: leaf.clone() };
    let want = codec::chain_bytes(&reference);
    let size = if c.room == i32::MAX { want.len() + 100 } else { (want.len() as i64 + c.room as i64).max(0) as usize };
    let mut buf = vec![0xEE; size + 16];
    let r = lib!(ch.write(&mut Writer::new(&mut buf[..size])));
    if buf[size..].iter().any(|x| *x != 0xEE) {
        return Err("wrote outside the buffer".into());
    }
    let ok = want.len() <= 65535 && want.len() <= size;
    match r {
        Ok(n) if ok => {
            if n != want.len() || buf[..n] != want[..] {
                return Err(format!("{n} bytes, {} instead of {}", short(&buf[..n.min(size)]), short(&want)));
            }
            let p = lib!(CertificateChain::parse(&buf[..n], glue::dsize(root.len()))).map_err(|e| format!("a chain of {n} bytes is refused: {e:?}"))?;
            if p != ch || p.root_hash != root || p.leaf_cert != leaf || p.intermediate_certs() != &inter[..kept] {
                return Err("reads back differently".into());
            }
            // a chain differing in one place is a different chain
            let mut parts = vec![root.clone()];
            parts.extend(inter[..kept].iter().cloned());
            parts.push(leaf.clone());
            let same = |p: &[Vec<u8>]| {
                let mut d = lib!(CertificateChain::new(&p[0], &p[p.len() - 1]));
                for x in &p[1..p.len() - 1] {
                    let _ = lib!(d.append_intermediate_cert(x));
                }
                lib!(d == ch && ch == d)
            };
            if !same(&parts) {
                return Err("the same chain compares different".into());
            }
            for i in 0..parts.len() {
                let n = parts[i].len();
                for at in [0, n / 2, n - 1] {
                    parts[i][at] ^= 1 << (at % 8);
                    if same(&parts) {
                        return Err(format!("a chain with byte {at} of part {i} changed compares equal"));
                    }
                    parts[i][at] ^= 1 << (at % 8);
                }
                let x = parts[i].pop().unwrap();
                if same(&parts) {
                    return Err(format!("a chain with part {i} cut short compares equal"));
                }
                parts[i].push(x);
                if i > 0 && i + 1 < parts.len() {
                    let x = parts.remove(i);
                    if same(&parts) {
                        return Err(format!("a chain without part {i} compares equal"));
                    }
                    parts.insert(i, x);
                }
            }
            o.nontrivial();
            o.class(format!("{kept} intermediates"));
        }
        Err(_) if !ok => o.class(if want.len() > 65535 { "too long to be said" } else { "no room" }),
        r => return Err(format!("a chain of {} bytes into {size}: {r:?}", want.len())),
    }
    Ok(())
}

/// Every way a length can be written, with the data it speaks of or not.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Header {
    b1: u8,
    b2: u8,
    b3: u8,
    /// the data's length relative to the one written
    by: i8,
    /// a further certificate follows
    more: bool,
}
fn header(c: &Header, o: &mut Obs) -> Check {
    let mut h = vec![0x30, c.b1];
    let n = match c.b1 {
        0..=0x7f => c.b1 as usize,
        0x81 => {
            h.push(c.b2);
            c.b2 as usize
        }
        0x82 => {
            h.extend([c.b2, c.b3]);
            (c.b2 as usize) << 8 | c.b3 as usize
        }
        // forms not understood: give them plausible bytes
        0x80 => 2,
        f => {
            let k = (f & 0x7f).min(4) as usize;
            h.extend(vec![0; k.saturating_sub(2)]);
            h.extend([c.b2, c.b3]);
            (c.b2 as usize) << 8 | c.b3 as usize
        }
    };
    let n = (n as i64 + c.by as i64).max(0) as usize;
    if n > 65000 {
        o.class("too large (skipped)");
        return Ok(());
    }
    let mut b = vec![0u8; 36];
    b.extend(&h);
    b.extend(vec![0x30; n]);
    if c.more {
        b.extend([0x30, 2, 5, 0]);
    }
    let t = b.len() as u16;
    b[..2].copy_from_slice(&t.to_le_bytes());
    o.nontrivial();
    judge_chain(&b, 32, o)
}

pub fn c21() -> Vec<Part> {
    fn len() -> BoxedStrategy<u16> {
        prop_oneof![
            6 => 0u16..300,
            2 => prop::sample::select(vec![0u16, 1, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258]),
            1 => 250u16..3000,
        ]
        .boxed()
    }
    fn blk() -> BoxedStrategy<Blk> {
        (
            prop_oneof![120 => Just(0x30u8), 1 => any::<u8>(), 1 => Just(0x31)],
            prop_oneof![60 => Just(0u8), 4 => 1u8..8, 1 => any::<u8>()],
            len(),
            prop_oneof![60 => Just(0i8), 2 => -3i8..4, 1 => any::<i8>()],
            any::<u8>(),
        )
            .prop_map(|(tag, form, len, by, fill)| Blk { tag, form, len, by, fill })
            .boxed()
    }
    vec![
        sweep(
            "headers",
            "every first length byte, every second one and many thirds, with exactly, nearly or hardly the data they announce",
            |t| 256 * 256 * if t == Tier::Quick { 3 } else { 20 },
            |i| {
                let (b1, b2, v) = (i % 256, i / 256 % 256, i / 65536);
                // mostly the forms that exist
                let b1 = if i / 256 % 3 > 0 { [0x81, 0x82, 0x82, 0x7f][b1 % 4] } else { b1 };
                let x = (i as u32).wrapping_mul(0x9E37_79B9);
                let b3 = [0, 255, 1, (x >> 24) as u8, (x >> 16) as u8][(x >> 8) as usize % 5];
                // long data only now and then
                let b2 = if b1 >= 0x82 && x & 15 > 0 { b2 % 4 } else { b2 };
                Header { b1: b1 as u8, b2: b2 as u8, b3, by: [0, 0, -1, 1][(v + (x >> 5) as usize) % 4], more: x & 16 > 0 }
            },
            header,
        ),
        prop(
            "built",
            "a chain of random certificates was built, written, compared with the layout and read back",
            (40000, 400000),
            || {
                let inter = vec(len(), 0..=cfg().depth + 2);
                let long = prop_oneof![5 => Just(0u16), 1 => 0u16..60000];
                let room = prop_oneof![4 => Just(i32::MAX), 2 => Just(0), 2 => -5i32..3, 1 => -400i32..1];
                (any::<u8>(), inter, len(), long, any::<u8>(), room).prop_map(|(digest, mut inter, mut leaf, long, at, room)| {
                    if long > 0 {
                        match inter.len() {
                            0 => leaf = long,
                            n => inter[at as usize % n] = long,
                        }
                    }
                    Built { digest, inter, leaf, room }
                })
            },
            built,
        ),
        sweep(
            "longest",
            "chains around the longest length that can be written",
            |_| 64 * 3,
            |i| {
                let (d, by) = (i % 3, i / 3);
                let ds = gen::digest_sizes();
                // 4 + root + 4 + leaf
                Built { digest: d as u8, inter: vec![], leaf: (65535 - 32 - 8 - ds[d % ds.len()] + by) as u16, room: i32::MAX }
            },
            built,
        ),
        prop(
            "raw",
            "any chain, right or wrong: split exactly as the reference does, or refused",
            (150000, 2_000_000),
            || {
                let wrong = || prop_oneof![12 => Just(0i16), 1 => -4i16..5, 1 => any::<i16>()];
                (
                    any::<u8>(),
                    prop_oneof![2 => vec(blk(), 0..=cfg().depth + 3), 1 => vec(blk(), cfg().depth..=cfg().depth + 2)],
                    wrong(),
                    prop_oneof![12 => Just(0u16), 1 => any::<u16>(), 1 => (0u16..16).prop_map(|x| 1 << x)],
                    prop_oneof![8 => Just(0u8), 1 => any::<u8>(), 1 => 0u8..8],
                    any::<bool>(),
                )
                    .prop_map(|(digest, blocks, total, reserved, cut, follow)| Raw { digest, blocks, total, reserved, cut, follow })
            },
            raw_chain,
        ),
        prop(
            "mutated",
            "a properly built chain, mutated: split exactly as the reference does, or refused",
            (10000, 100000),
            || (crate::c04::chain_bytes(), any::<u8>()),
            |c: &(Vec<u8>, u8), o: &mut Obs| {
                let ds = gen::digest_sizes();
                o.nontrivial();
                judge_chain(&c.0, ds[c.1 as usize % ds.len()], o)
            },
        ),
    ]
}

// ------------------------------------------------------------- C22 and C23

#[cfg(feature = "crypto")]
mod crypto {
    use super::*;
    use crate::world::key;
    use spdm::crypto::pki::{bin_to_der, max_encoded_size, EndEntityCert};
    use spdm::crypto::ring::pki::new_end_entity_cert;
    use spdm::crypto::ring::signing::new_signer;
    use spdm::crypto::{Digests, ProvidedDigests, Signer};
    use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
    use std::convert::TryFrom;
    use vcommon::der::{self, Curve, Key, Spec};
    use vcommon::hash;

    /// The number `b`, as DER writes it.
    fn integer(b: &[u8]) -> Vec<u8> {
        let mut v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
        if v.first().map_or(true, |x| x & 0x80 != 0) {
            v.insert(0, 0);
        }
        tlv(2, &v)
    }
    pub fn der_sig(raw: &[u8]) -> Vec<u8> {
        let (r, s) = raw.split_at(raw.len() / 2);
        tlv(0x30, &[integer(r), integer(s)].concat())
    }

    /// One half of a signature: so many zeros, then this, then that repeated.
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Half {
        zeros: u8,
        first: u8,
        fill: Vec<u8>,
    }
    impl Half {
        fn get(&self, n: usize) -> Vec<u8> {
            (0..n)
                .map(|i| {
                    let z = self.zeros as usize;
                    if i < z {
                        0
                    } else if i == z {
                        self.first
                    } else if self.fill.is_empty() {
                        0
                    } else {
                        self.fill[i % self.fill.len()]
                    }
                })
                .collect()
        }
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Conv {
        half: u16,
        r: Half,
        s: Half,
    }
    pub fn convert(c: &Conv, o: &mut Obs) -> Check {
        let n = c.half as usize;
        let raw = [c.r.get(n), c.s.get(n)].concat();
        let want = der_sig(&raw);
        if raw.len() <= 64 && want.len() > max_encoded_size() {
            return Err(format!("{} bytes, but at most {} are advertised", want.len(), max_encoded_size()));
        }
        // the room the library itself gives, and exactly what is needed
        for room in [want.len(), want.len().max(max_encoded_size())] {
            let mut out = vec![0xEE; room];
            let k = guarded(|| lib!(bin_to_der(&raw, &mut out))).map_err(|e| format!("{}: {e}", short(&raw)))?;
            if k != want.len() || out[..k] != want[..] {
                return Err(format!("{} becomes {} instead of {}", short(&raw), short(&out[..k.min(room)]), short(&want)));
            }
            if out[k..].iter().any(|x| *x != 0xEE) {
                return Err("wrote more than it says".into());
            }
        }
        if c.r.zeros > 0 || c.s.zeros > 0 || (c.r.first | c.s.first) & 0x80 != 0 {
            o.nontrivial();
        }
        o.class(format!("{} bytes each, {} in all", match n { 32 => "32", 48 | 64 | 66 => "48, 64 or 66", 0..=31 => "up to 31", _ => "33 to 300" }, match want.len().wrapping_sub(raw.len()) {
            0..=6 => "as many or up to 6 more",
            7..=99 => "more",
            _ => "fewer",
        }));
        Ok(())
    }

    const N: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84,
        0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
    ];
    const P: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
        0xff, 0xff,
    ];
    fn sub(a: &[u8; 32], b: &[u8]) -> [u8; 32] {
        let mut o = [0; 32];
        let mut c = 0i32;
        for i in (0..32).rev() {
            let d = a[i] as i32 - b[i] as i32 - c;
            o[i] = d as u8;
            c = (d < 0) as i32;
        }
        o
    }
    fn add1(a: &[u8; 32]) -> [u8; 32] {
        let mut o = *a;
        for x in o.iter_mut().rev() {
            *x = x.wrapping_add(1);
            if *x != 0 {
                break;
            }
        }
        o
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub enum Edge {
        Zero,
        One,
        N,
        NMinus1,
        NPlus1,
        P,
        Max,
        Small(u8),
        Keep,
        /// the same modulo n
        Neg,
        PlusN,
    }
    impl Edge {
        fn apply(&self, v: &mut [u8]) {
            let x: [u8; 32] = match self {
                Edge::Keep => return,
                Edge::Zero => [0; 32],
                Edge::One => {
                    let mut a = [0; 32];
                    a[31] = 1;
                    a
                }
                Edge::N => N,
                Edge::NMinus1 => {
                    let mut a = [0; 32];
                    a[31] = 1;
                    sub(&N, &a)
                }
                Edge::NPlus1 => add1(&N),
                Edge::P => P,
                Edge::Max => [0xff; 32],
                Edge::Small(b) => {
                    let mut a = [0; 32];
                    a[31] = *b;
                    a
                }
                Edge::Neg => sub(&N, v),
                // usually does not fit, and then is something else
                Edge::PlusN => sub(&sub(v.try_into().as_ref().unwrap(), &[0; 32]), &sub(&[0; 32], &N)),
            };
            v.copy_from_slice(&x);
        }
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Forge {
        None,
        Bit(u16),
        Msg(u16),
        MsgLonger,
        MsgShorter,
        OtherKey(u8),
        Swap,
        Halves(Edge, Edge),
        Random(Vec<u8>),
        /// a DER signature put where the raw one belongs
        Der,
        Rev,
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Sig {
        key: u8,
        msg: gen::Fill,
        salt: u8,
        forge: Forge,
        /// signed by the library's own signer
        own: bool,
    }
    fn leaf(k: u8) -> Vec<u8> {
        use std::collections::HashMap;
        use std::sync::{Mutex, OnceLock};
        static C: OnceLock<Mutex<HashMap<u8, Vec<u8>>>> = OnceLock::new();
        C.get_or_init(Default::default)
            .lock()
            .unwrap()
            .entry(k)
            .or_insert_with(|| der::cert(&Spec::new("L", "R", false), &key(k), &key(1)))
            .clone()
    }
    pub fn verify(c: &Sig, o: &mut Obs) -> Check {
        let k = key(1 + c.key % 100);
        let mut msg = c.msg.get();
        let cert = leaf(1 + c.key % 100);
        let mut sig = if c.own {
            let s = lib!(new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, k.pkcs8())).map_err(|_| "a good key is refused")?;
            lib!(s.sign(&msg)).map_err(|_| "signing failed")?.as_ref().to_vec()
        } else {
            k.sign_raw(&msg, c.salt).as_ref().to_vec()
        };
        if sig.len() != 64 {
            return Err(format!("a signature of {} bytes", sig.len()));
        }
        match &c.forge {
            Forge::None => {}
            Forge::Bit(i) => sig[*i as usize / 8 % 64] ^= 1 << (i % 8),
            Forge::Msg(i) => {
                if msg.is_empty() {
                    msg.push(0)
                } else {
                    let n = msg.len();
                    msg[*i as usize / 8 % n] ^= 1 << (i % 8)
                }
            }
            Forge::MsgLonger => msg.push(0),
            Forge::MsgShorter => {
                msg.pop();
            }
            Forge::OtherKey(x) => sig = key(1 + x % 100).sign_raw(&msg, c.salt).as_ref().to_vec(),
            Forge::Swap => sig.rotate_left(32),
            Forge::Halves(r, s) => {
                r.apply(&mut sig[..32]);
                s.apply(&mut sig[32..])
            }
            Forge::Random(v) => {
                for (a, b) in sig.iter_mut().zip(v.iter().cycle()) {
                    *a = *b
                }
            }
            Forge::Der => sig = der_sig(&sig)[..64].to_vec(),
            Forge::Rev => {
                sig[..32].reverse();
                sig[32..].reverse()
            }
        }
        let want = crate::world::verify_raw(k.public(), &msg, &sig);
        // the same question asked in DER
        let want_der = ring::signature::UnparsedPublicKey::new(&ring::signature::ECDSA_P256_SHA256_ASN1, k.public())
            .verify(&msg, &der_sig(&sig))
            .is_ok();
        if want != want_der {
            return Err(format!("the oracles disagree on {}", short(&sig)));
        }
        let got = guarded(|| {
            let e = lib!(new_end_entity_cert(&cert)).map_err(|e| format!("a good certificate: {e:?}"))?;
            Ok::<bool, String>(lib!(e.verify_signature(BaseAsymAlgo::ECDSA_ECC_NIST_P256, &msg, &sig)))
        })
        .map_err(|e| format!("verifying {}: {e}", short(&sig)))??;
        if got != want {
            return Err(format!("{:?}: {} over {} bytes is {}, but verified as {got}", c.forge, short(&sig), msg.len(), want));
        }
        if !want || sig[0] == 0 || sig[32] == 0 {
            o.nontrivial();
        }
        if want && (sig[0] == 0 || sig[32] == 0) {
            o.class("genuine, with leading zeros");
        }
        o.class(format!("{}: {want}", format!("{:?}", c.forge).split('(').next().unwrap()));
        Ok(())
    }

    /// Private keys and their use.
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Pk {
        p384: bool,
        key: u8,
        muts: Vec<gen::Mut>,
        msg: gen::Fill,
    }
    pub fn signer(c: &Pk, o: &mut Obs) -> Check {
        let curve = if c.p384 { Curve::P384 } else { Curve::P256 };
        let k = if c.p384 { Key::new(curve, 1 + c.key % 100) } else { Key::new(curve, 1 + c.key % 100) };
        let pkcs8 = gen::apply_all(k.pkcs8(), &c.muts);
        let algos = [
            (BaseAsymAlgo::ECDSA_ECC_NIST_P256, &ring::signature::ECDSA_P256_SHA256_FIXED_SIGNING, &ring::signature::ECDSA_P256_SHA256_FIXED, 64),
            (BaseAsymAlgo::ECDSA_ECC_NIST_P384, &ring::signature::ECDSA_P384_SHA384_FIXED_SIGNING, &ring::signature::ECDSA_P384_SHA384_FIXED, 96),
        ];
        for (algo, ralg, valg, len) in algos {
            let want = ring::signature::EcdsaKeyPair::from_pkcs8(ralg, &pkcs8);
            let got = guarded(|| lib!(new_signer(algo, &pkcs8))).map_err(|e| format!("a key of {} bytes: {e}", pkcs8.len()))?;
            match (want, got) {
                (Ok(w), Ok(g)) => {
                    use ring::signature::KeyPair;
                    let msg = c.msg.get();
                    let s = lib!(g.sign(&msg)).map_err(|_| "signing failed")?;
                    let s = s.as_ref();
                    if s.len() != len {
                        return Err(format!("a signature of {} bytes", s.len()));
                    }
                    if ring::signature::UnparsedPublicKey::new(valg, w.public_key().as_ref()).verify(&msg, s).is_err() {
                        return Err(format!("signed {} bytes wrongly", msg.len()));
                    }
                    o.class(format!("signed with {len} bytes"));
                }
                (Err(_), Err(_)) => o.class("refused"),
                (w, g) => return Err(format!("a key of {} bytes: accepted {}, should be {}", pkcs8.len(), g.is_ok(), w.is_ok())),
            }
        }
        o.nontrivial();
        Ok(())
    }

    pub fn c22() -> Vec<Part> {
        fn half() -> BoxedStrategy<Half> {
            (
                prop_oneof![5 => Just(0u8), 3 => 0u8..4, 2 => 28u8..34, 1 => any::<u8>()],
                prop_oneof![1 => Just(0u8), 1 => Just(1), 2 => Just(0x7f), 2 => Just(0x80), 1 => Just(0xff), 3 => any::<u8>()],
                prop_oneof![1 => Just(vec![0u8]), 1 => Just(vec![0xff]), 3 => vec(any::<u8>(), 1..9)],
            )
                .prop_map(|(zeros, first, fill)| Half { zeros, first, fill })
                .boxed()
        }
        fn edge() -> BoxedStrategy<Edge> {
            prop_oneof![
                1 => Just(Edge::Zero), 1 => Just(Edge::One), 1 => Just(Edge::N), 1 => Just(Edge::NMinus1), 1 => Just(Edge::NPlus1),
                1 => Just(Edge::P), 1 => Just(Edge::Max), 1 => any::<u8>().prop_map(Edge::Small), 3 => Just(Edge::Keep),
                2 => Just(Edge::Neg), 1 => Just(Edge::PlusN)
            ]
            .boxed()
        }
        fn forge() -> BoxedStrategy<Forge> {
            prop_oneof![
                6 => Just(Forge::None),
                4 => any::<u16>().prop_map(Forge::Bit),
                2 => any::<u16>().prop_map(Forge::Msg),
                1 => Just(Forge::MsgLonger),
                1 => Just(Forge::MsgShorter),
                2 => any::<u8>().prop_map(Forge::OtherKey),
                1 => Just(Forge::Swap),
                6 => (edge(), edge()).prop_map(|(a, b)| Forge::Halves(a, b)),
                1 => vec(any::<u8>(), 1..64).prop_map(Forge::Random),
                1 => Just(Forge::Der),
                1 => Just(Forge::Rev),
            ]
            .boxed()
        }
        let msg = || (prop_oneof![4 => 0u32..80, 2 => Just(32u32), 1 => 0u32..3000], any::<u8>()).prop_map(|(len, seed)| gen::Fill { len, seed });
        vec![
            sweep(
                "leading",
                "both integers with every number of leading zeros and every class of first byte after them",
                |_| 33 * 33 * 8 * 8,
                |i| {
                    let f = [0u8, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x40];
                    let h = |z: usize, k: usize| Half { zeros: z as u8, first: f[k], fill: vec![[0, 0x80, 0xff][z % 3]] };
                    Conv { half: 32, r: h(i % 33, i / 1089 % 8), s: h(i / 33 % 33, i / 1089 / 8) }
                },
                convert,
            ),
            prop(
                "conversion",
                "an integer with leading zeros or its high bit set",
                (200000, 2_000_000),
                || {
                    (
                        prop_oneof![6 => Just(32u16), 1 => Just(48), 1 => Just(66), 1 => Just(64), 1 => 1u16..33, 1 => 33u16..300],
                        half(),
                        half(),
                    )
                        .prop_map(|(half, r, s)| Conv { half, r, s })
                },
                convert,
            ),
            prop(
                "verification",
                "not a genuine signature, or one with leading zeros",
                (60000, 600000),
                move || {
                    (any::<u8>(), msg(), 1u8.., forge(), prop_oneof![5 => Just(false), 1 => Just(true)])
                        .prop_map(|(key, msg, salt, forge, own)| Sig { key, msg, salt, forge, own })
                },
                verify,
            ),
            prop(
                "signers",
                "a private key, good or damaged, of either curve, offered for both algorithms",
                (6000, 60000),
                move || {
                    (any::<bool>(), 0u8..12, prop_oneof![1 => Just(vec![]), 1 => gen::mutations(2)], msg())
                        .prop_map(|(p384, key, muts, msg)| Pk { p384, key, muts, msg })
                },
                signer,
            ),
        ]
    }

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Dig {
        algo: u8,
        data: gen::Fill,
        cuts: Vec<u16>,
    }
    const HASHES: [(u32, BaseHashAlgo, usize); 3] =
        [(1, BaseHashAlgo::SHA_256, 32), (2, BaseHashAlgo::SHA_384, 48), (4, BaseHashAlgo::SHA_512, 64)];
    pub fn digest(c: &Dig, o: &mut Obs) -> Check {
        let (n, algo, size) = HASHES[c.algo as usize % 3];
        let data = c.data.get();
        let want = hash::sha(n, &data);
        let whole = lib!(ProvidedDigests::digest(algo, &data));
        let ctx = |how: &str, got: &[u8]| Err(format!("{algo:?} of {} bytes {how}: {} instead of {}", data.len(), short(got), short(&want)));
        if whole.as_ref() != want {
            return ctx("at once", whole.as_ref());
        }
        if whole.as_ref().len() != size || usize::from(algo.get_digest_size()) != size {
            return Err(format!("{algo:?} yields {} bytes and says {:?}", whole.as_ref().len(), algo.get_digest_size()));
        }
        let mut cuts: Vec<usize> = c.cuts.iter().map(|x| *x as usize % (data.len() + 1)).collect();
        cuts.sort();
        cuts.push(data.len());
        let mut d = lib!(ProvidedDigests::try_from(algo)).map_err(|_| format!("{algo:?} is refused"))?;
        let mut at = 0;
        for x in &cuts {
            lib!(d.update(&data[at..*x]));
            at = *x;
        }
        let parts = lib!(d.finalize());
        if parts.as_ref() != want {
            return ctx(&format!("cut at {cuts:?}"), parts.as_ref());
        }
        if cuts.len() > 1 {
            o.nontrivial();
        }
        o.class(format!("{algo:?} in {} parts", cuts.len().min(4)));
        Ok(())
    }
    pub fn refused(bits: &u32, o: &mut Obs) -> Check {
        let Some(a) = BaseHashAlgo::from_bits(*bits) else {
            o.class("not a set of algorithms");
            return Ok(());
        };
        let ok = HASHES.iter().any(|(n, _, _)| n == bits);
        let r = lib!(ProvidedDigests::try_from(a)).is_ok();
        if r != ok {
            return Err(format!("{a:?} is {}", if r { "accepted" } else { "refused" }));
        }
        let s = ProvidedDigests::supported_algorithms().bits();
        if s != 7 {
            return Err(format!("supported algorithms {s:#x}"));
        }
        // asked for a digest all the same, it must not make one up
        if !ok {
            let d = guarded(|| lib!(ProvidedDigests::digest(a, b"x")).as_ref().to_vec());
            if let Ok(d) = d {
                return Err(format!("{a:?} yields {}", short(&d)));
            }
        }
        o.nontrivial();
        o.class(if ok { "supported" } else { "refused" });
        Ok(())
    }
    pub fn c23() -> Vec<Part> {
        fn len() -> BoxedStrategy<u32> {
            prop_oneof![
                4 => 0u32..300,
                3 => (0u32..12, -2i32..3).prop_map(|(k, d)| (k as i32 * 64 + d).max(0) as u32),
                2 => (0u32..12, -2i32..3).prop_map(|(k, d)| (k as i32 * 128 - 17 + d).max(0) as u32),
                1 => 0u32..70000,
            ]
            .boxed()
        }
        vec![
            prop(
                "digests",
                "the data was also fed in more than one part",
                (150000, 1_500_000),
                || {
                    (any::<u8>(), (len(), any::<u8>()).prop_map(|(len, seed)| gen::Fill { len, seed }), vec(any::<u16>(), 0..6))
                        .prop_map(|(algo, data, cuts)| Dig { algo, data, cuts })
                },
                digest,
            ),
            sweep(
                "lengths",
                "every length up to two blocks and beyond, cut in two at many places",
                |t| if t == Tier::Quick { 3 * 300 * 8 } else { 3 * 1200 * 40 },
                |i| {
                    let (a, n, k) = (i % 3, i / 3 % 300, i / 900);
                    Dig { algo: a as u8, data: gen::Fill { len: n as u32, seed: i as u8 }, cuts: vec![(k * 37) as u16] }
                },
                digest,
            ),
            sweep("unsupported", "every set of hash algorithms", |_| 256, |i| i as u32, refused),
        ]
    }
}
#[cfg(feature = "crypto")]
pub use crypto::{c22, c23};
#[cfg(not(feature = "crypto"))]
pub fn c22() -> Vec<Part> {
    vec![]
}
#[cfg(not(feature = "crypto"))]
pub fn c23() -> Vec<Part> {
    let _ = CRYPTO;
    vec![]
}
