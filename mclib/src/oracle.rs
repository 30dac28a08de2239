//! An independent reading/writing of the Wii disc format, used as the oracle.
//! Nothing here uses code of the repository under test.

use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, BlockEncryptMut, KeyIvInit};
use sha1::{Digest, Sha1};
use std::sync::OnceLock;

/// 32 KiB block, data part of a block, 64 blocks = one group
pub const BS: usize = 0x8000;
pub const BD: usize = 0x7C00;
pub const GS: usize = 0x20_0000;
pub const GD: usize = 0x1F_0000;
pub const H3_SIZE: usize = 0x18000;

const COMMON: [[u8; 16]; 2] = [
    [
        0xeb, 0xe4, 0x2a, 0x22, 0x5e, 0x85, 0x93, 0xe4, 0x48, 0xd9, 0xc5, 0x45, 0x73, 0x81, 0xaa,
        0xf7,
    ],
    [
        0x63, 0xb8, 0x2b, 0xb4, 0xf4, 0x61, 0x4e, 0x2e, 0x13, 0xf2, 0xfe, 0xfb, 0xba, 0x4c, 0x9b,
        0x7e,
    ],
];

pub fn be32(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
pub fn be64(b: &[u8], o: usize) -> u64 {
    ((be32(b, o) as u64) << 32) | be32(b, o + 4) as u64
}
pub fn put32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}

pub fn cbc_enc(key: &[u8; 16], iv: &[u8; 16], buf: &mut [u8]) {
    let n = buf.len();
    cbc::Encryptor::<aes::Aes128>::new(key.into(), iv.into())
        .encrypt_padded_mut::<NoPadding>(buf, n)
        .expect("block sized");
}
pub fn cbc_dec(key: &[u8; 16], iv: &[u8; 16], buf: &mut [u8]) {
    cbc::Decryptor::<aes::Aes128>::new(key.into(), iv.into())
        .decrypt_padded_mut::<NoPadding>(buf)
        .expect("block sized");
}
pub fn sha1(b: &[u8]) -> [u8; 20] {
    let mut o = [0; 20];
    o.copy_from_slice(&Sha1::digest(b));
    o
}

/// Encrypts one group of plaintext (GD bytes); returns the hash for the global table.
pub fn encode_group(plain: &[u8], key: &[u8; 16], out: &mut Vec<u8>) -> [u8; 20] {
    assert_eq!(plain.len(), GD);
    let start = out.len();
    out.resize(start + GS, 0);
    let enc = &mut out[start..];
    let mut h1s = vec![[0u8; 20]; 64];
    let mut h0s: Vec<Vec<u8>> = Vec::with_capacity(64);
    for b in 0..64 {
        let d = &plain[b * BD..(b + 1) * BD];
        let mut h0 = Vec::with_capacity(620);
        for c in d.chunks(0x400) {
            h0.extend_from_slice(&sha1(c));
        }
        h1s[b] = sha1(&h0);
        h0s.push(h0);
    }
    let mut h2 = Vec::new();
    for s in 0..8 {
        h2.extend_from_slice(&sha1(&h1s[s * 8..s * 8 + 8].concat()));
    }
    let h3 = sha1(&h2);
    for b in 0..64 {
        let blk = &mut enc[b * BS..(b + 1) * BS];
        blk[..620].copy_from_slice(&h0s[b]);
        blk[0x280..0x280 + 160].copy_from_slice(&h1s[b / 8 * 8..b / 8 * 8 + 8].concat());
        blk[0x340..0x340 + 160].copy_from_slice(&h2);
        cbc_enc(key, &[0; 16], &mut blk[..0x400]);
        let mut iv = [0; 16];
        iv.copy_from_slice(&blk[0x3D0..0x3E0]);
        blk[0x400..].copy_from_slice(&plain[b * BD..(b + 1) * BD]);
        cbc_enc(key, &iv, &mut blk[0x400..]);
    }
    h3
}

/// Decrypts one group and checks every hash and all hash padding.
pub fn decode_group(enc: &[u8], key: &[u8; 16], out: &mut Vec<u8>) -> Result<[u8; 20], String> {
    assert_eq!(enc.len(), GS);
    let mut hashes = vec![[0u8; 0x400]; 64];
    let mut h1s = vec![[0u8; 20]; 64];
    let start = out.len();
    out.reserve(GD);
    for b in 0..64 {
        let blk = &enc[b * BS..(b + 1) * BS];
        hashes[b].copy_from_slice(&blk[..0x400]);
        let mut iv = [0; 16];
        iv.copy_from_slice(&blk[0x3D0..0x3E0]);
        cbc_dec(key, &[0; 16], &mut hashes[b]);
        let p = out.len();
        out.extend_from_slice(&blk[0x400..]);
        cbc_dec(key, &iv, &mut out[p..]);
        let h = &hashes[b];
        for (j, c) in out[p..].chunks(0x400).enumerate() {
            if h[j * 20..j * 20 + 20] != sha1(c) {
                return Err(format!("H0 hash {j} of block {b} is wrong"));
            }
        }
        if h[620..0x280].iter().any(|x| *x != 0)
            || h[0x320..0x340].iter().any(|x| *x != 0)
            || h[0x3E0..0x400].iter().any(|x| *x != 0)
        {
            return Err(format!("hash padding of block {b} is not zero"));
        }
        h1s[b] = sha1(&h[..620]);
    }
    let mut h2 = Vec::new();
    for s in 0..8 {
        let h1 = h1s[s * 8..s * 8 + 8].concat();
        h2.extend_from_slice(&sha1(&h1));
        for b in s * 8..s * 8 + 8 {
            if hashes[b][0x280..0x320] != h1[..] {
                return Err(format!("H1 table of block {b} is wrong"));
            }
        }
    }
    for (b, h) in hashes.iter().enumerate() {
        if h[0x340..0x3E0] != h2[..] {
            return Err(format!("H2 table of block {b} is wrong"));
        }
    }
    debug_assert_eq!(out.len(), start + GD);
    Ok(sha1(&h2))
}

/// Decrypts without checking hashes.
pub fn decrypt_group(enc: &[u8], key: &[u8; 16], out: &mut Vec<u8>) {
    for b in 0..64 {
        let blk = &enc[b * BS..(b + 1) * BS];
        let mut iv = [0; 16];
        iv.copy_from_slice(&blk[0x3D0..0x3E0]);
        let p = out.len();
        out.extend_from_slice(&blk[0x400..]);
        cbc_dec(key, &iv, &mut out[p..]);
    }
}

// ------------------------------------------------------------------ templates

/// A long fixed pseudo-random buffer; file contents are slices of it.
pub fn pattern() -> &'static [u8] {
    static P: OnceLock<Vec<u8>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::with_capacity(56 << 20);
        let mut x = 0x0123_4567_89AB_CDEFu64;
        while v.len() < 56 << 20 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v.extend_from_slice(&x.wrapping_mul(0x2545_F491_4F6C_DD1D).to_le_bytes());
        }
        v
    })
}
/// Contents that are not random: numbers for `content`.
pub const ZERO: usize = 1 << 40;
pub const ONES: usize = ZERO + 1;
/// Ends in zeros.
pub const TAIL0: usize = ZERO + 2;
/// Begins with zeros.
pub const LEAD0: usize = ZERO + 3;
/// 3 MiB of data and 5 MiB of zeros in turn.
pub const MIXED: usize = ZERO + 4;
/// A one byte followed by zeros, repeated every 0x400 bytes.
pub const SPARSE: usize = ZERO + 5;
fn special(i: usize, n: usize) -> &'static [u8] {
    const M: usize = 40 << 20;
    static Z: OnceLock<[Vec<u8>; 4]> = OnceLock::new();
    let z = Z.get_or_init(|| {
        let r = &pattern()[..M];
        let mut a = vec![0; M];
        a.extend_from_slice(r);
        a.resize(3 * M, 0);
        let mut m = r.to_vec();
        for (i, b) in m.iter_mut().enumerate() {
            if i % (8 << 20) >= 3 << 20 {
                *b = 0;
            }
        }
        let s = (0..M).map(|i| (i % 0x400 == 0) as u8).collect();
        [a, vec![0xFF; M], m, s]
    });
    match i {
        ZERO => &z[0][..n],
        ONES => &z[1][..n],
        TAIL0 => &z[0][2 * M - n / 2..2 * M - n / 2 + n],
        LEAD0 => &z[0][M - n / 2..M - n / 2 + n],
        MIXED => &z[2][..n],
        _ => &z[3][..n],
    }
}
/// Content number `i` of length `n`.
pub fn content(i: usize, n: usize) -> &'static [u8] {
    if i >= ZERO {
        return special(i, n);
    }
    let p = pattern();
    let o = (i * 100_003 + 17) % (1 << 20);
    &p[o..o + n]
}

pub fn encrypt_title_key(key: &[u8; 16], idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
    let mut iv = [0; 16];
    iv[..8].copy_from_slice(title_id);
    let mut k = *key;
    cbc_enc(&COMMON[idx as usize], &iv, &mut k);
    k
}
pub fn decrypt_title_key(key: &[u8; 16], idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
    let mut iv = [0; 16];
    iv[..8].copy_from_slice(title_id);
    let mut k = *key;
    cbc_dec(&COMMON[idx as usize], &iv, &mut k);
    k
}

fn fill(b: &mut [u8], o: usize, n: usize, seed: u8) {
    for i in 0..n {
        b[o + i] = seed.wrapping_add((i as u8).wrapping_mul(7)) | 1;
    }
}

pub const TICKET_SIZE: usize = 0x2A4;
pub fn ticket(key: &[u8; 16], idx: u8, title_id: &[u8; 8], seed: u8) -> Vec<u8> {
    let mut t = vec![0u8; TICKET_SIZE];
    put32(&mut t, 0, 0x10001);
    fill(&mut t, 4, 0x100, seed);
    fill(&mut t, 0x140, 0x40, seed.wrapping_add(3));
    fill(&mut t, 0x180, 0x3C, seed.wrapping_add(5));
    t[0x1BF..0x1CF].copy_from_slice(&encrypt_title_key(key, idx, title_id));
    fill(&mut t, 0x1D0, 8, seed.wrapping_add(9));
    fill(&mut t, 0x1D8, 4, seed.wrapping_add(11));
    t[0x1DC..0x1E4].copy_from_slice(title_id);
    fill(&mut t, 0x1E4, 12, seed.wrapping_add(13));
    t[0x1F0] = seed | 1;
    t[0x1F1] = idx;
    fill(&mut t, 0x222, 0x40, seed.wrapping_add(15));
    fill(&mut t, 0x262, 2, seed.wrapping_add(17));
    fill(&mut t, 0x264, 64, seed.wrapping_add(19));
    t
}

pub fn tmd(contents: usize, seed: u8) -> Vec<u8> {
    let mut t = vec![0u8; 0x1E4 + 36 * contents];
    put32(&mut t, 0, 0x10001);
    fill(&mut t, 4, 0x100, seed);
    fill(&mut t, 0x140, 0x40, seed.wrapping_add(3));
    fill(&mut t, 0x180, 3, seed.wrapping_add(5));
    fill(&mut t, 0x184, 0x16, seed.wrapping_add(7)); // ios, title id, title type, group id
    fill(&mut t, 0x19A, 56, seed.wrapping_add(9)); // fakesign padding
    fill(&mut t, 0x1D8, 6, seed.wrapping_add(11)); // access flags, title version
    t[0x1DE] = (contents >> 8) as u8;
    t[0x1DF] = contents as u8;
    fill(&mut t, 0x1E0, 2, seed.wrapping_add(13));
    for c in 0..contents {
        fill(&mut t, 0x1E4 + 36 * c, 36, seed.wrapping_add(15u8.wrapping_add(c as u8)));
    }
    t
}

/// (signature type, signature length), (key type, key length)
pub const SIGS: [(u32, usize); 3] = [(0x10000, 512), (0x10001, 256), (0x10002, 64)];
pub const KEYS: [(u32, usize); 2] = [(0, 512), (1, 256)];
pub fn cert(sig: usize, key: usize, seed: u8) -> Vec<u8> {
    let (st, sl) = SIGS[sig];
    let (kt, kl) = KEYS[key];
    let mut t = vec![0u8; 4 + sl + 60 + 64 + 4 + 64 + kl + 4 + 4 + 52];
    put32(&mut t, 0, st);
    fill(&mut t, 4, sl, seed);
    let o = 4 + sl + 60;
    fill(&mut t, o, 64, seed.wrapping_add(3));
    put32(&mut t, o + 64, kt);
    fill(&mut t, o + 68, 64 + kl + 8, seed.wrapping_add(5));
    t
}
/// The usual chain: root-signed CA, then two 2048 bit certificates.
pub fn certs_default(seed: u8) -> Vec<u8> {
    let mut v = cert(0, 1, seed);
    v.extend(cert(1, 1, seed.wrapping_add(40)));
    v.extend(cert(1, 1, seed.wrapping_add(80)));
    v
}

pub const HDR_SIZE: usize = 0x440;
pub fn disc_header(title: &[u8], seed: u8) -> Vec<u8> {
    let mut h = vec![0u8; HDR_SIZE];
    fill(&mut h, 0, 10, seed | 0x40);
    put32(&mut h, 0x18, 0x5D1C_9EA3);
    put32(&mut h, 0x1C, 0xC233_9F3D);
    h[0x20..0x20 + title.len()].copy_from_slice(title);
    h[0x60] = seed | 1;
    h[0x61] = seed | 2;
    fill(&mut h, 0x400, 8, seed.wrapping_add(3));
    fill(&mut h, 0x420, 28, seed.wrapping_add(5)); // dol/fst/sizes/address/user
    h
}
pub fn region(seed: u8) -> [u8; 32] {
    let mut r = [0; 32];
    fill(&mut r, 0, 32, seed);
    r
}

/// A boot DOL of `size` bytes (>= 0x100) whose sections cover it exactly.
/// `sections` is a number of adjacent sections, or one of the layouts `DOLS`.
pub fn dol(size: usize, sections: usize, id: usize) -> Vec<u8> {
    assert!(size >= 0x100 && ((1..=18).contains(&sections) || DOLS.contains(&sections)));
    if sections > 18 {
        return dol_layout(size, sections, id);
    }
    let mut d = content(id, size).to_vec();
    for b in d[..0x100].iter_mut() {
        *b = 0;
    }
    let body = size - 0x100;
    let each = body / sections;
    let mut off = 0x100;
    for s in 0..sections {
        let sz = if s + 1 == sections { body - each * s } else { each };
        // text sections are 0..7, data sections 7..18; all use one table
        put32(&mut d, s * 4, off as u32);
        put32(&mut d, 0x48 + s * 4, 0x8000_0000u32.wrapping_add(off as u32));
        put32(&mut d, 0x90 + s * 4, sz as u32);
        off += sz;
    }
    put32(&mut d, 0xD8, 0x8040_0000);
    put32(&mut d, 0xDC, 0x1234);
    put32(&mut d, 0xE0, 0x8000_3100);
    d
}
/// Unusual but proper layouts of a DOL.
pub const DOLS: [usize; 8] = [21, 22, 23, 24, 25, 26, 27, 28];
fn dol_layout(size: usize, kind: usize, id: usize) -> Vec<u8> {
    let mut d = content(id, size).to_vec();
    d[..0x100].fill(0);
    let body = size - 0x100;
    let third = body / 3;
    // (section, offset, size), text sections are 0..7, data sections 7..18
    let s: Vec<(usize, usize, usize)> = match kind {
        // gaps after the header and between the sections
        21 => vec![(0, 0x100 + body / 8, body / 8), (1, 0x100 + third, third / 2), (8, 0x100 + 2 * third, body - 2 * third)],
        // no text section
        22 => vec![(7, 0x100, third), (9, 0x100 + third, body - third)],
        // stored in reverse order
        23 => vec![(0, 0x100 + 2 * third, body - 2 * third), (6, 0x100 + third, third), (17, 0x100, third)],
        // the first text section unused
        24 => vec![(1, 0x100, third), (2, 0x100 + third, third), (7, 0x100 + 2 * third, body - 2 * third)],
        // sections that share bytes
        25 => vec![(0, 0x100, body), (7, 0x100 + third, third), (8, 0x100, third)],
        // a section that includes the header
        27 => vec![(3, 0, size)],
        28 => vec![(0, 0x100, third), (12, 0x40, size - 0x40)],
        // one section at the very end
        _ => vec![(0, 0x100, body / 2), (10, size - body.min(1), body.min(1))],
    };
    if kind == 26 || kind == 21 {
        // unused sections may have an offset all the same
        for i in 0..18 {
            put32(&mut d, i * 4, 0xFFFF_FF00 - i as u32 * 0x100);
        }
    }
    for (i, off, sz) in s {
        put32(&mut d, i * 4, off as u32);
        put32(&mut d, 0x48 + i * 4, 0x8000_0000u32.wrapping_add(off as u32));
        put32(&mut d, 0x90 + i * 4, sz as u32);
    }
    put32(&mut d, 0xE0, 0x8000_3100);
    d
}
/// An apploader image: 32 byte header + size1 + size2.
pub fn apploader(size1: usize, size2: usize, id: usize) -> Vec<u8> {
    let mut d = content(id, 32 + size1 + size2).to_vec();
    d[..10].copy_from_slice(b"2009/08/27");
    put32(&mut d, 0x14, size1 as u32);
    put32(&mut d, 0x18, size2 as u32);
    d
}

// ------------------------------------------------------------------ file system table

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    File { name: Vec<u8>, off: u64, len: u32 },
    Dir { name: Vec<u8>, kids: Vec<Node> },
}
impl Node {
    pub fn name(&self) -> &[u8] {
        match self {
            Node::File { name, .. } | Node::Dir { name, .. } => name,
        }
    }
    pub fn count(v: &[Node]) -> usize {
        v.iter()
            .map(|n| match n {
                Node::File { .. } => 1,
                Node::Dir { kids, .. } => 1 + Node::count(kids),
            })
            .sum()
    }
}
pub fn show_tree(v: &[Node]) -> String {
    v.iter()
        .map(|n| match n {
            Node::File { name, off, len } => {
                format!("{}@{off:x}+{len:x}", String::from_utf8_lossy(name))
            }
            Node::Dir { name, kids } => {
                format!("{}/[{}]", String::from_utf8_lossy(name), show_tree(kids))
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn encode_fst(v: &[Node]) -> Vec<u8> {
    fn rec(v: &[Node], parent: u32, ents: &mut Vec<[u32; 3]>, strs: &mut Vec<u8>) {
        for n in v {
            let no = strs.len() as u32;
            strs.extend_from_slice(n.name());
            strs.push(0);
            match n {
                Node::File { off, len, .. } => ents.push([no, (*off >> 2) as u32, *len]),
                Node::Dir { kids, .. } => {
                    let me = ents.len();
                    ents.push([no | 0x0100_0000, parent, 0]);
                    rec(kids, me as u32, ents, strs);
                    ents[me][2] = ents.len() as u32;
                }
            }
        }
    }
    let mut ents = vec![[0x0100_0000, 0, 0]];
    let mut strs = vec![0u8];
    rec(v, 0, &mut ents, &mut strs);
    ents[0][2] = ents.len() as u32;
    let mut out = Vec::new();
    for e in ents {
        for w in e {
            out.extend_from_slice(&w.to_be_bytes());
        }
    }
    out.extend(strs);
    out
}

/// Strict parse of a stored table. `limit` is the size of the table area.
pub fn parse_fst(b: &[u8]) -> Result<(Vec<Node>, usize), String> {
    if b.len() < 12 {
        return Err("table too short".into());
    }
    if b[0] != 1 || be32(b, 0) & 0xFF_FFFF != 0 {
        return Err("root entry is not a directory with name offset 0".into());
    }
    if be32(b, 4) != 0 {
        return Err("root entry's parent is not 0".into());
    }
    let n = be32(b, 8) as usize;
    if n == 0 || n * 12 > b.len() {
        return Err(format!("root entry counts {n} nodes in {} bytes", b.len()));
    }
    let strs = n * 12;
    let mut used = strs;
    let mut i = 1usize;
    fn rec(
        b: &[u8],
        strs: usize,
        i: &mut usize,
        end: usize,
        parent: usize,
        used: &mut usize,
    ) -> Result<Vec<Node>, String> {
        let mut v = Vec::new();
        while *i < end {
            let e = *i * 12;
            let me = *i;
            let ty = b[e];
            let no = (be32(b, e) & 0xFF_FFFF) as usize;
            let s = strs + no;
            if s >= b.len() {
                return Err(format!("entry {me}: name offset {no:#x} is outside the string area"));
            }
            let l = b[s..]
                .iter()
                .position(|c| *c == 0)
                .ok_or_else(|| format!("entry {me}: name is not NUL terminated"))?;
            *used = (*used).max(s + l + 1);
            let name = b[s..s + l].to_vec();
            *i += 1;
            match ty {
                0 => v.push(Node::File {
                    name,
                    off: (be32(b, e + 4) as u64) << 2,
                    len: be32(b, e + 8),
                }),
                1 => {
                    if be32(b, e + 4) as usize != parent {
                        return Err(format!(
                            "entry {me}: directory says its parent is {} but it is {parent}",
                            be32(b, e + 4)
                        ));
                    }
                    let e2 = be32(b, e + 8) as usize;
                    if e2 < *i || e2 > end {
                        return Err(format!("entry {me}: directory end {e2} outside {}..={end}", *i));
                    }
                    let kids = rec(b, strs, i, e2, me, used)?;
                    v.push(Node::Dir { name, kids });
                }
                t => return Err(format!("entry {me}: type byte {t}")),
            }
        }
        if *i != end {
            return Err("nesting error".into());
        }
        Ok(v)
    }
    let t = rec(b, strs, &mut i, n, 0, &mut used)?;
    Ok((t, used))
}

// ------------------------------------------------------------------ images

/// Random access to an image's bytes. Returns false when out of range.
pub trait Image {
    fn size(&self) -> u64;
    fn read_at(&self, off: u64, buf: &mut [u8]) -> bool;
    fn get(&self, off: u64, n: usize) -> Result<Vec<u8>, String> {
        let mut v = vec![0; n];
        if self.read_at(off, &mut v) {
            Ok(v)
        } else {
            Err(format!("image ends at {:#x}, needed {off:#x}+{n:#x}", self.size()))
        }
    }
}
impl Image for [u8] {
    fn size(&self) -> u64 {
        self.len() as u64
    }
    fn read_at(&self, off: u64, buf: &mut [u8]) -> bool {
        let Some(end) = off.checked_add(buf.len() as u64) else {
            return false;
        };
        if end > self.len() as u64 {
            return false;
        }
        buf.copy_from_slice(&self[off as usize..end as usize]);
        true
    }
}
impl Image for Vec<u8> {
    fn size(&self) -> u64 {
        self.len() as u64
    }
    fn read_at(&self, off: u64, buf: &mut [u8]) -> bool {
        self.as_slice().read_at(off, buf)
    }
}

/// The partition table: (offset, type) over all four groups.
pub fn partition_table<I: Image + ?Sized>(img: &I) -> Result<Vec<(u64, u32)>, String> {
    let t = img.get(0x40000, 32)?;
    let mut v = Vec::new();
    for g in 0..4 {
        let n = be32(&t, g * 8);
        let o = (be32(&t, g * 8 + 4) as u64) << 2;
        if n > 1000 {
            return Err(format!("partition group {g} claims {n} entries"));
        }
        for k in 0..n {
            let e = img.get(o + 8 * k as u64, 8)?;
            v.push(((be32(&e, 0) as u64) << 2, be32(&e, 4)));
        }
    }
    Ok(v)
}

pub struct Part {
    pub offset: u64,
    pub header: Vec<u8>,
    pub key: [u8; 16],
    pub tmd_off: u64,
    pub tmd: Vec<u8>,
    pub cert_off: u64,
    pub certs: Vec<u8>,
    pub h3_off: u64,
    pub h3: Vec<u8>,
    pub data_off: u64,
    pub data_size: u64,
}

/// Parses the plain part of a partition.
pub fn part_meta<I: Image + ?Sized>(img: &I, offset: u64) -> Result<Part, String> {
    let header = img.get(offset, 0x2C0)?;
    let idx = header[0x1F1];
    if idx > 1 {
        return Err(format!("common key index {idx}"));
    }
    let mut ek = [0; 16];
    ek.copy_from_slice(&header[0x1BF..0x1CF]);
    let mut tid = [0; 8];
    tid.copy_from_slice(&header[0x1DC..0x1E4]);
    let key = decrypt_title_key(&ek, idx, &tid);
    let tmd_size = be32(&header, 0x2A4) as usize;
    let tmd_off = (be32(&header, 0x2A8) as u64) << 2;
    let cert_size = be32(&header, 0x2AC) as usize;
    let cert_off = (be32(&header, 0x2B0) as u64) << 2;
    let h3_off = (be32(&header, 0x2B4) as u64) << 2;
    let data_off = (be32(&header, 0x2B8) as u64) << 2;
    let data_size = (be32(&header, 0x2BC) as u64) << 2;
    if tmd_size > 0x100000 || cert_size > 0x100000 {
        return Err("absurd TMD or certificate size".into());
    }
    Ok(Part {
        offset,
        key,
        tmd: img.get(offset + tmd_off, tmd_size)?,
        certs: img.get(offset + cert_off, cert_size)?,
        h3: img.get(offset + h3_off, H3_SIZE)?,
        tmd_off,
        cert_off,
        h3_off,
        data_off,
        data_size,
        header,
    })
}

impl Part {
    pub fn groups(&self) -> u64 {
        self.data_size / GD as u64
    }
    /// Decrypts group `g`, checks its hashes against the global table.
    pub fn group<I: Image + ?Sized>(&self, img: &I, g: u64, out: &mut Vec<u8>) -> Result<(), String> {
        let enc = img.get(self.offset + self.data_off + g * GS as u64, GS)?;
        let h = decode_group(&enc, &self.key, out).map_err(|e| format!("group {g}: {e}"))?;
        let o = g as usize * 20;
        if o + 20 > self.h3.len() || self.h3[o..o + 20] != h {
            return Err(format!("group {g}: entry in the global hash table is wrong"));
        }
        Ok(())
    }
    /// Decrypts and verifies the whole partition.
    pub fn data_verified<I: Image + ?Sized>(&self, img: &I) -> Result<Vec<u8>, String> {
        if self.data_size % GD as u64 != 0 {
            return Err(format!("data size {:#x} is not a whole number of groups", self.data_size));
        }
        let mut out = Vec::with_capacity(self.data_size as usize);
        for g in 0..self.groups() {
            self.group(img, g, &mut out)?;
        }
        Ok(out)
    }
    /// Decrypts without looking at hashes.
    pub fn data<I: Image + ?Sized>(&self, img: &I) -> Result<Vec<u8>, String> {
        let n = (self.data_size + GD as u64 - 1) / GD as u64;
        let mut out = Vec::with_capacity(n as usize * GD);
        for g in 0..n {
            let enc = img.get(self.offset + self.data_off + g * GS as u64, GS)?;
            decrypt_group(&enc, &self.key, &mut out);
        }
        Ok(out)
    }
}

/// Hand-made partitions for checking readers.
#[derive(Clone)]
pub struct PartSpec {
    pub ptype: u32,
    pub offset: u64,
    pub key: [u8; 16],
    pub idx: u8,
    pub title_id: [u8; 8],
    pub seed: u8,
    pub tmd: Vec<u8>,
    pub certs: Vec<u8>,
    pub data: Vec<u8>,
    pub tmd_off: u64,
    pub cert_off: u64,
    pub h3_off: u64,
    pub data_off: u64,
    /// declared size; normally data.len() rounded up to a group
    pub data_size: u64,
}
impl PartSpec {
    pub fn new(ptype: u32, offset: u64, seed: u8, mut data: Vec<u8>) -> Self {
        while data.len() % GD != 0 || data.is_empty() {
            let n = data.len() / GD + 1;
            data.resize(n * GD, 0);
        }
        let mut key = [0; 16];
        fill(&mut key, 0, 16, seed.wrapping_mul(3));
        PartSpec {
            ptype,
            offset,
            key,
            idx: seed & 1,
            title_id: [0, 1, 0, 0, b'R', b'A' + (seed & 7), 0xFF, seed],
            seed,
            tmd: tmd(1, seed),
            certs: certs_default(seed),
            data_size: data.len() as u64,
            data,
            tmd_off: 0x2C0,
            cert_off: 0x4E0,
            h3_off: 0x8000,
            data_off: 0x20000,
        }
    }
    pub fn ticket(&self) -> Vec<u8> {
        ticket(&self.key, self.idx, &self.title_id, self.seed)
    }
    pub fn end(&self) -> u64 {
        let ends = [
            self.data_off + (self.data.len() / GD * GS) as u64,
            self.h3_off + H3_SIZE as u64,
            self.tmd_off + self.tmd.len() as u64,
            self.cert_off + self.certs.len() as u64,
        ];
        self.offset + ends.into_iter().max().unwrap_or(0)
    }
    pub fn header(&self) -> Vec<u8> {
        let mut h = self.ticket();
        h.resize(0x2C0, 0);
        put32(&mut h, 0x2A4, self.tmd.len() as u32);
        put32(&mut h, 0x2A8, (self.tmd_off >> 2) as u32);
        put32(&mut h, 0x2AC, self.certs.len() as u32);
        put32(&mut h, 0x2B0, (self.cert_off >> 2) as u32);
        put32(&mut h, 0x2B4, (self.h3_off >> 2) as u32);
        put32(&mut h, 0x2B8, (self.data_off >> 2) as u32);
        put32(&mut h, 0x2BC, (self.data_size >> 2) as u32);
        h
    }
    /// (offset in image, bytes) of everything this partition stores
    pub fn pieces(&self) -> Vec<(u64, Vec<u8>)> {
        let mut enc = Vec::with_capacity(self.data.len() / GD * GS);
        let mut h3 = vec![0u8; H3_SIZE];
        for (g, p) in self.data.chunks(GD).enumerate() {
            let h = encode_group(p, &self.key, &mut enc);
            h3[g * 20..g * 20 + 20].copy_from_slice(&h);
        }
        vec![
            (self.offset, self.header()),
            (self.offset + self.tmd_off, self.tmd.clone()),
            (self.offset + self.cert_off, self.certs.clone()),
            (self.offset + self.h3_off, h3),
            (self.offset + self.data_off, enc),
        ]
    }
}

/// Front matter: disc header, partition tables (one list per table group), region.
pub fn front(header: &[u8], region: &[u8; 32], tables: &[&[(u64, u32)]]) -> Vec<(u64, Vec<u8>)> {
    let n: usize = tables.iter().map(|t| t.len()).sum();
    let mut t = vec![0u8; (0x20 + 8 * n).max(0x400)];
    let mut pos = 0x20;
    for (g, l) in tables.iter().enumerate() {
        put32(&mut t, g * 8, l.len() as u32);
        put32(&mut t, g * 8 + 4, ((0x40000 + pos) >> 2) as u32);
        for (o, ty) in l.iter() {
            put32(&mut t, pos, (*o >> 2) as u32);
            put32(&mut t, pos + 4, *ty);
            pos += 8;
        }
    }
    vec![(0, header.to_vec()), (0x40000, t), (0x4E000, region.to_vec())]
}

pub fn assemble(pieces: &[(u64, Vec<u8>)]) -> Vec<u8> {
    let end = pieces.iter().map(|(o, b)| *o as usize + b.len()).max().unwrap_or(0);
    let mut v = vec![0; end.max(0x50000)];
    for (o, b) in pieces {
        v[*o as usize..*o as usize + b.len()].copy_from_slice(b);
    }
    v
}

/// A complete single table image.
pub fn image(header: &[u8], region: &[u8; 32], parts: &[PartSpec]) -> Vec<u8> {
    let l: Vec<(u64, u32)> = parts.iter().map(|p| (p.offset, p.ptype)).collect();
    let mut pieces = front(header, region, &[&l]);
    for p in parts {
        pieces.extend(p.pieces());
    }
    assemble(&pieces)
}

/// Plain partition data with everything placed by hand.
pub struct DataSpec {
    pub header: Vec<u8>,
    pub bi2: Vec<u8>,
    pub apploader: Vec<u8>,
    pub dol_off: usize,
    pub dol: Vec<u8>,
    pub fst_off: usize,
    /// tree with offsets and lengths already set
    pub tree: Vec<Node>,
    /// (offset, content)
    pub files: Vec<(usize, Vec<u8>)>,
    pub total: usize,
}
impl DataSpec {
    pub fn build(&self) -> Vec<u8> {
        let mut d = vec![0u8; self.total];
        let fst = encode_fst(&self.tree);
        let mut h = self.header.clone();
        put32(&mut h, 0x420, (self.dol_off >> 2) as u32);
        put32(&mut h, 0x424, (self.fst_off >> 2) as u32);
        let fs = (fst.len() + 4) >> 2;
        put32(&mut h, 0x428, fs as u32);
        put32(&mut h, 0x42C, fs as u32);
        let mut put = |o: usize, b: &[u8]| d[o..o + b.len()].copy_from_slice(b);
        put(0, &h);
        put(0x440, &self.bi2);
        put(0x2440, &self.apploader);
        put(self.dol_off, &self.dol);
        put(self.fst_off, &fst);
        for (o, b) in &self.files {
            put(*o, b);
        }
        d
    }
}

/// First difference of two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> Option<String> {
    if a == b {
        return None;
    }
    if a.len() != b.len() {
        return Some(format!("length {:#x} instead of {:#x}", a.len(), b.len()));
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
    Some(format!("byte {i:#x} is {:#04x} instead of {:#04x}", a[i], b[i]))
}
