//! C15: the on-disc structures, against layout tables written from the format.
use crate::common::*;
use disc_riider::structs::*;
use disc_riider::WiiIsoReader;
use mclib::oracle::{self as o, be32, put32};
use mclib::*;
use std::io::{Cursor, Seek, SeekFrom};

/// Field contents as they must be stored: (offset, bytes).
type View = Vec<(usize, Vec<u8>)>;
struct Decoded {
    view: View,
    again: Vec<u8>,
    used: u64,
    same: bool,
}

fn decode<X>(b: &[u8], at: usize, view: fn(&X) -> View) -> Result<Decoded, String>
where
    X: binrw::BinRead + binrw::BinWrite + PartialEq,
    for<'a> <X as binrw::BinRead>::Args<'a>: Default + binrw::__private::Required,
    for<'a> <X as binrw::BinWrite>::Args<'a>: Default + binrw::__private::Required,
{
    use binrw::{BinReaderExt, BinWriterExt};
    let mut c = Cursor::new(b);
    let _ = c.seek(SeekFrom::Start(at as u64));
    let x: X = c.read_be().map_err(|e| e.to_string())?;
    let used = c.position() - at as u64;
    let mut w = Cursor::new(vec![0x77u8; at]);
    let _ = w.seek(SeekFrom::Start(at as u64));
    w.write_be(&x).map_err(|e| format!("cannot be written again: {e}"))?;
    let mut again = w.into_inner();
    let front = again[..at].iter().all(|b| *b == 0x77);
    let mut r = Cursor::new(&again);
    let _ = r.seek(SeekFrom::Start(at as u64));
    let y: Option<X> = r.read_be().ok();
    let same = front && y.as_ref() == Some(&x);
    again.drain(..at);
    Ok(Decoded { view: view(&x), again, used, same })
}

fn sig(t: SigType) -> Vec<u8> {
    match t {
        SigType::Rsa4096 => 0x10000u32,
        SigType::Rsa2048 => 0x10001,
        SigType::EllipticalCurve => 0x10002,
    }
    .to_be_bytes()
    .to_vec()
}
fn key(t: KeyType) -> Vec<u8> {
    match t {
        KeyType::Rsa4096 => 0u32,
        KeyType::Rsa2048 => 1,
    }
    .to_be_bytes()
    .to_vec()
}
macro_rules! be { ($($e:expr),*) => {{ let mut v: Vec<u8> = vec![]; $( v.extend($e.to_be_bytes()); )* v }}; }
fn sh(x: u64) -> Vec<u8> {
    if x & 3 != 0 || x >> 34 != 0 {
        return vec![];
    }
    ((x >> 2) as u32).to_be_bytes().to_vec()
}

fn v_ticket(t: &Ticket) -> View {
    let mut lim = vec![];
    for l in &t.time_limits {
        lim.extend(be!(l.enable_time_limit, l.time_limit));
    }
    let enc = if t.common_key_idx < 2 { o::encrypt_title_key(&t.title_key, t.common_key_idx, &t.title_id).to_vec() } else { vec![] };
    vec![
        (0, sig(t.sig_type)),
        (4, t.sig.to_vec()),
        (0x140, t.sig_issuer.to_vec()),
        (0x180, t.ecdh.to_vec()),
        (0x1BF, enc),
        (0x1D0, t.ticket_id.to_vec()),
        (0x1D8, t.console_id.to_vec()),
        (0x1DC, t.title_id.to_vec()),
        (0x1E4, be!(t.unk, t.ticket_version, t.permitted_titles_mask, t.permit_mask)),
        (0x1F0, vec![t.title_export_allowed, t.common_key_idx]),
        (0x222, t.content_access_permissions.to_vec()),
        (0x262, be!(t.unk2)),
        (0x264, lim),
    ]
}
fn v_tmd(t: &TMD) -> View {
    let mut pad = vec![];
    for p in &t.fakesign_padding {
        pad.extend(be!(p));
    }
    let mut v = vec![
        (0, sig(t.sig_type)),
        (4, t.sig.to_vec()),
        (0x140, t.sig_issuer.to_vec()),
        (0x180, vec![t.version, t.ca_crl_version, t.signer_crl_version]),
        (0x184, be!(t.ios_id_major, t.ios_id_minor, t.title_id_major)),
        (0x190, t.title_id_minor.to_vec()),
        (0x194, be!(t.title_type, t.group_id)),
        (0x19A, pad),
        (0x1D8, be!(t.access_flags, t.title_version)),
        (0x1DE, be!(t.contents.len() as u16)),
        (0x1E0, be!(t.boot_idx)),
    ];
    for (i, c) in t.contents.iter().enumerate() {
        let mut b = be!(c.id, c.index, c.content_type, c.size);
        b.extend(c.hash);
        v.push((0x1E4 + 36 * i, b));
    }
    v
}
fn v_cert(c: &Certificate) -> View {
    let st = sig(c.sig_type);
    let o2 = 4 + o::SIGS.iter().find(|s| s.0 == be32(&st, 0)).map_or(0, |s| s.1) + 60;
    let kl = match c.key_type {
        KeyType::Rsa4096 => 512,
        KeyType::Rsa2048 => 256,
    };
    vec![
        (0, st),
        (4, c.sig.clone()),
        (o2, c.issuer.to_vec()),
        (o2 + 64, key(c.key_type)),
        (o2 + 68, c.subject.to_vec()),
        (o2 + 132, c.key.clone()),
        (o2 + 132 + kl, be!(c.modulus, c.pub_exp)),
    ]
}
fn v_part(p: &WiiPartitionHeader) -> View {
    let mut v = v_ticket(&p.ticket);
    v.extend([
        (0x2A4, be!(p.tmd_size)),
        (0x2A8, sh(*p.tmd_off)),
        (0x2AC, be!(p.cert_chain_size)),
        (0x2B0, sh(*p.cert_chain_off)),
        (0x2B4, sh(*p.global_hash_table_off)),
        (0x2B8, sh(*p.data_off)),
        (0x2BC, sh(*p.data_size)),
    ]);
    v
}
fn v_header(h: &DiscHeader) -> View {
    let mut title = h.game_title.as_bytes().to_vec();
    if title.len() <= 64 {
        title.resize(64, 0);
    }
    vec![
        (0, h.game_id.to_vec()),
        (6, vec![h.disc_num, h.disc_version, h.audio_streaming, h.audio_stream_buf_size]),
        (0x18, be!(h.wii_magic, h.gcn_magic)),
        (0x20, title),
        (0x60, vec![h.disable_hash_verification, h.disable_disc_enc]),
        (0x400, be!(h.debug_mon_off, h.debug_load_addr)),
        (0x420, sh(*h.dol_off)),
        (0x424, sh(*h.fst_off)),
        (0x428, sh(*h.fst_sz)),
        (0x42C, sh(*h.fst_max_sz)),
        (0x430, be!(h.fst_memory_address, h.user_position, h.user_sz)),
    ]
}
fn v_entry(e: &WiiPartTableEntry) -> View {
    let t = match e.get_type() {
        WiiPartType::Data => 0u32,
        WiiPartType::Update => 1,
        WiiPartType::Channel => 2,
    };
    vec![(0, sh(e.get_offset())), (4, be!(t))]
}
fn v_dol(d: &DOLHeader) -> View {
    let mut v = vec![];
    for l in [&d.text_off[..], &d.data_off, &d.text_starts, &d.data_starts, &d.text_sizes, &d.data_sizes] {
        for x in l {
            v.extend(be!(x));
        }
    }
    v.extend(be!(d.bss_start, d.bss_size, d.entry_point));
    vec![(0, v)]
}
fn v_app(a: &ApploaderHeader) -> View {
    vec![(0x14, be!(a.size1, a.size2))]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Header,
    Ticket,
    Tmd(usize),
    Cert(usize, usize),
    Part,
    Entry,
    Dol,
    App,
}
impl Kind {
    fn all() -> Vec<Kind> {
        let mut v = vec![Kind::Header, Kind::Ticket, Kind::Tmd(0), Kind::Tmd(1), Kind::Tmd(3), Kind::Part, Kind::Entry, Kind::Dol, Kind::App];
        for s in 0..3 {
            for k in 0..2 {
                v.push(Kind::Cert(s, k));
            }
        }
        v
    }
    fn base(self, seed: u8) -> Vec<u8> {
        let ticket = o::ticket(&[seed.wrapping_add(1); 16], seed & 1, &[seed, 2, 3, 4, 5, 6, 7, 9], seed);
        match self {
            Kind::Header => o::disc_header(b"A game of some length", seed),
            Kind::Ticket => ticket,
            Kind::Tmd(n) => o::tmd(n, seed),
            Kind::Cert(s, k) => o::cert(s, k, seed),
            Kind::Part => {
                let mut p = ticket;
                p.extend((0..28u8).map(|i| seed.wrapping_add(i.wrapping_mul(7)) | 0x81));
                p
            }
            Kind::Entry => vec![0x12 ^ seed, 0x34, 0x56, 0x79, 0, 0, 0, 1 + (seed & 1)],
            Kind::Dol => o::content(seed as usize, 57 * 4).to_vec(),
            Kind::App => {
                let mut v = o::content(seed as usize, 28).to_vec();
                v[..20].fill(0);
                v
            }
        }
    }
    fn decode(self, b: &[u8], at: usize) -> Result<Decoded, String> {
        match self {
            Kind::Header => decode(b, at, v_header),
            Kind::Ticket => decode(b, at, v_ticket),
            Kind::Tmd(_) => decode(b, at, v_tmd),
            Kind::Cert(..) => decode(b, at, v_cert),
            Kind::Part => decode(b, at, v_part),
            Kind::Entry => decode(b, at, v_entry),
            Kind::Dol => decode(b, at, v_dol),
            Kind::App => decode(b, at, v_app),
        }
    }
    /// Whether the bytes are a value of this structure at all, and which of
    /// them are reserved.
    fn legal(self, b: &[u8]) -> bool {
        let sig_ok = |b: &[u8]| o::SIGS.iter().any(|s| s.0 == be32(b, 0));
        match self {
            Kind::Ticket | Kind::Part => sig_ok(b) && b[0x1F1] < 2,
            Kind::Tmd(n) => sig_ok(b) && b[0x1DE] == 0 && b[0x1DF] as usize == n,
            Kind::Cert(s, k) => be32(b, 0) == o::SIGS[s].0 && be32(b, 4 + o::SIGS[s].1 + 60 + 64) == o::KEYS[k].0,
            Kind::Entry => be32(b, 4) < 3,
            _ => true,
        }
    }
    fn reserved(self) -> Vec<std::ops::Range<usize>> {
        match self {
            Kind::Header => vec![0xA..0x18, 0x62..0x400, 0x408..0x420, 0x43C..0x440],
            Kind::Ticket | Kind::Part => vec![0x104..0x140, 0x1BC..0x1BF, 0x1CF..0x1D0, 0x1F2..0x222],
            Kind::Tmd(_) => vec![0x104..0x140, 0x183..0x184, 0x1D2..0x1D8, 0x1E2..0x1E4],
            Kind::Cert(s, k) => {
                let (a, b) = (4 + o::SIGS[s].1, o::KEYS[k].1);
                let e = a + 60 + 132 + b + 8;
                vec![a..a + 60, e..e + 52]
            }
            Kind::App => vec![0..0x14],
            _ => vec![],
        }
    }
}

fn judge(k: Kind, bytes: &[u8], at: usize) -> R<Option<u64>> {
    let mut b = vec![0xEE; at];
    b.extend(bytes);
    b.extend([0xDD; 9]);
    match k.decode(&b, at) {
        Err(e) => {
            ensure!(!k.legal(bytes), "{k:?}: well-formed bytes are refused: {e}");
            Ok(None)
        }
        Ok(d) => {
            if !k.legal(bytes) {
                return Ok(None);
            }
            ensure!(d.used == bytes.len() as u64, "{k:?} takes {:#x} bytes instead of {:#x}", d.used, bytes.len());
            let mut covered = vec![false; bytes.len()];
            for (off, f) in &d.view {
                ensure!(
                    bytes.get(*off..*off + f.len()) == Some(&f[..]) && !f.is_empty() || (f.is_empty() && *off >= bytes.len()),
                    "{k:?}: field stored at {off:#x} is decoded as {:02x?} from {:02x?}",
                    &f[..f.len().min(24)],
                    &bytes[(*off).min(bytes.len())..(*off + f.len().max(4)).min(bytes.len()).min(*off + 24)]
                );
                covered[*off..*off + f.len()].fill(true);
            }
            let mut want = bytes.to_vec();
            for r in k.reserved() {
                want[r.clone()].fill(0);
                covered[r].fill(true);
            }
            if let Some(p) = covered.iter().position(|c| !c) {
                return Err(Stop::Engine(format!("{k:?}: layout table misses byte {p:#x}")));
            }
            if let Some(e) = o::diff(&d.again, &want) {
                fail!("{k:?}: encoding what was decoded differs from the original: {e}");
            }
            ensure!(d.same, "{k:?}: decoding what was encoded gives different values");
            Ok(Some(hash_bytes(&d.again)))
        }
    }
}

/// Every byte of every structure takes every value.
fn h15_bytes(ctx: &Ctx) -> R {
    let kinds = Kind::all();
    let k = *ctx.pick(&kinds);
    let seed = *ctx.pick(ctx.by_tier(&[0x15u8, 0xA2][..], &[0x15, 0xA2, 0x00, 0xFF, 0x5A][..]));
    let mut b = k.base(seed);
    let pos = ctx.choose(b.len());
    let at = if k == Kind::Entry || seed == 0x15 { 0 } else { 0x33 };
    for v in 0..=255u8 {
        // a title is text; text that is not UTF-8 has its own scenario
        if k == Kind::Header && (0x20..0x60).contains(&pos) && (v >= 0x80 || pos >= 0x20 + 21 || v == 0) {
            continue;
        }
        b[pos] = v;
        ctx.step();
        ctx.state(mix(hash_bytes(format!("{k:?}").as_bytes()), mix(seed as u64, (pos << 8) as u64 | v as u64)));
        match judge(k, &b, at) {
            Ok(h) => {
                if h.is_some() {
                    ctx.nontrivial();
                }
                ctx.observe(h.unwrap_or(1));
            }
            Err(e) => {
                ctx.note(|| format!("{k:?} seed {seed:#x} at stream position {at:#x}: byte {pos:#x} = {v:#04x}"));
                return Err(e);
            }
        }
    }
    ctx.note(|| format!("{k:?} seed {seed:#x}: byte {pos:#x}"));
    Ok(())
}

/// Words at the ends of their range, two at a time within one structure.
fn h15_words(ctx: &Ctx) -> R {
    let kinds = Kind::all();
    let k = *ctx.pick(&kinds);
    let base = k.base(0x33);
    let words: Vec<usize> = (0..base.len() / 4).map(|w| w * 4).filter(|w| {
        let t = k == Kind::Header && (0x20..0x60).contains(w);
        // large opaque areas are represented by their edges
        let inner = base.len() > 0x100 && (4..0x104).contains(w) && *w != 4 && *w != 0x100;
        !t && !inner && !k.reserved().iter().any(|r| r.contains(w) && r.contains(&(w + 3)))
    }).collect();
    let a = *ctx.pick(&words);
    let va = *ctx.pick(&[0u32, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x3FFF_FFFF, 0x4000_0000]);
    ctx.nontrivial();
    let mut n = 0u64;
    for &c in &words {
        if c < a {
            continue;
        }
        for vc in [0u32, 0x8000_0000, 0xFFFF_FFFF] {
            let mut b = base.clone();
            put32(&mut b, a, va);
            put32(&mut b, c, vc);
            if k == Kind::Header && c == a && a == 0x5C {
                continue;
            }
            n += 1;
            if let Err(e) = judge(k, &b, 0) {
                ctx.note(|| format!("{k:?}: word {a:#x} = {va:#x}, word {c:#x} = {vc:#x}"));
                return Err(e);
            }
        }
    }
    ctx.steps(n);
    ctx.state(mix(hash_bytes(format!("{k:?}").as_bytes()), (a as u64) << 32 | va as u64));
    ctx.note(|| format!("{k:?}: word {a:#x} = {va:#x}"));
    Ok(())
}

/// Titles of every length, of one to four byte characters.
fn h15_titles(ctx: &Ctx) -> R {
    let n = ctx.choose(65);
    let style = ctx.choose(5);
    let unit = ["x", "\u{e9}", "\u{3042}", "\u{1F3AE}", "\u{FFFD}"][style];
    let mut title: Vec<u8> = vec![];
    while title.len() < n {
        let left = n - title.len();
        let u = if left >= unit.len() { unit } else { "z" };
        title.extend(u.as_bytes());
    }
    for (i, c) in title.iter_mut().enumerate() {
        if *c == b'x' {
            *c = b'a' + (i % 26) as u8;
        }
    }
    ctx.note(|| format!("title {:?} of {n} bytes", String::from_utf8_lossy(&title)));
    ctx.state(mix(n as u64, style as u64));
    if n == 64 {
        ctx.nontrivial();
    }
    let b = o::disc_header(&title, 0x29);
    ctx.step();
    judge(Kind::Header, &b, 0)?;
    // and from the other side
    let mut h: DiscHeader = parse(&o::disc_header(b"old title", 0x29), "disc header")?;
    h.game_title = String::from_utf8_lossy(&title).into_owned();
    ctx.step();
    let out = ser(&h);
    if let Some(e) = o::diff(&out, &b) {
        fail!("header with the title {:?} is written wrongly: {e}", h.game_title);
    }
    // titles that do not fit are refused or cut, but never move other fields
    if n == 64 {
        for extra in [1, 2, 64, 1000] {
            h.game_title = "q".repeat(64 + extra);
            ctx.step();
            let out = ser(&h);
            if !out.is_empty() {
                ensure!(out.len() == o::HDR_SIZE && out[0x60..] == b[0x60..], "a title of {} bytes displaces the fields behind it", 64 + extra);
            }
        }
    }
    ctx.observe(hash_bytes(&out));
    Ok(())
}

/// Titles that are not UTF-8 (Shift-JIS ones, say).
fn h15_foreign(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let v = 0x80 + ctx.choose(128);
    let n = *ctx.pick(&[1usize, 2, 20, 21, 22, 63, 64]);
    let b = o::disc_header(&vec![v as u8; n], 0x29);
    ctx.note(|| format!("title of {n} bytes {v:#x}"));
    ctx.state(mix(v as u64, n as u64));
    ctx.step();
    // whatever happens to the title, the other fields stay where they are
    match Kind::Header.decode(&b, 0) {
        Ok(d) => {
            ensure!(d.used == 0x440, "header takes {:#x} bytes", d.used);
            for (off, f) in d.view.iter().filter(|(o, _)| *o != 0x20) {
                ensure!(b[*off..*off + f.len()] == f[..], "field at {off:#x} is decoded wrongly next to a title that is not UTF-8");
            }
            ensure!(d.again.len() == 0x440 && d.again[..0x20] == b[..0x20] && d.again[0x60..] == b[0x60..], "fields next to a title that is not UTF-8 are displaced");
            if d.again[0x20..0x60] != b[0x20..0x60] {
                return Err(Stop::Violation {
                    msg: format!("a title that is not UTF-8 ({n} bytes {v:#x}) is altered when the header is written again"),
                    key: Some("title-non-utf8".into()),
                });
            }
            ctx.observe(hash_bytes(&d.again));
        }
        Err(_) => ctx.observe(2),
    }
    Ok(())
}

/// TMDs with any number of contents.
fn h15_contents(ctx: &Ctx) -> R {
    let n = *ctx.pick(&{
        let mut v: Vec<usize> = (0..ctx.by_tier(300, 1200)).collect();
        v.extend([4095, 4096, 32767, 32768, 65534, 65535]);
        v
    });
    ctx.note(|| format!("{n} contents"));
    ctx.state(n as u64);
    if n > 255 {
        ctx.nontrivial();
    }
    let b = o::tmd(n, 0x61);
    let mut long = b.clone();
    long.extend([0xAB; 40]);
    ctx.step();
    let d = match Kind::Tmd(n).decode(&long, 0) {
        Ok(d) => d,
        Err(e) => fail!("a TMD with {n} contents is refused: {e}"),
    };
    ensure!(d.used == b.len() as u64, "TMD with {n} contents takes {:#x} bytes instead of {:#x}", d.used, b.len());
    ensure!(d.view.len() == 11 + n, "{} contents instead of {n}", d.view.len() - 11);
    for (off, f) in &d.view {
        ensure!(b[*off..*off + f.len()] == f[..], "TMD field at {off:#x} is decoded wrongly");
    }
    if let Some(e) = o::diff(&d.again, &b) {
        fail!("TMD with {n} contents is encoded differently: {e}");
    }
    ensure!(d.same, "TMD with {n} contents does not survive encoding");
    // one content too few in the file
    if n > 0 {
        ctx.step();
        ensure!(Kind::Tmd(n).decode(&b[..b.len() - 1], 0).is_err(), "a TMD that ends inside its contents is accepted");
    }
    ctx.observe(hash_bytes(&d.again));
    Ok(())
}

/// Values the stored form has no room for must be refused, not altered.
fn h15_unstorable(ctx: &Ctx) -> R {
    use binrw::{BinReaderExt, BinWriterExt};
    ctx.nontrivial();
    let mut out = Cursor::new(vec![]);
    if ctx.flag() {
        let n = *ctx.pick(&[0x10000usize, 0x10001, 0x1FFFF, 0x20000]);
        let mut t: TMD = crate::common::parse(&o::tmd(1, 3), "TMD")?;
        t.contents = vec![t.contents[0].clone(); n];
        ctx.note(|| format!("a TMD with {n} contents"));
        ctx.state(n as u64);
        ctx.step();
        if out.write_be(&t).is_err() {
            return Ok(());
        }
        out.set_position(0);
        match out.read_be::<TMD>() {
            Ok(u) if u == t => Ok(()),
            Ok(u) => viol(format!("a TMD with {n} contents is written and read back with {}", u.contents.len())),
            Err(e) => viol(format!("a TMD with {n} contents is written but cannot be read: {e}")),
        }
    } else {
        let mut h: DiscHeader = crate::common::parse(&o::disc_header(b"x", 3), "header")?;
        let len = *ctx.pick(&[1usize, 2, 10, 63, 64, 65]);
        let at = ctx.choose(len);
        let mut title = vec![b'T'; len];
        title[at] = *ctx.pick(&[0u8, b'U']);
        h.game_title = String::from_utf8(title).unwrap_or_default();
        ctx.note(|| format!("title {:?}", h.game_title));
        ctx.state(hash_bytes(h.game_title.as_bytes()));
        ctx.step();
        if out.write_be(&h).is_err() {
            ensure!(len > 64 || h.game_title.contains('\0'), "title {:?} is refused", h.game_title);
            return Ok(());
        }
        ensure!(out.get_ref().len() == 0x440, "a header with title {:?} takes {:#x} bytes", h.game_title, out.get_ref().len());
        out.set_position(0);
        match out.read_be::<DiscHeader>() {
            Ok(u) if u == h => Ok(()),
            Ok(u) => viol(format!("title {:?} is written and read back as {:?}", h.game_title, u.game_title)),
            Err(e) => viol(format!("a header with title {:?} is written but cannot be read: {e}", h.game_title)),
        }
    }
}

/// Chains of three certificates of every combination of types.
fn h15_chains(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let mut b = vec![];
    let mut each = vec![];
    for i in 0..3u8 {
        let (s, k) = (ctx.choose(3), ctx.choose(2));
        let c = o::cert(s, k, i * 40 + 3);
        b.extend(&c);
        each.push(((s, k), c));
    }
    ctx.note(|| format!("chain {:?}", each.iter().map(|e| e.0).collect::<Vec<_>>()));
    ctx.state(hash_bytes(&b));
    ctx.step();
    let chain: [Certificate; 3] = parse(&b, "certificate chain")?;
    for (c, (sk, want)) in chain.iter().zip(&each) {
        for (off, f) in v_cert(c) {
            ensure!(want[off..off + f.len()] == f[..], "certificate of types {sk:?}: field at {off:#x} is decoded wrongly");
        }
    }
    ctx.step();
    let out = ser(&chain);
    if let Some(e) = o::diff(&out, &b) {
        fail!("certificate chain is encoded differently: {e}");
    }
    ctx.observe(hash_bytes(&out));
    Ok(())
}

/// Title keys under both common keys, with every byte of key and id varied.
fn h15_title_key(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let idx = ctx.choose(2) as u8;
    let which = ctx.choose(25);
    let other = ctx.choose(3);
    ctx.note(|| format!("common key {idx}, byte {which} varied, base {other}"));
    ctx.state((which as u64) << 8 | (idx as u64) << 4 | other as u64);
    let mut k = [[0u8; 16], [0xFF; 16], [0x3C; 16]][other];
    let mut id = [[0u8; 8], [0xFF; 8], [0, 1, 0, 0, b'R', b'S', b'P', b'E']][other];
    for v in 0..=255u8 {
        match which {
            0..=15 => k[which] = v,
            16..=23 => id[which - 16] = v,
            _ => {}
        }
        ctx.step();
        let b = o::ticket(&k, idx, &id, v);
        let t: Ticket = parse(&b, "ticket")?;
        ensure!(t.title_key == k, "title key {k:02x?} (id {id:02x?}, common key {idx}) is decrypted as {:02x?}", t.title_key);
        ensure!(ser(&t) == b, "ticket with title key {k:02x?} is not encoded as it was");
        // a changed key is encrypted under the ticket's own id and common key
        let mut t2 = t.clone();
        t2.title_key = [v ^ 0x5A; 16];
        t2.title_id = [v.wrapping_mul(3); 8];
        t2.common_key_idx = 1 - idx;
        ctx.step();
        let out = ser(&t2);
        ensure!(out.len() == o::TICKET_SIZE && out[0x1BF..0x1CF] == o::encrypt_title_key(&[v ^ 0x5A; 16], 1 - idx, &[v.wrapping_mul(3); 8]), "a replaced title key is encrypted wrongly");
        ctx.observe(hash_bytes(&out));
        if which == 24 && v == 3 {
            break;
        }
    }
    Ok(())
}

/// Partition tables: four groups, any counts, anywhere.
fn h15_table(ctx: &Ctx) -> R {
    let counts: Vec<usize> = (0..4).map(|_| ctx.choose(ctx.by_tier(3, 4))).collect();
    let place = ctx.choose(4);
    let seed = ctx.choose(3) as u32;
    ctx.note(|| format!("table counts {counts:?}, placement {place}, seed {seed}"));
    ctx.state(hash_bytes(&[counts[0] as u8, counts[1] as u8, counts[2] as u8, counts[3] as u8, place as u8, seed as u8]));
    if counts.iter().filter(|c| **c > 0).count() > 1 {
        ctx.nontrivial();
    }
    let mut img = o::assemble(&[(0, o::disc_header(b"table", 1)), (0x4E000, o::region(9).to_vec())]);
    let mut want: Vec<(u64, u32)> = vec![];
    let mut n = 0u32;
    for (g, c) in counts.iter().enumerate() {
        let at = match place {
            0 => 0x40020 + g * 0x80,
            1 => 0x40400 - g * 0x80,
            2 => 0x4FF00 - g * 0x30,
            _ => 0x100 + g * 0x40,
        };
        put32(&mut img, 0x40000 + g * 8, *c as u32);
        put32(&mut img, 0x40004 + g * 8, (at / 4) as u32);
        for i in 0..*c {
            let off = [0x14000u32, 0xFFFF_FFFF, 0x4000_0000 + n, 0][(n as usize + seed as usize) % 4].wrapping_add(n);
            let ty = (n + seed) % 3;
            n += 1;
            put32(&mut img, at + i * 8, off);
            put32(&mut img, at + i * 8 + 4, ty);
            want.push(((off as u64) << 2, ty));
        }
    }
    ctx.step();
    let rd = match WiiIsoReader::open(Cursor::new(&img)) {
        Ok(r) => r,
        Err(e) => fail!("partition table cannot be read: {e}"),
    };
    let got: Vec<(u64, u32)> = rd.partitions().iter().map(|p| (p.get_offset(), be32(&v_entry(p)[1].1, 0))).collect();
    ensure!(got == want, "partition table read as {got:x?} instead of {want:x?}");
    ensure!(rd.get_region() == &o::region(9), "region read wrongly");
    ctx.observe(got.len() as u64);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C15",
        level: "model_checking",
        rule: "each execution decodes and re-encodes structures with the real code and compares every field with a layout table written from the disc format; a state is a distinct byte image, a transition one decode-encode pair",
        bounds: "disc header, ticket, TMD (0, 1, 3 contents), all 6 certificate kinds, partition header, table entry, DOL and apploader header: every byte position x 256 values on 2 (quick) / 5 (thorough) base images at two stream positions; every pair of words over 7 x 3 extreme values; titles of 0..64 bytes in 5 scripts and longer ones; every byte >= 0x80 in 7 title lengths; TMDs of 0..299 (quick) / 0..1199 (thorough) and up to 65535 contents; all 216 certificate chains; title keys: every byte of key and id x 256 x both common keys; partition tables of 4 groups x 0..2 / 0..3 entries x 4 placements",
        assumptions: &["titles contain no NUL; bytes behind a title's NUL are reserved"],
        scenarios: vec![
            Scenario::new("bytes", h15_bytes),
            Scenario::new("words", h15_words),
            Scenario::new("titles", h15_titles),
            Scenario::new("contents", h15_contents),
            Scenario::new("unstorable", h15_unstorable),
            Scenario::new("chains", h15_chains),
            Scenario::new("title-key", h15_title_key),
            Scenario::new("table", h15_table),
            Scenario::new("foreign-titles", h15_foreign),
        ],
    }]
}
