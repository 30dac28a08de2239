//! C10 (random access equals a flat array) and C12 (misbehaving sources) on
//! hand-made images; nothing here is produced by the repository's builder.
use crate::common::*;
use disc_riider::{Fst, WiiIsoReader, WiiPartitionReadInfo};
use mclib::oracle::{self as o, diff, DataSpec, Node, PartSpec, BD, GD};
use mclib::*;
use std::cell::{Cell, RefCell};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::rc::Rc;
use std::sync::OnceLock;

fn nf(name: &str, off: usize, len: usize) -> Node {
    Node::File { name: name.into(), off: off as u64, len: len as u32 }
}

pub struct Hand {
    pub spec: PartSpec,
    pub bi2: Vec<u8>,
    pub app: Vec<u8>,
    pub dol: Vec<u8>,
    pub header: Vec<u8>,
    pub tree: Vec<Node>,
    /// decrypted data up to the declared size
    pub flat: Vec<u8>,
}

/// Partition data in which every byte is distinctive, system files included.
/// `cut` is how far the declared size lies below the end of the last group.
fn hand(ptype: u32, offset: u64, seed: u8, groups: usize, cut: usize) -> Hand {
    let total = groups * GD;
    let size = total - cut;
    let mut tree = vec![
        nf("a", 0x9000, 0x20),
        nf("block", BD - 4, 9),
        Node::Dir {
            name: b"dir".to_vec(),
            kids: vec![nf("empty", 0x10000, 0), nf("rows", 8 * BD - 8, 2 * BD + 16)],
        },
        nf("tail", size - 12, 12),
        nf("over", size - 8, 0x100),
    ];
    if groups > 1 {
        tree.push(nf("group", GD - 0x10, 0x21));
        tree.push(nf("wide", GD - 0x2000, GD.min((groups - 1) * GD) + 0x1000));
    }
    let bi2 = o::content(seed as usize + 1, 0x2000).to_vec();
    let app = o::apploader(0x301, 0x20, seed as usize + 2);
    let dol = o::dol(0x523, 3, seed as usize + 3);
    let header = o::disc_header(b"Hand made partition", seed);
    let d = DataSpec {
        header: header.clone(),
        bi2: bi2.clone(),
        apploader: app.clone(),
        dol_off: 0x4000,
        dol: dol.clone(),
        fst_off: 0x6000,
        tree: tree.clone(),
        files: vec![],
        total,
    };
    let mut data = d.build();
    // distinctive filler everywhere behind the system files
    data[0x8000..].copy_from_slice(o::content(seed as usize + 4, total - 0x8000));
    let mut spec = PartSpec::new(ptype, offset, seed, data);
    spec.data_size = size as u64;
    let flat = spec.data[..size].to_vec();
    let mut h = header;
    h[0x420..0x430].copy_from_slice(&flat[0x420..0x430]);
    // where the partition's parts lie differs from partition to partition
    crate::handimg::set_outer(&mut spec, seed as usize % crate::handimg::OUTER);
    Hand { spec, bi2, app, dol, header: h, tree, flat }
}

pub struct Disc {
    pub img: Vec<u8>,
    pub parts: Vec<Hand>,
    pub header: Vec<u8>,
}
fn make(parts: Vec<Hand>) -> Disc {
    let header = o::disc_header(b"Hand made disc", 91);
    let specs: Vec<PartSpec> = parts.iter().map(|h| h.spec.clone()).collect();
    let img = o::image(&header, &o::region(17), &specs);
    Disc { img, parts, header }
}
/// Two interleaved partitions; the declared data size ends at a group end, a
/// block end or inside a block.
fn disc10(variant: usize) -> &'static Disc {
    static D: [OnceLock<Disc>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    D[variant].get_or_init(|| {
        let cut = [0, 3 * BD, 2 * BD + 0x1234][variant];
        let p0 = hand(0, 0x50000, 21, 3, cut);
        // the second partition directly behind the first one
        let off = (p0.spec.end() + 0x7FFF) / 0x8000 * 0x8000;
        let p1 = hand(1, off, 42, 2, cut / 2 / 4 * 4);
        make(vec![p0, p1])
    })
}

type Rd<'a> = WiiIsoReader<Cursor<&'a [u8]>>;

fn open_all<'a>(img: &'a [u8], n: usize) -> R<(Rd<'a>, Vec<WiiPartitionReadInfo>)> {
    // wherever the source stood before
    let mut cur = Cursor::new(img);
    cur.set_position(0x1235);
    let mut rd = match WiiIsoReader::open(cur) {
        Ok(r) => r,
        Err(e) => fail!("a valid image cannot be opened: {e}"),
    };
    let list = rd.partitions().to_vec();
    ensure!(list.len() == n, "{} partitions listed instead of {n}", list.len());
    let mut v = vec![];
    for e in list {
        match rd.open_partition(e) {
            Ok(p) => v.push(p),
            Err(e) => fail!("a valid partition cannot be opened: {e}"),
        }
    }
    Ok((rd, v))
}

fn range(flat: &[u8], off: u64, len: u64) -> &[u8] {
    let n = flat.len() as u64;
    let a = off.min(n);
    let b = off.saturating_add(len).min(n);
    &flat[a as usize..b as usize]
}

#[derive(Clone, Copy, Debug)]
enum Q {
    Seek(u64),
    SeekRel(i64),
    SeekEnd,
    Read(usize),
    Vec(u64, u64),
    File(&'static str),
    FileAt(&'static str, u64, usize),
    Window(u64, u64),
    Bi2,
    App,
    Dol,
    Tmd,
    Certs,
}

fn apply(ctx: &Ctx, rd: &mut Rd, pi: &mut WiiPartitionReadInfo, h: &Hand, q: Q) -> R<()> {
    ctx.step();
    match q {
        Q::Seek(x) => {
            let mut c = pi.get_crypto_reader(rd);
            match c.seek(SeekFrom::Start(x)) {
                Ok(p) => ensure!(p == x, "seek to {x:#x} reports {p:#x}"),
                Err(e) => fail!("seek to {x:#x} failed: {e}"),
            }
            match c.stream_position() {
                Ok(p) => ensure!(p == x, "after a seek to {x:#x} the position is {p:#x}"),
                Err(e) => fail!("position failed: {e}"),
            }
        }
        Q::SeekRel(d) => {
            let mut c = pi.get_crypto_reader(rd);
            let before = c.stream_position().unwrap_or(0);
            let Some(want) = before.checked_add_signed(d) else { return Err(Stop::Prune) };
            match c.seek(SeekFrom::Current(d)) {
                Ok(p) => ensure!(p == want, "relative seek by {d} from {before:#x} reports {p:#x}"),
                Err(e) => fail!("relative seek by {d} from {before:#x} failed: {e}"),
            }
        }
        Q::SeekEnd => {
            let mut c = pi.get_crypto_reader(rd);
            let before = c.stream_position().unwrap_or(0);
            // either refused, or counted from the end of the data
            match c.seek(SeekFrom::End(-1)) {
                Ok(p) => ensure!(p == h.flat.len() as u64 - 1, "seek to one before the end reports {p:#x}"),
                Err(_) => {
                    let p = c.stream_position().unwrap_or(u64::MAX);
                    ensure!(p == before, "a refused seek moved the position from {before:#x} to {p:#x}");
                }
            }
        }
        Q::Read(n) => {
            let mut c = pi.get_crypto_reader(rd);
            let pos = match c.stream_position() {
                Ok(p) => p,
                Err(e) => fail!("position failed: {e}"),
            };
            let mut buf = vec![0xA5u8; n];
            match c.read(&mut buf) {
                Err(e) => fail!("read of {n:#x} at {pos:#x} failed: {e}"),
                Ok(k) => {
                    let want = range(&h.flat, pos, n as u64);
                    ensure!(k <= want.len(), "read of {n:#x} at {pos:#x} reports {k:#x} bytes, only {:#x} exist", want.len());
                    ensure!(k > 0 || want.is_empty(), "read of {n:#x} at {pos:#x} makes no progress before the end");
                    if let Some(d) = diff(&buf[..k], &want[..k]) {
                        fail!("read of {n:#x} at {pos:#x}: {d}");
                    }
                    let after = c.stream_position().unwrap_or(u64::MAX);
                    ensure!(after == pos + k as u64, "read of {k:#x} bytes moved the position from {pos:#x} to {after:#x}");
                    ctx.observe(k as u64);
                }
            }
        }
        Q::Vec(off, len) => {
            let mut c = pi.get_crypto_reader(rd);
            let pos = c.stream_position().unwrap_or(0);
            let mut buf = vec![1, 2, 3];
            if let Err(e) = c.read_into_vec(off, len, &mut buf) {
                fail!("positioned read {off:#x}+{len:#x} failed: {e}");
            }
            if let Some(d) = diff(&buf, range(&h.flat, off, len)) {
                fail!("positioned read {off:#x}+{len:#x}: {d}");
            }
            let after = c.stream_position().unwrap_or(u64::MAX);
            ensure!(after == pos, "positioned read moved the position from {pos:#x} to {after:#x}");
        }
        Q::File(name) => {
            let (off, len) = find(&h.tree, name)?;
            let mut buf = vec![];
            match pi.open_file(rd, name) {
                None => fail!("file {name} cannot be opened"),
                Some(mut f) => {
                    if let Err(e) = f.read_to_end(&mut buf) {
                        fail!("file {name}: read failed: {e}");
                    }
                }
            }
            if let Some(d) = diff(&buf, range(&h.flat, off, len)) {
                fail!("file {name} at {off:#x}+{len:#x}: {d}");
            }
        }
        Q::FileAt(name, at, n) => {
            let (off, len) = find(&h.tree, name)?;
            let all = range(&h.flat, off, len);
            match pi.open_file(rd, name) {
                None => fail!("file {name} cannot be opened"),
                Some(mut f) => {
                    match f.seek(SeekFrom::Start(at)) {
                        Ok(p) => ensure!(p == at, "file {name}: seek to {at:#x} reports {p:#x}"),
                        Err(e) => fail!("file {name}: seek failed: {e}"),
                    }
                    let mut buf = vec![0; n];
                    let want = range(all, at, n as u64);
                    match f.read(&mut buf) {
                        Err(e) => fail!("file {name}: read failed: {e}"),
                        Ok(k) => {
                            ensure!(k <= want.len() && (k > 0 || want.is_empty()), "file {name}: read of {n:#x} at {at:#x} reports {k:#x} of {:#x}", want.len());
                            if let Some(d) = diff(&buf[..k], &want[..k]) {
                                fail!("file {name} from {at:#x}: {d}");
                            }
                        }
                    }
                }
            }
        }
        Q::Window(off, len) => {
            let mut buf = vec![];
            let mut w = pi.open_window(rd, off, Some(len));
            if let Err(e) = w.read_to_end(&mut buf) {
                fail!("window {off:#x}+{len:#x}: read failed: {e}");
            }
            if let Some(d) = diff(&buf, range(&h.flat, off, len)) {
                fail!("window {off:#x}+{len:#x}: {d}");
            }
        }
        Q::Bi2 => sys(pi.read_bi2(rd), &h.bi2, "bi2")?,
        Q::App => sys(pi.read_apploader(rd), &h.app, "apploader")?,
        Q::Dol => sys(pi.read_dol(rd), &h.dol, "DOL")?,
        Q::Tmd => sys(pi.read_tmd(rd).map(|t| ser(&t)), &h.spec.tmd, "TMD")?,
        Q::Certs => sys(pi.read_certificates(rd).map(|t| ser(&t)), &h.spec.certs, "certificate chain")?,
    }
    Ok(())
}
fn sys(r: binrw::BinResult<Vec<u8>>, want: &[u8], what: &str) -> R<()> {
    match r {
        Err(e) => fail!("{what} cannot be read: {e}"),
        Ok(b) => {
            if let Some(d) = diff(&b, want) {
                fail!("{what} differs: {d}");
            }
            Ok(())
        }
    }
}
fn find(t: &[Node], path: &str) -> R<(u64, u64)> {
    for (p, off, len) in node_files(t) {
        if p.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>().join("/") == path {
            return Ok((off, len as u64));
        }
    }
    Err(Stop::Engine(format!("no file {path}")))
}

fn run(ctx: &Ctx, variant: usize, ops: &dyn Fn(&Hand) -> Vec<Q>, depth: usize) -> R {
    let d = disc10(variant);
    let (mut rd, mut parts) = open_all(&d.img, 2)?;
    ensure!(ser(rd.get_header()) == d.header, "disc header differs");
    let mut hist = variant as u64;
    for i in 0..depth {
        let p = ctx.choose(2);
        let list = ops(&d.parts[p]);
        let k = ctx.choose(list.len());
        let q = list[k];
        ctx.note(|| format!("partition {p}: {q:?}"));
        hist = mix(hist, (p * 1000 + k + 1) as u64);
        apply(ctx, &mut rd, &mut parts[p], &d.parts[p], q)?;
        let pos: Vec<u64> = (0..2).map(|k| parts[k].get_crypto_reader(&mut rd).stream_position().unwrap_or(0)).collect();
        ctx.state(mix(mix(mix(variant as u64, pos[0]), pos[1]), mix(i as u64, p as u64)));
    }
    ctx.nontrivial();
    ctx.observe(hist);
    Ok(())
}

fn wide_ops(h: &Hand) -> Vec<Q> {
    let n = h.flat.len() as u64;
    let (b, g) = (BD as u64, GD as u64);
    let mut v = vec![];
    let pos = [0, 1, b - 1, b, 8 * b - 3, g - b - 1, g - 1, g, g + 63 * b + 5, 2 * g - 3, n - b - 7, n - 1, n, n + 5, 1 << 33, (1 << 62) + 3, 1 << 63, u64::MAX];
    v.extend(pos.iter().map(|p| Q::Seek(*p)));
    v.extend([-1i64, 1, b as i64, -(g as i64), 0].map(Q::SeekRel));
    v.push(Q::SeekEnd);
    v.extend([0usize, 1, 7, BD, BD + 1, GD, GD + 2, 4 * GD].map(Q::Read));
    for p in pos {
        for l in [0, 1, b - 1, b + 1, g + 2, 3 * g + 5] {
            v.push(Q::Vec(p, l));
        }
    }
    for f in ["a", "block", "dir/empty", "dir/rows", "tail", "over", "group", "wide"] {
        v.push(Q::File(f));
    }
    for at in [0, 1, b - 8, b, 2 * b + 15, 2 * b + 16, 2 * b + 17] {
        v.push(Q::FileAt("dir/rows", at, 40));
        v.push(Q::FileAt("wide", 0x1FF0 + at, BD + 40));
    }
    v.extend([Q::Window(g - 2, 5), Q::Window(n - 3, 9), Q::Window(n + 8, 4), Q::Window(0, b)]);
    v.extend([Q::Bi2, Q::App, Q::Dol, Q::Tmd, Q::Certs]);
    v
}
fn narrow_ops(h: &Hand) -> Vec<Q> {
    let n = h.flat.len() as u64;
    let (b, g) = (BD as u64, GD as u64);
    vec![Q::Seek(g - 2), Q::Seek(n - b - 1), Q::SeekRel(b as i64), Q::Read(5), Q::Read(GD + 1), Q::Vec(g + b - 1, b + 2), Q::File("dir/rows"), Q::FileAt("tail", 3, 4), Q::App, Q::Tmd]
}
fn h10_wide(ctx: &Ctx) -> R {
    let v = ctx.choose(3);
    run(ctx, v, &wide_ops, if ctx.thorough() { 2 } else { 1 })
}
/// every operation of the wide list followed by a read at the position it left
/// and a positioned read
fn h10_then(ctx: &Ctx) -> R {
    let v = ctx.choose(3);
    let d = disc10(v);
    let (mut rd, mut parts) = open_all(&d.img, 2)?;
    let p = ctx.choose(2);
    let list = wide_ops(&d.parts[p]);
    let q = *ctx.pick(&list);
    ctx.note(|| format!("partition {p}: {q:?}, then reads"));
    apply(ctx, &mut rd, &mut parts[p], &d.parts[p], q)?;
    if matches!(q, Q::Seek(_)) {
        let rel = *ctx.pick(&[0, 1, -1, BD as i64, -(GD as i64), 1 << 40, -(1 << 40), i64::MAX, i64::MIN, i64::MIN + 1]);
        ctx.note(|| format!("then by {rel}"));
        apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::SeekRel(rel))?;
    }
    let l = *ctx.pick(&[3usize, BD + 1, GD + 1]);
    apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::Read(l))?;
    apply(ctx, &mut rd, &mut parts[1 - p], &d.parts[1 - p], Q::Read(l))?;
    apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::Read(l))?;
    apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::Vec(BD as u64 - 1, 4))?;
    ctx.nontrivial();
    ctx.state(mix(v as u64, mix(p as u64, l as u64)));
    Ok(())
}
/// System files of many layouts and sizes, read in any order, between other reads.
fn h10_system(ctx: &Ctx) -> R {
    use crate::handimg::{make, HandPart, INNER, OUTER};
    ctx.nontrivial();
    let mut p = HandPart::new(*ctx.pick(&[0u32, 2]), 33, vec![T::f("a", 1, 0x123), T::d("d", vec![T::f("b", 2, 0x8001)])]);
    match ctx.choose(4) {
        0 => {
            p.dol = o::dol(*ctx.pick(&[0x100usize, 0x101, 0x7C00, 0x8123, GD - 0x100, GD, GD + 0x4321]), *ctx.pick(&[1usize, 7, 8, 18, 21, 22, 23, 24, 25, 26, 27, 28]), 7);
        }
        1 => {
            let (a, b) = *ctx.pick(&[(0usize, 0usize), (1, 0), (0, 1), (0x20, 0x7BA0), (0x8123, 5), (5, 0x8123), (GD, 0), (GD - 0x2460, 1), (0x100, GD)]);
            p.app = o::apploader(a, b, 8);
        }
        2 => p.tmd = o::tmd(*ctx.pick(&[1usize, 2, 3, 16, 255, 256, 257, 512]), 9),
        _ => {
            let (a, b) = (ctx.choose(6), ctx.choose(6));
            let kind = |k: usize, seed: u8| o::cert(k % 3, k / 3, seed);
            p.certs = [kind(a, 4), kind(b, 5), kind(1, 6)].concat();
        }
    }
    p.inner = ctx.choose(INNER);
    p.outer = ctx.choose(OUTER);
    let m = make(&[p]);
    let w = &m.parts[0];
    let (mut rd, mut parts) = open_all(&m.img, 1)?;
    ensure!(ser(parts[0].get_encrypted_header()) == w.boot, "the partition's own header differs");
    let mut h = 0;
    for i in 0..3 {
        let k = ctx.choose(if i == 1 { 5 } else { 1 }) + i;
        ctx.step();
        let pi = &mut parts[0];
        match k % 5 {
            0 => sys(pi.read_dol(&mut rd), &w.dol, "DOL")?,
            1 => sys(pi.read_apploader(&mut rd), &w.app, "apploader")?,
            2 => sys(pi.read_tmd(&mut rd).map(|t| ser(&t)), &w.tmd, "TMD")?,
            3 => sys(pi.read_certificates(&mut rd).map(|t| ser(&t)), &w.certs, "certificate chain")?,
            _ => sys(pi.read_bi2(&mut rd), &w.bi2, "bi2")?,
        }
        h = mix(h, k as u64);
        let mut buf = vec![];
        match pi.open_file(&mut rd, "d/b") {
            None => fail!("file d/b cannot be opened"),
            Some(mut f) => {
                if let Err(e) = f.read_to_end(&mut buf) {
                    fail!("file d/b cannot be read: {e}");
                }
            }
        }
        if let Some(d) = diff(&buf, o::content(2, 0x8001)) {
            fail!("file d/b after a system file: {d}");
        }
    }
    ctx.state(mix(h, hash_bytes(&m.img[..0x60000])));
    ctx.observe(mix(h, (w.dol.len() + w.app.len() * 3 + w.tmd.len() * 5) as u64));
    Ok(())
}
fn h10_deep(ctx: &Ctx) -> R {
    let v = ctx.choose(3);
    run(ctx, v, &narrow_ops, ctx.by_tier(3, 4))
}

/// Partitions and files far beyond 4 GiB, in a sparse image.
fn h10_far(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let poff: u64 = *ctx.pick(&[0x50000u64, 0xFFFF_8000, 0x1_0000_0000, 0x2_8765_0000]);
    let fgroup: u64 = *ctx.pick(&[2047u64, 2048, 2113, 2114, 2115, 4097]);
    let delta: u64 = *ctx.pick(&[0u64, 4, BD as u64 - 4, GD as u64 - 8]);
    let foff = fgroup * GD as u64 + delta;
    ctx.note(|| format!("partition at {poff:#x}, file at {foff:#x}"));
    ctx.state(poff ^ foff);
    let len = 0x5000usize;
    let tree = vec![Node::File { name: b"far".to_vec(), off: foff, len: len as u32 }];
    let d = DataSpec {
        header: o::disc_header(b"Far", 5),
        bi2: vec![],
        apploader: o::apploader(1, 1, 3),
        dol_off: 0x4000,
        dol: o::dol(0x200, 2, 4),
        fst_off: 0x6000,
        tree,
        files: vec![],
        total: GD,
    };
    let mut spec = PartSpec::new(0, poff, 7, d.build());
    spec.data_size = (fgroup + 2) * GD as u64;
    let mut pf = PageFile::new();
    for (off, b) in o::front(&o::disc_header(b"Far", 5), &o::region(1), &[&[(poff, 0)]]) {
        pf.put(off, &b);
    }
    for (off, b) in spec.pieces() {
        pf.put(off, &b);
    }
    let mut enc = vec![];
    let plain = o::content(8, 2 * GD);
    o::encode_group(&plain[..GD], &spec.key, &mut enc);
    o::encode_group(&plain[GD..], &spec.key, &mut enc);
    pf.put(poff + 0x20000 + fgroup * o::GS as u64, &enc);
    ctx.steps(4);
    let mut rd = match WiiIsoReader::open(pf) {
        Ok(r) => r,
        Err(e) => fail!("a valid image cannot be opened: {e}"),
    };
    let e = rd.partitions()[0].clone();
    ensure!(e.get_offset() == poff, "partition offset {:#x} is reported as {:#x}", poff, e.get_offset());
    let mut pi = match rd.open_partition(e) {
        Ok(p) => p,
        Err(e) => fail!("a valid partition cannot be opened: {e}"),
    };
    let want = &plain[delta as usize..delta as usize + len];
    let mut buf = vec![];
    if let Err(e) = pi.get_crypto_reader(&mut rd).read_into_vec(foff, len as u64, &mut buf) {
        fail!("positioned read at {foff:#x} failed: {e}");
    }
    if let Some(d) = diff(&buf, want) {
        fail!("positioned read at {foff:#x}: {d}");
    }
    buf.clear();
    match pi.open_file(&mut rd, "far") {
        None => fail!("file far cannot be opened"),
        Some(mut f) => {
            if let Err(e) = f.read_to_end(&mut buf) {
                fail!("file at {foff:#x}: {e}");
            }
        }
    }
    if let Some(d) = diff(&buf, want) {
        fail!("file at {foff:#x}: {d}");
    }
    Ok(())
}

/// A partition of many groups.
const MANY: usize = 12;
fn disc10_many() -> &'static Disc {
    static D: OnceLock<Disc> = OnceLock::new();
    D.get_or_init(|| {
        let p0 = hand(0, 0x50000, 21, MANY, 0x40);
        let off = (p0.spec.end() + 0x7FFF) / 0x8000 * 0x8000;
        make(vec![p0, hand(1, off, 42, 2, 0)])
    })
}
/// All sequences of three (four) groups, and the last group of the other partition in between.
fn h10_groups(ctx: &Ctx) -> R {
    let d = disc10_many();
    let (mut rd, mut parts) = open_all(&d.img, 2)?;
    let between = ctx.flag();
    let mut h = between as u64;
    for i in 0..ctx.by_tier(3, 4) {
        let g = ctx.choose(MANY) as u64;
        let at = g * GD as u64 + [3, BD as u64 * 40 - 2, GD as u64 - 9, 0x9000][i % 4];
        ctx.note(|| format!("group {g}: {at:#x}"));
        if i % 2 == 0 {
            apply(ctx, &mut rd, &mut parts[0], &d.parts[0], Q::Vec(at, 8))?;
        } else {
            apply(ctx, &mut rd, &mut parts[0], &d.parts[0], Q::Seek(at))?;
            apply(ctx, &mut rd, &mut parts[0], &d.parts[0], Q::Read(8))?;
        }
        if between {
            apply(ctx, &mut rd, &mut parts[1], &d.parts[1], Q::Vec((g % 2) * GD as u64 + 0x8005, 5))?;
        }
        h = mix(h, g + 1);
        ctx.state(h);
    }
    ctx.nontrivial();
    ctx.observe(h);
    Ok(())
}
/// Every block of every group, with reads that start, end or lie at its borders.
fn h10_blocks(ctx: &Ctx) -> R {
    let v = ctx.choose(3);
    let d = disc10(v);
    let (mut rd, mut parts) = open_all(&d.img, 2)?;
    let g = ctx.choose(3) as u64;
    let kind = ctx.choose(3);
    let b = BD as u64;
    ctx.note(|| format!("every block of group {g} of variant {v}, way {kind}"));
    for block in 0..64u64 {
        for off in [0, 1, 0x3FF, 0x400, b - 1] {
            let at = g * GD as u64 + block * b + off;
            for n in [1u64, 2, 0x400, b, b + 1] {
                match kind {
                    0 => apply(ctx, &mut rd, &mut parts[0], &d.parts[0], Q::Vec(at, n))?,
                    1 => {
                        apply(ctx, &mut rd, &mut parts[0], &d.parts[0], Q::Seek(at))?;
                        apply(ctx, &mut rd, &mut parts[0], &d.parts[0], Q::Read(n as usize))?;
                    }
                    _ => apply(ctx, &mut rd, &mut parts[0], &d.parts[0], Q::Window(at, n))?,
                }
            }
        }
        ctx.state(mix(v as u64, mix(g, block * 3 + kind as u64)));
    }
    ctx.nontrivial();
    ctx.observe(g);
    Ok(())
}
/// Long histories: one operation over and over, and whole partitions read in steps.
fn h10_again(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let d = disc10(0);
    let (mut rd, mut parts) = open_all(&d.img, 2)?;
    let p = ctx.choose(2);
    if ctx.flag() {
        let list = wide_ops(&d.parts[p]);
        let k = ctx.choose(list.len());
        let q = list[k];
        ctx.note(|| format!("partition {p}: {q:?} again and again"));
        // what moves or is slow a few times, what is quick often
        let times = if matches!(q, Q::Read(_) | Q::SeekRel(_) | Q::File(_)) || matches!(q, Q::Vec(_, l) if l > BD as u64 * 2) { 9 } else { 300 };
        for _ in 0..times {
            match apply(ctx, &mut rd, &mut parts[p], &d.parts[p], q) {
                Err(Stop::Prune) => break,
                x => x?,
            }
        }
        apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::Read(5))?;
        apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::App)?;
        ctx.state(mix(p as u64, k as u64));
        ctx.observe(k as u64);
    } else {
        let step = *ctx.pick(&[0x3E1usize, 0x1000, 0x4001, BD - 1, BD, BD + 1, 0x10000, 5 * BD + 3, GD - 1, GD, GD + 1, 2 * GD]);
        let way = ctx.choose(3);
        ctx.note(|| format!("partition {p} in steps of {step:#x}, way {way}"));
        let n = d.parts[p].flat.len();
        let steps = n.div_ceil(step) + 1;
        for i in 0..steps {
            match way {
                0 => apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::Read(step))?,
                1 => apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::Vec((i * step) as u64, step as u64))?,
                _ => {
                    apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::Seek(((steps - 1 - i) * step) as u64))?;
                    apply(ctx, &mut rd, &mut parts[p], &d.parts[p], Q::Read(step))?;
                }
            }
        }
        ctx.state(mix(p as u64 + 2, (step * 3 + way) as u64));
        ctx.observe(step as u64);
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn disc12() -> &'static Disc {
    static D: OnceLock<Disc> = OnceLock::new();
    D.get_or_init(|| {
        let mut h = hand(0, 0x50000, 33, 2, 0);
        // wherever reading leaves the source there is something else that looks right, so
        // that a lost seek does not end in a parse error
        let (t, c) = (h.spec.tmd.len() as u64, h.spec.certs.len() as u64);
        h.spec.tmd_off = 0x400;
        h.spec.cert_off = h.spec.tmd_off + t + c + 8;
        h.spec.h3_off = 0x8000;
        h.spec.data_off = 0x20000;
        let base = h.spec.offset;
        let end = h.spec.end();
        let decoys = [
            (base + h.spec.tmd_off + t, o::certs_default(98)),
            (base + h.spec.cert_off + c, o::tmd(1, 97)),
            (end, o::tmd(1, 96)),
            (START12, o::disc_header(b"Another disc", 92)),
        ];
        let header = o::disc_header(b"Hand made disc", 91);
        let mut table = vec![0u8; 0x400];
        for (g, (at, list)) in TABLE12.iter().enumerate() {
            o::put32(&mut table, g * 8, list.len() as u32);
            o::put32(&mut table, g * 8 + 4, ((0x40000 + at) >> 2) as u32);
            for (i, (off, ty)) in list.iter().enumerate() {
                o::put32(&mut table, at + i * 8, (off >> 2) as u32);
                o::put32(&mut table, at + i * 8 + 4, *ty);
            }
        }
        let mut pieces = vec![(0, header.clone()), (0x40000, table), (0x4E000, o::region(17).to_vec())];
        pieces.extend(decoys);
        pieces.extend(h.spec.pieces());
        Disc { img: o::assemble(&pieces), parts: vec![h], header }
    })
}
/// Groups of the partition table: place in the table, entries. Zeros follow every group.
const TABLE12: [(usize, &[(u64, u32)]); 4] = [(0x100, &[(0x50000, 0)]), (0x200, &[(0x900000, 1), (0xA00000, 0)]), (0x300, &[]), (0x80, &[(0xB00000, 2)])];

/// Where the source stands before it is opened.
const START12: u64 = 0x20000;
fn source12(img: Vec<u8>) -> MemFile {
    let mut f = MemFile::with(img);
    f.pos = START12;
    f
}

/// How often an operation may be repeated before the harness gives up.
const TRIES: usize = 8;

struct Hits {
    soft: Cell<u32>,
    hard: Cell<u32>,
    log: RefCell<Vec<String>>,
}

/// Runs `f` until it succeeds; every failure must be explained by a hard fault
/// injected since the last try.
fn retry<X>(ctx: &Ctx, hits: &Hits, what: &str, mut f: impl FnMut() -> R<Result<X, String>>) -> R<X> {
    for _ in 0..TRIES {
        let hard = hits.hard.get();
        ctx.step();
        match f()? {
            Ok(x) => return Ok(x),
            Err(e) => {
                ensure!(
                    hits.hard.get() > hard,
                    "{what} fails ({e}) although the source only showed {:?}",
                    hits.log.borrow()
                );
                ctx.observe_str(&e);
                ctx.note(|| format!("{what} failed: {e}; repeated"));
            }
        }
    }
    Err(Stop::Engine("a fault persists".into()))
}
fn es<X, E: std::fmt::Display>(r: Result<X, E>) -> Result<X, String> {
    r.map_err(|e| e.to_string())
}

fn program(ctx: &Ctx, src: Faulty, hits: &Hits, only: Option<usize>) -> R<()> {
    let d = disc12();
    let h = &d.parts[0];
    let mut rd = retry(ctx, hits, "opening the image", || Ok(es(WiiIsoReader::open(src.clone()))))?;
    ensure!(ser(rd.get_header()) == d.header, "wrong disc header after {:?}", hits.log.borrow());
    ensure!(rd.get_region() == &o::region(17), "wrong region after {:?}", hits.log.borrow());
    let list = rd.partitions().to_vec();
    let all: Vec<(u64, u32)> = TABLE12.iter().flat_map(|(_, l)| l.iter().copied()).collect();
    let got: Vec<(u64, u32)> = list.iter().map(|e| (e.get_offset(), e.get_type() as u32)).collect();
    ensure!(got == all, "wrong partition list after {:?}", hits.log.borrow());
    let rdc = RefCell::new(&mut rd);
    let mut pi = retry(ctx, hits, "opening the partition", || Ok(es(rdc.borrow_mut().open_partition(list[0].clone()))))?;
    ensure!(ser(pi.get_encrypted_header()) == h.header, "wrong partition header after {:?}", hits.log.borrow());
    ensure!(ser(&pi.get_partition_header().ticket) == h.spec.ticket(), "wrong ticket after {:?}", hits.log.borrow());
    ensure!(lib_tree(pi.get_fst().get_entries()) == h.tree, "wrong file tree after {:?}", hits.log.borrow());
    let pic = RefCell::new(&mut pi);
    let same = |got: &[u8], want: &[u8], what: &str| -> R<()> {
        match diff(got, want) {
            None => Ok(()),
            Some(x) => viol(format!("{what}: wrong data after {:?}: {x}", hits.log.borrow())),
        }
    };
    let want = |k: usize| only.is_none() || only == Some(k);
    for _ in 0..2 {
        if !want(0) {
            break;
        }
        let t = retry(ctx, hits, "reading the TMD", || Ok(es(pic.borrow_mut().read_tmd(*rdc.borrow_mut()))))?;
        same(&ser(&t), &h.spec.tmd, "TMD")?;
        let t = retry(ctx, hits, "reading the certificates", || Ok(es(pic.borrow_mut().read_certificates(*rdc.borrow_mut()))))?;
        same(&ser(&t), &h.spec.certs, "certificates")?;
    }
    if want(1) {
        // afterwards the source is at the end of the last group
        let mut buf = vec![];
        retry(ctx, hits, "positioned read", || Ok(es(pic.borrow_mut().get_crypto_reader(*rdc.borrow_mut()).read_into_vec(GD as u64 + 1, 5, &mut buf))))?;
        same(&buf, range(&h.flat, GD as u64 + 1, 5), "positioned read")?;
        let t = retry(ctx, hits, "reading the TMD", || Ok(es(pic.borrow_mut().read_tmd(*rdc.borrow_mut()))))?;
        same(&ser(&t), &h.spec.tmd, "TMD")?;
    }
    if want(2) {
        // the last group is cached afterwards, so the first one must be loaded again
        let mut buf = vec![];
        retry(ctx, hits, "positioned read", || Ok(es(pic.borrow_mut().get_crypto_reader(*rdc.borrow_mut()).read_into_vec(GD as u64 - 9, 30, &mut buf))))?;
        same(&buf, range(&h.flat, GD as u64 - 9, 30), "positioned read")?;
        let b = retry(ctx, hits, "reading bi2", || Ok(es(pic.borrow_mut().read_bi2(*rdc.borrow_mut()))))?;
        same(&b, &h.bi2, "bi2")?;
    }
    if want(3) {
        let mut buf = vec![];
        retry(ctx, hits, "positioned read", || Ok(es(pic.borrow_mut().get_crypto_reader(*rdc.borrow_mut()).read_into_vec(GD as u64 + 9, 3, &mut buf))))?;
        same(&buf, range(&h.flat, GD as u64 + 9, 3), "positioned read")?;
        let b = retry(ctx, hits, "reading the apploader", || Ok(es(pic.borrow_mut().read_apploader(*rdc.borrow_mut()))))?;
        same(&b, &h.app, "apploader")?;
        let mut buf = vec![];
        retry(ctx, hits, "positioned read", || Ok(es(pic.borrow_mut().get_crypto_reader(*rdc.borrow_mut()).read_into_vec(GD as u64 + 19, 3, &mut buf))))?;
        let b = retry(ctx, hits, "reading the DOL", || Ok(es(pic.borrow_mut().read_dol(*rdc.borrow_mut()))))?;
        same(&b, &h.dol, "DOL")?;
    }
    if want(4) {
        for f in ["group", "dir/rows", "wide", "tail"] {
            let (off, len) = find(&h.tree, f)?;
            let b = retry(ctx, hits, "reading a file", || {
                let (mut p, mut r) = (pic.borrow_mut(), rdc.borrow_mut());
                let Some(mut w) = p.open_file(*r, f) else { return viol(format!("file {f} cannot be opened")) };
                let mut b = vec![];
                Ok(es(w.read_to_end(&mut b)).map(|_| b))
            })?;
            same(&b, range(&h.flat, off, len), f)?;
        }
    }
    if want(5) {
        // sequential reads; a failed read must not move the position
        let (off, end) = (GD as u64 - 2 * BD as u64 - 5, GD as u64 + BD as u64 + 9);
        retry(ctx, hits, "seeking", || Ok(es(pic.borrow_mut().get_crypto_reader(*rdc.borrow_mut()).seek(SeekFrom::Start(off)))))?;
        let mut pos = off;
        while pos < end {
            let mut buf = vec![0u8; BD + 1];
            let n = retry(ctx, hits, "sequential read", || {
                let (mut p, mut r) = (pic.borrow_mut(), rdc.borrow_mut());
                let mut c = p.get_crypto_reader(*r);
                let x = es(c.read(&mut buf));
                if x.is_err() {
                    let now = c.stream_position().unwrap_or(u64::MAX);
                    ensure!(now == pos, "a failed read at {pos:#x} moved the position to {now:#x} after {:?}", hits.log.borrow());
                }
                Ok(x)
            })?;
            ensure!(n > 0, "sequential read at {pos:#x} ends early after {:?}", hits.log.borrow());
            same(&buf[..n], range(&h.flat, pos, n as u64), "sequential read")?;
            pos += n as u64;
        }
    }
    Ok(())
}

/// Decides how one operation of the source behaves and keeps count.
fn misbehave(ctx: &Ctx, hits: &Hits, n: &Cell<u64>, op: Op, len: usize) -> Act {
    n.set(n.get() + 1);
    let acts: &[Act] = match op {
        Op::Read if len > 1 => &[Act::Ok, Act::Fail, Act::Intr, Act::Half, Act::Zero, Act::One],
        Op::Read if len == 1 => &[Act::Ok, Act::Fail, Act::Intr, Act::Zero],
        Op::Seek => &[Act::Ok, Act::Fail, Act::Intr],
        _ => &[Act::Ok],
    };
    let a = acts[ctx.choose_dev(acts.len())];
    if a != Act::Ok {
        let soft = matches!(a, Act::One | Act::Half) || (a == Act::Intr && op == Op::Read);
        let c = if soft { &hits.soft } else { &hits.hard };
        c.set(c.get() + 1);
        hits.log.borrow_mut().push(format!("operation {} ({op:?}, {len} bytes): {a:?}", n.get()));
    }
    a
}
/// A table read on its own, with another table at the start of the file so that
/// a lost seek finds something plausible.
fn h12_table(ctx: &Ctx) -> R {
    let f = |n: &str, off: u64, len: u32| Node::File { name: n.as_bytes().to_vec(), off, len };
    let decoy = vec![f("wrong", 0x1000, 9), f("worse", 0x2000, 10)];
    let tree = vec![
        f("a", 0x8000, 5),
        Node::Dir { name: b"dir".to_vec(), kids: vec![f("inner.bin", 0x9000, 77), Node::Dir { name: b"deep".to_vec(), kids: vec![f("z", 0, 0)] }] },
        f("last", 0x3_0000_0000, 0xFFFF_FFFF),
    ];
    const AT: u64 = 0x400;
    let mut file = o::encode_fst(&decoy);
    file.resize(AT as usize, 0x61);
    file.extend(o::encode_fst(&tree));
    file.extend([0x62; 64]);
    let hits = Rc::new(Hits { soft: Cell::new(0), hard: Cell::new(0), log: RefCell::new(vec![]) });
    let n = Cell::new(0);
    let src = RefCell::new(Faulty::new(MemFile::with(file), |op, len| misbehave(ctx, &hits, &n, op, len)));
    let fst = retry(ctx, &hits, "reading a table", || Ok(es(Fst::read(&mut *src.borrow_mut(), AT))))?;
    let got = lib_tree(fst.get_entries());
    ensure!(got == tree, "reading a table gives {got:?} after {:?}", hits.log.borrow());
    ctx.note(|| format!("{:?} of {} operations", hits.log.borrow(), n.get()));
    ctx.state(hash_bytes(hits.log.borrow().join(",").as_bytes()));
    if hits.soft.get() + hits.hard.get() > 0 {
        ctx.nontrivial();
    }
    Ok(())
}
thread_local!(static SRC: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) });
fn faults(ctx: &Ctx, only: Option<usize>) -> R {
    let hits = Rc::new(Hits { soft: Cell::new(0), hard: Cell::new(0), log: RefCell::new(vec![]) });
    let n = Cell::new(0);
    // reuse one buffer per worker for the image
    let img = SRC.with(|s| s.borrow_mut().take()).unwrap_or_else(|| disc12().img.clone());
    let src = Faulty::new(source12(img), |op, len| misbehave(ctx, &hits, &n, op, len));
    let r = program(ctx, src.clone(), &hits, only);
    ctx.note(|| format!("{:?} of {} operations", hits.log.borrow(), n.get()));
    ctx.state(hash_bytes(hits.log.borrow().join(",").as_bytes()));
    if hits.soft.get() + hits.hard.get() > 0 {
        ctx.nontrivial();
    }
    let v = std::mem::take(&mut src.0.borrow_mut().file.data);
    SRC.with(|s| *s.borrow_mut() = Some(v));
    r
}
fn h12_all(ctx: &Ctx) -> R {
    faults(ctx, None)
}
fn h12_pairs(ctx: &Ctx) -> R {
    let k = ctx.choose(6);
    faults(ctx, Some(k))
}
fn h12_always(ctx: &Ctx) -> R {
    let a = *ctx.pick(&[Act::Half, Act::One, Act::Intr]);
    let period = 1 + ctx.choose(4) as u64;
    let hits = Rc::new(Hits { soft: Cell::new(1), hard: Cell::new(0), log: RefCell::new(vec![format!("every {period}. read {a:?}")]) });
    let (count, last) = (Cell::new(0u64), Cell::new(false));
    let src = Faulty::new(source12(disc12().img.clone()), |op, len| {
        if op != Op::Read || len == 0 {
            return Act::Ok;
        }
        count.set(count.get() + 1);
        if count.get() % period != 0 {
            return Act::Ok;
        }
        match a {
            Act::One if len > 0x1000 => Act::Half,
            Act::Intr => {
                last.set(!last.get());
                if last.get() { Act::Intr } else { Act::Ok }
            }
            a => a,
        }
    });
    ctx.nontrivial();
    ctx.note(|| hits.log.borrow().join(""));
    ctx.state(hash_bytes(hits.log.borrow().join("").as_bytes()));
    program(ctx, src, &hits, None)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            level: "model_checking",
            rule: "each execution opens a hand-made image of two partitions and runs one sequence of reader operations on the real reader next to a flat array; a state is a distinct pair of stream positions reached, a transition one reader call",
            bounds: "all sequences of 1 (quick) / 2 (thorough) out of 135 operations per partition, each also followed by four reads; all sequences of 3 / 4 out of 10 operations per partition; system files of 12 DOL layouts x 7 sizes, 9 apploaders, 8 TMDs and 36 certificate chains in 20 arrangements, read in 5 orders between file reads; all sequences of 3 / 4 out of 12 groups with or without another partition in between; every block x 5 offsets x 5 lengths x 3 ways; each of the 135 operations up to 300 times in a row; whole partitions in 12 step sizes x 3 ways; data sizes ending at a group, at a block and inside a block; partitions and files up to 10 GiB in sparse images",
            assumptions: &["hand-made images are encoded by the harness's own encoder"],
            scenarios: vec![
                Scenario::new("wide", h10_wide),
                Scenario::new("then-read", h10_then),
                Scenario::new("deep", h10_deep),
                Scenario::new("system-files", h10_system),
                Scenario::new("groups", h10_groups),
                Scenario::new("blocks", h10_blocks),
                Scenario::new("again", h10_again),
                Scenario::new("far", h10_far),
            ],
        },
        Property {
            id: "C12",
            level: "fault_enumeration",
            rule: "one execution opens an image and reads everything from it while the source's operations behave as assigned; failed calls are repeated; non-trivial: at least one operation misbehaved",
            bounds: "every single fault (quick) and every pair of faults (thorough) at every read and seek of the source: failure, interruption, premature end, one-byte and half reads; up to two (quick) / three (thorough) faults while reading a table of its own; persistently short or interrupted sources",
            assumptions: &["hand-made images are encoded by the harness's own encoder"],
            scenarios: vec![
                Scenario::new("all", h12_all).dev(1, 1),
                Scenario::new("pairs", h12_pairs).dev(1, 2),
                Scenario::new("always", h12_always),
                Scenario::new("table", h12_table).dev(2, 3),
            ],
        },
    ]
}
