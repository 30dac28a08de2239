//! Images laid out by the oracle (not by the repository's builder) from trees
//! of named contents, with everything an extraction must produce.
use crate::common::*;
use mclib::oracle::{self as o, DataSpec, Node, PartSpec, GD};
use mclib::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lay {
    /// files in tree order, 64-byte aligned
    Seq,
    /// files in reverse tree order with gaps
    Rev,
    /// the first file starts at this offset, the others follow it tightly (multiples of 4)
    At(usize),
}
#[derive(Clone)]
pub struct HandPart {
    pub ptype: u32,
    pub seed: u8,
    /// names are raw bytes here
    pub tree: Vec<T>,
    pub lay: Lay,
    pub bi2: Vec<u8>,
    pub app: Vec<u8>,
    pub dol: Vec<u8>,
    pub tmd: Vec<u8>,
    pub certs: Vec<u8>,
    /// bytes by which the declared data size is below the stored one
    pub cut: u64,
    /// size the header claims for the file system table
    pub fst_claim: Option<u64>,
    /// where TMD, certificates, hash table and data lie in the partition, below `OUTER`
    pub outer: usize,
    /// how DOL, file system table and files follow each other, below `INNER`
    pub inner: usize,
    /// the group of the partition table that lists this partition (never decreasing)
    pub group: usize,
}
pub const OUTER: usize = 5;
pub const INNER: usize = 4;
/// Moves the parts of a partition that its header locates.
pub fn set_outer(spec: &mut PartSpec, outer: usize) {
    let up = |x: u64, a: u64| x.div_ceil(a) * a;
    let (t, c) = (spec.tmd.len() as u64, spec.certs.len() as u64);
    match outer {
        0 => spec.cert_off = up(spec.tmd_off + t, 0x20),
        // certificates first, nothing aligned to more than 4
        1 => {
            spec.cert_off = 0x2C0;
            spec.tmd_off = up(0x2C0 + c, 4) + 4;
        }
        // wide gaps
        2 => {
            spec.tmd_off = 0x400;
            spec.cert_off = up(0x400 + t, 0x1000) + 0x1000;
            spec.h3_off = up(spec.cert_off + c, 0x8000) + 0x8000;
            spec.data_off = up(spec.h3_off + 0x18000, 0x8000) + 0x10000;
        }
        // everything packed tightly
        3 => {
            spec.cert_off = up(spec.tmd_off + t, 4);
            spec.h3_off = up(spec.cert_off + c, 4);
            spec.data_off = spec.h3_off + 0x18000;
        }
        // all of it behind the data
        _ => {
            spec.data_off = 0x400;
            spec.h3_off = 0x400 + (spec.data.len() / GD * o::GS) as u64;
            spec.tmd_off = spec.h3_off + 0x18000;
            spec.cert_off = up(spec.tmd_off + t, 4);
        }
    }
}
impl HandPart {
    pub fn new(ptype: u32, seed: u8, tree: Vec<T>) -> Self {
        HandPart {
            ptype,
            seed,
            tree,
            lay: Lay::Seq,
            bi2: o::content(seed as usize + 1, 0x2000).to_vec(),
            app: o::apploader(0x123, 0x20, seed as usize + 2),
            dol: o::dol(0x234, 2, seed as usize + 3),
            tmd: o::tmd(1, seed),
            certs: o::certs_default(seed),
            cut: 0,
            fst_claim: None,
            outer: 0,
            inner: 0,
            group: 0,
        }
    }
}
/// Trees far larger or deeper than the enumerated ones.
pub const BIG: [usize; 16] = [1, 2, 4, 8, 9, 10, 16, 17, 20, 21, 32, 33, 64, 100, 128, 250];
/// Names that mean something elsewhere.
const ELSEWHERE: [&str; 48] = [
    ".DS_Store", "Thumbs.db", "desktop.ini", "__MACOSX", ".git", ".gitignore", "lost+found", "~$doc", "x.bak", "x.tmp", "x.swp", "x~", "._x", "CVS", "$RECYCLE.BIN",
    "System Volume Information", "@eaDir", "sys", "disc", "files", "DATA", "UPDATE", "CHANNEL", "boot.bin", "fst.bin", "main.dol", "ticket.bin", "root", "con", "NUL", "aux.txt",
    "com1", "index", "0", "-", "--", "-rf", "...", "null", "None", "x.iso", "THP2", "Demo", "core", "a.out", "#x#", "opening.bnr", "x.part",
];
/// Files and folders whose names begin with, contain and end with unusual characters or
/// mean something elsewhere, the n-th sixteenth of them.
pub fn odd(n: usize, dirs: bool) -> Vec<T> {
    let part = BIG.iter().position(|b| *b == n).unwrap_or(0);
    let all = (1..=0x7Fu8).map(char::from).filter(|c| *c != '/').chain("表ソ能ｱﾞ①ーあЯａ\u{3000}Ａ".chars());
    let mut t = vec![];
    for (i, c) in all.enumerate().filter(|x| x.0 % 16 == part) {
        t.push(T::f(&format!("{i}m{c}m"), i, 5));
        t.push(T::f(&format!("{c}b{i}"), i + 1, 6));
        t.push(T::f(&format!("{i}e{c}"), i + 2, 7));
        if dirs {
            t.push(T::d(&format!("{i}d{c}d"), vec![T::f(&format!("{c}{c}x{c}{c}"), i + 3, 8)]));
            t.push(T::d(&format!("{c}f{i}"), vec![T::f("x", i + 4, 9)]));
            t.push(T::d(&format!("{i}g{c}"), vec![T::f("y", i + 5, 1)]));
        }
    }
    for (i, name) in ELSEWHERE.iter().enumerate().filter(|x| x.0 % 16 == part) {
        t.push(T::f(name, i, 3));
        if dirs {
            t.push(T::d(&format!("{i}j"), vec![T::d(name, vec![T::f(name, i + 1, 2)])]));
        }
    }
    t
}
pub fn big(k: usize, n: usize) -> Vec<T> {
    let chain = |branch: bool| {
        let mut t = vec![T::f("leaf", 1, 3)];
        for i in 0..n {
            let d = T::d(&format!("d{i}"), t);
            t = if branch { vec![T::f("a", 2, 1), d, T::d("e", vec![T::f("x", 3, 2)]), T::f("z", 4, 1)] } else { vec![d] };
        }
        t
    };
    match k {
        0 => chain(false),
        1 => chain(true),
        // many files and folders side by side
        2 => (0..n * 20).map(|i| if i % 7 == 3 { T::d(&format!("n{i:04}"), vec![T::f("x", i % 40, 1)]) } else { T::f(&format!("n{i:04}"), i % 50, 1) }).collect(),
        // every character at every place of a name
        4 => odd(n, true),
        // many files in one folder behind others
        _ => vec![T::f("a", 1, 1), T::d("b", (0..n * 5).map(|i| T::f(&format!("m{i:04}"), i % 50, i % 3)).collect()), T::d("c", vec![T::f("a", 2, 2)]), T::f("d", 3, 3)],
    }
}

pub struct MadePart {
    pub ptype: u32,
    pub offset: u64,
    pub ticket: Vec<u8>,
    pub tmd: Vec<u8>,
    pub certs: Vec<u8>,
    pub boot: Vec<u8>,
    pub bi2: Vec<u8>,
    pub app: Vec<u8>,
    pub dol: Vec<u8>,
    pub fst: Vec<u8>,
    pub tree: Vec<T>,
}
pub struct Made {
    pub img: Vec<u8>,
    pub header: Vec<u8>,
    pub region: [u8; 32],
    pub parts: Vec<MadePart>,
}

/// Shift-JIS (the disc's encoding) of a name.
pub fn sjis(n: &str) -> Vec<u8> {
    encoding_rs::SHIFT_JIS.encode(n).0.into_owned()
}

fn place(t: &[T], at: &mut dyn FnMut(usize, usize) -> usize, files: &mut Vec<(usize, Vec<u8>)>) -> Vec<Node> {
    t.iter()
        .map(|n| match n {
            T::F { name, id, size, .. } => {
                let off = at(*id, *size);
                files.push((off, o::content(*id, *size).to_vec()));
                Node::File { name: sjis(name), off: off as u64, len: *size as u32 }
            }
            T::D { name, kids } => Node::Dir { name: sjis(name), kids: place(kids, at, files) },
        })
        .collect()
}

pub fn make(parts: &[HandPart]) -> Made {
    let header = o::disc_header(b"Made by hand", 0x77);
    let region = o::region(0x31);
    let mut pos = 0x50000u64;
    let mut specs = vec![];
    let mut made = vec![];
    for p in parts {
        let list = files(&p.tree);
        let fst_room = 12 * (count(&p.tree) + 1) + 8 + names(&p.tree);
        let mut end = 0x2440 + p.app.len();
        let mut take = |n: usize, align: usize| {
            let at = end.div_ceil(align) * align;
            end = at + n;
            at
        };
        let (mut dol_off, mut fst_off) = (0, 0);
        for what in [[0, 1], [1, 0], [2, 2], [1, 2]][p.inner] {
            match what {
                0 => dol_off = take(p.dol.len(), if p.inner == 0 { 0x100 } else { 4 }),
                1 => fst_off = take(fst_room, if p.inner == 0 { 0x100 } else { 4 }),
                _ => {}
            }
        }
        let start = take(0, 0x40);
        // decide on all offsets first
        let mut offs = vec![0usize; list.len()];
        let mut end = start;
        let order: Vec<usize> = if p.lay == Lay::Rev { (0..list.len()).rev().collect() } else { (0..list.len()).collect() };
        if let Lay::At(a) = p.lay {
            end = end.max(a & !3);
        }
        for i in order {
            offs[i] = end;
            let step = if matches!(p.lay, Lay::At(_)) { 3 } else { 0x3F };
            end = (end + list[i].2 + step) & !step;
            if p.lay == Lay::Rev {
                end += 0x1000;
            }
        }
        // what does not lie in front of the files lies behind them
        let mut take = |n: usize| {
            let at = end.div_ceil(4) * 4;
            end = at + n;
            at
        };
        if fst_off == 0 {
            fst_off = take(fst_room);
        }
        if dol_off == 0 {
            dol_off = take(p.dol.len());
        }
        let total = end.max(GD - 4).div_ceil(GD) * GD;
        let mut it = offs.iter();
        let mut fs = vec![];
        let tree = place(&p.tree, &mut |_, _| *it.next().unwrap_or(&0), &mut fs);
        let d = DataSpec {
            header: o::disc_header(b"Partition header", p.seed),
            bi2: p.bi2.clone(),
            apploader: p.app.clone(),
            dol_off,
            dol: p.dol.clone(),
            fst_off,
            tree,
            files: fs,
            total,
        };
        let mut data = d.build();
        let w = |x: usize| (o::be32(&data, x) as usize) << 2;
        let fst = data[w(0x424)..w(0x424) + w(0x428)].to_vec();
        if let Some(n) = p.fst_claim {
            o::put32(&mut data, 0x428, (n >> 2) as u32);
        }
        let mut spec = PartSpec::new(p.ptype, pos, p.seed, data);
        spec.tmd = p.tmd.clone();
        spec.certs = p.certs.clone();
        set_outer(&mut spec, p.outer);
        spec.data_size -= p.cut;
        made.push(MadePart {
            ptype: p.ptype,
            offset: pos,
            ticket: spec.ticket(),
            tmd: p.tmd.clone(),
            certs: p.certs.clone(),
            boot: spec.data[..0x440].to_vec(),
            bi2: bi2_expected(&p.bi2),
            app: p.app.clone(),
            dol: p.dol.clone(),
            fst,
            tree: p.tree.clone(),
        });
        pos = (spec.end() + 0x7FFF) & !0x7FFF;
        specs.push(spec);
    }
    let groups: Vec<Vec<(u64, u32)>> = (0..4)
        .map(|g| parts.iter().zip(&specs).filter(|(p, _)| p.group == g).map(|(_, s)| (s.offset, s.ptype)).collect())
        .collect();
    let groups: Vec<&[(u64, u32)]> = groups.iter().map(|g| g.as_slice()).collect();
    let mut pieces = o::front(&header, &region, &groups);
    for s in &specs {
        pieces.extend(s.pieces());
    }
    Made { img: o::assemble(&pieces), header, region, parts: made }
}
/// A data partition and its far file beyond 4 GiB, as pieces of a sparse image.
pub fn far(poff: u64, group: u64, delta: usize) -> (Vec<(u64, Vec<u8>)>, Made) {
    let header = o::disc_header(b"Far away", 0x78);
    let region = o::region(0x32);
    let len = 0x5003usize;
    let tree = vec![T::f("a", 1, 0x123), T::d("THP", vec![T::f("Demo.thp", 2, 0x8001), T::f("x", 3, 5)]), T::f("far", 8, len)];
    let far_off = group * GD as u64 + delta as u64;
    let mut fs = vec![];
    let mut at = 0x8000usize;
    let mut nodes = place(
        &tree,
        &mut |_, size| {
            at = (at + 0x3F) & !0x3F;
            at += size;
            at - size
        },
        &mut fs,
    );
    if let Some(Node::File { off, .. }) = nodes.last_mut() {
        *off = far_off;
    }
    fs.pop();
    let (app, dol, bi2) = (o::apploader(0x123, 0x21, 9), o::dol(0x301, 3, 10), o::content(11, 0x2000).to_vec());
    let d = DataSpec {
        header: o::disc_header(b"Far partition", 5),
        bi2: bi2.clone(),
        apploader: app.clone(),
        dol_off: 0x4000,
        dol: dol.clone(),
        fst_off: 0x6000,
        tree: nodes,
        files: fs,
        total: GD,
    };
    let data = d.build();
    let w = |x: usize| (o::be32(&data, x) as usize) << 2;
    let fst = data[w(0x424)..w(0x424) + w(0x428)].to_vec();
    let boot = data[..0x440].to_vec();
    let mut spec = PartSpec::new(0, poff, 7, data);
    spec.data_size = (group + 2) * GD as u64;
    let mut pieces = o::front(&header, &region, &[&[(poff, 0)]]);
    pieces.extend(spec.pieces());
    let mut plain = vec![0u8; 2 * GD];
    plain[delta..delta + len].copy_from_slice(o::content(8, len));
    let mut enc = vec![];
    o::encode_group(&plain[..GD], &spec.key, &mut enc);
    o::encode_group(&plain[GD..], &spec.key, &mut enc);
    pieces.push((poff + spec.data_off + group * o::GS as u64, enc));
    let part = MadePart {
        ptype: 0,
        offset: poff,
        ticket: spec.ticket(),
        tmd: spec.tmd.clone(),
        certs: spec.certs.clone(),
        boot,
        bi2,
        app,
        dol,
        fst,
        tree,
    };
    (pieces, Made { img: vec![], header, region, parts: vec![part] })
}
/// The places `far` is explored at.
pub fn far_choice(ctx: &Ctx) -> (u64, u64, usize) {
    let poff = *ctx.pick(&[0x50000u64, 0xFFFF_8000, 0x1_0000_0000, 0x2_1234_8000]);
    let group = *ctx.pick(&[1u64, 0x1_0000_0000 / GD as u64, 0x1_0000_0000 / GD as u64 + 1, 0x2_1000_0000 / GD as u64]);
    let delta = *ctx.pick(&[0usize, 4, GD - 8]);
    ctx.note(|| format!("partition at {poff:#x}, file far at {:#x}", group * GD as u64 + delta as u64));
    ctx.state(mix(poff, mix(group, delta as u64)));
    ctx.nontrivial();
    (poff, group, delta)
}
pub fn put_sparse(p: &std::path::Path, pieces: &[(u64, Vec<u8>)]) -> R<()> {
    use std::os::unix::fs::{FileExt, PermissionsExt};
    let f = crate::dirs::eng(std::fs::File::create(p))?;
    for (o, b) in pieces {
        crate::dirs::eng(f.write_all_at(b, *o))?;
    }
    crate::dirs::eng(f.set_permissions(std::fs::Permissions::from_mode(0o644)))
}
/// Damages a partition so that one of its system files reaches past the end of
/// the data. Returns what was done.
pub fn system_beyond(ctx: &Ctx, p: &mut HandPart) -> String {
    let over = *ctx.pick(&[4u32, 0x7C00, 0x1F_0000, 0x4000_0000]);
    // (the hand-made data of small partitions is one group long)
    match ctx.choose(11) {
        // sizes whose sum does not fit in 32 bits, and would be small without the overflow
        8 => {
            let (a, b) = *ctx.pick(&[(0xFFFF_FFF0u32, 0x20u32), (0x8000_0000, 0x8000_0000), (0x8000_0001, 0x8000_0100), (0x123, 0xFFFF_FFFF), (0xFFFF_FFFF, 1), (0xFFFF_FFE0, 0x20)]);
            o::put32(&mut p.app, 0x14, a);
            o::put32(&mut p.app, 0x18, b);
            format!("the apploader has {a:#x} and {b:#x} bytes")
        }
        k @ 9..=10 => {
            let (a, b) = *ctx.pick(&[(0xFFFF_FFF0u32, 0x20u32), (0x8000_0000, 0x8000_0000), (0x8000_0000, 0x8000_0200), (0x200, 0xFFFF_FFFF), (0xFFFF_FFFF, 1), (0x100, 0xFFFF_FF00)]);
            let i = if k == 9 { 1 } else { 16 };
            o::put32(&mut p.dol, i * 4, a);
            o::put32(&mut p.dol, 0x90 + i * 4, b);
            format!("section {i} of the DOL has {b:#x} bytes at {a:#x}")
        }
        0 => {
            let n = (GD - 0x2440 - 32 - 0x20) as u32 + over;
            p.app[0x14..0x18].copy_from_slice(&n.to_be_bytes());
            format!("the apploader ends {over:#x} bytes past the data")
        }
        1 => {
            let n = (GD - 0x2440 - 32 - 0x123) as u32 + over;
            p.app[0x18..0x1C].copy_from_slice(&n.to_be_bytes());
            format!("the apploader's trailer ends {over:#x} bytes past the data")
        }
        k @ 2..4 => {
            // text or data section
            let at = if k == 2 { 0x90 } else { 0x90 + 4 * 17 };
            let dol_off = (0x2440 + p.app.len() + 0xFF) & !0xFF;
            let (behind, n) = (p.dol.len() as u32, (GD - dol_off - p.dol.len()) as u32 + over);
            o::put32(&mut p.dol, at - 0x90, behind);
            o::put32(&mut p.dol, at, n);
            format!("the DOL ends {over:#x} bytes past the data")
        }
        4 => {
            let fst_off = ((0x2440 + p.app.len() + 0xFF) & !0xFF) + p.dol.len() + 0xFF & !0xFF;
            p.fst_claim = Some((GD - fst_off) as u64 + over as u64);
            format!("the file system table ends {over:#x} bytes past the data")
        }
        k => {
            // the declared data size ends inside bi2, apploader or DOL, so also before the table
            let end = [0x440 + 0x1000, 0x2440 + 0x100, 0x2440 + p.app.len() + 0x180][k - 5];
            p.cut = (GD - (end & !3)) as u64;
            format!("the data ends at {end:#x}, inside the system files")
        }
    }
}
fn count(t: &[T]) -> usize {
    t.iter().map(|n| 1 + if let T::D { kids, .. } = n { count(kids) } else { 0 }).sum()
}
fn names(t: &[T]) -> usize {
    t.iter().map(|n| sjis(n.name()).len() + 1 + if let T::D { kids, .. } = n { names(kids) } else { 0 }).sum()
}

pub fn section(t: u32) -> &'static str {
    ["DATA", "UPDATE", "CHANNEL"][t as usize]
}
/// The system files below the section directory.
pub fn system_files(m: &Made, p: &MadePart) -> Vec<(String, Vec<u8>)> {
    let f = |n: &str, b: &[u8]| (n.to_string(), b.to_vec());
    vec![
        f("sys/boot.bin", &p.boot),
        f("sys/bi2.bin", &p.bi2),
        f("sys/apploader.img", &p.app),
        f("sys/main.dol", &p.dol),
        f("sys/fst.bin", &p.fst),
        f("disc/header.bin", &m.header),
        f("disc/region.bin", &m.region),
        f("ticket.bin", &p.ticket),
        f("tmd.bin", &p.tmd),
        f("cert.bin", &p.certs),
    ]
}
/// Everything below a directory: path -> content (directories end in '/').
pub fn listing(dir: &std::path::Path) -> R<std::collections::BTreeMap<String, Vec<u8>>> {
    use std::os::unix::ffi::OsStrExt;
    let mut m = std::collections::BTreeMap::new();
    let mut todo = vec![(dir.to_path_buf(), String::new())];
    while let Some((d, pre)) = todo.pop() {
        for e in crate::dirs::made(std::fs::read_dir(&d))? {
            let e = crate::dirs::eng(e)?;
            let name = format!("{pre}{}", String::from_utf8_lossy(e.file_name().as_bytes()));
            let ft = crate::dirs::eng(e.file_type())?;
            if ft.is_dir() {
                todo.push((e.path(), format!("{name}/")));
                m.insert(format!("{name}/"), vec![]);
            } else if ft.is_symlink() {
                m.insert(format!("{name}@"), vec![]);
            } else {
                m.insert(name, crate::dirs::made(std::fs::read(e.path()))?);
            }
        }
    }
    Ok(m)
}
