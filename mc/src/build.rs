//! C01 (fidelity), C03 (hash chain), C04 (layout), C16 (progress): the same
//! families of disc definitions, judged by different oracles.
use crate::common::*;
use mclib::oracle::{self as o, be32, be64, diff, Image, BD, GD, GS};
use disc_riider::{builder::WiiDiscBuilder, structs::DiscHeader};
use mclib::*;

// ---------------------------------------------------------------- families

/// All ordered trees of up to `max` nodes; leaves are files or empty
/// directories. Sizes come from `sizes`, names are distinct per level.
fn gen_tree(ctx: &Ctx, left: &mut usize, depth: usize, counter: &mut usize, sizes: &[usize]) -> Vec<T> {
    let mut v = Vec::new();
    // how many siblings: decided one at a time
    loop {
        if *left == 0 {
            break;
        }
        match ctx.choose(3) {
            0 => break,
            1 => {
                *left -= 1;
                *counter += 1;
                let id = *counter;
                let size = *ctx.pick(sizes);
                v.push(T::f(&format!("{}f{id}.bin", (b'a' + v.len() as u8) as char), id, size));
            }
            _ => {
                *left -= 1;
                *counter += 1;
                let id = *counter;
                let name = format!("{}dir{id}", (b'a' + v.len() as u8) as char);
                let kids = if depth > 0 { gen_tree(ctx, left, depth - 1, counter, sizes) } else { vec![] };
                v.push(T::d(&name, kids));
            }
        }
    }
    v
}

fn fam_trees(ctx: &Ctx) -> R<DiscIn> {
    let mut left = ctx.by_tier(4, 5);
    let mut counter = 0;
    let sizes: &[usize] = if ctx.thorough() { &[0, 1, 0x7C41] } else { &[0, 0x41] };
    let tree = gen_tree(ctx, &mut left, 4, &mut counter, sizes);
    let mut d = Def::new(tree);
    d.owned = counter % 2 == 1;
    Ok(DiscIn::one(PartIn::new(0, 5, d)))
}

/// Item ends and starts around block, block-row and group boundaries.
fn fam_boundaries(ctx: &Ctx) -> R<DiscIn> {
    let app = o::apploader(0x1000, 0x400, 202);
    let fst_places: &[usize] = if ctx.thorough() {
        &[
            0, BD - 0x40, BD - 0x20, BD, BD + 0x20, 8 * BD - 0x20, 8 * BD, 63 * BD - 0x20, GD - 0x80, GD - 0x60,
            GD - 0x40, GD - 0x20, GD, GD + 0x20, 2 * GD - 0x40, 2 * GD,
        ]
    } else {
        &[0, BD - 0x20, 8 * BD, GD - 0x40, GD - 0x20, GD]
    };
    let fst_at = *ctx.pick(fst_places);
    let dol_size = if fst_at == 0 { 0x500 } else { dol_size_for_fst_at(app.len(), fst_at) };
    let ends: &[i64] = if ctx.thorough() {
        &[-0x80, -0x41, -0x40, -0x3F, -1, 0, 1, 0x3F, 0x40, 0x41, 0x80]
    } else {
        &[-0x40, -1, 0, 1]
    };
    let marks: &[usize] = if ctx.thorough() {
        &[BD, 8 * BD, GD, GD + BD, 2 * GD, 3 * GD]
    } else {
        &[BD, GD, 2 * GD]
    };
    // file 1: absent, empty, one byte, or ending at mark+delta
    let nfiles = *ctx.pick(&[1usize, 2, 0]);
    let mut tree: Vec<T> = Vec::new();
    for i in 0..nfiles {
        tree.push(T::f(&format!("file{i}"), i, 0));
    }
    let fst_off = nominal_fst_off(app.len(), dol_size);
    let mut pos = nominal_data_start(fst_off, &tree);
    for i in 0..nfiles {
        let size = if i == 0 {
            match ctx.choose(3) {
                0 => 0,
                1 => 1,
                _ => {
                    let m = *ctx.pick(marks);
                    let e = *ctx.pick(ends);
                    // the next such boundary after the start
                    let mut end = m as i64 + e;
                    while end <= pos as i64 {
                        end += GD as i64;
                    }
                    (end - pos as i64) as usize
                }
            }
        } else {
            let s2: &[usize] = if ctx.thorough() {
                &[0, 1, 0x40, BD, GD - 1, GD, GD + 1, 2 * GD, 2 * GD + 1]
            } else {
                &[0, 1, GD, GD + 1]
            };
            *ctx.pick(s2)
        };
        let pads: &[u32] = if ctx.thorough() {
            &[0, 1, 0x3F, 0x40, 0x41, BD as u32, GD as u32, GD as u32 + 1]
        } else if i == 0 {
            &[0, 0x41, GD as u32]
        } else {
            &[0, 1]
        };
        let pad = *ctx.pick(pads);
        tree[i] = T::fp(&format!("file{i}"), i, size, pad);
        pos = (pos + size + pad as usize + 0x3F) / 0x40 * 0x40;
    }
    if fst_at != 0 || nfiles > 0 {
        ctx.nontrivial();
    }
    let mut d = Def::new(tree);
    d.app = app;
    d.dol = o::dol(dol_size.max(0x100), 2, 203);
    Ok(DiscIn::one(PartIn::new(0, 6, d)))
}

/// One parameter (quick) or two parameters (thorough) off their default.
fn fam_params(ctx: &Ctx) -> R<DiscIn> {
    ctx.nontrivial();
    let mut d = Def::new(vec![
        T::d("A dir", vec![T::f("one.arc", 1, 0x1234), T::d("sub", vec![T::f("x", 2, 3)])]),
        T::f("zfile.bin", 3, 0x8001),
    ]);
    let tl = ctx.choose_dev(65);
    if tl > 0 {
        let n = tl - 1;
        d.hdr = o::disc_header(&vec![b'T'; n], 9);
    }
    // stale offsets and sizes, as an extracted header has them
    let hk = ctx.choose_dev(5);
    if hk > 0 {
        d.hdr[0x420..0x430].fill([0, 0, 0xFF, 0x01, 0x7F][hk]);
    }
    let bi2: &[usize] = &[0x2000, 0, 1, 0x3F, 0x1FFF];
    d.bi2 = o::content(201, bi2[ctx.choose_dev(bi2.len())]).to_vec();
    let apps: &[(usize, usize)] = &[(0x1000, 0x400), (0, 0), (1, 0), (0, 1), (0x57A0, 0), (0x5000, 0x2A3), (GD, 3)];
    let a = apps[ctx.choose_dev(apps.len())];
    d.app = o::apploader(a.0, a.1, 202);
    let dols: &[(usize, usize)] = &[(0x500, 3), (0x100, 1), (0x101, 1), (0x111, 7), (0x4000, 8), (0x7C00, 18), (0x123456, 18), (GD + 5, 11), (0x500, 21), (0x333, 22), (0x8100, 23), (0x7D00, 24), (0x1003, 25), (0x10400, 26)];
    let dd = dols[ctx.choose_dev(dols.len())];
    d.dol = o::dol(dd.0, dd.1, 203);
    d.sizes_known = ctx.choose_dev(2) == 0;
    d.owned = ctx.choose_dev(2) == 1;
    let mut p = PartIn::new(ctx.choose_dev(3) as u32, 6, d);
    let nc = ctx.choose_dev(24);
    let counts = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 50, 100, 255, 256];
    p.tmd = o::tmd(counts[nc], 6);
    let ck = ctx.choose_dev(1 + 36);
    if ck > 0 {
        let mut c = o::cert((ck - 1) % 3, (ck - 1) / 3 % 2, 1);
        c.extend(o::cert((ck - 1) / 6 % 3, (ck - 1) / 18 % 2, 50));
        c.extend(o::cert((ck - 1) / 2 % 3, (ck + 1) / 3 % 2, 90));
        p.certs = c;
    }
    let kk = ctx.choose_dev(5);
    if kk > 0 {
        let keys = [[0u8; 16], [0xFF; 16], [0x80; 16], [1; 16]];
        p.ticket = o::ticket(&keys[kk - 1], (kk & 1) as u8, &[kk as u8, 0, 0xFF, 0x80, 1, 2, 3, 4], kk as u8);
    }
    Ok(DiscIn::one(p))
}

/// Files around the builder's 16 MiB batches.
fn fam_batches(ctx: &Ctx) -> R<DiscIn> {
    ctx.nontrivial();
    const M: usize = 0x100_0000;
    let sizes: &[usize] = if ctx.thorough() { &[M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1, 3 * M + 7] } else { &[M, M + 1, 2 * M + 1] };
    let first = *ctx.pick(&[0usize, 1]);
    let s = *ctx.pick(sizes);
    let known = !ctx.flag();
    let mut tree = vec![];
    if first == 1 {
        tree.push(T::f("a_small", 9, 77));
    }
    tree.push(T::f("big", 1, s));
    tree.push(T::f("tail", 2, 0x101));
    let mut d = Def::new(tree);
    d.sizes_known = known;
    Ok(DiscIn::one(PartIn::new(0, 8, d)))
}

/// Contents that are not random: zeros, ones, zeros in parts, equal files.
fn fam_contents(ctx: &Ctx) -> R<DiscIn> {
    ctx.nontrivial();
    if ctx.flag() {
        // system files
        let k = *ctx.pick(&KINDS[1..]);
        let mut d = Def::new(vec![T::f("a", k, 0x333), T::f("b", 2, 9)]);
        let which = 1 + ctx.choose(15);
        if which & 1 != 0 {
            d.bi2 = o::content(k, 0x2000).to_vec();
        }
        if which & 2 != 0 {
            d.app = o::apploader(0x1000, 0x403, k);
        }
        if which & 4 != 0 {
            d.dol = o::dol(0x8005, 4, k);
        }
        if which & 8 != 0 {
            d.tree = vec![T::f("a", k, 0x333), T::f("b", k, 0x333), T::d("c", vec![T::f("a", k, 0x333)])];
        }
        return Ok(DiscIn::one(PartIn::new(0, 8, d)));
    }
    let (a, b) = (*ctx.pick(&KINDS), *ctx.pick(&KINDS));
    let sizes: &[usize] = if ctx.thorough() { &[0x40, 0x8001, GD, 2 * GD + 0x55, 9 << 20, 18 << 20] } else { &[0x8001, 2 * GD + 0x55] };
    let (s1, same) = (*ctx.pick(sizes), ctx.flag());
    let s2 = if same { s1 } else { 0x101 };
    let pad = *ctx.pick(&[0u32, GD as u32]);
    let tree = vec![T::fp("one", a, s1, pad), T::d("two", vec![T::f("one", b, s2), T::f("z", 3, 5)])];
    Ok(DiscIn::one(PartIn::new(0, 8, Def::new(tree))))
}

/// Many nodes, long names, deep nesting.
fn fam_wide(ctx: &Ctx) -> R<DiscIn> {
    ctx.nontrivial();
    let tree = match ctx.choose(ctx.by_tier(5, 7)) {
        0 => (0..300).map(|i| T::f(&format!("f{i:05}"), i % 500, i % 7)).collect(),
        1 => {
            let mut t = vec![T::f("leaf", 1, 0x55)];
            for i in 0..64 {
                t = vec![T::d(&format!("d{i}"), t), T::f(&format!("e{i}"), i, i)];
            }
            t
        }
        2 => (1..=255)
            .map(|n| T::f(&format!("{}{}", (b'a' + (n % 26) as u8) as char, "n".repeat(n - 1)), n, n))
            .collect::<Vec<_>>(),
        3 => (0..40)
            .map(|i| T::d(&format!("dir{i:03}"), (0..40).map(|j| T::f(&format!("file{j:03}.arc"), i + j, (i * j) % 97)).collect()))
            .collect(),
        4 => (0..70_000).map(|i| T::f(&format!("some_longer_name_{i:06}.bin"), i % 500, (i % 3) * (i % 5))).collect(),
        5 => (0..140_000).map(|i| T::f(&format!("some_even_longer_file_name_{i:07}.binary"), i % 500, i % 2)).collect(),
        _ => {
            let mut t = vec![T::f("leaf", 1, 0x55)];
            for i in 0..400 {
                t = vec![T::f(&format!("a{i}"), i, i), T::d(&format!("d{i}"), t)];
            }
            t
        }
    };
    let mut t = tree;
    // names must be ordered for nothing here; the builder keeps the given order
    if ctx.choose(2) == 1 {
        t.push(T::f("zzz_last", 77, 0x1001));
    }
    Ok(DiscIn::one(PartIn::new(0, 9, Def::new(t))))
}

// ---------------------------------------------------------------- judges

pub fn judge_read(ctx: &Ctx, disc: &DiscIn) -> R<()> {
    ctx.note(|| disc.describe());
    let img = build_mem(ctx, disc)?;
    ctx.state(hash_bytes(disc.describe().as_bytes()));
    ctx.observe(img.len() as u64);
    ctx.observe_bytes(&img[..0x60000.min(img.len())]);
    let full = files(&disc.parts[0].def.tree).len() <= 400;
    verify_reader(ctx, std::io::Cursor::new(&img[..]), disc, &ReadOpts { full })
}

fn oerr<X>(r: Result<X, String>) -> R<X> {
    r.or_else(|e| viol(e))
}

pub fn judge_chain_img<I: Image + ?Sized>(ctx: &Ctx, img: &I, disc: &DiscIn) -> R<()> {
    let table = oerr(o::partition_table(img))?;
    ensure!(table.len() == disc.parts.len(), "partition table lists {} partitions", table.len());
    for ((off, _), want) in table.iter().zip(&disc.parts) {
        let p = oerr(o::part_meta(img, *off))?;
        ctx.step();
        if let Some(d) = diff(&p.header[..o::TICKET_SIZE], &want.ticket) {
            fail!("stored ticket differs from the supplied one: {d}");
        }
        ensure!(p.groups() * 20 <= p.h3.len() as u64, "more groups than the hash table can hold");
        ensure!(p.data_size % GD as u64 == 0, "data size {:#x} is not a whole number of groups", p.data_size);
        let mut plain = Vec::with_capacity(GD);
        for g in 0..p.groups() {
            plain.clear();
            oerr(p.group(img, g, &mut plain))?;
        }
        let used = p.groups() as usize * 20;
        ensure!(p.h3[used..].iter().all(|b| *b == 0), "global hash table has entries after the last group");
        // TMD
        let t = &p.tmd;
        ensure!(t.len() == want.tmd.len(), "TMD size {:#x} instead of {:#x}", t.len(), want.tmd.len());
        ensure!(be64(t, 0x1EC) == p.data_size, "TMD content size {:#x}, data size {:#x}", be64(t, 0x1EC), p.data_size);
        ensure!(t[0x1F4..0x208] == o::sha1(&p.h3), "TMD content hash is not the hash of the global hash table");
        ensure!(t[4..0x104].iter().all(|b| *b == 0), "TMD signature is not zeroed");
        let h = o::sha1(&t[0x140..]);
        ensure!(h[0] == 0, "TMD is not fakesigned: hash begins with {:#04x}", h[0]);
        ctx.observe_bytes(&h);
        ctx.observe(p.data_size);
    }
    Ok(())
}
pub fn judge_chain(ctx: &Ctx, disc: &DiscIn) -> R<()> {
    ctx.note(|| disc.describe());
    ctx.state(hash_bytes(disc.describe().as_bytes()));
    let img = build_mem(ctx, disc)?;
    judge_chain_img(ctx, &img, disc)
}

/// Claims [a,b) for `what`; overlapping claims are violations.
struct Claims(Vec<(u64, u64, String)>);
impl Claims {
    fn add(&mut self, a: u64, len: u64, what: impl Into<String>) {
        if len > 0 {
            self.0.push((a, a + len, what.into()));
        }
    }
    fn check(&mut self, end: u64) -> R<()> {
        self.0.sort();
        for w in self.0.windows(2) {
            ensure!(w[0].1 <= w[1].0, "{} [{:#x},{:#x}) overlaps {} [{:#x},{:#x})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1);
        }
        if let Some(l) = self.0.last() {
            ensure!(l.1 <= end, "{} ends at {:#x}, beyond the data size {end:#x}", l.2, l.1);
        }
        Ok(())
    }
}

/// The encrypted region of one partition, judged from its plaintext.
pub fn judge_data_layout(ctx: &Ctx, data: &[u8], want: &PartIn) -> R<()> {
    let mut c = Claims(vec![]);
    c.add(0, 0x440, "header");
    c.add(0x440, want.def.bi2.len().min(0x2000) as u64, "bi2");
    c.add(0x2440, want.def.app.len() as u64, "apploader");
    ensure!(data.len() >= 0x2440 + want.def.app.len(), "data region too small");
    if let Some(d) = diff(&blank_hdr(&data[..0x440]), &blank_hdr(&want.def.hdr)) {
        fail!("stored partition header differs: {d}");
    }
    if let Some(d) = diff(&data[0x440..0x440 + want.def.bi2.len()], &want.def.bi2) {
        fail!("bi2 at 0x440 differs: {d}");
    }
    if let Some(d) = diff(&data[0x2440..0x2440 + want.def.app.len()], &want.def.app) {
        fail!("apploader at 0x2440 differs: {d}");
    }
    let sl = |off: u64, n: u64, what: &str| -> R<&[u8]> {
        if off + n > data.len() as u64 {
            return viol(format!("{what} [{off:#x}, +{n:#x}) lies outside the data size {:#x}", data.len()));
        }
        Ok(&data[off as usize..(off + n) as usize])
    };
    let dol_off = (be32(data, 0x420) as u64) << 2;
    if let Some(d) = diff(sl(dol_off, want.def.dol.len() as u64, "DOL")?, &want.def.dol) {
        fail!("DOL at {dol_off:#x} differs: {d}");
    }
    c.add(dol_off, want.def.dol.len() as u64, "DOL");
    let fst_off = (be32(data, 0x424) as u64) << 2;
    let fst_sz = (be32(data, 0x428) as u64) << 2;
    let fst_max = (be32(data, 0x42C) as u64) << 2;
    ensure!(fst_max == fst_sz, "the table's maximum size is given as {fst_max:#x}, its size as {fst_sz:#x}");
    let (tree, used) = match o::parse_fst(sl(fst_off, fst_sz, "file system table")?) {
        Ok(t) => t,
        Err(e) => fail!("stored file system table is invalid: {e}"),
    };
    ensure!(used as u64 <= fst_sz, "file system table is longer than its declared size");
    c.add(fst_off, fst_sz, "file system table");
    if let Err(e) = same_shape(&tree, &want.def.tree) {
        fail!("stored tree differs: {e}");
    }
    let mut last_end = fst_off + fst_sz;
    let locs = node_files(&tree);
    for ((_, off, len), (path, id, size, pad)) in locs.iter().zip(files(&want.def.tree)) {
        ensure!(off % 0x40 == 0, "file {path:?} starts at {off:#x}, not on a 64-byte boundary");
        if let Some(d) = diff(sl(*off, *len as u64, "file")?, o::content(id, size)) {
            fail!("file {path:?} at {off:#x} differs: {d}");
        }
        c.add(*off, *len as u64 + pad as u64, format!("file {path:?} with padding"));
        if *len as u64 + pad as u64 == 0 {
            ensure!(*off <= data.len() as u64, "empty file {path:?} lies at {off:#x}, beyond the data");
        }
        last_end = last_end.max(off + *len as u64 + pad as u64);
    }
    c.check(data.len() as u64)?;
    // gaps must be zero; padding too
    let mut zero: Vec<(u64, u64)> = Vec::new();
    let mut at = 0;
    for (a, b, _) in &c.0 {
        zero.push((at, *a));
        at = *b;
    }
    zero.push((at, data.len() as u64));
    for ((_, off, len), (_, _, _, pad)) in locs.iter().zip(files(&want.def.tree)) {
        let e = off + *len as u64;
        zero.push((e, e + pad as u64));
    }
    for (a, b) in zero {
        if let Some(i) = data[a as usize..b as usize].iter().position(|x| *x != 0) {
            fail!("byte {:#x} belongs to nothing but is {:#04x} (gap {a:#x}..{b:#x})", a as usize + i, data[a as usize + i]);
        }
    }
    // smallest whole number of groups (the last item is rounded up to 64)
    let need = ((last_end + 0x3F) / 0x40 * 0x40 + GD as u64 - 1) / GD as u64;
    ensure!(data.len() as u64 == need * GD as u64, "data size {:#x} but {} groups would do", data.len(), need);
    ctx.observe(last_end);
    Ok(())
}

pub fn judge_layout(ctx: &Ctx, disc: &DiscIn) -> R<()> {
    ctx.note(|| disc.describe());
    ctx.state(hash_bytes(disc.describe().as_bytes()));
    let img = build_mem(ctx, disc)?;
    let table = oerr(o::partition_table(&img))?;
    ensure!(table.len() == disc.parts.len(), "partition table lists {} partitions", table.len());
    let mut c = Claims(vec![]);
    c.add(0, 0x440, "disc header");
    c.add(0x40000, 32, "partition table");
    c.add(0x4E000, 32, "region");
    for ((off, ty), want) in table.iter().zip(&disc.parts) {
        ctx.step();
        ensure!(*ty == want.ptype, "table lists type {ty} instead of {}", want.ptype);
        let p = oerr(o::part_meta(&img, *off))?;
        let n = |w: &str| format!("{w} of partition {off:#x}");
        c.add(*off, 0x2C0, n("header"));
        c.add(off + p.tmd_off, p.tmd.len() as u64, n("TMD"));
        c.add(off + p.cert_off, p.certs.len() as u64, n("certificates"));
        c.add(off + p.h3_off, o::H3_SIZE as u64, n("hash table"));
        c.add(off + p.data_off, p.groups() * GS as u64, n("data"));
        ensure!(p.data_size > 0 && p.data_size % GD as u64 == 0, "data size {:#x}", p.data_size);
        if let Some(d) = diff(&blank_tmd(&p.tmd), &blank_tmd(&want.tmd)) {
            fail!("stored TMD differs: {d}");
        }
        if let Some(d) = diff(&p.certs, &want.certs) {
            fail!("stored certificates differ: {d}");
        }
        let data = oerr(p.data(&img))?;
        judge_data_layout(ctx, &data[..p.data_size as usize], want)?;
    }
    c.check(img.len() as u64)?;
    Ok(())
}

fn judge_progress(ctx: &Ctx, disc: &DiscIn) -> R<()> {
    ctx.note(|| disc.describe());
    ctx.state(hash_bytes(disc.describe().as_bytes()));
    let mut reports: Vec<u8> = vec![];
    let mut f = MemFile::new();
    build_into(ctx, &mut f, disc, &mut |p| reports.push(p))?;
    judge_reports(ctx, disc, &reports)
}
/// The reports of one build against the true share of the files written.
fn judge_reports(ctx: &Ctx, disc: &DiscIn, reports: &[u8]) -> R<()> {
    for p in reports {
        ctx.observe(*p as u64);
    }
    let fl = files(&disc.parts[0].def.tree);
    let total: usize = fl.iter().map(|f| f.2).sum();
    ctx.note(|| format!("reports {:?}", &reports[..reports.len().min(40)]));
    ensure!(reports.first() == Some(&0), "first report is {:?}, not 0", reports.first());
    for w in reports.windows(2) {
        ensure!(w[0] <= w[1], "progress goes back from {} to {}", w[0], w[1]);
    }
    ensure!(reports.iter().all(|p| *p <= 100), "progress above 100: {:?}", reports.iter().max());
    let by_bytes = disc.parts[0].def.sizes_known && total > 0;
    if by_bytes {
        ensure!(*reports.last().unwrap_or(&0) == 100, "last report is {:?}, not 100", reports.last());
    } else if !fl.is_empty() {
        ensure!(*reports.last().unwrap_or(&0) == 100, "last report is {:?}, not 100 (file counting)", reports.last());
    }
    // every report must be a percentage that is true at some moment, in order
    let mut truth: Vec<f64> = vec![0.0];
    if by_bytes {
        // a report may come after any batch; batches are at most a file long,
        // so the true value at the end of each file must be reported
        let mut done = 0usize;
        for f in &fl {
            done += f.2;
            truth.push(done as f64 * 100.0 / total as f64);
        }
    } else {
        for i in 0..fl.len() {
            truth.push((i + 1) as f64 * 100.0 / fl.len() as f64);
        }
    }
    for t in &truth {
        ensure!(
            reports.iter().any(|r| (*r as f64 - *t).abs() <= 1.0),
            "no report close to {t:.2}% (the state after some file): {:?}",
            &reports[..reports.len().min(60)]
        );
    }
    if fl.len() < 40 && total < 0x80_0000 {
        // single-batch files: every report must match the end of some file
        for r in reports {
            ensure!(
                truth.iter().any(|t| (*r as f64 - *t).abs() <= 1.0),
                "report {r} matches no moment of the build"
            );
        }
    }
    Ok(())
}

/// Sizes whose sum exceeds 32 bits (by the bytes of the files alone).
fn h16_huge(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let known = !ctx.flag();
    if !known && !ctx.thorough() {
        return Err(Stop::Prune);
    }
    let sizes = [0x100usize, 0x6000_0000, 0x5FFF_FFFF, 0x6000_0123];
    let tree = vec![
        T::f("small", 1, sizes[0]),
        T::f("h1", 2, sizes[1]),
        T::d("d", vec![T::f("h2", 3, sizes[2])]),
        T::f("h3", 4, sizes[3]),
    ];
    ctx.note(|| format!("files of {sizes:x?} bytes, sizes known: {known}"));
    ctx.state(known as u64);
    let mut d = Def::new(tree);
    d.sizes_known = known;
    let p = PartIn::new(0, 8, d);
    let mut def = crate::limitmc::Huge {
        def: p.def.clone(),
        lens: vec![("h1".into(), sizes[1]), ("h2".into(), sizes[2]), ("h3".into(), sizes[3])],
    };
    let disc = DiscIn::one(p.clone());
    let mut f = PageFile::new();
    let hdr: DiscHeader = parse(&disc.header, "disc header")?;
    let mut b = WiiDiscBuilder::create(&mut f, hdr, disc.region);
    let mut reports: Vec<u8> = vec![];
    ctx.step();
    if let Err(e) = b.add_partition(
        ptype(0),
        parse(&p.ticket, "ticket")?,
        parse(&p.tmd, "TMD")?,
        parse(&p.certs, "certificate chain")?,
        &mut def,
        &mut |p| reports.push(p),
    ) {
        fail!("building fails: {e}");
    }
    judge_reports(ctx, &disc, &reports)
}
fn fam_progress(ctx: &Ctx) -> R<DiscIn> {
    ctx.nontrivial();
    let n = ctx.choose(ctx.by_tier(5, 6));
    let sizes: &[usize] = if ctx.thorough() { &[0, 1, 2, 3, 100, 0x10001] } else { &[0, 1, 3, 0x1001] };
    let tree: Vec<T> = (0..n).map(|i| {
        let f = T::f(&format!("f{i}"), i, *ctx.pick(sizes));
        if i % 2 == 1 { T::d(&format!("d{i}"), vec![f]) } else { f }
    }).collect();
    let mut d = Def::new(tree);
    d.sizes_known = !ctx.flag();
    Ok(DiscIn::one(PartIn::new(0, 4, d)))
}
/// Progress must not influence the image, whatever it does with the values.
fn h16_independent(ctx: &Ctx) -> R {
    let disc = fam_progress(ctx)?;
    if ctx.choose(8) != 0 {
        return Err(Stop::Prune);
    }
    let a = build_mem(ctx, &disc)?;
    let mut d2 = disc.clone();
    d2.parts[0].def.sizes_known = !d2.parts[0].def.sizes_known;
    let b = build_mem(ctx, &d2)?;
    ctx.observe_bytes(&a);
    ctx.state(hash_bytes(&a));
    if let Some(d) = diff(&b, &a) {
        fail!("the way progress is counted changes the image: {d}");
    }
    Ok(())
}

// ---------------------------------------------------------------- > 4 GiB

fn big_disc(pad_gib: f64) -> DiscIn {
    let pad = (pad_gib * (1u64 << 30) as f64) as u32;
    let d = Def::new(vec![
        T::fp("a", 1, 0x1001, pad),
        T::f("b", 2, 0x2_0003),
        T::d("c", vec![T::fp("d", 3, 5, 0x1000_0000), T::f("e", 4, 0x1F0001)]),
    ]);
    let mut disc = DiscIn::one(PartIn::new(1, 3, d));
    disc.parts.push(PartIn::new(0, 12, Def::new(vec![T::f("second", 7, 0x3333)])));
    disc
}
fn big_build(ctx: &Ctx) -> R<(DiscIn, PageFile)> {
    ctx.nontrivial();
    let gib = *ctx.pick(if ctx.thorough() { &[0.55, 3.99, 2.1] } else { &[0.55, 3.99][..] });
    let disc = big_disc(gib);
    ctx.note(|| format!("file a followed by {gib} GiB of padding, then more files and a second partition"));
    let mut f = PageFile::new();
    build_into(ctx, &mut f, &disc, &mut |_| {})?;
    ctx.observe(f.len);
    ctx.state(f.len);
    Ok((disc, f))
}
fn h01_big(ctx: &Ctx) -> R {
    let (disc, f) = big_build(ctx)?;
    verify_reader(ctx, f, &disc, &ReadOpts { full: true })
}
fn h03_big(ctx: &Ctx) -> R {
    let (disc, f) = big_build(ctx)?;
    judge_chain_img(ctx, &f, &disc)
}
fn h04_big(ctx: &Ctx) -> R {
    let (disc, f) = big_build(ctx)?;
    let table = oerr(o::partition_table(&f))?;
    ensure!(table.len() == 2, "{} partitions", table.len());
    let mut c = Claims(vec![]);
    for ((off, _), want) in table.iter().zip(&disc.parts) {
        let p = oerr(o::part_meta(&f, *off))?;
        c.add(*off, 0x20000, format!("partition {off:#x} front"));
        c.add(off + p.data_off, p.groups() * GS as u64, format!("partition {off:#x} data"));
        // table lies in the first group
        let mut g0 = Vec::new();
        oerr(p.group(&f, 0, &mut g0))?;
        let fo = (be32(&g0, 0x424) as usize) << 2;
        let (tree, _) = oerr(o::parse_fst(&g0[fo..]))?;
        let mut end = 0;
        for ((_, off, len), (path, id, size, pad)) in node_files(&tree).iter().zip(files(&want.def.tree)) {
            ensure!(*off >= end, "file {path:?} at {off:#x} overlaps the previous one or its padding, ending {end:#x}");
            ensure!(off % 0x40 == 0 && *len as usize == size, "file {path:?} at {off:#x} length {len:#x}");
            let mut got = Vec::new();
            let (g1, g2) = (off / GD as u64, (off + *len as u64) / GD as u64);
            for g in g1..=g2.min(p.groups() - 1) {
                oerr(p.group(&f, g, &mut got))?;
            }
            let s = (off % GD as u64) as usize;
            ensure!(s + size <= got.len(), "file {path:?} outside the data");
            if let Some(d) = diff(&got[s..s + size], o::content(id, size)) {
                fail!("file {path:?} at {off:#x}: {d}");
            }
            end = off + *len as u64 + pad as u64;
        }
        ensure!(end <= p.data_size && p.data_size - end < 2 * GD as u64, "data size {:#x} for data ending at {end:#x}", p.data_size);
    }
    c.check(f.len)
}

/// Chains, branching chains and long folders, far beyond the enumerated trees.
fn fam_shapes(ctx: &Ctx) -> R<DiscIn> {
    use crate::handimg::{big, BIG};
    ctx.nontrivial();
    let (k, n) = (ctx.choose(5), *ctx.pick(&BIG));
    let mut d = Def::new(big(k, n));
    d.sizes_known = !ctx.flag();
    ctx.note(|| format!("shape {k}, size {n}, sizes known: {}", d.sizes_known));
    Ok(DiscIn::one(PartIn::new(0, 9, d)))
}
macro_rules! combine {
    ($name:ident, $fam:ident, $judge:ident) => {
        fn $name(ctx: &Ctx) -> R {
            let d = $fam(ctx)?;
            $judge(ctx, &d)
        }
    };
}
combine!(h01_shapes, fam_shapes, judge_read);
combine!(h01_trees, fam_trees, judge_read);
combine!(h01_bound, fam_boundaries, judge_read);
combine!(h01_params, fam_params, judge_read);
combine!(h01_contents, fam_contents, judge_read);
combine!(h01_batch, fam_batches, judge_read);
combine!(h01_wide, fam_wide, judge_read);
combine!(h03_shapes, fam_shapes, judge_chain);
combine!(h03_trees, fam_trees, judge_chain);
combine!(h03_bound, fam_boundaries, judge_chain);
combine!(h03_params, fam_params, judge_chain);
combine!(h03_contents, fam_contents, judge_chain);
combine!(h03_batch, fam_batches, judge_chain);
combine!(h04_shapes, fam_shapes, judge_layout);
combine!(h04_trees, fam_trees, judge_layout);
combine!(h04_bound, fam_boundaries, judge_layout);
combine!(h04_params, fam_params, judge_layout);
combine!(h04_contents, fam_contents, judge_layout);
combine!(h04_batch, fam_batches, judge_layout);
combine!(h04_wide, fam_wide, judge_layout);
combine!(h16_small, fam_progress, judge_progress);
combine!(h16_shapes, fam_shapes, judge_progress);
combine!(h16_trees, fam_trees, judge_progress);
combine!(h16_batch, fam_batches, judge_progress);
combine!(h16_wide, fam_wide, judge_progress);

const FAMILY_BOUNDS: &str = "trees: all ordered trees up to 4 (quick) / 5 (thorough) nodes with per-file sizes; shapes: 4 shapes of tree x 16 sizes up to 250 levels and 5000 entries, every storable ASCII and 12 other characters at each end and inside of file and folder names x sizes known or not; boundaries: table placement x file ends at block/group marks +-delta x second file x padding; params: 1 (quick) / 2 (thorough) parameters off default out of title length 0..63, bi2, apploader, DOL, size knowledge, partition type, 24 TMD content counts, 36 certificate kinds, keys; contents: zeros, ones, zeros at either end or in parts, sparse and equal files, alone and for system files; batches around 16 and 32 MiB; wide: up to 70000 (140000) files, nesting 64 (400), names 1..255";
const RULE: &str = "each execution is one disc definition, built by the real builder; a state is a distinct definition, a transition one library call (add, finish, open, read...)";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            level: "model_checking",
            rule: RULE,
            bounds: FAMILY_BOUNDS,
            assumptions: &["AES and SHA-1 crates are correct", "contents other than those of the contents family are slices of one fixed pseudo-random buffer"],
            scenarios: vec![
                Scenario::new("trees", h01_trees),
                Scenario::new("shapes", h01_shapes),
                Scenario::new("boundaries", h01_bound),
                Scenario::new("params", h01_params).dev(1, 2),
                Scenario::new("contents", h01_contents),
                Scenario::new("batches", h01_batch).workers(6),
                Scenario::new("wide", h01_wide).workers(4),
                Scenario::new("beyond4GiB", h01_big).limit(400).workers(3),
            ],
        },
        Property {
            id: "C03",
            level: "model_checking",
            rule: RULE,
            bounds: FAMILY_BOUNDS,
            assumptions: &["AES and SHA-1 crates are correct", "the independent decoder reflects the documented format"],
            scenarios: vec![
                Scenario::new("trees", h03_trees),
                Scenario::new("shapes", h03_shapes),
                Scenario::new("boundaries", h03_bound),
                Scenario::new("params", h03_params).dev(1, 2),
                Scenario::new("contents", h03_contents),
                Scenario::new("batches", h03_batch).workers(6),
                Scenario::new("beyond4GiB", h03_big).limit(400).workers(3),
            ],
        },
        Property {
            id: "C04",
            level: "model_checking",
            rule: RULE,
            bounds: FAMILY_BOUNDS,
            assumptions: &["the independent decoder reflects the documented format"],
            scenarios: vec![
                Scenario::new("trees", h04_trees),
                Scenario::new("shapes", h04_shapes),
                Scenario::new("boundaries", h04_bound),
                Scenario::new("params", h04_params).dev(1, 2),
                Scenario::new("contents", h04_contents),
                Scenario::new("batches", h04_batch).workers(6),
                Scenario::new("wide", h04_wide).workers(4),
                Scenario::new("beyond4GiB", h04_big).limit(400).workers(3),
            ],
        },
        Property {
            id: "C16",
            level: "model_checking",
            rule: RULE,
            bounds: "all size tuples of up to 4 (quick) / 5 (thorough) files over a small domain, known and unknown sizes; the tree, shape, batch and wide families of C01; files of 4.5 GiB together, sizes known (thorough: unknown as well)",
            assumptions: &["the definition's sizes are correct when they are stated"],
            scenarios: vec![
                Scenario::new("small", h16_small),
                Scenario::new("independent", h16_independent),
                Scenario::new("trees", h16_trees),
                Scenario::new("shapes", h16_shapes),
                Scenario::new("batches", h16_batch).workers(6),
                Scenario::new("wide", h16_wide).workers(4),
                Scenario::new("beyond4GiB", h16_huge).limit(400).workers(2),
            ],
        },
    ]
}
