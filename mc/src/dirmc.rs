//! C02, C17, C24 (and the directory part of C13): building from directories,
//! with every listing order the operating system may choose.
use crate::common::*;
use crate::dirs::*;
use crate::handimg::{big, BIG};
use disc_riider::builder::build_from_directory;
use disc_riider::WiiIsoReader;
use mclib::oracle as o;
use mclib::*;
use std::cell::{Cell, RefCell};
use std::io::Cursor;
use std::path::Path;
use std::sync::OnceLock;

/// Builds the directory with the listing order taken from the explorer.
fn build_ordered(ctx: &Ctx, root: &Path, dest: &mut MemFile) -> Result<(), String> {
    ctx.step();
    let mut orders = vec![];
    let r = with_os(
        Some(Box::new(|n| {
            let p = permutation(ctx, n);
            orders.push(p.clone());
            p
        })),
        None,
        || build_from_directory(root, dest, &mut |_| {}).map_err(|e| e.to_string()),
    );
    if orders.iter().any(|p| p.windows(2).any(|w| w[0] > w[1])) {
        ctx.nontrivial();
    }
    ctx.note(|| format!("directories listed in the orders {orders:?}"));
    r
}
fn build_plain(ctx: &Ctx, root: &Path, dest: &mut MemFile) -> Result<(), String> {
    ctx.step();
    build_from_directory(root, dest, &mut |_| {}).map_err(|e| e.to_string())
}

/// All forests of `n` nodes: every node a file or a directory.
fn forest(ctx: &Ctx, n: usize, names: &[&str], sizes: &[usize], used: &mut usize, id: &mut usize) -> Vec<T> {
    let mut v = vec![];
    let mut left = n;
    // names are handed out so that siblings are distinct ignoring case
    while left > 0 {
        let name = names[*used % names.len()];
        *used += 1;
        // a directory takes 1 + k nodes
        let k = ctx.choose(left + 1);
        if k == 0 {
            *id += 1;
            v.push(T::f(name, *id, *ctx.pick(sizes)));
            left -= 1;
        } else {
            v.push(T::d(name, forest(ctx, k - 1, names, sizes, used, id)));
            left -= k;
        }
    }
    v
}
/// Names whose byte order, case-insensitive order and length order differ.
const NAMES: [&str; 8] = ["b", "A", "_x", "a.b", "Z", "[", "aA", "0"];

fn disc_state(src: &Src) -> u64 {
    let mut h = hash_bytes(show(&src.part.def.tree).as_bytes());
    for f in REQUIRED {
        h = mix(h, hash_bytes(&src.file(f)));
    }
    h
}

fn check_dir(ctx: &Ctx, src: &Src) -> R {
    ctx.note(|| src.disc().describe());
    ctx.state(disc_state(src));
    let s = Scratch::new("dir")?;
    src.write(s.path())?;
    let mut dest = MemFile::new();
    if let Err(e) = build_ordered(ctx, s.path(), &mut dest) {
        fail!("building a complete directory fails: {e}");
    }
    verify_reader(ctx, Cursor::new(&dest.data), &src.disc(), &ReadOpts { full: true })?;
    ctx.observe(hash_bytes(&dest.data));
    Ok(())
}

fn h02_trees(ctx: &Ctx) -> R {
    let n = ctx.choose(ctx.by_tier(5, 6));
    let sizes: &[usize] = if n <= 2 { &[0x123, 0, 0x7C00, 0x8001] } else { &[0x41] };
    let rot = ctx.choose(ctx.by_tier(1, 3));
    let t = forest(ctx, n, &NAMES, sizes, &mut (rot * 3), &mut 0);
    check_dir(ctx, &Src::new(t))
}
/// Same names in different folders, deep nesting, big and boundary-sized files.
fn h02_shapes(ctx: &Ctx) -> R {
    let t = match ctx.choose(8) {
        0 => vec![T::d("a", vec![T::f("x", 1, 5)]), T::d("b", vec![T::f("x", 2, 6)]), T::f("x", 3, 7)],
        1 => vec![T::d("a", vec![T::d("a", vec![T::d("a", vec![T::f("a", 1, 9)]), T::f("b", 2, 1)])])],
        2 => vec![T::f("big", 1, o::GD + 3), T::f("aig", 2, o::GD - 0x9000)],
        3 => vec![T::f("\u{3042}.bin", 1, 9), T::f("a b", 2, 10), T::f("\u{30A2}", 3, 11), T::d("\u{6F22}\u{5B57}", vec![T::f("x", 4, 0)])],
        4 => (0..6).map(|i| T::f(&format!("f{i}"), i, 0x7BFF + i)).collect(),
        5 => vec![T::d("empty", vec![]), T::f("only", 1, 3)],
        6 => {
            let mut t = vec![T::f("leaf", 1, 77)];
            for i in 0..40 {
                t = vec![T::d(&format!("d{i}"), t)];
            }
            t
        }
        _ => vec![T::f(".hidden", 1, 4), T::f("..two", 2, 5), T::f("dot.", 3, 6), T::f(&"n".repeat(200), 4, 7)],
    };
    check_dir(ctx, &Src::new(t))
}
/// Deep, wide and branching trees, listed as the system does or backwards.
fn h02_large(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let (k, n) = (ctx.choose(5), *ctx.pick(&BIG));
    let back = ctx.flag();
    let src = Src::new(big(k, n));
    ctx.note(|| format!("shape {k}, size {n}, listed backwards: {back}"));
    ctx.state((k * 1000 + n) as u64);
    let s = Scratch::new("large")?;
    src.write(s.path())?;
    let mut dest = MemFile::new();
    ctx.step();
    let order: Option<Box<dyn FnMut(usize) -> Vec<usize>>> = if back { Some(Box::new(|n| (0..n).rev().collect())) } else { None };
    let r = with_os(order, None, || build_from_directory(s.path(), &mut dest, &mut |_| {}).map_err(|e| e.to_string()));
    if let Err(e) = r {
        fail!("building a complete directory fails: {e}");
    }
    verify_reader(ctx, Cursor::new(&dest.data), &src.disc(), &ReadOpts { full: false })?;
    ctx.observe(hash_bytes(&dest.data));
    Ok(())
}
/// Files around and beyond 16 MiB, and system files across group ends.
fn h02_big(ctx: &Ctx) -> R {
    const M: usize = 0x100_0000;
    let n = *ctx.pick(&[M - 1, M, M + 1, M + 0x40, 2 * M - 1, 2 * M + 1, 3 * M + 5]);
    let mut s = Src::new(match ctx.choose(4) {
        0 => vec![T::f("big", 1, n)],
        1 => vec![T::f("a", 2, 3), T::d("d", vec![T::f("big", 1, n), T::f("c", 3, 0x41)]), T::f("e", 4, 9)],
        2 => vec![T::f("big", o::ZERO, n), T::f("c", 3, 0x41)],
        _ => vec![T::f("a", 3, 0x41)],
    });
    match ctx.choose(3) {
        0 => {}
        1 => s.part.def.app = o::apploader(n, 0x20, 5),
        _ => s.part.def.dol = o::dol(n, 2, 6),
    }
    ctx.nontrivial();
    check_dir(ctx, &s)
}
/// Names that share a long start, in every order of listing.
fn h02_prefix(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let n = *ctx.pick(&[1usize, 3, 4, 7, 8, 11, 12, 15, 16, 20, 24, 31, 32, 33, 47, 48, 63, 64, 65, 99, 100, 127, 128, 200, 252]);
    let start: String = "PqrStuv-wxyz_0123.".chars().cycle().take(n).collect();
    let dirs = ctx.choose(8);
    let t = (0..3).map(|i| {
        let name = format!("{start}{}", ["b", "A", "ab"][i]);
        if dirs >> i & 1 == 1 { T::d(&name, vec![T::f("x", i + 4, 7)]) } else { T::f(&name, i + 1, 5 + i) }
    }).chain((n > 1).then(|| T::f(&start[..n - 1], 9, 2))).collect();
    check_dir(ctx, &Src::new(t))
}
/// Contents that are not random, and equal files.
fn h02_contents(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let (a, b) = (*ctx.pick(&KINDS), *ctx.pick(&KINDS));
    let n = *ctx.pick(&[0x41usize, 0x8001, o::GD + 5]);
    let mut s = Src::new(vec![T::f("a", a, n), T::d("d", vec![T::f("a", b, n), T::f("z", a, 0x40)])]);
    match ctx.choose(4) {
        0 => {}
        1 => s.part.def.bi2 = o::content(b, 0x2000).to_vec(),
        2 => s.part.def.app = o::apploader(0x777, 0x101, b),
        _ => s.part.def.dol = o::dol(0x1234, 3, b),
    }
    check_dir(ctx, &s)
}
/// Symbolic links stand for what they point at, and files beside the source
/// files (as extraction leaves them) do not matter.
fn h02_links(ctx: &Ctx) -> R {
    const LINKS: [&str; 7] = ["DATA/files/d/x", "DATA/files/a", "DATA/files/d", "DATA/files", "DATA/sys/main.dol", "DATA/ticket.bin", "DATA"];
    let src = Src::new(vec![T::f("a", 1, 0x8001), T::d("d", vec![T::f("x", 2, 9), T::f("y", 3, 0)]), T::f("z", 4, 5)]);
    let set = ctx.choose(1 << LINKS.len());
    let extra = ctx.choose(3);
    if set > 0 || extra > 0 {
        ctx.nontrivial();
    }
    let links: Vec<&str> = LINKS.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, l)| *l).collect();
    ctx.note(|| format!("symbolic links {links:?}, other files {extra}"));
    ctx.state((set * 3 + extra) as u64);
    let s = Scratch::new("link")?;
    let (root, aside) = (s.path().join("src"), s.path().join("aside"));
    eng(std::fs::create_dir_all(&root))?;
    eng(std::fs::create_dir_all(&aside))?;
    src.write(&root)?;
    quiet(|| {
        if extra > 0 {
            for f in ["DATA/sys/fst.bin", "DATA/h3.bin", "DATA/disc/header.bin", "other", "DATA/disc/extra", "DATA/sys/x"] {
                eng(std::fs::write(root.join(f), o::content(77, 0x300)))?;
            }
        }
        if extra > 1 {
            for d in ["UPDATE/files", "DATA/more", "DATA/sys/files", "files", "DATA/files/d/none/nothing"] {
                eng(std::fs::create_dir_all(root.join(d)))?;
            }
            eng(std::fs::write(root.join("UPDATE/files/a"), b"no"))?;
            eng(std::fs::write(root.join("DATA/sys/files/q"), b"no"))?;
            eng(std::fs::write(root.join("files/q"), b"no"))?;
        }
        for (i, l) in links.iter().enumerate() {
            let (from, to) = (root.join(l), aside.join(i.to_string()));
            eng(std::fs::rename(&from, &to))?;
            eng(std::os::unix::fs::symlink(&to, &from))?;
        }
        R::Ok(())
    })?;
    let mut dest = MemFile::new();
    if let Err(e) = build_plain(ctx, &root, &mut dest) {
        fail!("building a complete directory fails: {e}");
    }
    verify_reader(ctx, Cursor::new(&dest.data), &src.disc(), &ReadOpts { full: true })?;
    ctx.observe(hash_bytes(&dest.data));
    Ok(())
}
/// System files of many sizes.
fn h02_system(ctx: &Ctx) -> R {
    let mut s = Src::standard();
    s.part.def.tree = vec![T::f("one", 1, 0x77), T::f("two", 2, 0)];
    match ctx.choose(8) {
        0 => s.part.def.bi2 = o::content(5, *ctx.pick(&[0usize, 1, 0x1FFF, 0x2000])).to_vec(),
        1 => s.part.def.app = o::apploader(*ctx.pick(&[0usize, 1, 0x1234, 0x7C00]), *ctx.pick(&[0usize, 1, 31, 0x8000]), 6),
        2 => s.part.def.dol = o::dol(*ctx.pick(&[0x100usize, 0x101, 0x7C00, 0x8123, o::GD]), *ctx.pick(&[1usize, 7, 18, 21, 22, 23, 24, 25, 26, 27, 28]), 7),
        3 => s.part.tmd = o::tmd(*ctx.pick(&[1usize, 2, 3, 40]), 9),
        4 => {
            let mut c = vec![];
            for i in 0..3u8 {
                c.extend(o::cert(ctx.choose(3), ctx.choose(2), i * 30));
            }
            s.part.certs = c;
        }
        5 => s.part.ticket = o::ticket(&[ctx.choose(3) as u8 * 77; 16], ctx.choose(2) as u8, &[ctx.choose(2) as u8 * 255; 8], 8),
        6 => {
            let n = *ctx.pick(&[0usize, 1, 63, 64]);
            let title = "T".repeat(n);
            let mut h = o::disc_header(title.as_bytes(), 21);
            h[0x60] = ctx.choose(3) as u8;
            h[0x61] = ctx.choose(3) as u8;
            s.part.def.hdr = h;
        }
        _ => s.region = o::region(*ctx.pick(&[0u8, 128, 255])),
    }
    check_dir(ctx, &s)
}

/// Every set of missing required files, and every way of being missing.
fn h02_missing(ctx: &Ctx) -> R {
    let set = 1 + ctx.choose(255);
    let how = ctx.choose(3);
    ctx.nontrivial();
    ctx.state((set << 4 | how) as u64);
    let missing: Vec<&str> = REQUIRED.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, f)| *f).collect();
    ctx.note(|| format!("without {missing:?}, way {how}"));
    let s = Scratch::new("miss")?;
    Src::standard().write(s.path())?;
    for m in &missing {
        let p = s.path().join(m);
        eng(std::fs::remove_file(&p))?;
        match how {
            0 => {}
            1 => eng(std::fs::create_dir(&p))?,
            _ => eng(std::os::unix::fs::symlink("nowhere", &p))?,
        }
    }
    let mut dest = MemFile::new();
    match build_plain(ctx, s.path(), &mut dest) {
        Ok(()) => fail!("building succeeds without {missing:?}"),
        Err(e) => {
            ensure!(missing.iter().any(|m| e.contains(m.rsplit('/').next().unwrap_or(m))), "the error does not name the missing file: {e}");
            ctx.observe_str(&e.replace(&s.path().display().to_string(), ""));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn built(ctx: &Ctx, src: &Src) -> R<Vec<u8>> {
    let s = Scratch::new("ref")?;
    src.write(s.path())?;
    let mut d = MemFile::new();
    match build_plain(ctx, s.path(), &mut d) {
        Ok(()) => Ok(d.data),
        Err(e) => viol(format!("building a complete directory fails: {e}")),
    }
}
fn src17(k: usize) -> Src {
    match k {
        0 => Src::new(vec![T::f("b", 1, 5), T::f("A", 2, 0x8001), T::f("c", 3, 0), T::f("_", 4, 77)]),
        1 => Src::new(vec![T::d("d", vec![T::f("x", 1, 3), T::f("Y", 2, 4)]), T::d("E", vec![T::f("x", 3, 3), T::f("q", 4, 4)]), T::f("z", 5, 9)]),
        2 => Src::new(vec![T::f("one", 1, o::GD), T::f("two", 2, 0x123)]),
        3 => Src::new(vec![]),
        _ => Src::standard(),
    }
}
fn reference17(ctx: &Ctx, k: usize) -> R<&'static Vec<u8>> {
    static REF: [OnceLock<Vec<u8>>; 5] = [const { OnceLock::new() }; 5];
    if let Some(v) = REF[k].get() {
        return Ok(v);
    }
    let v = built(ctx, &src17(k))?;
    let _ = REF[k].set(v);
    Ok(REF[k].get().expect("just set"))
}
/// Identical images whatever the listing and creation order.
fn h17_orders(ctx: &Ctx) -> R {
    let k = ctx.choose(5);
    let want = reference17(ctx, k)?;
    let src = src17(k);
    let reversed = ctx.flag();
    let s = Scratch::new("ord")?;
    let mut w = src.clone();
    if reversed {
        fn rev(t: &mut Vec<T>) {
            t.reverse();
            for n in t {
                if let T::D { kids, .. } = n {
                    rev(kids);
                }
            }
        }
        rev(&mut w.part.def.tree);
    }
    w.write(s.path())?;
    ctx.note(|| format!("directory {k} created in {} order", if reversed { "reverse" } else { "given" }));
    let mut d = MemFile::new();
    if let Err(e) = build_ordered(ctx, s.path(), &mut d) {
        fail!("building a complete directory fails: {e}");
    }
    if let Some(e) = o::diff(&d.data, want) {
        fail!("two builds of the same directory differ: {e}");
    }
    ctx.state(mix(k as u64, hash_bytes(&d.data)));
    ctx.observe(hash_bytes(&d.data));
    Ok(())
}
/// Identical images for the same definition, built twice by the API.
fn h17_again(ctx: &Ctx) -> R {
    let n = ctx.choose(4);
    let t = forest(ctx, n, &NAMES, &[0, 0x41, 0x8000], &mut 0, &mut 0);
    let mut disc = DiscIn::one(PartIn::new(0, 5, Def::new(t.clone())));
    if ctx.flag() {
        disc.parts.push(PartIn::new(2, 6, Def::new(t)));
    }
    ctx.note(|| disc.describe());
    ctx.nontrivial();
    let a = build_mem(ctx, &disc)?;
    let b = build_mem(ctx, &disc)?;
    if let Some(e) = o::diff(&a, &b) {
        fail!("two builds of the same definition differ: {e}");
    }
    ctx.state(hash_bytes(&a));
    ctx.observe(hash_bytes(&a));
    Ok(())
}
/// What the destination held before must not matter.
fn h17_dirty(ctx: &Ctx) -> R {
    let k = ctx.choose(5);
    let want = reference17(ctx, k)?;
    let parts = 1 + ctx.choose(2);
    let old = ctx.choose(8);
    ctx.nontrivial();
    let n = want.len();
    let garbage = |n: usize| (0..n).map(|i| (i as u32).wrapping_mul(0x9E37_79B1).to_be_bytes()[0] | 1).collect::<Vec<u8>>();
    let old_data = match old {
        0 => garbage(n),
        1 => garbage(n + o::GS * parts + 0x12345),
        2 => garbage(n / 2),
        3 => vec![0xFF; n + 0x100],
        4 => garbage(0x40019),
        // images with partitions listed in every table
        5 | 6 => {
            let a: &[(u64, u32)] = &[(0x50000, 0), (0x8_0000, 1)];
            let b: &[(u64, u32)] = &[(0x9_0000, 2)];
            let groups = if old == 5 { [a, b, a, b] } else { [&[], b, &[], a] };
            let mut v = o::assemble(&o::front(&o::disc_header(b"old", 9), &o::region(3), &groups));
            v.resize(n + 0x8000, 0x5A);
            v
        }
        _ => {
            let mut v = vec![0u8; 0x40000];
            v.extend([0, 0, 0, 0, 0, 1, 0, 8, 0, 0, 0, 1, 0, 1, 0, 8]);
            v
        }
    };
    ctx.note(|| format!("directory {k}, {parts} partition(s), old content kind {old} of {:#x} bytes", old_data.len()));
    ctx.state((k << 8 | parts << 4 | old) as u64);
    let mut d = MemFile::with(old_data);
    let mut disc = src17(k).disc();
    if parts == 2 {
        disc.parts.push(PartIn::new(1, 9, Def::new(vec![T::f("second", 3, 0x99)])));
        build_into(ctx, &mut d, &disc, &mut |_| {})?;
    } else {
        let s = Scratch::new("dirty")?;
        src17(k).write(s.path())?;
        if let Err(e) = build_plain(ctx, s.path(), &mut d) {
            fail!("building over old data fails: {e}");
        }
    }
    verify_reader(ctx, Cursor::new(&d.data), &disc, &ReadOpts { full: false })?;
    ctx.observe(hash_bytes(&d.data));
    Ok(())
}

/// Extract with the library, rebuild, compare the partitions byte by byte.
fn h17_rebuild(ctx: &Ctx) -> R {
    let mut src = Src::new(match ctx.choose(4) {
        0 => {
            let n = ctx.choose(4);
            forest(ctx, n, &NAMES, &[0, 0x41, 0x7C01], &mut 0, &mut 0)
        }
        1 => vec![T::f("big", 1, o::GD + 3), T::d("Sub", vec![T::f("\u{3042}", 2, 0x40), T::f("x", 3, 0x3F)]), T::f("zed", 4, 0)],
        2 => {
            let (k, n) = (ctx.choose(4), *ctx.pick(&[33usize, 100, 250]));
            crate::dirs::sorted(&big(k, n))
        }
        _ => src17(ctx.choose(5)).part.def.tree,
    });
    match ctx.choose(5) {
        0 => {}
        1 => src.part.tmd = o::tmd(3, 200),
        2 => src.part.def.bi2 = o::content(9, 0x1234).to_vec(),
        3 => src.part.certs = [o::cert(2, 0, 1), o::cert(0, 0, 2), o::cert(1, 1, 3)].concat(),
        _ => src.part.def.hdr = o::disc_header(&[b'q'; 64], 201),
    }
    ctx.note(|| src.disc().describe());
    ctx.state(disc_state(&src));
    ctx.nontrivial();
    let first = built(ctx, &src)?;
    let s = Scratch::new("re")?;
    let rebuilt = extract_and_rebuild(ctx, &first, s.path())?;
    same_partition(&first, &rebuilt)?;
    ctx.observe(hash_bytes(&rebuilt));
    Ok(())
}
fn extract_and_rebuild(ctx: &Ctx, img: &[u8], root: &Path) -> R<Vec<u8>> {
    let data = root.join("DATA");
    eng(std::fs::create_dir_all(data.join("disc")))?;
    eng(std::fs::create_dir_all(data.join("files")))?;
    let (mut rd, e) = match WiiIsoReader::open(Cursor::new(img)) {
        Ok(r) => {
            let e = r.partitions().first().cloned();
            (r, e)
        }
        Err(e) => fail!("built image cannot be opened: {e}"),
    };
    let Some(e) = e else { fail!("the built image lists no partition") };
    ctx.steps(3);
    let region = *rd.get_region();
    let mut pi = match rd.open_partition(e) {
        Ok(p) => p,
        Err(e) => fail!("built partition cannot be opened: {e}"),
    };
    if let Err(e) = pi.extract_system_files(&data, &mut rd) {
        fail!("system files cannot be extracted: {e}");
    }
    eng(std::fs::write(data.join("disc/region.bin"), region))?;
    eng(std::fs::write(data.join("ticket.bin"), ser(&pi.get_partition_header().ticket)))?;
    match (pi.read_tmd(&mut rd), pi.read_certificates(&mut rd)) {
        (Ok(t), Ok(c)) => {
            eng(std::fs::write(data.join("tmd.bin"), ser(&t)))?;
            eng(std::fs::write(data.join("cert.bin"), ser(&c)))?;
        }
        _ => fail!("TMD or certificates cannot be read"),
    }
    let tree = lib_tree(pi.get_fst().get_entries());
    let mut list: Vec<(Vec<String>, u64, u32)> = vec![];
    let fst = pi.get_fst().clone();
    let _ = fst.callback_all_files::<std::io::Error, _>(&mut |p, n| {
        if let disc_riider::FstNode::File { offset, length, .. } = n {
            list.push((p.iter().map(|x| x.to_string()).collect(), *offset, *length));
        }
        Ok(())
    });
    ensure!(list.len() == node_files(&tree).len(), "the traversal misses files");
    let mut buf = vec![];
    for (p, off, len) in list {
        let mut f = data.join("files");
        for x in &p {
            f.push(x);
        }
        if let Some(d) = f.parent() {
            eng(std::fs::create_dir_all(d))?;
        }
        ctx.step();
        if let Err(e) = pi.get_crypto_reader(&mut rd).read_into_vec(off, len as u64, &mut buf) {
            fail!("file {p:?} cannot be read: {e}");
        }
        eng(std::fs::write(f, &buf))?;
    }
    let mut d = MemFile::new();
    if let Err(e) = build_plain(ctx, root, &mut d) {
        fail!("rebuilding an extracted image fails: {e}");
    }
    Ok(d.data)
}
pub fn same_partition(a: &[u8], b: &[u8]) -> R {
    let part = |img: &[u8]| -> R<Vec<(&'static str, Vec<u8>)>> {
        let t = o::partition_table(img).map_err(|e| Stop::Violation { msg: e, key: None })?;
        ensure!(t.len() == 1, "{} partitions listed", t.len());
        let off = t[0].0 as usize;
        let w = |o: usize| o::be32(img, off + o) as usize;
        let cut = |o: usize, n: usize| img.get(off + o..off + o + n).map(|x| x.to_vec()).unwrap_or_default();
        let (tmd_size, tmd_off) = (w(0x2A4), w(0x2A8) << 2);
        let (cert_size, cert_off) = (w(0x2AC), w(0x2B0) << 2);
        let (h3, data, size) = (w(0x2B4) << 2, w(0x2B8) << 2, w(0x2BC) << 2);
        Ok(vec![
            ("ticket", cut(0, 0x2A4)),
            ("TMD", cut(tmd_off, tmd_size)),
            ("certificates", cut(cert_off, cert_size)),
            ("hash table", cut(h3, o::H3_SIZE)),
            ("data size", (size as u64).to_be_bytes().to_vec()),
            ("data", cut(data, size / o::GD * o::GS)),
        ])
    };
    for ((what, x), (_, y)) in part(a)?.into_iter().zip(part(b)?) {
        ensure!(!x.is_empty(), "no {what} in the image");
        if let Some(e) = o::diff(&y, &x) {
            fail!("the rebuilt partition's {what} differs from the original's: {e}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

/// A folder whose entries may collide: kind 0 file, 1 folder with a file,
/// 2 folder with a colliding or different file name, 3 empty folder.
fn entry(ctx: &Ctx, name: &str, id: usize) -> T {
    match ctx.choose(4) {
        0 => T::f(name, id, 3 + id),
        1 => T::d(name, vec![T::f("x", id, 9)]),
        2 => T::d(name, vec![T::f("X", id, 8), T::f("y", id + 7, 2)]),
        _ => T::d(name, vec![]),
    }
}
fn has_files(t: &T) -> bool {
    match t {
        T::F { .. } => true,
        T::D { kids, .. } => kids.iter().any(has_files),
    }
}
fn conflict(t: &[T]) -> bool {
    let live: Vec<&T> = t.iter().filter(|n| has_files(n)).collect();
    live.iter().enumerate().any(|(i, a)| live[..i].iter().any(|b| a.name().eq_ignore_ascii_case(b.name())))
        || live.iter().any(|n| matches!(n, T::D { kids, .. } if conflict(kids)))
}
fn judge24(ctx: &Ctx, src: &Src, bad: bool) -> R {
    let s = Scratch::new("case")?;
    src.write(s.path())?;
    ctx.note(|| format!("tree [{}]", show(&src.part.def.tree)));
    let mut d = MemFile::new();
    match (build_ordered(ctx, s.path(), &mut d), bad) {
        (Ok(()), true) => fail!("conflicting entries are accepted"),
        (Err(e), false) => fail!("a tree without conflicts is refused: {e}"),
        (Err(_), true) => {
            ctx.observe(1);
            Ok(())
        }
        (Ok(()), false) => {
            ctx.observe(2);
            verify_reader(ctx, Cursor::new(&d.data), &src.disc(), &ReadOpts { full: false })
        }
    }
}
fn h24_case(ctx: &Ctx) -> R {
    let n = 2 + ctx.choose(ctx.by_tier(2, 3));
    // subsets of names that are different on this file system
    let pool = ["ab", "AB", "aB", "ac", "a"];
    let mut t = vec![];
    let mut at = 0;
    for i in 0..n {
        let left = n - i;
        if pool.len() - at < left {
            return Err(Stop::Prune);
        }
        let k = at + ctx.choose(pool.len() - at - left + 1);
        t.push(entry(ctx, pool[k], i + 1));
        at = k + 1;
    }
    // with 4 entries the folder contents are kept simple
    if n == 4 && t.iter().any(|x| matches!(x, T::D { kids, .. } if kids.len() == 2)) {
        return Err(Stop::Prune);
    }
    match ctx.choose(2) {
        0 => {}
        _ => t = vec![T::d("top", t), T::f("zz", 9, 1)],
    }
    let src = Src::new(t);
    let bad = conflict(&src.part.def.tree);
    ctx.state(disc_state(&src));
    judge24(ctx, &src, bad)
}
/// Non-ASCII case pairs, similar names and shared names in different folders are no conflicts.
fn h24_distinct(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let pairs: [(&str, &str); 12] = [
        ("\u{FF21}", "\u{FF41}"), ("\u{0410}", "\u{0430}"), ("a", "a "), ("a", "a."), ("a", "aa"), ("@", "`"),
        ("[", "{"), ("_", "?"), ("\u{30A2}", "\u{30A1}"), ("a-b", "a_b"), ("\u{3A3}", "\u{3C3}"), ("x", "\u{FF58}"),
    ];
    let (a, b) = *ctx.pick(&pairs);
    let (ea, eb) = (entry(ctx, a, 1), entry(ctx, b, 2));
    let t = match ctx.choose(2) {
        0 => vec![ea, eb],
        _ => vec![T::d("p", vec![ea.clone()]), T::d("q", vec![eb, ea])],
    };
    let src = Src::new(t);
    ctx.state(disc_state(&src));
    judge24(ctx, &src, false)
}
/// Two entries, in conflict or not, deep in a tree or among many others.
fn h24_deep(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let (k, n) = (ctx.choose(5), *ctx.pick(&BIG));
    let (a, b) = *ctx.pick(&[("pQ", "Pq"), ("pQ", "pR"), ("zzA", "zzz"), ("zZ", "Zz")]);
    let (ea, eb) = (T::f(a, 1, 3), if ctx.flag() { T::f(b, 2, 4) } else { T::d(b, vec![T::f("x", 2, 4)]) });
    let t = match k {
        0 => {
            let mut t = vec![ea, eb];
            for i in 0..n {
                t = vec![T::d(&format!("d{i}"), t)];
            }
            t
        }
        // ... in front of, behind and on both sides of the others
        1 => vec![ea, eb].into_iter().chain((0..n * 4).map(|i| T::f(&format!("m{i:04}"), i % 50, i % 3))).collect(),
        2 => (0..n * 4).map(|i| T::f(&format!("m{i:04}"), i % 50, i % 3)).chain([ea, eb]).collect(),
        _ => vec![T::d("e", vec![ea].into_iter().chain((0..n * 4).map(|i| T::f(&format!("q{i:04}"), i % 50, i % 3))).chain([eb]).collect()), T::f("f", 3, 1)],
    };
    let src = Src::new(t);
    let bad = conflict(&src.part.def.tree);
    ctx.state(disc_state(&src));
    let s = Scratch::new("deep")?;
    src.write(s.path())?;
    ctx.note(|| format!("shape {k}, size {n}, entries {a} and {b}"));
    let mut d = MemFile::new();
    match (build_plain(ctx, s.path(), &mut d), bad) {
        (Ok(()), true) => fail!("conflicting entries are accepted"),
        (Err(e), false) => fail!("a tree without conflicts is refused: {e}"),
        (Err(_), true) => {
            ctx.observe(1);
            Ok(())
        }
        (Ok(()), false) => {
            ctx.observe(2);
            verify_reader(ctx, Cursor::new(&d.data), &src.disc(), &ReadOpts { full: false })
        }
    }
}
/// Entries whose names only differ behind a long common start, or in case there.
fn h24_prefix(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let n = *ctx.pick(&[1usize, 3, 4, 7, 8, 11, 12, 15, 16, 20, 24, 31, 32, 33, 47, 48, 63, 64, 65, 99, 100, 127, 128, 200, 252]);
    let start: String = "PqrStuv-wxyz_0123.".chars().cycle().take(n).collect();
    let (a, b) = *ctx.pick(&[("a", "b"), ("a", "A"), ("", "a"), ("ab", "aB"), ("ab", "ac"), ("0", "9")]);
    let other = if ctx.flag() { start.to_lowercase() } else { start.clone() };
    let (ea, eb) = (entry(ctx, &format!("{start}{a}"), 1), entry(ctx, &format!("{other}{b}"), 2));
    let src = Src::new(vec![ea, eb]);
    let bad = conflict(&src.part.def.tree);
    ctx.state(disc_state(&src));
    judge24(ctx, &src, bad)
}
/// Names that cannot be stored, at every place of a tree.
fn h24_names(ctx: &Ctx) -> R {
    use std::os::unix::ffi::OsStrExt;
    ctx.nontrivial();
    let bad: [&[u8]; 12] = [
        b"\xff", b"a\xc3", b"\xed\xa0\x80", b"ok\x80ok", "\u{1F600}".as_bytes(), "x\u{e9}".as_bytes(),
        "\u{A5}".as_bytes(), "\u{203E}".as_bytes(), "\u{ac00}b".as_bytes(), "\u{80}".as_bytes(), "\u{FFFD}".as_bytes(), "\u{2212}\u{2211}\u{200B}".as_bytes(),
    ];
    let name = *ctx.pick(&bad);
    let place = ctx.choose(5);
    let s = Scratch::new("names")?;
    let src = Src::standard();
    src.write(s.path())?;
    let files = s.path().join("DATA/files");
    let os = std::ffi::OsStr::from_bytes(name);
    let w = |p: std::path::PathBuf| eng(std::fs::write(p, b"data"));
    match place {
        0 => w(files.join(os))?,
        1 => w(files.join("Dir").join(os))?,
        2 => {
            eng(std::fs::create_dir(files.join(os)))?;
            w(files.join(os).join("f"))?
        }
        3 => {
            eng(std::fs::create_dir_all(files.join("deep").join(os)))?;
            w(files.join("deep").join(os).join("f"))?
        }
        // next to a file whose lossy name equals it
        _ => {
            w(files.join(os))?;
            w(files.join("?"))?;
            w(files.join(String::from_utf8_lossy(name).replace('\u{FFFD}', "_") + "_"))?
        }
    }
    ctx.note(|| format!("name {:?} at place {place}", String::from_utf8_lossy(name)));
    ctx.state(hash_bytes(name) + place as u64);
    let mut d = MemFile::new();
    match build_ordered(ctx, s.path(), &mut d) {
        Ok(()) => {
            // accepted: then it must be stored faithfully
            let want = std::str::from_utf8(name).ok();
            let mut found = false;
            if let Some(want) = want {
                if let Ok(mut rd) = WiiIsoReader::open(Cursor::new(&d.data)) {
                    let e = rd.partitions()[0].clone();
                    if let Ok(pi) = rd.open_partition(e) {
                        let _ = pi.get_fst().callback_all_files::<std::io::Error, _>(&mut |p, _| {
                            found |= p.last() == Some(&want);
                            Ok(())
                        });
                    }
                }
            }
            ensure!(found, "the name {:?} is accepted but not stored", String::from_utf8_lossy(name));
            ctx.observe(2);
        }
        Err(_) => ctx.observe(1),
    }
    Ok(())
}
/// Files too large for the table.
fn h24_large(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let extra = *ctx.pick(&[0u64, 1, 5, 1 << 32]);
    let deep = ctx.flag();
    let s = Scratch::new("large")?;
    let src = Src::standard();
    src.write(s.path())?;
    let p = s.path().join(if deep { "DATA/files/Dir/large" } else { "DATA/files/large" });
    let f = eng(std::fs::File::create(p))?;
    if f.set_len((1 << 32) + extra).is_err() {
        return Err(Stop::Prune);
    }
    drop(f);
    ctx.note(|| format!("file of 2^32 + {extra} bytes"));
    ctx.state(extra << 1 | deep as u64);
    let mut d = MemFile::new();
    if build_ordered(ctx, s.path(), &mut d).is_ok() {
        fail!("a file of 2^32 + {extra} bytes is accepted");
    }
    Ok(())
}

// ---------------------------------------------------------------- C13, directories

pub fn h13_directory(ctx: &Ctx) -> R {
    let k = *ctx.pick(&[4usize, 1]);
    let want = reference17(ctx, k)?;
    let s = Scratch::new("flt")?;
    src17(k).write(s.path())?;
    let log = RefCell::new(vec![]);
    let n = Cell::new(0u32);
    let hard = Cell::new(0);
    let mut d = MemFile::new();
    ctx.step();
    let r = with_os(
        None,
        Some(Box::new(|sys, len| {
            n.set(n.get() + 1);
            let acts: &[Act] = match sys {
                Sys::Read if len > 1 => &[Act::Ok, Act::Fail, Act::Intr, Act::One, Act::Half],
                Sys::Read => &[Act::Ok, Act::Fail, Act::Intr],
                Sys::Open => &[Act::Ok, Act::Fail, Act::Intr],
                _ => &[Act::Ok, Act::Fail],
            };
            let a = acts[ctx.choose_dev(acts.len())];
            if a != Act::Ok {
                let soft = matches!(a, Act::One | Act::Half | Act::Intr);
                // a failing size query is only a hint for readers: it may be ignored
                if !soft {
                    hard.set(hard.get() + 1);
                }
                log.borrow_mut().push(format!("call {} ({sys:?}): {a:?}", n.get()));
            }
            a
        })),
        || build_from_directory(s.path(), &mut d, &mut |_| {}).map_err(|e| e.to_string()),
    );
    let what = log.borrow().join(", ");
    ctx.note(|| format!("{what} of {} system calls", n.get()));
    ctx.state(hash_bytes(what.as_bytes()));
    if !what.is_empty() {
        ctx.nontrivial();
    }
    match r {
        Ok(()) => {
            ctx.observe(1);
            ensure!(!d.unflushed, "success is reported without a flush ({what})");
            if let Some(e) = o::diff(&d.data, want) {
                fail!("success is reported, but the image differs from a fault-free one ({what}): {e}");
            }
        }
        Err(e) => {
            ensure!(hard.get() > 0, "{} must be absorbed, but the build fails: {e}", if what.is_empty() { "nothing went wrong; it" } else { &what });
            ctx.observe_str(&e.replace(&s.path().display().to_string(), ""));
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C02",
            level: "model_checking",
            rule: "each execution writes a directory, builds it with the listing order chosen by the explorer and reads the image back; a state is a distinct directory content, a transition one library call; non-trivial: some listing was not in name order (or a file was missing)",
            bounds: "all trees of up to 4 (quick) / 5 (thorough) entries x all listing orders; 8 special shapes x all listing orders; 4 shapes of tree x 16 sizes up to 250 levels and 5000 entries, every storable ASCII and 12 other characters at each end and inside of file and folder names x 2 listing orders; files, apploaders and DOLs around 16, 32 and 48 MiB in 4 trees; 4 names sharing a start of 25 lengths up to 252 bytes, as files or folders; 7 x 7 kinds of contents (zeros, ones, zeros in parts, equal files) x 3 sizes x 4 system files; all 128 sets of symbolic links to files, folders and system files x 3 sets of other files; system files of many sizes and kinds; all 255 sets of missing required files x 3 ways",
            assumptions: &["directory listings reach the code through readdir64, whose order the harness controls"],
            scenarios: vec![
                Scenario::new("trees", h02_trees),
                Scenario::new("shapes", h02_shapes),
                Scenario::new("large", h02_large),
                Scenario::new("big", h02_big).workers(6),
                Scenario::new("prefixes", h02_prefix),
                Scenario::new("contents", h02_contents),
                Scenario::new("links", h02_links),
                Scenario::new("system-files", h02_system),
                Scenario::new("missing", h02_missing),
            ],
        },
        Property {
            id: "C17",
            level: "model_checking",
            rule: "each execution builds a disc again under other circumstances (listing order, creation order, old destination content, after extraction) and compares bytes or contents",
            bounds: "5 directories x all listing orders x 2 creation orders; all definitions of up to 3 entries built twice; 5 directories x 1..2 partitions x 8 kinds of old destination content; extraction and rebuild of all trees of up to 3 entries over 3 sizes, 6 special ones and 12 of up to 5000 entries or 250 levels x 5 kinds of system files",
            assumptions: &["directory listings reach the code through readdir64, whose order the harness controls"],
            scenarios: vec![
                Scenario::new("orders", h17_orders),
                Scenario::new("again", h17_again),
                Scenario::new("dirty-destination", h17_dirty),
                Scenario::new("rebuild", h17_rebuild),
            ],
        },
        Property {
            id: "C24",
            level: "model_checking",
            rule: "each execution builds one directory whose entries may collide, in one listing order; a state is a distinct directory content; non-trivial: unusual listing order, unusual name",
            bounds: "all folders of 2..3 (quick) / 2..4 (thorough) entries out of 5 names with case variants x file / folder with one file / folder with colliding files / empty folder, at the top or one level down, x all listing orders; 12 pairs of distinct names x kinds; 6 endings x 2 spellings behind a common start of 25 lengths up to 252 bytes x kinds; 4 pairs up to 250 levels deep or among up to 1000 other files; 12 unstorable names x 5 places; files of 4 GiB and more",
            assumptions: &["the scratch file system distinguishes case"],
            scenarios: vec![
                Scenario::new("case", h24_case),
                Scenario::new("distinct", h24_distinct),
                Scenario::new("deep", h24_deep),
                Scenario::new("prefixes", h24_prefix),
                Scenario::new("names", h24_names),
                Scenario::new("large", h24_large),
            ],
        },
    ]
}
