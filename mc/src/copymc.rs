//! C22: `build_copy` on hand-made images.
use crate::common::*;
use crate::dirs::{made, eng, permutation, quiet, silent, Scratch};
use crate::handimg::*;
use disc_riider::builder::build_copy;
use mclib::oracle as o;
use mclib::*;
use std::io::Cursor;

/// The tree a copy must have: of the entries directly below the top-level
/// THP directory only those whose names start with `Demo` remain.
fn copied(t: &[T]) -> Vec<T> {
    t.iter()
        .map(|n| match n {
            T::D { name, kids } if name == "THP" => T::d(name, kids.iter().filter(|k| k.name().starts_with("Demo")).cloned().collect()),
            n => n.clone(),
        })
        .collect()
}
/// Runs the copy and returns what it wrote.
/// Partitions and files beyond 4 GiB.
fn h_far(ctx: &Ctx) -> R {
    let (poff, group, delta) = far_choice(ctx);
    let (pieces, m) = far(poff, group, delta);
    let s = Scratch::new("c22f")?;
    let (src, dest) = (s.path().join("src.iso"), s.path().join("dest.iso"));
    quiet(|| put_sparse(&src, &pieces))?;
    eng(quiet(|| std::fs::write(&dest, b"")))?;
    ctx.step();
    if let Err(e) = silent(|| build_copy(&src, &dest).map_err(|e| e.to_string())) {
        fail!("copying a valid image fails: {e}");
    }
    let out = made(quiet(|| std::fs::read(&dest)))?;
    judge_copy(ctx, &m, &out)
}
fn run_copy(ctx: &Ctx, img: &[u8], old: Option<&[u8]>) -> R<Result<Vec<u8>, String>> {
    let s = Scratch::new("c22")?;
    let (src, dest) = (s.path().join("src.iso"), s.path().join("dest.iso"));
    eng(quiet(|| std::fs::write(&src, img)))?;
    eng(quiet(|| std::fs::write(&dest, old.unwrap_or(&[]))))?;
    ctx.step();
    let r = silent(|| build_copy(&src, &dest).map_err(|e| e.to_string()));
    let kept = made(quiet(|| std::fs::read(&src)))?;
    ensure!(kept == img, "the copy changes its source");
    match r {
        Ok(()) => Ok(Ok(made(quiet(|| std::fs::read(&dest)))?)),
        Err(e) => Ok(Err(e)),
    }
}
fn copy_check(ctx: &Ctx, parts: &[HandPart], old: Option<&[u8]>) -> R {
    let m = make(parts);
    let out = match run_copy(ctx, &m.img, old)? {
        Ok(b) => b,
        Err(e) => fail!("copying a valid image fails: {e}"),
    };
    judge_copy(ctx, &m, &out)
}
fn judge_copy(ctx: &Ctx, m: &Made, out: &[u8]) -> R {
    let Some(p) = m.parts.iter().find(|p| p.ptype == 0) else { return Err(Stop::Engine("no data partition".into())) };
    let mut def = Def::new(copied(&p.tree));
    def.hdr = p.boot.clone();
    def.bi2 = p.bi2.clone();
    def.app = p.app.clone();
    def.dol = p.dol.clone();
    let part = PartIn { ptype: 0, ticket: p.ticket.clone(), tmd: p.tmd.clone(), certs: p.certs.clone(), def };
    let disc = DiscIn { header: m.header.clone(), region: m.region, parts: vec![part] };
    verify_reader(ctx, Cursor::new(&out), &disc, &ReadOpts { full: true })?;
    ctx.observe(hash_bytes(out));
    Ok(())
}
fn state(ctx: &Ctx, parts: &[HandPart], what: &str) {
    let mut h = hash_bytes(what.as_bytes());
    for p in parts {
        h = mix(h, hash_bytes(format!("{}{:?}{}", p.ptype, p.lay, show(&p.tree)).as_bytes()));
        h = mix(mix(h, hash_bytes(&p.app)), mix(hash_bytes(&p.dol), mix(hash_bytes(&p.tmd), mix(hash_bytes(&p.certs), hash_bytes(&p.bi2)))));
    }
    ctx.state(h);
}

/// Every subset of movie entries, in two surroundings.
fn h_movies(ctx: &Ctx) -> R {
    let all = [
        T::f("Demo01.thp", 1, 0x123),
        T::f("demo02.thp", 2, 0x456),
        T::d("DemoDir", vec![T::f("x.thp", 3, 0x77), T::f("Demo", 4, 1)]),
        T::d("other", vec![T::f("Demo", 5, 0x99), T::d("THP", vec![T::f("y", 6, 2)])]),
        T::f("Dem", 7, 3),
        T::f("Demo", 8, 0),
        T::f("xDemo", 9, 0x40),
    ];
    let mut kids = vec![];
    for k in &all {
        if ctx.flag() {
            kids.push(k.clone());
        }
    }
    if ctx.flag() {
        kids.reverse();
    }
    let thp = T::d("THP", kids);
    let tree = match ctx.choose(ctx.by_tier(2, 3)) {
        0 => vec![thp],
        1 => vec![
            T::f("Alpha", 11, 0x10),
            T::d("Sub", vec![T::d("THP", vec![T::f("keep.thp", 12, 0x21)]), T::f("q", 13, 0x1000)]),
            thp,
            T::f("THPx", 14, 7),
            T::d("Zed", vec![T::f("a", 15, 0)]),
        ],
        _ => vec![T::d("Empty", vec![]), thp, T::f("thx", 16, 0x7C00)],
    };
    let p = HandPart::new(0, 71, tree);
    ctx.note(|| format!("tree [{}]", show(&p.tree)));
    let parts = [p];
    state(ctx, &parts, "");
    ctx.nontrivial();
    copy_check(ctx, &parts, None)
}
/// Many movies, deep folders of them, deep and wide surroundings.
fn h_large(ctx: &Ctx) -> R {
    let (k, n) = (ctx.choose(5), *ctx.pick(&BIG));
    let mut kids: Vec<T> = match ctx.choose(3) {
        0 => (0..n * 4).map(|i| T::f(&format!("{}{i:04}", if i % 3 == 1 { "demo" } else { "Demo" }), i % 50, i % 4)).collect(),
        1 => vec![T::d("DemoX", big(k, n)), T::d("other", big(k, n))],
        _ => (0..n * 2).map(|i| T::d(&format!("Demo{i}"), vec![T::f("THP", i % 30, 2), T::f("x", 1, 1)])).collect(),
    };
    kids.push(T::f("zap", 3, 3));
    let mut tree = big(k, n);
    tree.push(T::d("THP", kids));
    let p = HandPart::new(0, 71, tree);
    ctx.note(|| format!("shape {k}, size {n}"));
    let parts = [p];
    state(ctx, &parts, "");
    ctx.nontrivial();
    copy_check(ctx, &parts, None)
}
/// Files of boundary sizes anywhere in the source, in several layouts.
fn h_layout(ctx: &Ctx) -> R {
    let sizes: &[usize] = &[0, 1, 0x7BFF, 0x7C00, 0x7C01, 0x10000, 0x1F0000 - 1, 0x1F0000, 0x1F0000 + 1, 0x1F0000 * 2 + 5];
    let a = *ctx.pick(sizes);
    let b = *ctx.pick(&[5usize, 0, 0x7C00, 0x1F0000]);
    let lay = *ctx.pick(&[Lay::Seq, Lay::Rev, Lay::At(0x1F0000 - 4), Lay::At(0x1F0000), Lay::At(0x1F0000 * 2 + 0x7C00 - 4)]);
    let mut p = HandPart::new(0, 72, vec![T::f("first", 1, a), T::d("THP", vec![T::f("Demo", 2, b), T::f("gone", 3, 0x20001)]), T::f("last", 4, 0x43)]);
    p.lay = lay;
    ctx.note(|| format!("files of {a:#x} and {b:#x} bytes, layout {lay:?}"));
    let parts = [p];
    state(ctx, &parts, "");
    ctx.nontrivial();
    copy_check(ctx, &parts, None)
}
/// Contents that are not random, and equal files.
fn h_contents(ctx: &Ctx) -> R {
    let (a, b) = (*ctx.pick(&KINDS), *ctx.pick(&KINDS));
    let n = *ctx.pick(&[0x41usize, 0x8001, o::GD + 5]);
    let mut p = HandPart::new(0, 72, vec![T::f("a", a, n), T::d("THP", vec![T::f("Demo", b, n), T::f("gone", b, n)]), T::f("z", a, 0x40)]);
    match ctx.choose(4) {
        0 => {}
        1 => p.bi2 = o::content(b, 0x2000).to_vec(),
        2 => p.app = o::apploader(0x777, 0x101, b),
        _ => p.dol = o::dol(0x1234, 3, b),
    }
    ctx.note(|| format!("tree [{}]", show(&p.tree)));
    let parts = [p];
    state(ctx, &parts, "");
    ctx.nontrivial();
    copy_check(ctx, &parts, None)
}
/// Only the data partition is copied, wherever it is; the old destination
/// contents do not show.
fn h_partitions(ctx: &Ctx) -> R {
    let perm = permutation(ctx, 3);
    let n = 1 + ctx.choose(3);
    let twice = ctx.flag();
    let old = ctx.choose(3);
    let data = HandPart::new(0, 73, vec![T::d("THP", vec![T::f("Demo", 2, 9), T::f("gone", 3, 8)]), T::f("f", 1, 0x100)]);
    let mut parts: Vec<HandPart> = perm
        .iter()
        .take(n)
        .map(|t| match t {
            0 => data.clone(),
            t => HandPart::new(*t as u32, 80 + *t as u8, vec![T::d("THP", vec![T::f("no", 4, 3)]), T::f("f", 5, 0x100)]),
        })
        .collect();
    if !parts.iter().any(|p| p.ptype == 0) {
        return Err(Stop::Prune);
    }
    if twice {
        parts.push(HandPart::new(0, 90, vec![T::d("THP", vec![T::f("Demo", 6, 9)]), T::f("f", 7, 0x100)]));
    }
    for (i, p) in parts.iter_mut().enumerate() {
        p.outer = (i + old) % OUTER;
        p.inner = (i + n) % INNER;
        p.group = if old == 1 { i } else { 0 };
    }
    ctx.note(|| format!("partitions {:?}, old destination {old}", parts.iter().map(|p| p.ptype).collect::<Vec<_>>()));
    state(ctx, &parts, &old.to_string());
    if n > 1 || old > 0 {
        ctx.nontrivial();
    }
    let before = match old {
        0 => None,
        1 => Some(vec![0xEEu8; 0x900000]),
        _ => Some(make(&[HandPart::new(1, 5, vec![T::f("old", 1, 0x300000)]), HandPart::new(0, 6, vec![T::f("older", 2, 0x300000)])]).img),
    };
    copy_check(ctx, &parts, before.as_deref())
}
fn h_system(ctx: &Ctx) -> R {
    let mut p = HandPart::new(0, 74, vec![T::d("THP", vec![]), T::f("f", 1, 0x40)]);
    match ctx.choose(6) {
        0 => p.app = o::apploader(*ctx.pick(&[0usize, 1, 0x1234, 0x7C00]), *ctx.pick(&[0usize, 1, 31, 0x8000]), 6),
        1 => p.dol = o::dol(*ctx.pick(&[0x100usize, 0x101, 0x7C00, 0x8123, 0x100000]), *ctx.pick(&[1usize, 7, 18, 21, 22, 23, 24, 25, 26, 27, 28]), 7),
        2 => p.tmd = o::tmd(*ctx.pick(&[1usize, 2, 3, 40]), 9),
        3 => {
            let mut c = vec![];
            for i in 0..3u8 {
                c.extend(o::cert(ctx.choose(3), ctx.choose(2), i * 30));
            }
            p.certs = c;
        }
        4 => {
            p.outer = ctx.choose(OUTER);
            p.inner = ctx.choose(INNER);
            p.lay = *ctx.pick(&[Lay::Seq, Lay::Rev]);
        }
        _ => p.seed = *ctx.pick(&[0u8, 1, 2, 255, 254]),
    }
    ctx.note(|| format!("apploader {:#x}, DOL {:#x}, TMD {:#x}, certificates {:#x}, seed {}, layout {} {} {:?}", p.app.len(), p.dol.len(), p.tmd.len(), p.certs.len(), p.seed, p.outer, p.inner, p.lay));
    let parts = [p];
    state(ctx, &parts, &format!("{} {} {} {:?}", parts[0].seed, parts[0].outer, parts[0].inner, parts[0].lay));
    ctx.nontrivial();
    copy_check(ctx, &parts, None)
}
/// A source whose data ends early cannot be copied and must not come out shorter.
fn h_incomplete(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let size = *ctx.pick(&[0x40usize, 0x7C00, 0x10000, 0x18000]);
    let miss = *ctx.pick(&[4u64, 0x3C, 0x7C00, 0xF804]);
    let cut = ctx.choose(2) == 1;
    if miss as usize > size && !cut {
        return Err(Stop::Prune);
    }
    ctx.note(|| format!("a file of {size:#x} bytes at the end of the data, {miss:#x} bytes missing, image cut: {cut}"));
    ctx.state(mix(size as u64, miss << 1 | cut as u64));
    let mut p = HandPart::new(0, 75, vec![T::d("THP", vec![T::f("Demo", 1, 0x50)]), T::f("part", 2, size)]);
    p.lay = Lay::At(o::GD - 0x50 - size);
    if !cut {
        p.cut = miss;
    }
    let mut m = make(&[p]);
    if cut {
        let n = m.img.len();
        m.img.truncate(n - miss as usize);
    }
    if run_copy(ctx, &m.img, None)?.is_ok() {
        fail!("a source with missing file data is copied without an error");
    }
    ctx.observe(1);
    Ok(())
}
/// The same for system files (the table is only read, not copied).
fn h_incomplete_system(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let mut p = HandPart::new(0, 76, vec![T::d("THP", vec![T::f("Demo", 1, 0x50)]), T::f("part", 2, 9)]);
    let what = system_beyond(ctx, &mut p);
    if p.fst_claim.is_some() {
        return Err(Stop::Prune);
    }
    ctx.note(|| what.clone());
    ctx.state(hash_bytes(what.as_bytes()));
    if run_copy(ctx, &make(&[p]).img, None)?.is_ok() {
        fail!("a source is copied without an error although {what}");
    }
    ctx.observe(1);
    Ok(())
}

/// A copy onto its own source cannot work, and must not destroy it.
fn h_onto_itself(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let how = ctx.choose(8);
    let movies = ctx.flag();
    let mut thp = vec![T::f("Demo1", 1, 0x50)];
    if movies {
        thp.push(T::f("Movie", 3, 0x8123));
    }
    let m = make(&[HandPart::new(0, 77, vec![T::d("THP", thp), T::f("x", 2, 0x1234)])]);
    ctx.state(mix(how as u64, movies as u64));
    let s = Scratch::new("c22s")?;
    let src = s.path().join("src.iso");
    let (sub, link) = (s.path().join("sub"), s.path().join("link.iso"));
    eng(quiet(|| std::fs::write(&src, &m.img)))?;
    eng(quiet(|| std::fs::create_dir(&sub)))?;
    eng(quiet(|| std::os::unix::fs::symlink(&src, &link)))?;
    let hard = s.path().join("hard.iso");
    eng(quiet(|| std::fs::hard_link(&src, &hard)))?;
    let (a, b) = match how {
        0 => (src.clone(), src.clone()),
        1 => (src.clone(), sub.join("../src.iso")),
        2 => (src.clone(), link.clone()),
        3 => (link.clone(), src.clone()),
        4 => (link.clone(), link.clone()),
        5 => (src.clone(), hard.clone()),
        6 => (hard.clone(), link.clone()),
        _ => (s.path().join("./src.iso"), link.clone()),
    };
    ctx.note(|| format!("copying {a:?} to {b:?}, movies: {movies}"));
    ctx.step();
    let r = silent(|| build_copy(&a, &b).map_err(|e| e.to_string()));
    let kept = made(quiet(|| std::fs::read(&src)))?;
    ensure!(kept == m.img, "copying an image onto itself ({r:?}) changes it, {:#x} of {:#x} bytes are left", kept.len(), m.img.len());
    ctx.observe(r.is_err() as u64);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C22",
        level: "model_checking",
        rule: "each execution copies one hand-made image with the real build_copy and compares the whole result, read by the oracle and by the reader, with the source; a state is a distinct source image and destination, a transition one copy or one read",
        bounds: "all 128 subsets of 7 THP entries x 2 orders x 2 (quick) / 3 (thorough) surroundings; 4 shapes of tree x 16 sizes up to 250 levels and 5000 entries, every storable ASCII and 12 other characters at each end and inside of file and folder names x 3 kinds of movie folder; 10 x 4 file sizes x 5 layouts; 7 x 7 kinds of contents (zeros, ones, zeros in parts, equal files) x 3 sizes x 4 system files; all orders of up to 3 partitions with or without a second data partition x 3 old destination contents; system files of many sizes and kinds; 48 places of partition and file around and beyond 4 GiB; sources with missing file data or system files; 8 ways to name the source as destination",
        assumptions: &[
            "images are made by the oracle, not by the repository's builder",
            "siblings are distinct ignoring case",
        ],
        scenarios: vec![
            Scenario::new("movies", h_movies),
            Scenario::new("large", h_large),
            Scenario::new("layouts", h_layout),
            Scenario::new("contents", h_contents),
            Scenario::new("partitions", h_partitions),
            Scenario::new("beyond4GiB", h_far),
            Scenario::new("system-files", h_system),
            Scenario::new("incomplete", h_incomplete),
            Scenario::new("incomplete-system", h_incomplete_system),
            Scenario::new("onto-itself", h_onto_itself),
        ],
    }]
}
