//! C26: partitions on both sides of the format's limits.
use crate::build::{judge_chain, judge_layout, judge_read};
use crate::common::*;
use crate::dirs::{eng, quiet, Scratch, Src};
use disc_riider::builder::{build_from_directory, PartitionAddError, WiiDiscBuilder, WiiPartitionDefinition};
use disc_riider::structs::{Certificate, DiscHeader, Ticket, TMD};
use disc_riider::{Fst, FstNode, FstToBytes};
use mclib::oracle::{self as o, GD};
use mclib::*;
use std::borrow::Cow;
use std::io::Cursor;

type E = PartitionAddError<DefErr>;

/// The addition must fail, and the builder must still make a proper image afterwards.
fn refused(ctx: &Ctx, p: &PartIn, what: &str) -> R {
    let mut disc = DiscIn::one(PartIn::new(1, 77, Def::new(vec![T::f("after", 3, 0x1234)])));
    let mut f = MemFile::new();
    let hdr: DiscHeader = parse(&disc.header, "disc header")?;
    let mut b = WiiDiscBuilder::create(&mut f, hdr, disc.region);
    ctx.step();
    let mut p = p.clone();
    match add(&mut b, &mut p, &mut |_| {})? {
        Ok(()) => fail!("{what} is accepted"),
        Err(e) => ctx.observe_str(&e.to_string()),
    }
    for q in &mut disc.parts {
        ctx.step();
        if let Err(e) = add(&mut b, q, &mut |_| {})? {
            fail!("after refusing {what}, a valid partition is refused: {e}");
        }
    }
    if let Err(e) = b.finish() {
        fail!("after refusing {what}, finishing fails: {e}");
    }
    verify_reader(ctx, Cursor::new(&f.data), &disc, &ReadOpts { full: true })
}
fn accepted(ctx: &Ctx, p: PartIn) -> R {
    let d = DiscIn::one(p);
    judge_read(ctx, &d)?;
    judge_chain(ctx, &d)?;
    judge_layout(ctx, &d)
}

/// TMD and certificates share the space in front of the hash table.
fn h_front(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let mut certs = vec![];
    let kinds = ctx.choose(3);
    for i in 0..3 {
        certs.extend(o::cert([0, 1, 2][kinds], kinds % 2, i * 30));
    }
    let mut p = PartIn::new(0, 8, Def::new(vec![T::f("f", 1, 0x100)]));
    // contents that just fit
    let room = 0x8000 - 0x2C0 - certs.len();
    let most = (room - 0x1E4) / 36;
    let counts: Vec<usize> = (most - 4..=most + 4).chain([most + 40, 1000, 2000, 5000, 0x7FFF, 0x8000, 0xFFFF]).collect();
    let n = *ctx.pick(&counts);
    p.tmd = o::tmd(n, 6);
    p.certs = certs;
    let cert_at = (0x2C0 + p.tmd.len()).div_ceil(0x20) * 0x20;
    let fits = cert_at + p.certs.len() <= 0x8000;
    ctx.note(|| format!("{n} TMD contents, certificates of {:#x} bytes, ending at {:#x}", p.certs.len(), cert_at + p.certs.len()));
    ctx.state(mix(n as u64, kinds as u64));
    if fits {
        accepted(ctx, p)
    } else {
        refused(ctx, &p, &format!("a TMD of {:#x} and certificates of {:#x} bytes", p.tmd.len(), p.certs.len()))
    }
}

/// bi2 lies between the header and the apploader.
fn h_bi2(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let n = *ctx.pick(&[0x1FFEusize, 0x1FFF, 0x2000, 0x2001, 0x2002, 0x2040, 0x3000, 0x7C00, 0x8000, GD, GD + 1]);
    let app = *ctx.pick(&[0usize, 0x1000]);
    let dir = ctx.flag();
    ctx.note(|| format!("bi2 of {n:#x} bytes, apploader with {app:#x} bytes of code, from a directory: {dir}"));
    ctx.state(mix(n as u64, (app * 2 + dir as usize) as u64));
    let mut src = Src::new(vec![T::f("f", 1, 0x100)]);
    src.part.def.bi2 = o::content(7, n).to_vec();
    src.part.def.app = o::apploader(app, 0, 5);
    if !dir {
        return if n <= 0x2000 { accepted(ctx, src.part) } else { refused(ctx, &src.part, &format!("bi2 of {n:#x} bytes")) };
    }
    let s = Scratch::new("c26")?;
    src.write(s.path())?;
    let mut f = MemFile::new();
    ctx.step();
    let r = build_from_directory(s.path(), &mut f, &mut |_| {});
    match r {
        Ok(()) => {
            ensure!(n <= 0x2000, "a directory with a bi2 of {n:#x} bytes is accepted");
            verify_reader(ctx, Cursor::new(&f.data), &src.disc(), &ReadOpts { full: true })
        }
        Err(e) => {
            ensure!(n > 0x2000, "a directory with a bi2 of {n:#x} bytes is refused: {e}");
            Ok(())
        }
    }
}

/// Names are found through 24-bit offsets.
fn h_names(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let dir = ctx.flag();
    let whole = ctx.flag();
    // where the last name starts
    let at = *ctx.pick(&[0xFF_FFFEusize, 0xFF_FFFF, 0x100_0000, 0x100_0001, 0x100_1234, 0x180_0000, 0x200_0000]);
    let more = ctx.choose(2);
    let mut left = at - 1; // the root's own name
    let mut t = vec![];
    let mut i = 0;
    while left > 0 {
        // never leave a rest that is too short for a name of its own
        let n = if left > 1024 { 512 } else { left };
        t.push(FstNode::File { name: format!("{i:0w$}", w = n - 1), offset: i * 64, length: i as u32 });
        left -= n;
        i += 1;
    }
    let last = FstNode::File { name: "last".into(), offset: 4, length: 5 };
    t.push(if dir { FstNode::Directory { name: "last".into(), files: vec![] } } else { last });
    for k in 0..more {
        t.push(FstNode::File { name: format!("z{k}"), offset: 8, length: 9 });
    }
    let first_beyond = at + more * 5;
    let fits = if more > 0 { first_beyond <= 0xFF_FFFF } else { at <= 0xFF_FFFF };
    ctx.note(|| format!("{} nodes, the last name starts at {first_beyond:#x}, directory: {dir}, in a partition: {whole}", t.len()));
    ctx.state(mix(at as u64, (more * 4 + dir as usize * 2 + whole as usize) as u64));
    let mut fst = Fst::new();
    *fst.get_entries_mut() = t.clone();
    if whole {
        // through the builder, files empty
        if fits || more > 0 || at > 0x100_0001 {
            return Err(Stop::Prune);
        }
        let tree = t
            .iter()
            .map(|n| match n {
                FstNode::File { name, .. } => T::f(name, 1, 0),
                FstNode::Directory { name, .. } => T::d(name, vec![]),
            })
            .collect();
        return refused(ctx, &PartIn::new(0, 8, Def::new(tree)), "a tree with more than 16 MiB of names");
    }
    ctx.step();
    let tb = match FstToBytes::try_from(fst) {
        Ok(tb) => tb,
        Err(e) => {
            ensure!(!fits, "a tree with 16 MiB of names is refused: {e}");
            return Ok(());
        }
    };
    let mut b = Cursor::new(vec![]);
    ctx.step();
    if let Err(e) = tb.write_to(&mut b) {
        ensure!(!fits, "a tree with 16 MiB of names is refused: {e}");
        return Ok(());
    }
    ctx.step();
    match Fst::read(&mut b, 0) {
        Ok(f) if *f.get_entries() == t => {}
        Ok(_) => fail!("a tree with the last name at {first_beyond:#x} is stored as a different tree"),
        Err(e) => fail!("a tree with the last name at {first_beyond:#x} is stored, but cannot be read: {e}"),
    }
    ensure!(fits, "a name at {first_beyond:#x} cannot be stored in 24 bits");
    ctx.observe(b.get_ref().len() as u64);
    Ok(())
}

/// Tables nested deeper than the reader follows them must not be written.
fn h_depth(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let depth = *ctx.pick(&[250usize, 500, 510, 511, 512, 513, 514, 600, 1000]);
    let leaf = ctx.flag();
    let via = ctx.choose(3);
    ctx.note(|| format!("{depth} nested directories, file inside: {leaf}, via {via}"));
    ctx.state(mix(depth as u64, (via * 2 + leaf as usize) as u64));
    let mut t = if leaf { vec![T::f("leaf", 1, 9)] } else { vec![] };
    for i in 0..depth {
        t = vec![T::d(if i % 2 == 0 { "d" } else { "e" }, t)];
    }
    let may_fail = depth > 250;
    if via == 0 {
        let want = to_fst(&t, true);
        let entries = want.get_entries().clone();
        ctx.step();
        let Ok(tb) = FstToBytes::try_from(want) else {
            ensure!(may_fail, "{depth} nested directories are refused");
            return Ok(());
        };
        let mut b = Cursor::new(vec![]);
        if let Err(e) = tb.write_to(&mut b) {
            ensure!(may_fail, "{depth} nested directories are refused: {e}");
            return Ok(());
        }
        return match Fst::read(&mut b, 0) {
            Ok(f) if *f.get_entries() == entries => Ok(()),
            Ok(_) => viol(format!("{depth} nested directories are stored as a different tree")),
            Err(e) => viol(format!("{depth} nested directories are stored, but cannot be read: {e}")),
        };
    }
    let src = Src::new(t);
    let mut f = MemFile::new();
    let disc;
    let err = if via == 1 {
        disc = DiscIn::one(src.part.clone());
        let hdr: DiscHeader = parse(&disc.header, "disc header")?;
        let mut b = WiiDiscBuilder::create(&mut f, hdr, disc.region);
        ctx.step();
        match add(&mut b, &mut src.part.clone(), &mut |_| {})? {
            Ok(()) => b.finish().err().map(|e| e.to_string()),
            Err(e) => Some(e.to_string()),
        }
    } else {
        disc = src.disc();
        let s = Scratch::new("c26n")?;
        src.write(s.path())?;
        ctx.step();
        build_from_directory(s.path(), &mut f, &mut |_| {}).err().map(|e| e.to_string())
    };
    if let Some(e) = err {
        ensure!(may_fail, "{depth} nested directories are refused: {e}");
        return Ok(());
    }
    verify_reader(ctx, Cursor::new(&f.data), &disc, &ReadOpts { full: true })
}

/// A definition with one file that is longer than a table can say.
/// A definition some of whose files are long and all zero.
pub struct Huge {
    pub def: Def,
    pub lens: Vec<(String, usize)>,
}
impl WiiPartitionDefinition<DefErr> for Huge {
    fn get_disc_header(&mut self) -> Result<DiscHeader, E> {
        self.def.get_disc_header()
    }
    fn get_bi2(&mut self) -> Result<Cow<'_, [u8]>, E> {
        self.def.get_bi2()
    }
    fn get_apploader(&mut self) -> Result<Cow<'_, [u8]>, E> {
        self.def.get_apploader()
    }
    fn get_fst(&mut self) -> Result<Fst, E> {
        self.def.get_fst()
    }
    fn get_dol(&mut self) -> Result<Cow<'_, [u8]>, E> {
        self.def.get_dol()
    }
    fn get_file_data(&mut self, path: &Vec<String>) -> Result<(Cow<'_, [u8]>, u32), E> {
        if let Some((_, len)) = self.lens.iter().find(|(n, _)| path.last() == Some(n)) {
            return Ok((Cow::Owned(vec![0; *len]), 0));
        }
        self.def.get_file_data(path)
    }
}
fn h_file(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let len = *ctx.pick(&[0x1_0000_0000usize, 0x1_0000_0001, 0x1_0000_0040, 0x1_0100_0000]);
    let nested = ctx.flag();
    ctx.note(|| format!("a file of {len:#x} bytes, nested: {nested}"));
    ctx.state(mix(len as u64, nested as u64));
    let huge = T::f("huge", 1, 0);
    let tree = if nested { vec![T::f("a", 2, 9), T::d("dir", vec![huge, T::f("z", 4, 5)])] } else { vec![huge] };
    let p = PartIn::new(0, 8, Def::new(tree));
    let mut def = Huge { def: p.def.clone(), lens: vec![("huge".into(), len)] };
    let disc = DiscIn::one(PartIn::new(1, 77, Def::new(vec![T::f("after", 3, 0x1234)])));
    let mut f = PageFile::new();
    let hdr: DiscHeader = parse(&disc.header, "disc header")?;
    let mut b = WiiDiscBuilder::create(&mut f, hdr, disc.region);
    let ticket: Ticket = parse(&p.ticket, "ticket")?;
    let tmd: TMD = parse(&p.tmd, "TMD")?;
    let certs: [Certificate; 3] = parse(&p.certs, "certificate chain")?;
    ctx.step();
    match b.add_partition(ptype(0), ticket, tmd, certs, &mut def, &mut |_| {}) {
        Ok(()) => fail!("a file of {len:#x} bytes is accepted, but its length cannot be stored"),
        Err(e) => ctx.observe_str(&e.to_string()),
    }
    for q in &disc.parts {
        ctx.step();
        if let Err(e) = add(&mut b, &mut q.clone(), &mut |_| {})? {
            fail!("after refusing a file of {len:#x} bytes, a valid partition is refused: {e}");
        }
    }
    if let Err(e) = b.finish() {
        fail!("after refusing a file of {len:#x} bytes, finishing fails: {e}");
    }
    verify_reader(ctx, f, &disc, &ReadOpts { full: true })
}
/// The same from a directory, with a sparse file.
fn h_file_dir(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let len = *ctx.pick(&[0x1_0000_0000u64, 0x1_0000_0005]);
    ctx.note(|| format!("a directory with a file of {len:#x} bytes"));
    ctx.state(len);
    let src = Src::new(vec![T::f("a", 1, 5), T::f("huge", 1, 0)]);
    let s = Scratch::new("c26d")?;
    src.write(s.path())?;
    eng(quiet(|| std::fs::OpenOptions::new().write(true).open(s.path().join("DATA/files/huge")).and_then(|f| f.set_len(len))))?;
    let mut f = PageFile::new();
    ctx.step();
    match build_from_directory(s.path(), &mut f, &mut |_| {}) {
        Ok(()) => fail!("a directory with a file of {len:#x} bytes is accepted, but its length cannot be stored"),
        Err(_) => ctx.observe(1),
    }
    Ok(())
}

/// A partition whose data takes exactly that many groups: little data and much padding.
fn groups_of(groups: u64, seed: u8) -> PartIn {
    let at = (groups - 1) * GD as u64;
    let third = (at / 3) as u32 & !0x3F;
    let mut t: Vec<T> = (0..3).map(|i| T::fp(&format!("p{i}"), i, 0x40, third)).collect();
    t.push(T::f("tail", seed as usize, 0x333));
    PartIn::new(0, seed, Def::new(t))
}
/// Offsets of partitions are stored in 32 bits, in units of 4 bytes.
fn far_partitions(ctx: &Ctx) -> R {
    // the first partition is as large as one can be, the third is the last one that starts below 16 GiB
    let mut disc = DiscIn { header: o::disc_header(b"Far", 1), region: o::region(2), parts: vec![] };
    disc.parts = vec![groups_of(4915, 8), groups_of(8191 - 4915, 9), PartIn::new(1, 77, Def::new(vec![T::f("last", 3, 0x1234)]))];
    ctx.note(|| "partitions at 0x50000, 9.6 GiB, just below and above 16 GiB".into());
    ctx.state(16);
    let hdr: DiscHeader = parse(&disc.header, "disc header")?;
    let mut f = PageFile::new();
    let mut b = WiiDiscBuilder::create(&mut f, hdr, disc.region);
    for p in &disc.parts {
        ctx.step();
        if let Err(e) = add(&mut b, &mut p.clone(), &mut |_| {})? {
            fail!("a partition that starts below 16 GiB is refused: {e}");
        }
    }
    ctx.step();
    if add(&mut b, &mut disc.parts[2].clone(), &mut |_| {})?.is_ok() {
        fail!("a partition that starts above 16 GiB is accepted, but its offset cannot be stored");
    }
    if let Err(e) = b.finish() {
        fail!("finishing fails: {e}");
    }
    verify_reader(ctx, f, &disc, &ReadOpts { full: false })
}
/// The partition table ends where the region is stored.
fn many_partitions(ctx: &Ctx) -> R {
    const ROOM: usize = (0x4E000 - 0x40020) / 8;
    ctx.note(|| format!("{} partitions", ROOM + 1));
    ctx.state(ROOM as u64);
    let p = PartIn::new(2, 7, Def::new(vec![T::f("x", 3, 0x40)]));
    let region = o::region(5);
    let hdr: DiscHeader = parse(&o::disc_header(b"Many", 1), "disc header")?;
    let mut f = PageFile::new();
    let mut b = WiiDiscBuilder::create(&mut f, hdr, region);
    let mut most = 0;
    for _ in 0..ROOM + 1 {
        ctx.step();
        if add(&mut b, &mut p.clone(), &mut |_| {})?.is_err() {
            break;
        }
        most += 1;
    }
    if let Err(e) = b.finish() {
        fail!("finishing with {most} partitions fails: {e}");
    }
    let rd = match disc_riider::WiiIsoReader::open(&mut f) {
        Ok(rd) => rd,
        Err(e) => fail!("an image with {most} partitions cannot be opened: {e}"),
    };
    ensure!(most == ROOM, "{most} partitions are accepted, there is room for {ROOM}");
    ensure!(rd.partitions().len() == most, "{} instead of {most} partitions are listed", rd.partitions().len());
    ensure!(*rd.get_region() == region, "the region is overwritten by the partition table");
    for (i, p) in rd.partitions().iter().enumerate() {
        ensure!(p.get_offset() == 0x50000 + i as u64 * 0x220000 && p.get_type() == ptype(2), "partition {i} is listed as {p:?}");
    }
    ctx.observe(most as u64);
    Ok(())
}

/// The hash table has room for 4915 groups.
fn h_groups(ctx: &Ctx) -> R {
    ctx.nontrivial();
    const MOST: u64 = 0x18000 / 20;
    let kind = ctx.choose(4);
    if kind > 1 {
        return if kind == 2 { far_partitions(ctx) } else { many_partitions(ctx) };
    }
    let beyond = kind == 0;
    if !beyond && !ctx.thorough() {
        return Err(Stop::Prune);
    }
    // one file behind so much padding that it starts in the last group
    let groups = if beyond { MOST + 1 } else { MOST };
    let at = (groups - 1) * GD as u64;
    let part = |pads: [u32; 3]| {
        let mut t: Vec<T> = (0..3).map(|i| T::fp(&format!("p{i}"), i, 0x40, pads[i])).collect();
        t.push(T::f("tail", 5, 0x333));
        PartIn::new(0, 8, Def::new(t))
    };
    // the first three files start behind table and system files
    let third = (at / 3) as u32 & !0x3F;
    let p = part([third, third, third]);
    ctx.note(|| format!("data of {groups} groups"));
    ctx.state(groups);
    let hdr: DiscHeader = parse(&o::disc_header(b"Groups", 1), "disc header")?;
    let mut f = PageFile::new();
    let mut b = WiiDiscBuilder::create(&mut f, hdr, o::region(2));
    ctx.step();
    let r = add(&mut b, &mut p.clone(), &mut |_| {})?;
    if beyond {
        ensure!(r.is_err(), "data of {groups} groups is accepted, but the hash table holds {MOST}");
        return Ok(());
    }
    if let Err(e) = r {
        fail!("data of {groups} groups is refused: {e}");
    }
    if let Err(e) = b.finish() {
        fail!("finishing fails: {e}");
    }
    let disc = DiscIn { header: o::disc_header(b"Groups", 1), region: o::region(2), parts: vec![p] };
    verify_reader(ctx, f, &disc, &ReadOpts { full: false })
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C26",
        level: "model_checking",
        rule: "each execution hands the real builder (or serializer) one definition on either side of a limit of the format: below it the image is judged like in C01, C03 and C04, beyond it the addition must fail, and a partition added afterwards must come out right; a state is a distinct definition, a transition one library call",
        bounds: "TMD content counts within 4 of the largest that fits and 6 far beyond x 3 certificate chains; 11 bi2 sizes x 2 apploaders, as definition and as directory; name areas ending within 2 bytes of 16 MiB and beyond, last entry file or directory; 9 nesting depths around the reader's limit as table, definition and directory; 4 file sizes from 4 GiB (2 from a directory); data of 4916 groups; a partition of 4915 groups in front of others on both sides of 16 GiB; one partition more than the table has room for",
        assumptions: &["the limits are those of the disc format: hash table at 0x8000 with 4915 entries, bi2 of 0x2000 bytes, 24-bit name offsets, 32-bit file lengths, partition offsets below 16 GiB, a partition table that ends at the region (0x4E000)"],
        scenarios: vec![
            Scenario::new("front", h_front),
            Scenario::new("bi2", h_bi2),
            Scenario::new("names", h_names).workers(4),
            Scenario::new("depth", h_depth),
            Scenario::new("file-size", h_file).limit(400).workers(2),
            Scenario::new("file-in-directory", h_file_dir).limit(400).workers(1),
            Scenario::new("groups", h_groups).limit(700).workers(4),
        ],
    }]
}
