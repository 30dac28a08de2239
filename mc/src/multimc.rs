//! C05 (sequences of additions) and C13 (misbehaving destinations and definitions).
use crate::common::*;
use disc_riider::builder::{PartitionAddError, WiiDiscBuilder};
use disc_riider::structs::DiscHeader;
use mclib::oracle::{self as o, GD, GS};
use mclib::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- C05

fn small(seed: u8, t: u32) -> PartIn {
    PartIn::new(t, seed, Def::new(vec![T::f("a.bin", seed as usize, 0x123), T::d("d", vec![T::f("b", seed as usize + 1, 0)])]))
}
fn large(seed: u8, t: u32) -> PartIn {
    PartIn::new(t, seed, Def::new(vec![T::f("a.bin", seed as usize, GD - 0x4000), T::d("d", vec![T::f("b", seed as usize + 1, 0x9001)])]))
}
fn empty(seed: u8, t: u32) -> PartIn {
    let mut p = PartIn::new(t, seed, Def::new(vec![]));
    p.tmd = o::tmd(7, seed);
    p
}

/// Judges a finished image against the list of partitions that were added.
fn judge_list(ctx: &Ctx, img: Vec<u8>, header: &[u8], region: [u8; 32], added: &[PartIn]) -> R<()> {
    let table = match o::partition_table(&img) {
        Ok(t) => t,
        Err(e) => fail!("partition table cannot be read: {e}"),
    };
    ensure!(
        table.len() == added.len(),
        "the finished image lists {} partitions, {} were added",
        table.len(),
        added.len()
    );
    let mut spans: Vec<(u64, u64)> = vec![];
    for ((off, ty), want) in table.iter().zip(added) {
        ensure!(*ty == want.ptype, "partition at {off:#x} is listed with type {ty} instead of {}", want.ptype);
        let m = match o::part_meta(&img, *off) {
            Ok(m) => m,
            Err(e) => fail!("partition at {off:#x}: {e}"),
        };
        if let Err(e) = m.data_verified(&img) {
            fail!("partition at {off:#x}: {e}");
        }
        spans.push((*off, *off + m.data_off + m.groups() * GS as u64));
    }
    spans.sort();
    for w in spans.windows(2) {
        ensure!(w[0].1 <= w[1].0, "partitions [{:#x},{:#x}) and [{:#x},{:#x}) overlap", w[0].0, w[0].1, w[1].0, w[1].1);
    }
    if let Some((a, _)) = spans.first() {
        ensure!(*a >= 0x50000, "partition at {a:#x} overlaps the disc's own areas");
    }
    let disc = DiscIn { header: header.to_vec(), region, parts: added.to_vec() };
    verify_reader(ctx, std::io::Cursor::new(&img[..]), &disc, &ReadOpts { full: true })
}

fn h05(ctx: &Ctx) -> R {
    histories(ctx, ctx.by_tier(3, 4), false)
}
/// Shorter histories with every fault point.
fn h05_points(ctx: &Ctx) -> R {
    histories(ctx, 2, true)
}
fn histories(ctx: &Ctx, depth: usize, all_points: bool) -> R {
    let header = o::disc_header(b"Multi", 1);
    let region = o::region(3);
    // counts down to the operation that fails; 0 = never
    let fuse = Rc::new(Cell::new(0u64));
    let fz = fuse.clone();
    let f = Faulty::new(MemFile::new(), move |_, _| {
        let v = fz.get();
        if v > 0 {
            fz.set(v - 1);
            if v == 1 {
                return Act::Fail;
            }
        }
        Act::Ok
    });
    let hdr: DiscHeader = parse(&header, "disc header")?;
    let mut b = WiiDiscBuilder::create(f.clone(), hdr, region);
    let mut added: Vec<PartIn> = vec![];
    let mut history = 0u64;
    for step in 0..=depth {
        let last = step == depth;
        let op = match (last, all_points) {
            (true, _) => 0,
            (_, false) => ctx.choose(8),
            // one faulty addition, then a valid one
            (_, true) if step == 0 => 4 + ctx.choose(3),
            (_, true) => 1 + ctx.choose(3),
        };
        history = mix(history, op as u64 + 1);
        let seed = 10 + step as u8 * 20;
        let mut expect_fail = false;
        let mut p = match op {
            0 => {
                ctx.note(|| "finish".into());
                ctx.step();
                if let Err(e) = b.finish() {
                    fail!("finishing failed: {e}");
                }
                ctx.nontrivial();
                judge_list(ctx, f.data(), &header, region, &added)?;
                ctx.state(history);
                ctx.observe(added.len() as u64);
                if !last && ctx.choose(2) == 1 {
                    // shorter histories are covered by this one
                    return Ok(());
                }
                continue;
            }
            1 => small(seed, 0),
            2 => large(seed, 1),
            3 => empty(seed, 2),
            4 | 5 => {
                // a definition that fails at its k-th callback
                let mut p = if op == 4 { small(seed, 1) } else { large(seed, 2) };
                let k = if all_points {
                    ctx.choose(7) as u32
                } else if op == 4 {
                    *ctx.pick(&[0, 5])
                } else {
                    *ctx.pick(&[2, 5, 6])
                };
                p.def.fail_at = Some(k);
                expect_fail = true;
                ctx.note(|| format!("callback {k} fails"));
                history = mix(history, k as u64);
                p
            }
            6 => {
                // the destination fails once during the addition
                let p = if ctx.flag() { small(seed, 0) } else { large(seed, 0) };
                let at = if all_points { 1 + ctx.choose(260) } else { *ctx.pick(&[1usize, 20, 75, 120, 150]) };
                fuse.set(at as u64);
                ctx.note(|| format!("destination operation {at} fails"));
                history = mix(history, at as u64);
                expect_fail = true;
                p
            }
            _ => {
                let mut p = small(seed, 2);
                match ctx.choose(2) {
                    0 => p.tmd = o::tmd(0, seed),
                    _ => p.def.tree.push(T::f("not \u{1F600} Shift-JIS", 1, 4)),
                }
                expect_fail = true;
                p
            }
        };
        ctx.note(|| format!("add {}", DiscIn::one(p.clone()).describe()));
        ctx.step();
        let r = add(&mut b, &mut p, &mut |_| {})?;
        if fuse.get() > 0 {
            // the fault point lies behind the end of this addition
            return Err(Stop::Prune);
        }
        match (r, expect_fail) {
            (Ok(()), false) => {
                p.def.fail_at = None;
                added.push(p);
            }
            (Ok(()), true) => fail!("adding an impossible partition reports success"),
            (Err(_), true) => ctx.nontrivial(),
            (Err(e), false) => fail!("adding a valid partition failed: {e}"),
        }
    }
    Ok(())
}

/// Many partitions on one disc, finished once or after every addition.
fn h05_many(ctx: &Ctx) -> R {
    let n = *ctx.pick(if ctx.thorough() { &[4usize, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 130, 256, 257] } else { &[4, 5, 8, 9, 17, 33, 257][..] });
    let order = ctx.choose(3);
    let again = ctx.flag();
    if n > 200 && (order != 1 || again) {
        return Err(Stop::Prune);
    }
    ctx.note(|| format!("{n} partitions, types in order {order}, finished after each: {again}"));
    ctx.state(mix(n as u64, (order * 2 + again as usize) as u64));
    ctx.nontrivial();
    let header = o::disc_header(b"Many", 1);
    let region = o::region(3);
    let mut f = MemFile::new();
    f.cap = 1 << 30;
    let hdr: DiscHeader = parse(&header, "disc header")?;
    let mut b = WiiDiscBuilder::create(&mut f, hdr, region);
    let mut added = vec![];
    for i in 0..n {
        let t = match order {
            0 => 0,
            1 => (i % 3) as u32,
            _ => (n - i) as u32 / 2 % 3,
        };
        let mut p = PartIn::new(t, i as u8, Def::new(vec![T::f("f", i, 1 + i * 7)]));
        ctx.step();
        if let Err(e) = add(&mut b, &mut p, &mut |_| {})? {
            fail!("adding partition {i} of {n} failed: {e}");
        }
        added.push(p);
        if again || i + 1 == n {
            ctx.step();
            if let Err(e) = b.finish() {
                fail!("finishing with {} partitions failed: {e}", i + 1);
            }
        }
    }
    drop(b);
    ctx.observe(f.data.len() as u64);
    judge_list(ctx, f.data, &header, region, &added)
}
/// Partitions beyond 4 GiB.
fn h05_far(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let big = PartIn::new(1, 3, Def::new(vec![T::fp("a", 1, 0x1001, 0xFF00_0000), T::fp("b", 2, 3, 0x0200_0000)]));
    let fails = ctx.flag();
    if fails && !ctx.thorough() {
        return Err(Stop::Prune);
    }
    let header = o::disc_header(b"Far", 1);
    let region = o::region(3);
    ctx.note(|| format!("a partition of 4 GiB, a failing one: {fails}, then two more"));
    ctx.state(fails as u64);
    let hdr: DiscHeader = parse(&header, "disc header")?;
    let mut f = PageFile::new();
    let mut b = WiiDiscBuilder::create(&mut f, hdr, region);
    let mut added = vec![];
    for (i, mut p) in [big, small(40, 0), large(60, 2), small(80, 0)].into_iter().enumerate() {
        ctx.step();
        let failing = fails && i == 1;
        if failing {
            p.def.fail_at = Some(5);
        }
        match add(&mut b, &mut p, &mut |_| {})? {
            Ok(()) if !failing => added.push(p),
            Ok(()) => fail!("adding an impossible partition reports success"),
            Err(_) if failing => {}
            Err(e) => fail!("adding a valid partition failed: {e}"),
        }
    }
    ctx.step();
    if let Err(e) = b.finish() {
        fail!("finishing failed: {e}");
    }
    drop(b);
    let table = match o::partition_table(&f) {
        Ok(t) => t,
        Err(e) => fail!("partition table cannot be read: {e}"),
    };
    ensure!(table.len() == added.len(), "{} partitions are listed, {} were added", table.len(), added.len());
    let mut end = 0x50000;
    for ((off, ty), want) in table.iter().zip(&added) {
        ensure!(*ty == want.ptype, "partition at {off:#x} is listed with type {ty}");
        ensure!(*off >= end, "partition at {off:#x} overlaps the one before, which ends at {end:#x}");
        match o::part_meta(&f, *off) {
            Ok(m) => end = off + m.data_off + m.groups() * GS as u64,
            Err(e) => fail!("partition at {off:#x}: {e}"),
        }
    }
    let disc = DiscIn { header, region, parts: added };
    verify_reader(ctx, f, &disc, &ReadOpts { full: true })
}

// ---------------------------------------------------------------- C13

fn disc13(kind: usize) -> DiscIn {
    match kind {
        0 => DiscIn::one(small(4, 0)),
        1 => {
            // second group, so that the first one is reloaded for the headers
            DiscIn::one(large(6, 0))
        }
        2 => {
            let mut d = DiscIn::one(small(4, 1));
            d.parts.push(large(9, 0));
            d
        }
        // the entries of the table, its names, or all of it behind the first group
        _ => {
            let mut p = small(4, 0);
            p.def.tree.push(T::f("a name that goes on for a while", 7, 0x40));
            let fst = [GD - 0x20, GD - 0x60, GD][kind - 3];
            let at = 0x2440 + p.def.app.len().next_multiple_of(0x20);
            p.def.dol = o::dol(fst - at, 3, 203);
            DiscIn::one(p)
        }
    }
}
fn reference(ctx: &Ctx, kind: usize) -> R<Rc<Vec<u8>>> {
    thread_local!(static REF: RefCell<[Option<Rc<Vec<u8>>>; 6]> = const { RefCell::new([const { None }; 6]) });
    if let Some(r) = REF.with(|r| r.borrow()[kind].clone()) {
        return Ok(r);
    }
    let img = Rc::new(build_mem(ctx, &disc13(kind))?);
    REF.with(|r| r.borrow_mut()[kind] = Some(img.clone()));
    Ok(img)
}

enum Built {
    Ok,
    Failed(String),
}
/// Builds `disc` into `f` and returns how that ended.
fn try_build(ctx: &Ctx, f: Faulty, disc: &DiscIn) -> R<Built> {
    let hdr: DiscHeader = parse(&disc.header, "disc header")?;
    let mut b = WiiDiscBuilder::create(f, hdr, disc.region);
    for p in &disc.parts {
        let mut p = p.clone();
        ctx.step();
        if let Err(e) = add(&mut b, &mut p, &mut |_| {})? {
            return Ok(Built::Failed(e.to_string()));
        }
    }
    ctx.step();
    if let Err(e) = b.finish() {
        return Ok(Built::Failed(e.to_string()));
    }
    Ok(Built::Ok)
}

fn judge_built(ctx: &Ctx, f: &Faulty, r: Built, want: &[u8], benign: bool, what: &str) -> R<()> {
    match r {
        Built::Ok => {
            let s = f.0.borrow();
            if let Some(d) = o::diff(&s.file.data, want) {
                fail!("the build reports success but the image is wrong after {what}: {d}");
            }
            ensure!(!s.file.unflushed, "the build reports success but has not flushed everything after {what}");
            ctx.observe(1);
        }
        Built::Failed(e) => {
            ensure!(!benign, "{what} must be absorbed, but the build fails: {e}");
            ctx.observe_str(&e);
        }
    }
    Ok(())
}

fn sink(ctx: &Ctx, kind: usize) -> R {
    let want = reference(ctx, kind)?;
    let faults = Cell::new(0u32);
    let hard = Cell::new(0u32);
    let log = RefCell::new(Vec::new());
    let n = Cell::new(0u32);
    let f = Faulty::new(MemFile::new(), |op, len| {
        n.set(n.get() + 1);
        let acts: &[Act] = match op {
            Op::Write if len > 1 => &[Act::Ok, Act::Fail, Act::Intr, Act::Half, Act::Zero, Act::One],
            Op::Write => &[Act::Ok, Act::Fail, Act::Intr, Act::Zero],
            Op::Read if len > 1 => &[Act::Ok, Act::Fail, Act::Intr, Act::Half, Act::Zero, Act::One],
            Op::Read => &[Act::Ok, Act::Fail, Act::Intr, Act::Zero],
            Op::Seek | Op::Flush => &[Act::Ok, Act::Fail, Act::Intr],
        };
        let a = acts[ctx.choose_dev(acts.len())];
        if a != Act::Ok {
            faults.set(faults.get() + 1);
            let soft = matches!(a, Act::One | Act::Half) || (a == Act::Intr && matches!(op, Op::Write | Op::Read));
            if !soft {
                hard.set(hard.get() + 1);
            }
            log.borrow_mut().push(format!("operation {} ({op:?}, {len} bytes): {a:?}", n.get()));
        }
        a
    });
    let disc = disc13(kind);
    let r = try_build(ctx, f.clone(), &disc)?;
    let what = if faults.get() == 0 { "no fault".to_string() } else { log.borrow().join(", ") };
    ctx.note(|| format!("{what} of {} operations", n.get()));
    if faults.get() > 0 {
        ctx.nontrivial();
    }
    ctx.state(hash_bytes(what.as_bytes()));
    judge_built(ctx, &f, r, &want, hard.get() == 0, &what)
}
fn h13_one(ctx: &Ctx) -> R {
    sink(ctx, 0)
}
fn h13_two(ctx: &Ctx) -> R {
    sink(ctx, 1)
}
fn h13_parts(ctx: &Ctx) -> R {
    sink(ctx, 2)
}

fn h13_straddle(ctx: &Ctx) -> R {
    let kind = 3 + ctx.choose(3);
    sink(ctx, kind)
}

/// A stand-alone table written to a misbehaving destination.
fn h13_table(ctx: &Ctx) -> R {
    let shape = ctx.choose(5);
    let t = match shape {
        0 => vec![],
        1 => small(4, 0).def.tree,
        2 => vec![T::d("d", vec![T::d("e", vec![]), T::f("a name that goes on for a while", 1, 5)]), T::f("f", 2, 6)],
        3 => (0..40).map(|i| T::f(&format!("file {i}"), i, i)).collect(),
        _ => crate::handimg::big(0, 12),
    };
    let at = *ctx.pick(&[0u64, 0x20]);
    let make = || -> R<disc_riider::FstToBytes> {
        let Ok(b) = disc_riider::FstToBytes::try_from(to_fst(&t, true)) else { fail!("a proper tree is refused") };
        Ok(b)
    };
    let mut want = MemFile::new();
    want.pos = at;
    if let Err(e) = make()?.write_to(&mut want) {
        fail!("a table cannot be written: {e}");
    }
    let (hard, n) = (Cell::new(0u32), Cell::new(0u32));
    let log = RefCell::new(Vec::new());
    let mut f = Faulty::new(MemFile::new(), |op, len| {
        n.set(n.get() + 1);
        let acts: &[Act] = match op {
            Op::Write if len > 1 => &[Act::Ok, Act::Fail, Act::Intr, Act::Half, Act::Zero, Act::One],
            Op::Write | Op::Read => &[Act::Ok, Act::Fail, Act::Intr, Act::Zero],
            Op::Seek | Op::Flush => &[Act::Ok, Act::Fail, Act::Intr],
        };
        let a = acts[ctx.choose_dev(acts.len())];
        if a != Act::Ok {
            if !(matches!(a, Act::One | Act::Half) || (a == Act::Intr && matches!(op, Op::Write | Op::Read))) {
                hard.set(hard.get() + 1);
            }
            log.borrow_mut().push(format!("operation {} ({op:?}, {len} bytes): {a:?}", n.get()));
        }
        a
    });
    f.0.borrow_mut().file.pos = at;
    ctx.step();
    let r = make()?.write_to(&mut f);
    let what = format!("table {shape}: {}", log.borrow().join(", "));
    ctx.note(|| what.clone());
    ctx.state(hash_bytes(what.as_bytes()));
    if !log.borrow().is_empty() {
        ctx.nontrivial();
    }
    match r {
        Ok(()) => {
            if let Some(d) = o::diff(&f.0.borrow().file.data, &want.data) {
                fail!("writing a table reports success but it is wrong after {what}: {d}");
            }
        }
        Err(e) => ensure!(hard.get() > 0, "{what} must be absorbed, but writing the table fails: {e}"),
    }
    ctx.observe(hard.get() as u64);
    Ok(())
}

/// Destinations that behave badly all the time, but within their contract.
fn h13_always(ctx: &Ctx) -> R {
    let kind = ctx.choose(3);
    let want = reference(ctx, kind)?;
    let w = *ctx.pick(&[Act::Half, Act::One, Act::Intr, Act::Ok]);
    let r = *ctx.pick(&[Act::Half, Act::Ok, Act::Intr]);
    let period = 1 + ctx.choose(3) as u64;
    let count = Cell::new(0u64);
    let last_intr = Cell::new(false);
    let f = Faulty::new(MemFile::new(), |op, len| {
        count.set(count.get() + 1);
        if count.get() % period != 0 {
            return Act::Ok;
        }
        let a = match op {
            Op::Write if w == Act::One && len > 0x1000 => Act::Half,
            Op::Write => w,
            Op::Read => r,
            _ => Act::Ok,
        };
        if a == Act::Intr {
            // never interrupt for ever: an interruption is followed by a success,
            // whatever other operations come in between
            last_intr.set(!last_intr.get());
            if !last_intr.get() {
                return Act::Ok;
            }
        }
        a
    });
    ctx.nontrivial();
    let what = format!("every {period}. write {w:?}, read {r:?}");
    ctx.note(|| what.clone());
    ctx.state(hash_bytes(what.as_bytes()) + kind as u64);
    let res = try_build(ctx, f.clone(), &disc13(kind))?;
    judge_built(ctx, &f, res, &want, true, &what)
}

/// Errors of the definition come back unchanged.
fn h13_def(ctx: &Ctx) -> R {
    let big = ctx.flag();
    let mut p = if big { large(6, 0) } else { small(4, 0) };
    let total = 5 + files(&p.def.tree).len() as u32;
    let k = ctx.choose(total as usize) as u32;
    p.def.fail_at = Some(k);
    p.def.fail_kind = ctx.choose(4) as u8;
    let kind = p.def.fail_kind;
    ctx.nontrivial();
    ctx.state((k as u64) << 8 | kind as u64 | (big as u64) << 32);
    ctx.note(|| format!("callback {k} fails with error kind {kind}"));
    let hdr: DiscHeader = parse(&o::disc_header(b"X", 3), "disc header")?;
    let mut b = WiiDiscBuilder::create(MemFile::new(), hdr, o::region(1));
    ctx.step();
    let r = add(&mut b, &mut p, &mut |_| {})?;
    ensure!(p.def.calls == k + 1, "{} callbacks were made although callback {k} failed", p.def.calls);
    match (kind, r) {
        (_, Ok(())) => fail!("the addition succeeds although callback {k} failed"),
        (0, Err(PartitionAddError::Custom(e))) if e == DefErr(k) => Ok(()),
        (1, Err(PartitionAddError::IO(e))) if e.kind() == std::io::ErrorKind::PermissionDenied && e.to_string().contains("marker") => Ok(()),
        (2, Err(PartitionAddError::IO(e))) if e.kind() == std::io::ErrorKind::Interrupted => Ok(()),
        (3, Err(PartitionAddError::BinRW(binrw::Error::AssertFail { pos, message }))) if pos == 42 && message == "marker" => Ok(()),
        (_, Err(e)) => fail!("callback {k} failed, but the error comes back as {e:?}"),
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            level: "model_checking",
            rule: "each execution is one history of additions and finishes on one builder; a state is a distinct history prefix that was finished and judged, a transition one library call",
            bounds: "all histories of up to 3 (quick) / 4 (thorough) operations out of finish, three kinds of valid partitions, definitions failing at 5 callbacks (one- and two-group partitions), a destination failing once at one of 5 points, TMD without contents, unencodable name; a faulty addition with every callback and every destination operation as fault point followed by a valid one; up to 33 (quick) / 130 (thorough) partitions in 3 orders and 257 in one; partitions behind one of more than 4 GiB",
            assumptions: &["the independent decoder reflects the documented format"],
            scenarios: vec![Scenario::new("histories", h05), Scenario::new("fault-points", h05_points), Scenario::new("many", h05_many).workers(6), Scenario::new("far", h05_far).limit(400).workers(2)],
        },
        Property {
            id: "C13",
            level: "fault_enumeration",
            rule: "one execution is one build of a fixed disc with one assignment of behaviours to the destination's (or source's, or definition's) operations; non-trivial: at least one operation misbehaved",
            bounds: "every single fault (quick) / every pair of faults on the one-group disc and on stand-alone tables (thorough) at every operation of the destination, also with the table across or behind a group boundary: failure, interruption, zero, one-byte and half transfers; persistently short or interrupting destinations; every definition callback x 4 error kinds; every source-directory system call",
            assumptions: &["the fault-free image itself is judged by C01, C03 and C04"],
            scenarios: vec![
                Scenario::new("one-group", h13_one).dev(1, 2),
                Scenario::new("two-groups", h13_two).dev(1, 1),
                Scenario::new("two-partitions", h13_parts).dev(1, 1),
                Scenario::new("straddling-table", h13_straddle).dev(1, 1),
                Scenario::new("table", h13_table).dev(1, 2),
                Scenario::new("always", h13_always),
                Scenario::new("definition", h13_def),
                Scenario::new("directory", crate::dirmc::h13_directory).dev(1, 2),
            ],
        },
    ]
}
