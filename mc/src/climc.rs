//! C21: the command line tool, run as an unprivileged user in a scratch directory.
use crate::common::*;
use crate::dirs::{made, eng, permutation, quiet, Scratch, Src, REQUIRED};
use crate::handimg::*;
use disc_riider::builder::build_from_directory;
use mclib::oracle as o;
use mclib::*;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

/// A copy of the tool the unprivileged user can run.
fn tool() -> Result<&'static PathBuf, String> {
    static D: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    D.get_or_init(|| {
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("tool-{}", std::process::id()));
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let io = |e: std::io::Error| format!("iso-tool: {e}");
        std::fs::copy(format!("{verif}/target/repo/release/iso-tool"), &d).map_err(io)?;
        std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).map_err(io)?;
        Ok(d)
    })
    .as_ref()
    .map_err(|e| e.clone())
}
struct Out {
    ok: bool,
    stdout: String,
    stderr: String,
}
fn tool_run(ctx: &Ctx, cwd: &Path, args: &[&str]) -> R<Out> {
    tool_limited(ctx, cwd, args, 1 << 30)
}
/// With a limit on the size of files, as a full disk would have it.
fn tool_limited(ctx: &Ctx, cwd: &Path, args: &[&str], limit: u64) -> R<Out> {
    ctx.step();
    let t = tool().map_err(Stop::Engine)?;
    let mut c = Command::new(t);
    c.args(args).current_dir(cwd).env_clear().stdin(Stdio::null());
    // SAFETY: only async-signal-safe calls between fork and exec
    unsafe {
        c.pre_exec(move || {
            if libc::getuid() == 0 {
                libc::setgroups(0, std::ptr::null());
                if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            libc::umask(0);
            confine(limit);
            Ok(())
        });
    }
    let o = match quiet(|| c.output()) {
        Ok(o) => o,
        Err(e) => return Err(Stop::Engine(format!("iso-tool cannot be started: {e}"))),
    };
    if let Some(s) = o.status.signal() {
        fail!("iso-tool {args:?} is ended by signal {s}");
    }
    Ok(Out { ok: o.status.success(), stdout: String::from_utf8_lossy(&o.stdout).into_owned(), stderr: String::from_utf8_lossy(&o.stderr).into_owned() })
}
fn scratch(tag: &str) -> R<Scratch> {
    let s = Scratch::new(tag)?;
    eng(std::fs::set_permissions(s.path(), std::fs::Permissions::from_mode(0o777)))?;
    Ok(s)
}
fn put(p: &Path, b: &[u8]) -> R<()> {
    eng(quiet(|| {
        std::fs::write(p, b)?;
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o666))
    }))
}
/// Between fork and exec: bounds what a program under test can use up.
pub fn confine(file_size: u64) {
    let limit = |n: u64| libc::rlimit { rlim_cur: n, rlim_max: n };
    // SAFETY: plain system calls with valid arguments
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::setrlimit(libc::RLIMIT_AS, &limit(4 << 30));
        libc::setrlimit(libc::RLIMIT_FSIZE, &limit(file_size));
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
}
const KIND: [&str; 3] = ["Data", "Update", "Channel"];

/// Partition tables of every shape.
fn h_sections(ctx: &Ctx) -> R {
    let s = scratch("c21s")?;
    let mut tables: Vec<Vec<(u64, u32)>> = vec![vec![]; 4];
    let offs = [0x50000u64, 0xF800000, 4, 0x1_0000_0000, 0x3_FFFF_FFFC, 0x60004];
    let n = ctx.choose(ctx.by_tier(5, 6));
    let mut g = 0;
    // partitions may share a place
    let same = n > 1 && ctx.flag();
    for i in 0..n {
        if i < 3 {
            // stay in the group or go on to a later one
            g += ctx.choose(if i == 0 { 4 } else { (4 - g).min(2) });
        }
        tables[g].push((offs[if same { i / 2 } else { (i * 5 + 1) % 6 }], ctx.choose(if i < 3 { 3 } else { 1 }) as u32));
    }
    sections_check(ctx, &s, &tables)
}
/// Tables with many partitions.
fn h_many(ctx: &Ctx) -> R {
    let s = scratch("c21m")?;
    let n = *ctx.pick(&[5usize, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097, 7163]);
    let spread = ctx.choose(3);
    let mut tables: Vec<Vec<(u64, u32)>> = vec![vec![]; 4];
    for i in 0..n {
        let g = match spread {
            0 => 0,
            1 => i * 4 / n,
            _ => 3,
        };
        tables[g].push((0x50000 + 0x20000 * i as u64, (i * i % 7 % 3) as u32));
    }
    sections_check(ctx, &s, &tables)
}
fn sections_check(ctx: &Ctx, s: &Scratch, tables: &[Vec<(u64, u32)>]) -> R {
    let n: usize = tables.iter().map(|t| t.len()).sum();
    let want: Vec<(String, u64)> = tables.iter().flatten().map(|(o, t)| (KIND[*t as usize].to_string(), *o)).collect();
    ctx.note(|| format!("partition tables {tables:x?}"));
    ctx.state(hash_bytes(format!("{tables:?}").as_bytes()));
    if n > 1 {
        ctx.nontrivial();
    }
    let refs: Vec<&[(u64, u32)]> = tables.iter().map(|t| t.as_slice()).collect();
    let img = o::assemble(&o::front(&o::disc_header(b"Sections", 3), &o::region(9), &refs));
    put(&s.path().join("image"), &img)?;
    let r = tool_run(ctx, s.path(), &["sections", "image"])?;
    ensure!(r.ok, "listing the sections of a valid image fails: {}", r.stderr.trim());
    let mut got = vec![];
    for l in r.stdout.lines() {
        let Some((k, o)) = l.split_once(':') else { fail!("unexpected line {l:?}") };
        let o = o.trim();
        let o = u64::from_str_radix(o.trim_start_matches("0x"), 16).unwrap_or(u64::MAX);
        got.push((k.trim().to_string(), o));
    }
    ensure!(got == want, "the sections listed are {got:x?} instead of {want:x?}");
    ctx.observe(hash_bytes(r.stdout.as_bytes()));
    Ok(())
}

fn lines(t: &[T], depth: usize, out: &mut String) {
    for n in t {
        for _ in 0..depth {
            out.push_str("  ");
        }
        out.push_str(n.name());
        out.push('\n');
        if let T::D { kids, .. } = n {
            lines(kids, depth + 1, out);
        }
    }
}
const NAMES: [&str; 7] = ["b.bin", "A", "\u{3042}\u{6F22}", "a b", "Z", "...", "x"];
fn forest(ctx: &Ctx, n: usize, used: &mut usize) -> Vec<T> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let name = NAMES[*used % NAMES.len()];
        *used += 1;
        let k = ctx.choose(left + 1);
        if k == 0 {
            v.push(T::f(name, *used, *used));
            left -= 1;
        } else {
            v.push(T::d(name, forest(ctx, k - 1, used)));
            left -= k;
        }
    }
    v
}
fn print_check(ctx: &Ctx, parts: &[HandPart], arg: Option<&str>, want: u32) -> R {
    let s = scratch("c21p")?;
    let m = make(parts);
    put(&s.path().join("image"), &m.img)?;
    let mut args = vec!["print-files", "image"];
    if let Some(a) = arg {
        args.extend(["--section", a]);
    }
    let r = tool_run(ctx, s.path(), &args)?;
    ensure!(r.ok, "printing the files of a valid image fails: {}", r.stderr.trim());
    let mut w = String::new();
    if let Some(p) = m.parts.iter().find(|p| p.ptype == want) {
        lines(&p.tree, 0, &mut w);
    }
    ensure!(r.stdout == w, "{args:?} prints\n{}instead of\n{w}", r.stdout);
    ctx.observe(hash_bytes(r.stdout.as_bytes()));
    Ok(())
}
fn h_print(ctx: &Ctx) -> R {
    let n = ctx.choose(ctx.by_tier(6, 7));
    let t = forest(ctx, n, &mut 0);
    ctx.note(|| format!("tree [{}]", show(&t)));
    ctx.state(hash_bytes(show(&t).as_bytes()));
    if n > 1 {
        ctx.nontrivial();
    }
    print_check(ctx, &[HandPart::new(0, 3, t)], None, 0)
}
/// Trees that are deep or wide, and unusual names.
fn h_shapes(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let k = ctx.choose(4);
    let n = *ctx.pick(&BIG);
    let t = match k {
        0..=2 => big(k, n),
        _ => vec![T::f(&"long name ".repeat(n), 1, 1), T::d("\u{3042}\u{6F22}", vec![T::f("{:?} %s \"q\" \\", 2, 1), T::d(" ", vec![T::f("\u{30A2}", 3, 2)])]), T::f("\t", 4, 1)],
    };
    ctx.note(|| format!("shape {k}, size {n}"));
    ctx.state((k * 1000 + n) as u64);
    print_check(ctx, &[HandPart::new(0, 3, t)], None, 0)
}
/// Several partitions of the same type: the first one listed is the section.
fn h_same(ctx: &Ctx) -> R {
    let n = 2 + ctx.choose(2);
    let types: Vec<usize> = (0..n).map(|_| ctx.choose(3)).collect();
    let want = types[ctx.choose(n)];
    let sys = ctx.flag();
    ctx.note(|| format!("partitions of types {types:?}, section {want}, extract: {sys}"));
    ctx.state(hash_bytes(format!("{types:?}{want}{sys}").as_bytes()));
    let mut parts = mixed(&types, 20);
    for (i, p) in parts.iter_mut().enumerate() {
        p.tree.push(T::f(&format!("z{i}"), 1, 2));
        p.dol = o::dol(0x300 + 0x40 * i, 2, 40 + i);
        p.group = 0;
    }
    if types.iter().filter(|t| **t == want).count() > 1 {
        ctx.nontrivial();
    }
    if sys {
        extract_check(ctx, &parts, Some(SPELL[want][1]), want as u32, false)
    } else {
        print_check(ctx, &parts, Some(SPELL[want][2]), want as u32)
    }
}
const SPELL: [[&str; 4]; 3] = [["DATA", "data", "Data", "dATa"], ["UPDATE", "update", "Update", "UPDATe"], ["CHANNEL", "channel", "Channel", "cHANNEL"]];
fn mixed(perm: &[usize], seed: u8) -> Vec<HandPart> {
    perm.iter()
        .enumerate()
        .map(|(i, t)| {
            let id = 1 + *t;
            let tree = vec![T::f(KIND[*t], id, 0x11 * id), T::d("dir", vec![T::f("inner", id + 4, 3)]), T::f("z", id + 8, 0)];
            let mut p = HandPart::new(*t as u32, seed + *t as u8, tree);
            p.dol = o::dol(0x200 + 0x40 * id, 2, id);
            p.app = o::apploader(0x40 * id, 0x21, id);
            p.outer = (i + perm[0]) % OUTER;
            p.inner = (i + id) % INNER;
            p.group = if perm[0] == 1 { i } else { 0 };
            p
        })
        .collect()
}
/// Every section of every arrangement, spelled in several ways.
fn h_choice(ctx: &Ctx) -> R {
    let mut perm = permutation(ctx, 3);
    perm.truncate(1 + ctx.choose(3));
    let want = perm[ctx.choose(perm.len())];
    let sp = ctx.choose(5);
    let sys = ctx.flag();
    let arg = if sp == 4 {
        if want != 0 {
            return Err(Stop::Prune);
        }
        None
    } else {
        Some(SPELL[want][sp])
    };
    ctx.note(|| format!("partitions {perm:?}, section argument {arg:?}, extract: {sys}"));
    ctx.state(hash_bytes(format!("{perm:?}{arg:?}{sys}").as_bytes()));
    ctx.nontrivial();
    let parts = mixed(&perm, 20);
    if sys {
        extract_check(ctx, &parts, arg, want as u32, false)
    } else {
        print_check(ctx, &parts, arg, want as u32)
    }
}
fn extract_check(ctx: &Ctx, parts: &[HandPart], arg: Option<&str>, want: u32, dirty: bool) -> R {
    let s = scratch("c21x")?;
    let m = make(parts);
    put(&s.path().join("image"), &m.img)?;
    let dest = s.path().join("out/deep");
    if dirty {
        eng(std::fs::create_dir_all(dest.join("sys")))?;
        for d in [s.path().join("out"), dest.clone(), dest.join("sys")] {
            eng(std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o777)))?;
        }
        for f in ["main.dol", "boot.bin", "apploader.img", "bi2.bin", "fst.bin"] {
            put(&dest.join("sys").join(f), &vec![0x55; 0x12000])?;
        }
    }
    let mut args = vec!["extract-sys", "image", "out/deep"];
    if let Some(a) = arg {
        args.extend(["--section", a]);
    }
    let r = tool_run(ctx, s.path(), &args)?;
    ensure!(r.ok, "extracting the system files of a valid image fails: {}", r.stderr.trim());
    let Some(p) = m.parts.iter().find(|p| p.ptype == want) else { return Err(Stop::Engine("no such part".into())) };
    let want: BTreeMap<String, Vec<u8>> = system_files(&m, p).into_iter().filter(|f| f.0.starts_with("sys/")).collect();
    let mut got = quiet(|| listing(&dest))?;
    got.retain(|k, _| !k.ends_with('/'));
    for (k, b) in &want {
        match got.get(k) {
            None => fail!("{k} is missing"),
            Some(g) => {
                if let Some(d) = o::diff(g, b) {
                    fail!("{k} differs: {d}");
                }
            }
        }
    }
    let mut h = 0;
    for v in got.values() {
        h = mix(h, hash_bytes(v));
    }
    ctx.observe(h);
    Ok(())
}
fn h_system(ctx: &Ctx) -> R {
    let mut p = HandPart::new(0, 31, vec![T::f("f", 1, 0x40)]);
    match ctx.choose(5) {
        0 => p.app = o::apploader(*ctx.pick(&[0usize, 1, 0x1234, 0x7C00]), *ctx.pick(&[0usize, 1, 31, 0x8000]), 6),
        1 => p.dol = o::dol(*ctx.pick(&[0x100usize, 0x101, 0x7C00, 0x8123, 0x100000]), *ctx.pick(&[1usize, 7, 18, 21, 22, 23, 24, 25, 26, 27, 28]), 7),
        2 => p.seed = *ctx.pick(&[0u8, 1, 2, 255, 254]),
        3 => {
            p.outer = ctx.choose(OUTER);
            p.inner = ctx.choose(INNER);
            p.lay = *ctx.pick(&[Lay::Seq, Lay::Rev]);
        }
        _ => p.tree = (0..*ctx.pick(&[0usize, 1, 40, 3000])).map(|i| T::f(&format!("file{i}"), i, i % 5)).collect(),
    }
    let dirty = ctx.flag();
    ctx.note(|| format!("apploader {:#x}, DOL {:#x}, {} files, seed {}, layout {} {} {:?}, over old files: {dirty}", p.app.len(), p.dol.len(), p.tree.len(), p.seed, p.outer, p.inner, p.lay));
    ctx.state(mix(hash_bytes(&p.app), mix(hash_bytes(&p.dol), mix(p.tree.len() as u64, hash_bytes(format!("{} {} {} {:?} {dirty}", p.seed, p.outer, p.inner, p.lay).as_bytes())))));
    ctx.nontrivial();
    extract_check(ctx, &[p], None, 0, dirty)
}

pub(crate) fn open_up(d: &Path) -> R<()> {
    quiet(|| {
        for e in eng(std::fs::read_dir(d))? {
            let e = eng(e)?;
            let dir = eng(e.file_type())?.is_dir();
            eng(std::fs::set_permissions(e.path(), std::fs::Permissions::from_mode(if dir { 0o777 } else { 0o666 })))?;
            if dir {
                open_up(&e.path())?;
            }
        }
        Ok(())
    })
}
/// Rebuilt images equal what the library builds and hold the directory's contents.
fn h_rebuild(ctx: &Ctx) -> R {
    let tree = match ctx.choose(6) {
        0 => vec![],
        1 => vec![T::f("x", 1, 0)],
        2 => vec![T::f("b.bin", 1, 0x123), T::d("Dir", vec![T::f("x", 2, 0), T::f("y.arc", 3, 0x8001)]), T::f("C", 4, 1)],
        3 => vec![T::f("big", 1, o::GD + 3), T::d("e", vec![T::f("f", 2, 0x7C00)])],
        4 => vec![T::f("\u{3042}.bin", 1, 9), T::d("\u{6F22}", vec![T::f("a b", 2, 10)])],
        _ => (0..20).map(|i| T::f(&format!("F{i}"), i, i * 0x400)).collect(),
    };
    let src = Src::new(tree);
    let old = ctx.choose(3);
    ctx.note(|| format!("{}; old destination {old}", src.disc().describe()));
    ctx.state(hash_bytes(format!("{}{old}", show(&src.part.def.tree)).as_bytes()));
    ctx.nontrivial();
    let s = scratch("c21r")?;
    let dir = s.path().join("src");
    eng(std::fs::create_dir(&dir))?;
    src.write(&dir)?;
    open_up(s.path())?;
    match old {
        0 => {}
        1 => put(&s.path().join("out.iso"), &vec![0xEE; 0x900000])?,
        _ => put(&s.path().join("out.iso"), &make(&mixed(&[1, 0, 2], 50)).img)?,
    }
    let r = tool_run(ctx, s.path(), &["rebuild", "src", "out.iso"])?;
    ensure!(r.ok, "rebuilding a complete directory fails: {}", r.stderr.trim());
    let img = made(quiet(|| std::fs::read(s.path().join("out.iso"))))?;
    verify_reader(ctx, Cursor::new(&img), &src.disc(), &ReadOpts { full: false })?;
    let mut lib = MemFile::new();
    if let Err(e) = build_from_directory(&dir, &mut lib, &mut |_| {}) {
        fail!("the library cannot build a complete directory: {e}");
    }
    if let Some(d) = o::diff(&img, &lib.data) {
        fail!("the tool and the library build different images: {d}");
    }
    ctx.observe(hash_bytes(&img));
    Ok(())
}

const SYS: [&str; 5] = ["main.dol", "boot.bin", "apploader.img", "bi2.bin", "fst.bin"];
/// Partitions and files beyond 4 GiB.
fn h_far(ctx: &Ctx) -> R {
    let (poff, group, delta) = far_choice(ctx);
    let (pieces, m) = far(poff, group, delta);
    let s = scratch("c21g")?;
    put_sparse(&s.path().join("image"), &pieces)?;
    let r = tool_run(ctx, s.path(), &["print-files", "image"])?;
    ensure!(r.ok, "printing the files of a valid image fails: {}", r.stderr.trim());
    let r = tool_run(ctx, s.path(), &["extract-sys", "image", "out"])?;
    ensure!(r.ok, "extracting the system files of a valid image fails: {}", r.stderr.trim());
    let got = quiet(|| listing(&s.path().join("out")))?;
    for (k, b) in system_files(&m, &m.parts[0]).into_iter().filter(|f| f.0.starts_with("sys/")) {
        ensure!(got.get(&k) == Some(&b), "{k} differs");
    }
    ctx.observe(1);
    Ok(())
}
/// System files that reach past the end of the data cannot be extracted.
fn h_beyond(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let mut p = HandPart::new(0, 44, vec![T::f("a", 1, 5)]);
    let what = system_beyond(ctx, &mut p);
    ctx.note(|| what.clone());
    ctx.state(hash_bytes(what.as_bytes()));
    let s = scratch("c21s")?;
    put(&s.path().join("image"), &make(&[p]).img)?;
    let r = tool_run(ctx, s.path(), &["extract-sys", "image", "out"])?;
    ensure!(!r.ok, "extracting the system files ends with status zero although {what}");
    ctx.observe(1);
    Ok(())
}
/// Every single system file that cannot be written makes the tool fail.
fn h_blocked(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let k = ctx.choose(SYS.len() + 3);
    let s = scratch("c21b")?;
    let m = make(&mixed(&[1, 0], 33));
    put(&s.path().join("image"), &m.img)?;
    let dest = s.path().join("out");
    let open = |d: &Path| {
        eng(quiet(|| {
            std::fs::create_dir_all(d)?;
            std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o777))
        }))
    };
    let what = match k {
        0..5 => {
            for d in [dest.clone(), dest.join("sys"), dest.join("sys").join(SYS[k])] {
                open(&d)?;
            }
            put(&dest.join("sys").join(SYS[k]).join("in the way"), b"x")?;
            format!("a folder in the place of {}", SYS[k])
        }
        5 => {
            open(&dest)?;
            put(&dest.join("sys"), b"file")?;
            "a file in the place of the sys folder".into()
        }
        6 => {
            put(&dest, b"file")?;
            "a file as destination".into()
        }
        _ => {
            open(&dest)?;
            eng(quiet(|| std::fs::set_permissions(&dest, std::fs::Permissions::from_mode(0o555))))?;
            "a write-protected destination".into()
        }
    };
    ctx.note(|| what.clone());
    ctx.state(k as u64);
    let r = tool_run(ctx, s.path(), &["extract-sys", "image", "out"])?;
    ensure!(!r.ok, "with {what}, extracting the system files ends with status zero");
    ctx.observe_str(&r.stderr);
    Ok(())
}
/// A limit on the size of files: status zero only if everything was written.
fn h_full(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let s = scratch("c21f")?;
    if ctx.flag() {
        let mut p = HandPart::new(0, 31, vec![T::f("f", 1, 0x40)]);
        let big = ctx.choose(3);
        match big {
            0 => p.app = o::apploader(0x4567, 0x123, 6),
            1 => p.dol = o::dol(0x8123, 7, 7),
            _ => p.tree = (0..700).map(|i| T::f(&format!("file{i:03}"), i, i % 5)).collect(),
        }
        let m = make(&[p]);
        let want: BTreeMap<String, Vec<u8>> = system_files(&m, &m.parts[0]).into_iter().filter(|f| f.0.starts_with("sys/")).collect();
        let mut ends: Vec<usize> = want.values().flat_map(|b| [b.len() / 2, b.len() - 1, b.len()]).collect();
        ends.sort();
        ends.dedup();
        let n = *ctx.pick(&ends);
        ctx.note(|| format!("system files {big} extracted, files limited to {n:#x} bytes"));
        ctx.state(mix(big as u64, n as u64));
        put(&s.path().join("image"), &m.img)?;
        let r = tool_limited(ctx, s.path(), &["extract-sys", "image", "out"], n as u64)?;
        let fits = want.values().all(|b| b.len() <= n);
        ensure!(r.ok || !fits, "extracting fails although every file fits: {}", r.stderr.trim());
        let mut got = if r.ok { quiet(|| listing(&s.path().join("out")))? } else { BTreeMap::new() };
        if let Some((k, _)) = want.iter().find(|(k, b)| r.ok && got.remove(*k).as_ref() != Some(*b)) {
            fail!("extracting ends with status zero although {k} was not written completely");
        }
        ctx.observe(r.ok as u64);
        return Ok(());
    }
    let src = Src::new(vec![T::f("a", 1, 0x123), T::f("b", 2, if ctx.flag() { o::GD } else { 5 })]);
    let dir = s.path().join("src");
    eng(std::fs::create_dir(&dir))?;
    src.write(&dir)?;
    open_up(s.path())?;
    let mut lib = MemFile::new();
    if let Err(e) = build_from_directory(&dir, &mut lib, &mut |_| {}) {
        fail!("the library cannot build a complete directory: {e}");
    }
    let len = lib.data.len();
    let step = if ctx.thorough() { 0x4000 } else { 0x10000 };
    let mut ends: Vec<usize> = (0..=len / step).map(|i| i * step).collect();
    ends.extend([1, 0x440, 0x40000 + 3, 0x40020, 0x4E000, 0x4E01F, 0x50000 + 703, 0x70000 + 1, len - 1, len]);
    let n = *ctx.pick(&ends);
    ctx.note(|| format!("{}, files limited to {n:#x} of {len:#x} bytes", src.disc().describe()));
    ctx.state(mix(len as u64, n as u64));
    let r = tool_limited(ctx, s.path(), &["rebuild", "src", "out.iso"], n as u64)?;
    ensure!(r.ok || n < len, "rebuilding fails although the image fits: {}", r.stderr.trim());
    if r.ok {
        let img = made(quiet(|| std::fs::read(s.path().join("out.iso"))))?;
        if let Some(d) = o::diff(&img, &lib.data) {
            fail!("rebuilding ends with status zero although the image is incomplete: {d}");
        }
    }
    ctx.observe(r.ok as u64);
    Ok(())
}

/// Requests that cannot succeed.
fn h_invalid(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let s = scratch("c21i")?;
    let m = make(&mixed(&[0, 2], 60));
    let img = s.path().join("image");
    put(&img, &m.img)?;
    let cmds: [&[&str]; 3] = [&["sections"], &["print-files"], &["extract-sys"]];
    let what: String;
    let r = match ctx.choose(5) {
        0 => {
            // a section that is not on the disc or does not exist
            let c = 1 + ctx.choose(2);
            let sec = *ctx.pick(&[
                "UPDATE", "update", "GAME", "", "DAT", "DATAA", " DATA", "0", "Install", "DATA,CHANNEL", "DATA ", " ", "CHAN", "UPDATES", "1", "2", "P0", "/DATA", "D", "ＤＡＴＡ", "dаta",
            ]);
            if !sec.eq_ignore_ascii_case("update") {
                put(&img, &make(&mixed(&[0, 2, 1], 60)).img)?;
            }
            let mut a = vec![cmds[c][0], "image"];
            if c == 2 {
                a.push("out");
            }
            a.extend(["--section", sec]);
            what = format!("{a:?}");
            tool_run(ctx, s.path(), &a)?
        }
        1 => {
            // an image that cannot be read
            let c = ctx.choose(3);
            let k = ctx.choose(6);
            let off = m.parts[0].offset as usize;
            match k {
                0 => eng(std::fs::remove_file(&img))?,
                1 => put(&img, b"")?,
                2 => put(&img, &m.img[..0x3FF])?,
                3 => put(&img, &m.img[..0x40008])?,
                4 => put(&img, &m.img[..0x4E01F])?,
                _ => {
                    if c == 0 {
                        return Err(Stop::Prune); // the tables are complete
                    }
                    put(&img, &m.img[..off + *ctx.pick(&[0usize, 0x2BF, 0x20000, 0x27FFF])])?
                }
            }
            let mut a = vec![cmds[c][0], "image"];
            if c == 2 {
                a.push("out");
            }
            what = format!("{a:?} on unreadable image {k}");
            tool_run(ctx, s.path(), &a)?
        }
        2 => {
            // a directory that lacks something
            let src = Src::standard();
            let dir = s.path().join("src");
            eng(std::fs::create_dir(&dir))?;
            src.write(&dir)?;
            let k = ctx.choose(REQUIRED.len() + 3);
            if k < REQUIRED.len() {
                let p = dir.join(REQUIRED[k]);
                eng(quiet(|| std::fs::remove_file(&p)))?;
                match ctx.choose(3) {
                    0 => {}
                    1 => eng(std::fs::create_dir(&p))?,
                    _ => {
                        if REQUIRED[k].ends_with("bi2.bin") || REQUIRED[k].ends_with("cert.bin") || REQUIRED[k].ends_with("main.dol") || REQUIRED[k].ends_with("apploader.img") {
                            return Err(Stop::Prune); // read as they are
                        }
                        let b = src.file(REQUIRED[k]);
                        put(&p, &b[..b.len() / 2])?
                    }
                }
            } else if k == REQUIRED.len() {
                eng(quiet(|| std::fs::remove_dir_all(dir.join("DATA/files"))))?;
            } else if k == REQUIRED.len() + 1 {
                eng(quiet(|| std::fs::remove_dir_all(dir.join("DATA"))))?;
            } else {
                eng(quiet(|| std::fs::remove_dir_all(&dir)))?;
            }
            open_up(s.path())?;
            what = format!("rebuilding incomplete directory {k}");
            tool_run(ctx, s.path(), &["rebuild", "src", "out.iso"])?
        }
        3 => {
            // a destination that cannot be written
            let k = ctx.choose(4);
            let src = Src::standard();
            let dir = s.path().join("src");
            eng(std::fs::create_dir(&dir))?;
            src.write(&dir)?;
            open_up(s.path())?;
            what = format!("unwritable destination {k}");
            match k {
                0 => tool_run(ctx, s.path(), &["rebuild", "src", "no/such/dir/out.iso"])?,
                1 => tool_run(ctx, s.path(), &["rebuild", "src", "src"])?,
                2 => tool_run(ctx, s.path(), &["extract-sys", "image", "image"])?,
                _ => {
                    let d = s.path().join("locked");
                    eng(std::fs::create_dir(&d))?;
                    eng(std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o555)))?;
                    tool_run(ctx, s.path(), &["extract-sys", "image", "locked/out"])?
                }
            }
        }
        _ => {
            let a: &[&str] = *ctx.pick(&[
                &[][..],
                &["sections"],
                &["extract-sys", "image"],
                &["print-files"],
                &["rebuild", "image"],
                &["frobnicate", "image"],
                &["sections", "image", "more"],
                &["print-files", "image", "--section"],
            ]);
            what = format!("{a:?}");
            tool_run(ctx, s.path(), a)?
        }
    };
    ctx.note(|| what.clone());
    ctx.state(hash_bytes(what.as_bytes()));
    ensure!(!r.ok, "{what} ends with exit status 0");
    ctx.observe(hash_bytes(what.as_bytes()));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C21",
        level: "model_checking",
        rule: "each execution runs the real command line tool on one hand-made image or directory and compares its output, exit status and files with the oracle; a state is a distinct request, a transition one run of the tool (or one read of a rebuilt image)",
        bounds: "partition tables of up to 4 (quick) / 5 (thorough) entries spread over the 4 groups; 36 sizes of table up to 7163 entries in 3 arrangements; all trees of up to 5 / 6 nodes, chains of up to 250 folders, up to 5000 entries; all sequences of 2 and 3 partition types; all orders of up to 3 partitions x sections x 5 spellings x print and extract; system files of many sizes, over nothing or old files; 6 directories x 3 old destinations; 21 bad section names, 9 unreadable images, 11 incomplete directories in up to 3 ways, 4 bad destinations, 8 malformed command lines; 48 places of partition and file around and beyond 4 GiB; system files reaching beyond the data in 8 ways x 4 amounts, or of sizes that overflow 32 bits in 3 x 6 ways; each system file blocked; a file size limit at every system file size and at every 64 KiB (quick) / 16 KiB (thorough) of 2 images",
        assumptions: &["the tool runs as an unprivileged user inside a scratch directory", "images are made by the oracle, not by the repository's builder"],
        scenarios: vec![
            Scenario::new("sections", h_sections),
            Scenario::new("many-sections", h_many),
            Scenario::new("print-files", h_print),
            Scenario::new("shapes", h_shapes),
            Scenario::new("section-choice", h_choice),
            Scenario::new("same-type", h_same),
            Scenario::new("extract-sys", h_system),
            Scenario::new("rebuild", h_rebuild),
            Scenario::new("invalid", h_invalid),
            Scenario::new("beyond4GiB", h_far),
            Scenario::new("incomplete", h_beyond),
            Scenario::new("blocked", h_blocked),
            Scenario::new("full", h_full),
        ],
    }]
}
