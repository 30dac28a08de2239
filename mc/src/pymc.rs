//! C18, C19, C20, C25: the Python extension, driven through one interpreter per
//! worker that runs as an unprivileged user.
use crate::common::*;
use crate::climc::{confine, open_up};
use crate::dirs::{made, eng, quiet, Scratch, Src, REQUIRED};
use crate::handimg::*;
use mclib::oracle as o;
use mclib::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Cursor, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

struct Py {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static PY: RefCell<Option<Py>> = const { RefCell::new(None) };
}

/// Directory with the extension module, made once per exploration process.
fn module_dir() -> Result<&'static PathBuf, String> {
    static D: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    D.get_or_init(|| {
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("pymod-{}", std::process::id()));
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let so = format!("{verif}/target/repo/release/libdisc_riider_py.so");
        let io = |e: std::io::Error| format!("python module: {e}");
        std::fs::create_dir_all(&d).map_err(io)?;
        std::fs::copy(&so, d.join("disc_riider_py.so")).map_err(io)?;
        std::fs::copy(format!("{verif}/tools/pydriver.py"), d.join("driver.py")).map_err(io)?;
        for p in [d.clone(), d.join("disc_riider_py.so"), d.join("driver.py")] {
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).map_err(io)?;
        }
        Ok(d)
    })
    .as_ref()
    .map_err(|e| e.clone())
}
fn start() -> R<Py> {
    let d = module_dir().map_err(Stop::Engine)?;
    let mut c = Command::new("/usr/bin/python3");
    c.arg("-B").arg(d.join("driver.py")).env("PYTHONPATH", d).env_remove("PYTHONHOME").current_dir("/");
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    // SAFETY: only async-signal-safe calls between fork and exec
    unsafe {
        c.pre_exec(|| {
            confine(1 << 30);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| Stop::Engine(format!("python: {e}")))?;
    let tx = child.stdin.take().ok_or_else(|| Stop::Engine("python stdin".into()))?;
    let rx = BufReader::new(child.stdout.take().ok_or_else(|| Stop::Engine("python stdout".into()))?);
    Ok(Py { child, tx, rx })
}
fn hx(s: &str) -> String {
    let mut o = String::from("x");
    for b in s.as_bytes() {
        o.push_str(&format!("{b:02x}"));
    }
    o
}
fn unhx(s: &str) -> Vec<u8> {
    s.as_bytes().get(1..).unwrap_or(&[]).chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap_or("0"), 16).unwrap_or(0)).collect()
}
#[derive(Debug, Clone, PartialEq)]
enum Ans {
    Ok(String),
    Err(String, String),
}
impl Ans {
    fn ok(&self) -> bool {
        matches!(self, Ans::Ok(_))
    }
    fn show(&self) -> String {
        match self {
            Ans::Ok(s) => format!("success {s}"),
            Ans::Err(k, m) => format!("{k}: {}", m.chars().take(200).collect::<String>()),
        }
    }
}
fn py(ctx: &Ctx, cmd: &[&str]) -> R<Ans> {
    ctx.step();
    PY.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Some(start()?);
        }
        let Some(p) = c.as_mut() else { return Err(Stop::Engine("python".into())) };
        let mut line = cmd.join(" ");
        line.push('\n');
        let sent = p.tx.write_all(line.as_bytes()).is_ok();
        let mut r = String::new();
        if !sent || p.rx.read_line(&mut r).unwrap_or(0) == 0 {
            let st = p.child.wait().map(|s| s.to_string()).unwrap_or_default();
            *c = None;
            if st.contains("signal") {
                return viol(format!("the interpreter dies ({st}) during {}", cmd[0]));
            }
            return Err(Stop::Engine(format!("python driver ended: {st}")));
        }
        let t: Vec<&str> = r.trim_end().split(' ').collect();
        match t[0] {
            "ok" => Ok(Ans::Ok(t.get(1).unwrap_or(&"").to_string())),
            "err" => Ok(Ans::Err(t[1].into(), String::from_utf8_lossy(&unhx(t[2])).into_owned())),
            "panic" => viol(format!("the extension panics: {}", String::from_utf8_lossy(&unhx(t[2])))),
            _ => Err(Stop::Engine(format!("python driver answered {r:?}"))),
        }
    })
}

/// Writes an image where the interpreter can read it.
fn put_image(s: &Scratch, img: &[u8]) -> R<String> {
    let p = s.path().join("image.iso");
    eng(std::fs::write(&p, img))?;
    Ok(p.display().to_string())
}
/// A directory the unprivileged interpreter may fill.
fn open_dir(p: &Path) -> R<()> {
    eng(std::fs::create_dir_all(p))?;
    eng(std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777)))
}
fn progress_ok(p: &str, data: bool) -> R<()> {
    let v: Vec<i64> = p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(-1)).collect();
    let short = |v: &[i64]| v.iter().take(40).map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    ensure!(v.iter().all(|x| (0..=100).contains(x)), "progress leaves 0..100: {}", short(&v));
    if let Some(i) = v.windows(2).position(|w| w[0] > w[1]) {
        fail!("progress goes back from {} to {}", v[i], v[i + 1]);
    }
    if data {
        ensure!(v.last() == Some(&100), "progress ends at {:?}", v.last());
    }
    Ok(())
}
/// The files (not directories) an extraction of these sections must leave.
fn expected(m: &Made, secs: &[(u32, Vec<(Vec<String>, usize, usize, u32)>)]) -> BTreeMap<String, Vec<u8>> {
    let mut w = BTreeMap::new();
    for (t, fs) in secs {
        let Some(p) = m.parts.iter().find(|p| p.ptype == *t) else { continue };
        for (n, b) in system_files(m, p) {
            w.insert(format!("{}/{n}", section(*t)), b);
        }
        for (path, id, size, _) in fs {
            w.insert(format!("{}/files/{}", section(*t), path.join("/")), o::content(*id, *size).to_vec());
        }
    }
    w
}
fn compare(dest: &Path, want: &BTreeMap<String, Vec<u8>>) -> R<u64> {
    let mut got = listing(dest)?;
    got.retain(|k, _| !k.ends_with('/'));
    for (k, b) in want {
        match got.get(k) {
            None => fail!("{k} is missing"),
            Some(g) => {
                if let Some(d) = o::diff(g, b) {
                    fail!("{k} differs: {d}");
                }
            }
        }
    }
    if let Some(k) = got.keys().find(|k| !want.contains_key(*k)) {
        fail!("{k} should not be there");
    }
    let mut h = 0;
    for (k, v) in &got {
        h = mix(mix(h, hash_bytes(k.as_bytes())), hash_bytes(v));
    }
    Ok(h)
}

// ---------------------------------------------------------------- C18

fn extract_check(ctx: &Ctx, parts: &[HandPart], order: &[u32], rebuild: bool, again: bool) -> R {
    let m = make(parts);
    let s = Scratch::new("c18")?;
    open_dir(s.path())?;
    let img = put_image(&s, &m.img)?;
    let dest = s.path().join("dest");
    open_dir(&dest)?;
    let d = dest.display().to_string();
    let r = py(ctx, &["N", &hx(&img)])?;
    ensure!(r.ok(), "a valid image is refused: {}", r.show());
    let mut secs = vec![];
    for t in order {
        let r = py(ctx, &["P", &hx(section(*t))])?;
        ensure!(r.ok(), "section {} cannot be prepared: {}", section(*t), r.show());
        let Some(p) = m.parts.iter().find(|p| p.ptype == *t) else { return Err(Stop::Engine("no such part".into())) };
        secs.push((*t, files(&p.tree)));
    }
    if again {
        // leftovers of an earlier, larger extraction
        for (p, b) in expected(&m, &secs) {
            let p = dest.join(p);
            eng(std::fs::create_dir_all(p.parent().unwrap_or(&dest)))?;
            eng(std::fs::write(p, vec![0x55; b.len() + 0x1001]))?;
        }
        open_up(&dest)?;
    }
    let any = secs.iter().any(|s| s.1.iter().any(|f| f.2 > 0));
    let mode = if ctx.worker % 2 == 0 { "s" } else { "p" };
    let raises = order.len() == 1 && m.parts[0].tree.len() < 30 && ctx.flag();
    match py(ctx, &["E", &hx(&d), mode, if raises { "x" } else { "n" }])? {
        Ans::Ok(p) => progress_ok(&p, any)?,
        // a progress callback that raises may end the extraction
        Ans::Err(..) if raises => return Ok(()),
        e => fail!("extraction fails: {}", e.show()),
    }
    let h = compare(&dest, &expected(&m, &secs))?;
    ctx.observe(h);
    if rebuild && order.contains(&0) {
        let out = s.path().join("out.iso");
        match py(ctx, &["R", &hx(&d), &hx(&out.display().to_string()), "n"])? {
            Ans::Ok(p) => progress_ok(&p, secs.iter().any(|s| s.0 == 0 && s.1.iter().any(|f| f.2 > 0)))?,
            e => fail!("the extracted directory cannot be rebuilt: {}", e.show()),
        }
        let Some(p) = m.parts.iter().find(|p| p.ptype == 0) else { return Ok(()) };
        let mut def = Def::new(crate::dirs::sorted(&p.tree));
        def.hdr = p.boot.clone();
        def.bi2 = p.bi2.clone();
        def.app = p.app.clone();
        def.dol = p.dol.clone();
        let mut header = p.boot.clone();
        header[0x60] = 0;
        header[0x61] = 0;
        let part = PartIn { ptype: 0, ticket: p.ticket.clone(), tmd: p.tmd.clone(), certs: p.certs.clone(), def };
        let disc = DiscIn { header, region: m.region, parts: vec![part] };
        let b = made(std::fs::read(&out))?;
        verify_reader(ctx, Cursor::new(&b), &disc, &ReadOpts { full: false })?;
    }
    Ok(())
}

const SIZES: [usize; 14] = [0, 1, 0x7BFF, 0x7C00, 0x7C01, 0xFFFF, 0x10000, 0x10001, 0xF800, 0x1FFFF, 0x20000, 0x20001, 0x1F0000 - 1, 0x1F0000 + 0x10001];
fn h18_sizes(ctx: &Ctx) -> R {
    let size = *ctx.pick(&SIZES);
    let starts: &[usize] = if ctx.thorough() {
        &[0, 0x7C00 * 2, 0x7C00 * 2 - 4, 0x7C00 * 2 + 4, 0x10000, 0x10004, 0x1F0000 - 0x10000, 0x1F0000 - 4, 0x1F0000, 0x1F0000 - 0x7C00]
    } else {
        &[0, 0x7C00 * 2 - 4, 0x7C00 * 3, 0x1F0000 - 0x10000, 0x1F0000 - 4]
    };
    let at = *ctx.pick(starts);
    let second = *ctx.pick(&[0usize, 5, 0x10000]);
    let tree = vec![T::f("first", 1, size), T::f("second", 2, second)];
    let mut p = HandPart::new(0, 11, tree);
    p.lay = Lay::At(at);
    ctx.note(|| format!("files of {size:#x} bytes at {at:#x} and {second:#x} bytes"));
    ctx.state(mix(size as u64, mix(at as u64, second as u64)));
    ctx.nontrivial();
    extract_check(ctx, &[p], &[0], false, false)
}
fn tree18(k: usize) -> Vec<T> {
    match k {
        0 => vec![],
        1 => vec![T::f("x", 1, 0)],
        2 => vec![T::d("a", vec![T::f("x", 1, 5), T::d("b", vec![T::f("x", 2, 6)])]), T::f("x", 3, 7)],
        3 => vec![T::d("empty", vec![]), T::d("d", vec![T::d("e", vec![])]), T::f("z", 1, 9)],
        4 => vec![T::f("\u{3042}\u{6F22}.bin", 1, 9), T::d("\u{30A2}", vec![T::f("a b", 2, 0x7C01)])],
        5 => vec![T::f("...", 1, 3), T::f("..a", 2, 4), T::f("a..b", 3, 5), T::f(".x", 4, 6), T::d("d.", vec![T::f(" ", 5, 7)])],
        6 => (0..30).map(|i| T::f(&format!("file{i:02}"), i, i * 0x111)).collect(),
        7 => {
            let mut t = vec![T::f("leaf", 1, 0x123)];
            for i in 0..30 {
                t = vec![T::d(&format!("d{i}"), t)];
            }
            t
        }
        _ => vec![T::f("zeros", 1, 0), T::f("b", 2, 0x8000), T::f("A", 3, 0x11), T::f("C", 4, 0)],
    }
}
/// Contents that are not random, and equal files.
fn h18_contents(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let (a, b) = (*ctx.pick(&KINDS), *ctx.pick(&KINDS));
    let n = *ctx.pick(&[0x41usize, 0x10000, 0x18000, o::GD + 5]);
    let again = ctx.flag();
    let sys = ctx.choose(4);
    if sys > 0 && again {
        return Err(Stop::Prune);
    }
    let mut p = HandPart::new(0, 12, vec![T::f("a", a, n), T::d("d", vec![T::f("a", b, n)]), T::f("z", a, 0x40)]);
    match sys {
        0 => {}
        1 => p.bi2 = o::content(b, 0x2000).to_vec(),
        2 => p.app = o::apploader(0x777, 0x101, b),
        _ => p.dol = o::dol(0x1234, 3, b),
    }
    ctx.note(|| format!("tree [{}], over old files: {again}, system file {sys}", show(&p.tree)));
    ctx.state(mix(hash_bytes(show(&p.tree).as_bytes()), sys as u64 * 2 + again as u64));
    extract_check(ctx, &[p], &[0], false, again)
}
fn h18_trees(ctx: &Ctx) -> R {
    let k = ctx.choose(9);
    let lay = *ctx.pick(&[Lay::Seq, Lay::Rev, Lay::At(0x1F0000 - 0x100)]);
    let again = ctx.flag();
    let mut p = HandPart::new(0, 12, tree18(k));
    p.lay = lay;
    ctx.note(|| format!("tree [{}], layout {lay:?}, over old files: {again}", show(&p.tree)));
    ctx.state((k * 10 + lay_no(lay)) as u64 * 2 + again as u64);
    if k > 1 {
        ctx.nontrivial();
    }
    extract_check(ctx, &[p], &[0], true, again)
}
/// Deep, wide and branching trees.
fn h18_large(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let (k, n) = (ctx.choose(5), *ctx.pick(&BIG));
    let p = HandPart::new(0, 12, big(k, n));
    ctx.note(|| format!("shape {k}, size {n}"));
    ctx.state((k * 1000 + n) as u64);
    extract_check(ctx, &[p], &[0], true, false)
}
fn lay_no(l: Lay) -> usize {
    match l {
        Lay::Seq => 0,
        Lay::Rev => 1,
        Lay::At(_) => 2,
    }
}
/// Every set and order of sections.
fn h18_sections(ctx: &Ctx) -> R {
    let perm = crate::dirs::permutation(ctx, 3);
    let n = 1 + ctx.choose(3);
    let mut rest: Vec<u32> = vec![0, 1, 2];
    let mut order = vec![];
    for _ in 0..n {
        order.push(rest.remove(ctx.choose(rest.len())));
    }
    let with = ctx.choose(3);
    let parts: Vec<HandPart> = perm
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let tree = match (with, t) {
                (0, _) => vec![T::f("f", 1 + t, 0x100 * (t + 1)), T::f("g", 5 + t, 0x10000)],
                (1, 1) => vec![],
                (1, _) => vec![T::f("only", 3 + t, 0x20001)],
                (_, 0) => vec![T::f("big", 9, 0x1F0000), T::f("e", 2, 0)],
                (_, _) => vec![T::f("small", 3 + t, 1)],
            };
            let mut p = HandPart::new(*t as u32, 20 + *t as u8, tree);
            p.outer = (i + with) % OUTER;
            p.inner = (*t + with) % INNER;
            // all in one group, each in its own, or in the last two
            p.group = [0, i, 2 + i / 2][with];
            p
        })
        .collect();
    ctx.note(|| format!("partitions {perm:?}, sections prepared in the order {order:?}, contents {with}"));
    ctx.state(hash_bytes(format!("{perm:?}{order:?}{with}").as_bytes()));
    if n > 1 {
        ctx.nontrivial();
    }
    extract_check(ctx, &parts, &order, false, false)
}
fn h18_system(ctx: &Ctx) -> R {
    let mut p = HandPart::new(0, 31, vec![T::f("f", 1, 0x40)]);
    match ctx.choose(6) {
        0 => p.app = o::apploader(*ctx.pick(&[0usize, 1, 0x1234, 0x7C00]), *ctx.pick(&[0usize, 1, 31, 0x8000]), 6),
        1 => p.dol = o::dol(*ctx.pick(&[0x100usize, 0x101, 0x7C00, 0x8123, 0x100000]), *ctx.pick(&[1usize, 7, 18, 21, 22, 23, 24, 25, 26, 27, 28]), 7),
        2 => p.tmd = o::tmd(*ctx.pick(&[1usize, 2, 3, 40]), 9),
        3 => {
            let mut c = vec![];
            for i in 0..3u8 {
                c.extend(o::cert(ctx.choose(3), ctx.choose(2), i * 30));
            }
            p.certs = c;
        }
        4 => {
            p.outer = ctx.choose(OUTER);
            p.inner = ctx.choose(INNER);
            p.lay = *ctx.pick(&[Lay::Seq, Lay::Rev]);
        }
        _ => p.seed = *ctx.pick(&[0u8, 1, 2, 255, 254]),
    }
    ctx.note(|| format!("apploader {:#x}, DOL {:#x}, TMD {:#x}, certificates {:#x}, seed {}, layout {} {} {:?}", p.app.len(), p.dol.len(), p.tmd.len(), p.certs.len(), p.seed, p.outer, p.inner, p.lay));
    ctx.state(mix(hash_bytes(&p.app), mix(hash_bytes(&p.dol), mix(hash_bytes(&p.tmd), mix(hash_bytes(&p.certs), hash_bytes(format!("{} {} {} {:?}", p.seed, p.outer, p.inner, p.lay).as_bytes()))))));
    ctx.nontrivial();
    extract_check(ctx, &[p], &[0], true, false)
}
/// Files that reach beyond the stored data cannot be extracted and must not
/// silently come out shorter.
fn h18_incomplete(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let size = *ctx.pick(&[0x40usize, 0x7C00, 0x10000, 0x18000]);
    let miss = 4 * (1 + ctx.choose(4) as u64 * 0x1F00);
    let cut_file = ctx.flag();
    ctx.note(|| format!("a file of {size:#x} bytes at the end of the data, {miss:#x} bytes missing, image cut: {cut_file}"));
    ctx.state(mix(size as u64, miss << 1 | cut_file as u64));
    if miss as usize > size && !cut_file {
        return Err(Stop::Prune);
    }
    let mut p = HandPart::new(0, 41, vec![T::f("whole", 1, 0x50), T::f("part", 2, size)]);
    p.lay = Lay::At(o::GD - 0x50 - size);
    if !cut_file {
        p.cut = miss;
    }
    let mut m = make(&[p]);
    if cut_file {
        let n = m.img.len();
        m.img.truncate(n - miss as usize);
    }
    let s = Scratch::new("c18i")?;
    open_dir(s.path())?;
    let img = put_image(&s, &m.img)?;
    let dest = s.path().join("dest");
    open_dir(&dest)?;
    let r = py(ctx, &["N", &hx(&img)])?;
    if !r.ok() {
        return Ok(());
    }
    if !py(ctx, &["P", &hx("DATA")])?.ok() {
        return Ok(());
    }
    let r = py(ctx, &["E", &hx(&dest.display().to_string()), "s", "n"])?;
    if r.ok() {
        let mut got = listing(&dest)?;
        let g = got.remove("DATA/files/part").unwrap_or_default();
        fail!("extraction reports success, but a file of {size:#x} bytes comes out with {:#x} bytes", g.len());
    }
    ctx.observe(1);
    Ok(())
}
/// Partitions and files beyond 4 GiB.
fn h18_far(ctx: &Ctx) -> R {
    let (poff, group, delta) = far_choice(ctx);
    let (pieces, m) = far(poff, group, delta);
    let s = Scratch::new("c18f")?;
    open_dir(s.path())?;
    let img = s.path().join("image.iso");
    put_sparse(&img, &pieces)?;
    let dest = s.path().join("dest");
    open_dir(&dest)?;
    let r = py(ctx, &["N", &hx(&img.display().to_string())])?;
    ensure!(r.ok(), "a valid image is refused: {}", r.show());
    let r = py(ctx, &["P", &hx("DATA")])?;
    ensure!(r.ok(), "section DATA cannot be prepared: {}", r.show());
    match py(ctx, &["E", &hx(&dest.display().to_string()), "s", "n"])? {
        Ans::Ok(p) => progress_ok(&p, true)?,
        e => fail!("extraction fails: {}", e.show()),
    }
    let h = compare(&dest, &expected(&m, &[(0, files(&m.parts[0].tree))]))?;
    ctx.observe(h);
    Ok(())
}
/// System files that reach past the end of the data cannot be extracted.
fn h18_system_beyond(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let mut p = HandPart::new(0, 44, vec![T::f("a", 1, 5)]);
    let what = system_beyond(ctx, &mut p);
    ctx.note(|| what.clone());
    ctx.state(hash_bytes(what.as_bytes()));
    let m = make(&[p]);
    let s = Scratch::new("c18s")?;
    open_dir(s.path())?;
    let img = put_image(&s, &m.img)?;
    let dest = s.path().join("dest");
    open_dir(&dest)?;
    let ok = py(ctx, &["N", &hx(&img)])?.ok() && py(ctx, &["P", &hx("DATA")])?.ok() && py(ctx, &["E", &hx(&dest.display().to_string()), "s", "n"])?.ok();
    ensure!(!ok, "extraction reports success although {what}");
    ctx.observe(1);
    Ok(())
}
/// Every single output that cannot be written makes the extraction fail.
fn h18_blocked(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let mut p = HandPart::new(0, 43, vec![T::f("a", 1, 5), T::d("d", vec![T::f("x", 2, 0x18001), T::f("empty", 3, 0)]), T::f("z", 4, 9)]);
    p.app = o::apploader(0x1234, 31, 6);
    let m = make(&[p]);
    let secs = vec![(0u32, files(&m.parts[0].tree))];
    let want: Vec<String> = expected(&m, &secs).into_keys().filter(|k| !k.ends_with('/')).collect();
    let victim = ctx.pick(&want).clone();
    let parent = ctx.flag();
    ctx.note(|| format!("{victim} cannot be written, because of its folder: {parent}"));
    ctx.state(mix(hash_bytes(victim.as_bytes()), parent as u64));
    let s = Scratch::new("c18b")?;
    open_dir(s.path())?;
    let img = put_image(&s, &m.img)?;
    let dest = s.path().join("dest");
    open_dir(&dest)?;
    let at = dest.join(&victim);
    quiet(|| {
        let up = at.parent().unwrap_or(&dest);
        if parent {
            eng(std::fs::create_dir_all(up.parent().unwrap_or(&dest)))?;
            if up != dest {
                eng(std::fs::write(up, b"a file"))?;
            }
        } else {
            eng(std::fs::create_dir_all(at.join("in the way")))?;
        }
        open_up(s.path())
    })?;
    let r = py(ctx, &["N", &hx(&img)])?;
    ensure!(r.ok(), "a valid image is refused: {}", r.show());
    let r = py(ctx, &["P", &hx("DATA")])?;
    ensure!(r.ok(), "section DATA cannot be prepared: {}", r.show());
    let r = py(ctx, &["E", &hx(&dest.display().to_string()), "s", "n"])?;
    ensure!(!r.ok(), "extraction reports success although {victim} could not be written");
    ctx.observe(1);
    Ok(())
}
/// The operating system refuses to let any file grow beyond a limit: extraction
/// may only report success if everything is there all the same.
fn h18_full(ctx: &Ctx) -> R {
    let k = ctx.choose(3);
    let tree = match k {
        0 => vec![T::f("a", 1, 5), T::f("last", 2, 0x20001)],
        1 => vec![T::f("first", 1, 0x18000), T::f("b", 2, 5)],
        _ => vec![T::f("few", 1, 5)],
    };
    let mut p = HandPart::new(0, 43, tree);
    p.app = o::apploader(0x1234, 31, 6);
    p.dol = o::dol(0x8123, 7, 7);
    let m = make(&[p]);
    let secs = vec![(0u32, files(&m.parts[0].tree))];
    let want = expected(&m, &secs);
    // every limit around the size of one of the files
    let mut ends: Vec<usize> = want.values().flat_map(|b| [b.len() / 2, b.len().saturating_sub(1), b.len()]).filter(|n| *n > 0).collect();
    ends.sort();
    ends.dedup();
    let n = *ctx.pick(&ends);
    let fits = want.values().all(|b| b.len() <= n);
    ctx.note(|| format!("contents {k}, files limited to {n:#x} bytes"));
    ctx.state(mix(k as u64, n as u64));
    if !fits {
        ctx.nontrivial();
    }
    let s = Scratch::new("c18l")?;
    open_dir(s.path())?;
    let img = put_image(&s, &m.img)?;
    let dest = s.path().join("dest");
    open_dir(&dest)?;
    let r = py(ctx, &["N", &hx(&img)])?;
    ensure!(r.ok(), "a valid image is refused: {}", r.show());
    let r = py(ctx, &["P", &hx("DATA")])?;
    ensure!(r.ok(), "section DATA cannot be prepared: {}", r.show());
    py(ctx, &["L", &n.to_string()])?;
    let r = py(ctx, &["E", &hx(&dest.display().to_string()), "s", "n"])?;
    ensure!(r.ok() || !fits, "extraction fails although every file fits: {}", r.show());
    if r.ok() {
        match compare(&dest, &want) {
            Err(Stop::Violation { msg: e, .. }) => fail!("extraction reports success although a file could not be written: {e}"),
            e => e?,
        };
    }
    ctx.observe(r.ok() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C19

fn h19(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let s = Scratch::new("c19")?;
    open_dir(s.path())?;
    // root/outer/mid/dest; escapes can reach root at most
    let root = s.path().join("root");
    let dest = root.join("outer/mid/dest");
    for d in [&root, &root.join("outer"), &root.join("outer/mid"), &dest] {
        open_dir(d)?;
    }
    for f in ["victim", "outer/victim", "outer/mid/victim"] {
        let p = root.join(f);
        eng(std::fs::write(&p, b"precious"))?;
        eng(std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o666)))?;
    }
    let abs = root.display().to_string();
    // every '..' count used below stays inside root: dest/DATA/files is 5 levels down
    let hostile: Vec<String> = vec![
        "..".into(),
        ".".into(),
        "".into(),
        "../up1".into(),
        "../../up2".into(),
        "../../../up3".into(),
        "../../../victim".into(),
        "../../../../victim".into(),
        "../../../../../victim".into(),
        format!("{abs}/evil"),
        format!("{abs}/victim"),
        format!("{abs}/outer"),
        "a/../../../victim".into(),
        "./../../../victim".into(),
        "sub/inner".into(),
        "/".into(),
        "//".into(),
        "..\\..\\victim".into(),
        "x/..".into(),
        "../".into(),
        "../..".into(),
        "plain".into(),
    ];
    let shape = ctx.choose(4);
    let a = ctx.pick(&hostile).clone();
    let b = if shape == 0 { String::new() } else { ctx.pick(&hostile).clone() };
    // at most five levels up in total
    let ups = |x: &str| x.split('/').filter(|c| *c == "..").count();
    if ups(&a) + ups(&b) > 5 {
        return Err(Stop::Prune);
    }
    let tree = match shape {
        0 => vec![T::f("good", 1, 8), T::f(&a, 2, 9), T::f("later", 3, 10)],
        1 => vec![T::d(&a, vec![T::f(&b, 2, 9)]), T::f("later", 3, 10)],
        2 => vec![T::d("in", vec![T::d(&a, vec![T::f(&b, 2, 9)])])],
        _ => vec![T::d(&a, vec![T::d(&b, vec![T::f("victim", 2, 9), T::f("fresh", 4, 9)])])],
    };
    if shape == 0 || (shape != 3 && b.is_empty()) {
        // fine: empty names are part of the domain
    }
    ctx.note(|| format!("shape {shape}, names {:?} and {:?}", a.replace(&abs, "<root>"), b.replace(&abs, "<root>")));
    ctx.state(hash_bytes(format!("{shape}{}|{}", a.replace(&abs, ""), b.replace(&abs, "")).as_bytes()));
    let m = make(&[HandPart::new(0, 51, tree)]);
    let img = put_image(&s, &m.img)?;
    let outside = |r: &Path| -> R<BTreeMap<String, Vec<u8>>> {
        let mut l = listing(r)?;
        l.retain(|k, _| !k.starts_with("outer/mid/dest/"));
        Ok(l)
    };
    let before = outside(&root)?;
    let top: Vec<String> = listing_top(s.path())?;
    let r = py(ctx, &["N", &hx(&img)])?;
    if r.ok() && py(ctx, &["P", &hx("DATA")])?.ok() {
        let r = py(ctx, &["E", &hx(&dest.display().to_string()), "s", "n"])?;
        ctx.observe(r.ok() as u64);
    }
    let after = outside(&root)?;
    for (k, v) in &after {
        match before.get(k) {
            None => fail!("extraction creates {k} outside the destination"),
            Some(w) if w != v => fail!("extraction overwrites {k} outside the destination"),
            _ => {}
        }
    }
    ensure!(before.len() == after.len(), "extraction removes something outside the destination");
    ensure!(top == listing_top(s.path())?, "extraction creates something outside the destination");
    Ok(())
}
fn listing_top(p: &Path) -> R<Vec<String>> {
    let mut v = vec![];
    for e in eng(std::fs::read_dir(p))? {
        v.push(eng(e)?.file_name().to_string_lossy().into_owned());
    }
    v.sort();
    Ok(v)
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug)]
enum Cmd {
    Prepare(&'static str),
    Hash(&'static str),
    /// section, predicate, mode
    Filter(&'static str, usize, &'static str),
    Extract,
}
fn img20(k: usize) -> &'static Made {
    static M: [OnceLock<Made>; 4] = [const { OnceLock::new() }; 4];
    M[k].get_or_init(|| {
        let data = vec![
            T::f("a", 1, 5),
            T::d("dir", vec![T::f("a", 2, 6), T::f("B.arc", 3, 7), T::d("sub", vec![T::f("c", 4, 8)])]),
            T::d("drop", vec![T::f("a", 5, 9)]),
            T::f("z", 6, 0),
        ];
        let small = |t: u32, s: u8| HandPart::new(t, s, vec![T::f("a", 7 + t as usize, 3), T::d("dir", vec![T::f("a", 8 + t as usize, 0x7C01)])]);
        match k {
            0 => make(&[HandPart::new(0, 61, data)]),
            1 => make(&[small(1, 62), HandPart::new(0, 63, data)]),
            3 => make(&[small(2, 67), small(1, 68), HandPart::new(0, 69, data)]),
            // two data partitions: the first one counts
            _ => make(&[HandPart::new(0, 64, data), small(2, 65), small(0, 66)]),
        }
    })
}
fn image_path(k: usize) -> R<String> {
    static P: [OnceLock<Result<String, String>>; 4] = [const { OnceLock::new() }; 4];
    P[k].get_or_init(|| {
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("c20-{}-{k}.iso", std::process::id()));
        std::fs::write(&p, &img20(k).img).map_err(|e| e.to_string())?;
        Ok(p.display().to_string())
    })
    .clone()
    .map_err(Stop::Engine)
}
type Files = Vec<(Vec<String>, usize, usize, u32)>;
fn pred(k: usize, path: &str) -> bool {
    match k {
        0 => path == "dir/a",
        1 => path.starts_with("d"),
        2 => true,
        3 => path.ends_with('a'),
        _ => false,
    }
}
fn ty(name: &str) -> Option<u32> {
    match name.to_ascii_uppercase().as_str() {
        "DATA" => Some(0),
        "UPDATE" => Some(1),
        "CHANNEL" => Some(2),
        _ => None,
    }
}
fn run20(ctx: &Ctx, k: usize, cmds: &[Cmd], depth: usize) -> R {
    run20_with(ctx, k, depth, &mut |_| cmds[ctx.choose(cmds.len())].clone())
}
fn run20_with(ctx: &Ctx, k: usize, depth: usize, next: &mut dyn FnMut(usize) -> Cmd) -> R {
    let m = img20(k);
    let s = Scratch::new("c20")?;
    open_dir(s.path())?;
    let r = py(ctx, &["N", &hx(&image_path(k)?)])?;
    ensure!(r.ok(), "a valid image is refused: {}", r.show());
    // model
    let mut prepared: Vec<(u32, Files)> = vec![];
    let mut round = 0;
    let mut hist = String::new();
    for step in 0..=depth {
        let cmd = if step == depth { Cmd::Extract } else { next(step) };
        hist.push_str(&format!("{cmd:?} "));
        ctx.note(|| format!("{cmd:?}"));
        let mut digest = hash_bytes(&[k as u8, round as u8]);
        match &cmd {
            Cmd::Prepare(n) => {
                let part = ty(n).and_then(|t| m.parts.iter().find(|p| p.ptype == t));
                let dup = ty(n).is_some_and(|t| prepared.iter().any(|p| p.0 == t));
                let r = py(ctx, &["P", &hx(n)])?;
                match part {
                    Some(p) if !dup => {
                        ensure!(r.ok(), "preparing {n} fails: {}", r.show());
                        prepared.push((p.ptype, files(&p.tree)));
                    }
                    _ => {
                        ensure!(!r.ok(), "preparing {n} succeeds although it is {}", if dup { "already prepared" } else { "not on the disc" });
                        ctx.nontrivial();
                    }
                }
            }
            Cmd::Hash(n) => {
                let have = ty(n).filter(|t| prepared.iter().any(|p| p.0 == *t));
                let r = py(ctx, &["H", &hx(n)])?;
                match (have, r) {
                    (Some(t), Ans::Ok(hash)) => {
                        let Some(p) = m.parts.iter().find(|p| p.ptype == t) else { return Err(Stop::Engine("part".into())) };
                        ensure!(unhx(&hash) == o::sha1(&p.dol), "the DOL hash of {n} is {hash}");
                    }
                    (Some(_), e) => fail!("the DOL hash of {n} fails: {}", e.show()),
                    (None, Ans::Ok(_)) => fail!("a DOL hash is given for {n}, which is not prepared"),
                    (None, _) => ctx.nontrivial(),
                }
            }
            Cmd::Filter(n, pk, mode) => {
                let have = prepared.iter_mut().find(|p| Some(p.0) == ty(n));
                let paths: Vec<String> = have.as_ref().map(|h| h.1.iter().map(|f| f.0.join("/")).collect()).unwrap_or_default();
                let chosen: Vec<String> = paths.iter().filter(|p| pred(*pk, p)).map(|p| hx(p)).collect();
                let r = py(ctx, &["F", &hx(n), mode, &chosen.join(",")])?;
                match (have, r) {
                    (Some(h), Ans::Ok(seen)) => {
                        let mut seen: Vec<String> = seen.split(',').filter(|x| !x.is_empty()).map(|x| String::from_utf8_lossy(&unhx(x)).into_owned()).collect();
                        let mut want = paths.clone();
                        seen.sort();
                        want.sort();
                        ensure!(seen == want, "the filter for {n} is asked about {seen:?} instead of {want:?}");
                        h.1.retain(|f| !pred(*pk, &f.0.join("/")));
                        ctx.nontrivial();
                    }
                    (Some(_), e) => {
                        // a filter that raises does not answer true; if that stops the filtering,
                        // nothing is known about what was removed
                        if *mode == "x" {
                            return Err(Stop::Prune);
                        }
                        fail!("filtering {n} fails: {}", e.show())
                    }
                    (None, Ans::Ok(_)) => fail!("{n} is filtered although it is not prepared"),
                    (None, _) => {}
                }
            }
            Cmd::Extract => {
                let dest = s.path().join(format!("dest{round}"));
                round += 1;
                open_dir(&dest)?;
                let d = dest.display().to_string();
                match py(ctx, &["E", &hx(&d), "s", "n"])? {
                    Ans::Ok(_) => {}
                    e => fail!("extraction fails: {}", e.show()),
                }
                let h = compare(&dest, &expected(m, &prepared))?;
                digest = mix(digest, h);
                prepared.clear();
            }
        }
        for (t, f) in &prepared {
            digest = mix(mix(digest, *t as u64 + 1), hash_bytes(format!("{f:?}").as_bytes()));
        }
        ctx.state(digest);
        ctx.observe(digest);
    }
    Ok(())
}
fn h20_one(ctx: &Ctx) -> R {
    let cmds = [
        Cmd::Prepare("DATA"),
        Cmd::Prepare("update"),
        Cmd::Filter("DATA", 0, "b"),
        Cmd::Filter("data", 1, "b"),
        Cmd::Filter("Data", 3, "t"),
        Cmd::Filter("DATA", 2, "b"),
        Cmd::Hash("data"),
        Cmd::Extract,
    ];
    run20(ctx, 0, &cmds, ctx.by_tier(5, 6))
}
fn h20_two(ctx: &Ctx) -> R {
    let cmds = [
        Cmd::Prepare("dAtA"),
        Cmd::Prepare("UPDATE"),
        Cmd::Prepare("Channel"),
        Cmd::Filter("DATA", 1, "b"),
        Cmd::Filter("update", 0, "b"),
        Cmd::Filter("DATA", 3, "b"),
        Cmd::Filter("UPDATE", 2, "t"),
        Cmd::Hash("DATA"),
        Cmd::Hash("update"),
        Cmd::Extract,
    ];
    run20(ctx, 1, &cmds, ctx.by_tier(4, 5))
}
fn h20_three(ctx: &Ctx) -> R {
    let cmds = [
        Cmd::Prepare("data"),
        Cmd::Prepare("CHANNEL"),
        Cmd::Prepare("DATA "),
        Cmd::Prepare(""),
        Cmd::Filter("channel", 3, "b"),
        Cmd::Filter("DATA", 4, "b"),
        Cmd::Filter("data", 3, "x"),
        Cmd::Hash("Channel"),
        Cmd::Hash("GAME"),
        Cmd::Filter("nothing", 2, "b"),
        Cmd::Extract,
    ];
    run20(ctx, 2, &cmds, ctx.by_tier(4, 5))
}

/// Proper and improper section names for every request, with nothing, some or all
/// sections prepared.
fn h20_names(ctx: &Ctx) -> R {
    const NAMES: [&str; 40] = [
        "DATA", "data", "dATA", "DATa", "UPDATE", "update", "uPdAtE", "CHANNEL", "channel", "cHANNEL", "", " ", "DAT", "ATA", "DATAX", "DATA ", " DATA", "DATA\n", "DATA\0",
        "D A T A", "DATA/", "/DATA", "./DATA", "UPDAT", "UPDATES", "CHANNELS", "CHAN", "GAME", "INSTALL", "0", "1", "2", "P0", "DATA,UPDATE", "DATAUPDATE", "ＤＡＴＡ", "dаta", "DÄTA", "None", "*",
    ];
    let n = *ctx.pick(&NAMES);
    let mask = ctx.choose(8);
    let kind = ctx.choose(4);
    let mut seq: Vec<Cmd> = vec![];
    for (i, x) in ["channel", "Data", "UPDATE"].iter().enumerate() {
        if mask >> i & 1 == 1 {
            seq.push(Cmd::Prepare(x));
        }
    }
    seq.push(match kind {
        0 => Cmd::Prepare(n),
        1 => Cmd::Hash(n),
        2 => Cmd::Filter(n, 2, "b"),
        _ => Cmd::Filter(n, 3, "t"),
    });
    // and what is prepared still works
    if mask & 2 != 0 {
        seq.push(Cmd::Hash("data"));
        seq.push(Cmd::Filter("data", 0, "b"));
    }
    run20_with(ctx, 3, seq.len(), &mut |i| seq[i].clone())
}
/// Trees of many shapes, each file in turn and then a pattern of the rest filtered.
fn h20_trees(ctx: &Ctx) -> R {
    ctx.nontrivial();
    fn tree(k: usize) -> Vec<T> {
        match k {
            0..=6 => tree18(k + 2),
            7 => {
                // a file and a folder of the same name at every level
                let mut t = vec![T::f("leaf", 1, 3)];
                for i in 0..14 {
                    t = vec![T::f(&format!("a{}", i % 2), i + 2, i), T::d("d", t), T::f("e", i + 20, 2)];
                }
                t
            }
            8 => (0..260).map(|i| T::f(&format!("n{i:03}"), i, i % 3)).collect(),
            10.. => crate::handimg::odd(crate::handimg::BIG[k - 10], k % 2 == 0),
            _ => (0..12).map(|i| T::d(&format!("d{i:02}"), vec![T::f("x", i, 4), T::d("s", vec![T::f("x", i + 30, 5), T::f("y", i + 60, 0)])])).collect(),
        }
    }
    const N: usize = 26;
    static M: [OnceLock<(Made, Result<String, String>)>; N] = [const { OnceLock::new() }; N];
    let k = ctx.choose(N);
    let (m, path) = M[k].get_or_init(|| {
        let m = make(&[HandPart::new(0, 70 + k as u8, tree(k))]);
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("c20t-{}-{k}.iso", std::process::id()));
        let r = std::fs::write(&p, &m.img).map(|_| p.display().to_string()).map_err(|e| e.to_string());
        (m, r)
    });
    let path = path.clone().map_err(Stop::Engine)?;
    let mut left = files(&m.parts[0].tree);
    let total = left.len();
    let one = ctx.choose(total);
    let pat = ctx.choose(5);
    ctx.note(|| format!("tree {k}, file {one} of {total} filtered, then pattern {pat}"));
    ctx.state((k * 100_000 + one * 10 + pat) as u64);
    let s = Scratch::new("c20t")?;
    open_dir(s.path())?;
    ensure!(py(ctx, &["N", &hx(&path)])?.ok(), "a valid image is refused");
    ensure!(py(ctx, &["P", &hx("DATA")])?.ok(), "preparing the section fails");
    for round in 0..2 {
        let paths: Vec<String> = left.iter().map(|f| f.0.join("/")).collect();
        let first = paths.first().cloned();
        let drop: Vec<bool> = (0..left.len())
            .map(|i| match (round, pat) {
                (0, _) => i == one,
                (_, 0) => false,
                (_, 1) => i % 2 == 0,
                (_, 2) => Some(&paths[i]) != first.as_ref(),
                (_, 3) => left[i].0.len() > 1,
                _ => i + 1 == left.len(),
            })
            .collect();
        let chosen: Vec<String> = paths.iter().zip(&drop).filter(|x| *x.1).map(|x| hx(x.0)).collect();
        match py(ctx, &["F", &hx("data"), "b", &chosen.join(",")])? {
            Ans::Ok(seen) => {
                let mut seen: Vec<String> = seen.split(',').filter(|x| !x.is_empty()).map(|x| String::from_utf8_lossy(&unhx(x)).into_owned()).collect();
                let mut want = paths.clone();
                seen.sort();
                want.sort();
                ensure!(seen == want, "the filter is asked about {seen:?} instead of {want:?}");
            }
            e => fail!("filtering fails: {}", e.show()),
        }
        let mut d = drop.iter();
        left.retain(|_| !d.next().copied().unwrap_or(false));
    }
    let dest = s.path().join("dest");
    open_dir(&dest)?;
    match py(ctx, &["E", &hx(&dest.display().to_string()), "s", "n"])? {
        Ans::Ok(_) => {}
        e => fail!("extraction fails: {}", e.show()),
    }
    let h = compare(&dest, &expected(m, &[(0, left)]))?;
    ctx.observe(h);
    Ok(())
}

/// Many filters one after the other, on one or two sections in turn, then extracted twice.
fn h20_many(ctx: &Ctx) -> R {
    ctx.nontrivial();
    static M: OnceLock<(Made, Result<String, String>)> = OnceLock::new();
    let (m, path) = M.get_or_init(|| {
        let tree = |s: usize| (0..50).map(|i| if i % 5 == 4 { T::d(&format!("d{i:02}"), vec![T::f("x", i + s, i), T::f("y", i + 1 + s, 0)]) } else { T::f(&format!("n{i:02}"), i + s, i * 3) }).collect::<Vec<T>>();
        let m = make(&[HandPart::new(0, 71, tree(0)), HandPart::new(1, 72, tree(7))]);
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("c20m-{}.iso", std::process::id()));
        let r = std::fs::write(&p, &m.img).map(|_| p.display().to_string()).map_err(|e| e.to_string());
        (m, r)
    });
    let path = path.clone().map_err(Stop::Engine)?;
    let rounds = *ctx.pick(&[3usize, 8, 9, 16, 17, 33, 60]);
    let pat = ctx.choose(3);
    let both = ctx.flag();
    ctx.note(|| format!("{rounds} filters, pattern {pat}, two sections: {both}"));
    ctx.state((rounds * 10 + pat * 2 + both as usize) as u64);
    let s = Scratch::new("c20m")?;
    open_dir(s.path())?;
    ensure!(py(ctx, &["N", &hx(&path)])?.ok(), "a valid image is refused");
    for again in 0..2 {
        let mut left: Vec<(u32, Files)> = vec![];
        for (i, n) in ["DATA", "UPDATE"].iter().enumerate().take(1 + both as usize) {
            match py(ctx, &["P", &hx(n)])? {
                Ans::Ok(_) => left.push((i as u32, files(&m.parts[i].tree))),
                e => fail!("preparing {n} for extraction {again} fails: {}", e.show()),
            }
        }
        for r in 0..rounds {
            let which = if both { r % 2 } else { 0 };
            let l = &mut left[which].1;
            let paths: Vec<String> = l.iter().map(|f| f.0.join("/")).collect();
            let gone = match (pat, paths.len()) {
                (_, 0) => None,
                (0, _) => Some(0),
                (1, n) => Some(n - 1),
                (_, n) => if r % 3 == 0 { None } else { Some(r * 7 % n) },
            };
            let chosen = gone.map(|g| hx(&paths[g])).unwrap_or_default();
            match py(ctx, &["F", &hx(["data", "Update"][which]), "b", &chosen])? {
                Ans::Ok(seen) => {
                    let mut seen: Vec<String> = seen.split(',').filter(|x| !x.is_empty()).map(|x| String::from_utf8_lossy(&unhx(x)).into_owned()).collect();
                    let mut want = paths.clone();
                    seen.sort();
                    want.sort();
                    ensure!(seen == want, "filter {r} is asked about {seen:?} instead of {want:?}");
                }
                e => fail!("filter {r} fails: {}", e.show()),
            }
            if let Some(g) = gone {
                l.remove(g);
            }
        }
        let dest = s.path().join(format!("dest{again}"));
        open_dir(&dest)?;
        match py(ctx, &["E", &hx(&dest.display().to_string()), "s", "n"])? {
            Ans::Ok(_) => {}
            e => fail!("extraction fails: {}", e.show()),
        }
        ctx.observe(compare(&dest, &expected(m, &left))?);
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

/// Rebuilds one source directory into `out` and judges the result: the bytes are
/// those of the library, the reader finds the directory's contents, the progress
/// is sane. `want` caches the library's image.
fn rebuild_ok(ctx: &Ctx, dir: &Path, out: &Path, src: &Src, want: &[u8], mode: &str) -> R {
    let kind = if ctx.worker % 2 == 0 { "s" } else { "p" };
    match py(ctx, &["R", &hx(&dir.display().to_string()), &hx(&out.display().to_string()), mode, kind])? {
        Ans::Ok(p) => progress_ok(&p, files(&src.part.def.tree).iter().any(|f| f.2 > 0))?,
        e => fail!("rebuilding a complete directory fails: {}", e.show()),
    }
    let img = made(quiet(|| std::fs::read(out)))?;
    if let Some(d) = o::diff(&img, want) {
        fail!("the extension and the library build different images: {d}");
    }
    ctx.observe(hash_bytes(&img));
    Ok(())
}
fn library_image(dir: &Path) -> R<Vec<u8>> {
    let mut lib = MemFile::new();
    if let Err(e) = disc_riider::builder::build_from_directory(dir, &mut lib, &mut |_| {}) {
        fail!("the library cannot build a complete directory: {e}");
    }
    Ok(lib.data)
}
fn tree25(k: usize) -> Vec<T> {
    match k {
        0 => vec![],
        1 => vec![T::f("x", 1, 0)],
        2 => vec![T::f("b.bin", 1, 0x123), T::d("Dir", vec![T::f("x", 2, 0), T::f("y.arc", 3, 0x8001)]), T::f("C", 4, 1)],
        3 => vec![T::f("big", 1, o::GD + 3), T::d("e", vec![T::f("f", 2, 0x7C00)])],
        4 => vec![T::f("\u{3042}.bin", 1, 9), T::d("\u{6F22}", vec![T::f("a b", 2, 10)])],
        5 => (0..20).map(|i| T::f(&format!("F{i}"), i, i * 0x400)).collect(),
        8 => vec![T::f("a", o::ZERO, o::GD + 9), T::f("b", o::TAIL0, 0x8001), T::d("c", vec![T::f("a", o::ZERO, o::GD + 9), T::f("e", o::LEAD0, 0x777)])],
        6 => vec![T::f("huge", 1, 0x100_0000 + 5), T::f("more", 2, 0x100_0000)],
        9 => crate::handimg::BIG.iter().flat_map(|n| crate::handimg::odd(*n, true)).collect(),
        _ => big(1, 250),
    }
}
fn h25_rebuild(ctx: &Ctx) -> R {
    let k = ctx.choose(10);
    let old = ctx.choose(5);
    let mode = *ctx.pick(&["n", "x"]);
    let mut src = Src::new(tree25(k));
    let sys = ctx.choose(3);
    match sys {
        0 => {}
        1 => src.part.def.dol = o::dol(0x8123, 7, 7),
        _ => src.part.def.app = o::apploader(0x1234, 31, 6),
    }
    ctx.note(|| format!("{}; old destination {old}, callback raises: {}", src.disc().describe(), mode == "x"));
    ctx.state(((k * 5 + old) * 3 + sys) as u64 * 2 + (mode == "x") as u64);
    ctx.nontrivial();
    let s = Scratch::new("c25")?;
    open_dir(s.path())?;
    let dir = s.path().join("src");
    eng(std::fs::create_dir(&dir))?;
    src.write(&dir)?;
    open_up(s.path())?;
    let want = library_image(&dir)?;
    let out = s.path().join("out.iso");
    let fill = match old {
        0 => None,
        1 => Some(vec![0xEE; want.len() + 0x8001]),
        2 => Some(want.iter().map(|b| !b).collect()),
        3 => Some(vec![0x5A; 7]),
        _ => Some(make(&[HandPart::new(1, 3, vec![T::f("u", 1, 9)]), HandPart::new(0, 4, vec![T::f("v", 2, 0x20000)])]).img),
    };
    if let Some(b) = fill {
        eng(std::fs::write(&out, b))?;
        eng(std::fs::set_permissions(&out, std::fs::Permissions::from_mode(0o666)))?;
    }
    let before = listing(&dir)?;
    rebuild_ok(ctx, &dir, &out, &src, &want, mode)?;
    ensure!(before == listing(&dir)?, "rebuilding changes the source directory");
    let img = made(std::fs::read(&out))?;
    verify_reader(ctx, Cursor::new(&img), &src.disc(), &ReadOpts { full: false })?;
    // and out again: the extension reads what it wrote
    if mode == "n" {
        let dest = s.path().join("dest");
        open_dir(&dest)?;
        let r = py(ctx, &["N", &hx(&out.display().to_string())])?;
        ensure!(r.ok(), "the rebuilt image is refused: {}", r.show());
        let r = py(ctx, &["P", &hx("DATA")])?;
        ensure!(r.ok(), "the rebuilt image has no data section: {}", r.show());
        let r = py(ctx, &["E", &hx(&dest.display().to_string()), "s", "n"])?;
        ensure!(r.ok(), "the rebuilt image cannot be extracted: {}", r.show());
        let mut got = listing(&dest)?;
        got.retain(|k, _| k.starts_with("DATA/files/") && !k.ends_with('/'));
        let files: BTreeMap<String, Vec<u8>> = before.into_iter().filter(|(k, _)| k.starts_with("DATA/files/") && !k.ends_with('/')).collect();
        if let Some(k) = files.keys().chain(got.keys()).find(|k| files.get(*k) != got.get(*k)) {
            fail!("{k} differs after rebuilding and extracting");
        }
    }
    Ok(())
}
/// Sequences of rebuilds into shared destinations: nothing carries over.
fn h25_history(ctx: &Ctx) -> R {
    let s = Scratch::new("c25h")?;
    open_dir(s.path())?;
    let mut srcs = vec![];
    for (i, k) in [2usize, 3, 0].iter().enumerate() {
        let mut src = Src::new(tree25(*k));
        src.region[0] = i as u8;
        let dir = s.path().join(format!("src{i}"));
        eng(std::fs::create_dir(&dir))?;
        src.write(&dir)?;
        let want = library_image(&dir)?;
        srcs.push((dir, src, want));
    }
    open_up(s.path())?;
    let mut held: [Option<usize>; 2] = [None, None];
    for _ in 0..ctx.by_tier(3, 4) {
        // the last source lacks a file when the step says so: a failing build
        let (i, d) = (ctx.choose(4), ctx.choose(2));
        let out = s.path().join(format!("out{d}.iso"));
        ctx.note(|| format!("source {i} into destination {d}"));
        if i < 3 {
            rebuild_ok(ctx, &srcs[i].0, &out, &srcs[i].1, &srcs[i].2, "n")?;
            held[d] = Some(i);
        } else {
            let lost = srcs[0].0.join("DATA/tmd.bin");
            let b = made(std::fs::read(&lost))?;
            eng(std::fs::remove_file(&lost))?;
            let r = py(ctx, &["R", &hx(&srcs[0].0.display().to_string()), &hx(&out.display().to_string()), "n", "s"])?;
            ensure!(!r.ok(), "rebuilding a directory without a TMD reports success");
            eng(std::fs::write(&lost, b))?;
            eng(std::fs::set_permissions(&lost, std::fs::Permissions::from_mode(0o666)))?;
            held[d] = None;
            ctx.nontrivial();
        }
        // the other destination stays as it was
        if let Some(k) = held[1 - d] {
            let b = made(std::fs::read(s.path().join(format!("out{}.iso", 1 - d))))?;
            ensure!(b == srcs[k].2, "the other destination changed");
        }
        ctx.state(hash_bytes(format!("{held:?}").as_bytes()));
    }
    Ok(())
}
/// Rebuilds that cannot succeed must raise.
fn h25_failing(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let s = Scratch::new("c25f")?;
    open_dir(s.path())?;
    let src = Src::standard();
    let dir = s.path().join("src");
    eng(std::fs::create_dir(&dir))?;
    src.write(&dir)?;
    let mut out = s.path().join("out.iso");
    let mut from = dir.clone();
    let what: String;
    match ctx.choose(3) {
        0 => {
            let k = ctx.choose(REQUIRED.len());
            let p = dir.join(REQUIRED[k]);
            eng(std::fs::remove_file(&p))?;
            let how = ctx.choose(3);
            match how {
                0 => {}
                1 => eng(std::fs::create_dir(&p))?,
                _ => {
                    if ["bi2.bin", "cert.bin", "main.dol", "apploader.img"].iter().any(|n| REQUIRED[k].ends_with(n)) {
                        return Err(Stop::Prune); // read as they are
                    }
                    let b = src.file(REQUIRED[k]);
                    eng(std::fs::write(&p, &b[..b.len() / 2]))?
                }
            }
            what = format!("{} {}", REQUIRED[k], ["missing", "a folder", "cut"][how]);
        }
        1 => {
            let k = ctx.choose(5);
            match k {
                0 => eng(std::fs::remove_dir_all(dir.join("DATA/files")))?,
                1 => eng(std::fs::remove_dir_all(dir.join("DATA")))?,
                2 => eng(std::fs::remove_dir_all(&dir))?,
                3 => from = dir.join("DATA"),
                _ => from = dir.join("DATA/sys/boot.bin"),
            }
            what = format!("incomplete folder {k}");
        }
        _ => {
            let k = ctx.choose(3);
            match k {
                0 => out = s.path().join("no/such/dir/out.iso"),
                1 => out = dir.clone(),
                _ => {
                    let d = s.path().join("locked");
                    eng(std::fs::create_dir(&d))?;
                    out = d.join("out.iso");
                }
            }
            what = format!("unwritable destination {k}");
        }
    }
    if dir.exists() {
        open_up(&dir)?;
        eng(std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o777)))?;
    }
    ctx.note(|| what.clone());
    ctx.state(hash_bytes(what.as_bytes()));
    let mode = *ctx.pick(&["n", "x"]);
    let before = if dir.exists() { listing(&dir)? } else { BTreeMap::new() };
    let r = py(ctx, &["R", &hx(&from.display().to_string()), &hx(&out.display().to_string()), mode, "s"])?;
    ensure!(!r.ok(), "{what}: rebuilding reports success");
    let after = if dir.exists() { listing(&dir)? } else { BTreeMap::new() };
    ensure!(before == after, "{what}: the source directory changed");
    ctx.observe(hash_bytes(what.as_bytes()));
    Ok(())
}
/// A destination that cannot grow beyond a limit.
fn h25_full(ctx: &Ctx) -> R {
    let k = *ctx.pick(&[0usize, 2, 3]);
    let src = Src::new(tree25(k));
    let s = Scratch::new("c25l")?;
    open_dir(s.path())?;
    let dir = s.path().join("src");
    eng(std::fs::create_dir(&dir))?;
    src.write(&dir)?;
    open_up(s.path())?;
    let want = library_image(&dir)?;
    let part = 0x50000usize;
    let mut lim: Vec<usize> = (part..want.len()).step_by(ctx.by_tier(0x8000, 0x1000)).collect();
    for at in [0x400, 0x40000, 0x4E000, 0x4E020, part + 0x2C0, part + 0x8000, part + 0x20000, want.len() / 2, want.len()] {
        lim.extend([at - 1, at, at + 1]);
    }
    lim.retain(|n| *n <= want.len());
    lim.sort();
    lim.dedup();
    let n = *ctx.pick(&lim);
    ctx.note(|| format!("tree {k}, image of {:#x} bytes limited to {n:#x}", want.len()));
    ctx.state(mix(k as u64, n as u64));
    ctx.nontrivial();
    let out = s.path().join("out.iso");
    py(ctx, &["L", &n.to_string()])?;
    let r = py(ctx, &["R", &hx(&dir.display().to_string()), &hx(&out.display().to_string()), "n", "s"])?;
    if r.ok() {
        let b = made(std::fs::read(&out))?;
        if let Some(d) = o::diff(&b, &want) {
            fail!("rebuilding reports success although the image could not be written: {d}");
        }
    } else {
        ensure!(n < want.len(), "rebuilding fails although the image fits: {}", r.show());
    }
    ctx.observe(r.ok() as u64);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    const USER: &str = "the interpreter runs as an unprivileged user inside a scratch directory";
    vec![
        Property {
            id: "C18",
            level: "model_checking",
            rule: "each execution extracts one hand-made image with the real Python extension and compares every file it leaves with the image's contents; a state is a distinct image and request, a transition one call into the extension (or into the reader, for rebuilt images)",
            bounds: "14 file sizes x 5 (quick) / 10 (thorough) start positions x 3 second sizes around buffer, block and group boundaries; 9 trees x 3 layouts x clean or dirty destination, each rebuilt; 4 shapes of tree x 16 sizes up to 250 levels and 5000 entries, every storable ASCII and 12 other characters at each end and inside of file and folder names, each rebuilt; 7 x 7 kinds of contents (zeros, ones, zeros in parts, equal files) x 4 sizes x 4 system files; all partition orders x all ordered subsets of sections x 3 contents; system files of many sizes and kinds; 4 partition offsets x 4 groups x 3 offsets in them around and beyond 4 GiB; files reaching beyond the data x 4 amounts; system files reaching beyond the data in 8 ways x 4 amounts, or of sizes that overflow 32 bits in 3 x 6 ways; each output blocked in 2 ways; a file size limit of the operating system at every size, half size and one less of 3 images' files",
            assumptions: &["images are made by the oracle, not by the repository's builder", USER],
            scenarios: vec![
                Scenario::new("sizes", h18_sizes),
                Scenario::new("trees", h18_trees),
                Scenario::new("large", h18_large),
                Scenario::new("contents", h18_contents),
                Scenario::new("sections", h18_sections),
                Scenario::new("system-files", h18_system),
                Scenario::new("incomplete", h18_incomplete),
                Scenario::new("beyond4GiB", h18_far),
                Scenario::new("incomplete-system", h18_system_beyond),
                Scenario::new("blocked", h18_blocked),
                Scenario::new("full", h18_full),
            ],
        },
        Property {
            id: "C19",
            level: "model_checking",
            rule: "each execution extracts one hand-made image with hostile names using the real Python extension and compares everything outside the destination before and after; a state is a distinct combination of names",
            bounds: "22 names (parent references of up to 5 levels, absolute paths into the scratch area, separators, dots, empty) alone and in all pairs, as file, folder and nested folder (4 shapes)",
            assumptions: &[USER],
            scenarios: vec![Scenario::new("names", h19)],
        },
        Property {
            id: "C20",
            level: "model_checking",
            rule: "each execution is one sequence of calls on the real Python extension followed by an extraction, compared with a model after every call; a state is a distinct model state, a transition one call",
            bounds: "all sequences of 5 (quick) / 6 (thorough) calls out of 8 on a one-partition image, 4 / 5 out of 10 on a two-partition image, 4 / 5 out of 11 on an image with two data partitions, filters that raise included; 40 proper and improper section names x 4 requests x 8 sets of prepared sections; 10 trees of up to 260 files, 30 levels deep, x each file x 5 patterns; up to 60 filters in 3 patterns on one or two sections, extracted twice",
            assumptions: &["a filter that raises does not answer true; if filtering raises then, what it removed is left open", USER],
            scenarios: vec![
                Scenario::new("one-partition", h20_one),
                Scenario::new("two-partitions", h20_two),
                Scenario::new("three-partitions", h20_three),
                Scenario::new("section-names", h20_names),
                Scenario::new("trees", h20_trees),
                Scenario::new("many", h20_many),
            ],
        },
        Property {
            id: "C25",
            level: "model_checking",
            rule: "each execution rebuilds source directories with the real Python extension and compares the image with what the library writes, with the directory's contents as the reader sees them and with a second extraction; a state is a distinct source, old destination and callback (or model state of the destinations), a transition one call into the extension or the reader",
            bounds: "10 trees of up to 1000 entries and 250 levels, with every storable ASCII character in names x 3 sets of system files x 5 former contents of the destination x callbacks that return or raise; all sequences of 3 (quick) / 4 (thorough) rebuilds of 3 complete and 1 incomplete source into 2 destinations; 8 required files missing, replaced by a folder or cut, 5 unusable sources, 3 unwritable destinations; a file size limit of the operating system at every block (quick) / every 4 KiB (thorough) of 3 images and around the fixed structures",
            assumptions: &["the library's own image is judged by C01-C04", USER],
            scenarios: vec![
                Scenario::new("rebuild", h25_rebuild),
                Scenario::new("history", h25_history),
                Scenario::new("failing", h25_failing),
                Scenario::new("full", h25_full),
            ],
        },
    ]
}
