//! C14: damaged and hostile images, tables and directories.
use crate::common::*;
use crate::dirs::{self, Scratch};
use disc_riider::{Fst, FstToBytes, WiiIsoReader};
use mclib::oracle::{self as o, put32, DataSpec, Node, PartSpec, GD};
use mclib::*;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::{Once, OnceLock};

/// Lengths in a hostile image must not drive allocations: keep the address
/// space well below what a 16 GiB length field could ask for.
fn small_memory() {
    static O: Once = Once::new();
    O.call_once(|| unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    });
}

/// Runs a library call on an input of `size` bytes: what it holds must not
/// exceed what an input of that size can justify.
fn bounded<T>(size: u64, what: &str, f: impl FnOnce() -> T) -> R<T> {
    let (r, most) = memory_of(f);
    let limit = (64 << 20) + 16 * size;
    ensure!(most <= limit, "{what} takes {most:#x} bytes of memory for an input of {size:#x} bytes");
    Ok(r)
}

// ---------------------------------------------------------------- tables

/// What a table of raw entries describes, or None if its nesting is broken.
/// Entries are (is directory, end or length).
fn describe(ents: &[(bool, u32)], i: &mut usize, end: usize) -> Option<Vec<Node>> {
    let mut v = vec![];
    while *i < end {
        let me = *i;
        let (dir, x) = ents[me];
        *i += 1;
        let name = vec![b'A' + me as u8];
        if dir {
            let e = x as usize;
            if e <= me || e > end {
                return None;
            }
            let kids = describe(ents, i, e)?;
            v.push(Node::Dir { name, kids });
        } else {
            v.push(Node::File { name, off: me as u64 * 0x40, len: x });
        }
    }
    Some(v)
}

fn h14_tables(ctx: &Ctx) -> R {
    small_memory();
    let n = 1 + ctx.choose(ctx.by_tier(5, 6));
    let mut ents: Vec<(bool, u32)> = vec![(true, n as u32)];
    for i in 1..n {
        let k = ctx.choose(n + 4);
        ents.push(match k {
            0 => (false, 0x100 + i as u32),
            k if k <= n + 2 => (true, k as u32 - 1),
            _ => (true, u32::MAX),
        });
    }
    let mut t = vec![];
    for (i, (dir, x)) in ents.iter().enumerate() {
        let name = if i == 0 { 0 } else { (i * 2 - 1) as u32 };
        t.extend((name | (*dir as u32) << 24).to_be_bytes());
        t.extend((if *dir { 0 } else { i as u32 * 0x10 }).to_be_bytes());
        t.extend(x.to_be_bytes());
    }
    t.push(0);
    for i in 1..n {
        t.extend([b'A' + i as u8, 0]);
    }
    // the root entry as it should be, or spoilt
    let root = ctx.choose(8);
    let mut must_fail = root > 0 && root < 7;
    match root {
        1 => t[0] = 0,
        2 => put32(&mut t, 4, 1),
        3 => put32(&mut t, 4, u32::MAX),
        4 => put32(&mut t, 8, 0),
        5 => put32(&mut t, 8, u32::MAX),
        6 => put32(&mut t, 8, 0x1000_0000),
        _ => {}
    }
    let at = if root == 7 { 0x33 } else { 0 };
    let mut buf = vec![0xEE; at];
    buf.extend(&t);
    ctx.note(|| format!("table {ents:?}, root variant {root}"));
    ctx.state(hash_bytes(&t));
    let want = describe(&ents, &mut 1, n);
    if want.is_none() {
        ctx.nontrivial();
        must_fail = true;
    }
    ctx.step();
    match bounded(buf.len() as u64, "reading the table", || Fst::read(&mut Cursor::new(&buf), at as u64))? {
        Err(e) => {
            ensure!(must_fail, "a proper table is refused: {e}");
            ctx.observe(1);
        }
        Ok(f) => {
            ensure!(!must_fail, "a broken table is accepted as [{}]", o::show_tree(&lib_tree(f.get_entries())));
            let got = lib_tree(f.get_entries());
            ensure!(Some(&got) == want.as_ref(), "table read as [{}] instead of [{}]", o::show_tree(&got), o::show_tree(want.as_deref().unwrap_or(&[])));
            ctx.observe(2);
        }
    }
    Ok(())
}

/// Arbitrary entry bytes (type bytes, name offsets): must end in a result.
fn h14_bytes(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let tree = vec![
        Node::File { name: b"one".to_vec(), off: 0x40, len: 5 },
        Node::Dir { name: b"dir".to_vec(), kids: vec![Node::File { name: b"two".to_vec(), off: 0x80, len: 6 }, Node::Dir { name: b"sub".to_vec(), kids: vec![] }] },
        Node::File { name: b"three".to_vec(), off: 0xC0, len: 7 },
    ];
    let mut t = o::encode_fst(&tree);
    let pos = ctx.choose(t.len());
    let val = ctx.choose(256) as u8;
    t[pos] = val;
    let cut = ctx.choose(2);
    if cut == 1 {
        t.truncate(pos);
    }
    ctx.note(|| format!("byte {pos} = {val:#04x}, truncated there: {}", cut == 1));
    if cut == 1 && val != 0 {
        return Err(Stop::Prune);
    }
    ctx.state(hash_bytes(&t));
    ctx.step();
    match bounded(t.len() as u64, "reading the table", || Fst::read(&mut Cursor::new(&t), 0))? {
        Err(_) => ctx.observe(1),
        Ok(f) => {
            // whatever was accepted can be walked, printed, serialized and dropped
            let tr = lib_tree(f.get_entries());
            f.print_tree();
            let _ = f.find_node_path("dir/two");
            ctx.step();
            if let Ok(b) = FstToBytes::try_from(f) {
                let mut c = Cursor::new(vec![]);
                let _ = b.write_to(&mut c);
            }
            ctx.observe(hash_bytes(o::show_tree(&tr).as_bytes()));
            // nothing is invented: with the name area intact, a strict parse agrees
            if let Ok((want, _)) = o::parse_fst(&t) {
                let legible = node_count(&want) < 100 && pos < 12 * 5;
                if legible && want.iter().all(ascii_only) {
                    ensure!(tr == want, "table with byte {pos} = {val:#04x} read as [{}] instead of [{}]", o::show_tree(&tr), o::show_tree(&want));
                }
            }
        }
    }
    Ok(())
}
fn node_count(v: &[Node]) -> usize {
    Node::count(v)
}
fn ascii_only(n: &Node) -> bool {
    n.name().iter().all(|b| *b < 0x80)
        && match n {
            Node::Dir { kids, .. } => kids.iter().all(ascii_only),
            _ => true,
        }
}

/// Tables of extreme depth and size.
fn h14_extreme(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let shape = ctx.choose(4);
    let n: usize = *ctx.pick(&[1usize, 100, 250, 511, 512, 513, 5000, 40_000, 300_000]);
    ctx.note(|| format!("shape {shape}, {n} nodes"));
    ctx.state(mix(shape as u64, n as u64));
    let mut t = vec![];
    let mut ent = |a: u32, b: u32, c: u32| {
        for w in [a, b, c] {
            t.extend(w.to_be_bytes());
        }
    };
    ent(0x0100_0000, 0, n as u32 + 1);
    for i in 0..n as u32 {
        match shape {
            // every directory contains the next one
            0 => ent(0x0100_0001, i, n as u32 + 1),
            // flat directories
            1 => ent(0x0100_0001, 0, i + 2),
            // a long chain with files at the bottom, half and half
            2 if i < n as u32 / 2 => ent(0x0100_0001, i, n as u32 + 1),
            // each directory claims to end where its parent began
            3 => ent(0x0100_0001, 0, i),
            _ => ent(1, 0x10, 4),
        }
    }
    t.extend(b"\0x\0");
    ctx.steps(2);
    // an ordinary thread's stack, whatever the engine's threads have
    let got: Result<(usize, usize), String> = std::thread::scope(|sc| {
        let t = &t;
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, move || {
                let (f, most) = memory_of(|| Fst::read(&mut Cursor::new(t), 0));
                if most > (64 << 20) + 16 * t.len() as u64 {
                    return Err(format!("memory {most:#x}"));
                }
                let f = f.map_err(|e| e.to_string().chars().take(80).collect::<String>())?;
                let (mut all, mut files) = (0, 0);
                f.callback_all_files::<std::io::Error, _>(&mut |_, node| {
                    all += 1;
                    files += node.is_file() as usize;
                    Ok(())
                })
                .map_err(|e| e.to_string())?;
                Ok((all, files))
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|_| Err("panic".into()))
    });
    match got {
        Err(e) if e == "panic" => fail!("reading the table panics"),
        Err(e) if e.starts_with("memory") => fail!("reading a table of {:#x} bytes takes {e} bytes", t.len()),
        Err(e) => {
            let depth = match shape {
                0 => n,
                2 => n / 2,
                _ => 1,
            };
            ensure!(shape == 3 || depth > 250, "a proper table of shape {shape} with {n} nodes is refused: {e}");
            ctx.observe(1);
        }
        Ok((all, files)) => {
            ensure!(shape != 3, "a table whose directories end before they begin is accepted");
            let want = if shape == 2 { n - n / 2 } else { 0 };
            ensure!(all == n && files == want, "{all} nodes and {files} files instead of {n} and {want}");
            ctx.observe(2);
        }
    }
    Ok(())
}

/// A source of any length that starts with `head` and goes on with one byte.
struct Endless {
    head: Vec<(u64, Vec<u8>)>,
    fill: u8,
    len: u64,
    pos: u64,
}
impl Read for Endless {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.len.saturating_sub(self.pos)).min(b.len() as u64) as usize;
        b[..n].fill(self.fill);
        for (at, h) in &self.head {
            let (from, to) = (self.pos.max(*at), (self.pos + n as u64).min(at + h.len() as u64));
            if from < to {
                b[(from - self.pos) as usize..(to - self.pos) as usize].copy_from_slice(&h[(from - at) as usize..(to - at) as usize]);
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Endless {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(d) => self.pos.checked_add_signed(d).ok_or(std::io::ErrorKind::InvalidInput)?,
            SeekFrom::End(d) => self.len.checked_add_signed(d).ok_or(std::io::ErrorKind::InvalidInput)?,
        };
        Ok(self.pos)
    }
}

/// Names of any bytes: those that mean something in Shift-JIS are returned as what
/// they mean, all others are refused.
fn h14_name_bytes(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let place = ctx.choose(6);
    let a = 1 + ctx.choose(255) as u8;
    let dir = ctx.flag();
    ctx.note(|| format!("names with byte {a:#04x}, place {place}, directory: {dir}"));
    ctx.state(mix(mix(place as u64, a as u64), dir as u64));
    let (mut good, mut bad) = (0, 0);
    for b in 0..=255u8 {
        let name: Vec<u8> = match place {
            0 => vec![a, b],
            1 => vec![b'n', a, b],
            2 => vec![a, b, b'n'],
            3 => [b"long name ".as_slice(), &[a, b], b" with an end"].concat(),
            // what looks like the start of some other encoding is not one
            4 => [[0xEF, 0xBB, 0xBF].as_slice(), &[a, b]].concat(),
            _ => [if dir { [0xFE, 0xFF] } else { [0xFF, 0xFE] }.as_slice(), &[a, b]].concat(),
        };
        let name: Vec<u8> = name.into_iter().take_while(|b| *b != 0).collect();
        let (mean, broken) = encoding_rs::SHIFT_JIS.decode_without_bom_handling(&name);
        let node = |name: Vec<u8>| if dir { Node::Dir { name, kids: vec![] } } else { Node::File { name, off: 0x40, len: 5 } };
        let t = o::encode_fst(&[Node::File { name: b"before".to_vec(), off: 0, len: 1 }, node(name.clone()), Node::File { name: b"behind".to_vec(), off: 0x80, len: 2 }]);
        ctx.step();
        match bounded(t.len() as u64, "reading the table", || Fst::read(&mut Cursor::new(&t), 0))? {
            Err(e) => {
                ensure!(broken, "a table with the name {mean:?} ({name:02x?}) is refused: {e}");
                bad += 1;
            }
            Ok(f) => {
                let got: Vec<&String> = f.get_entries().iter().map(|n| n.get_name()).collect();
                ensure!(!broken, "a name that means nothing ({name:02x?}) is returned as {got:?}");
                ensure!(got.len() == 3 && got[0] == "before" && got[2] == "behind" && *got[1] == mean, "the name {mean:?} ({name:02x?}) is returned as {got:?}");
                good += 1;
            }
        }
    }
    ctx.observe(mix(good, bad));
    Ok(())
}

/// Tables that use a long name again and again, or one that never ends:
/// what they cost must be bounded by their own size.
fn h14_names(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let nodes = *ctx.pick(&[1usize, 3, 300, 20_000, 300_000]);
    let name = *ctx.pick(&[1u64, 0x200, 0x10000, 0x40_0000, 0x2000_0000, 0x4_0000_0000]);
    let kind = ctx.choose(3);
    let ended = ctx.flag();
    ctx.note(|| format!("{nodes} nodes with the same name of {name:#x} bytes, terminated: {ended}, kind {kind}"));
    ctx.state(mix(mix(nodes as u64, name), (kind * 2 + ended as usize) as u64));
    let mut t = vec![];
    let mut ent = |a: u32, b: u32, c: u32| {
        for w in [a, b, c] {
            t.extend(w.to_be_bytes());
        }
    };
    ent(0x0100_0000, 0, nodes as u32 + 1);
    for i in 0..nodes as u32 {
        match kind {
            0 => ent(0, 0x10, 4),
            1 => ent(0x0100_0000, 0, i + 2),
            // each name starts a little later
            _ => ent((i as u64).min(name - 1).min(0xFF_FFFF) as u32, 0x10, 4),
        }
    }
    let at = t.len() as u64;
    let mut head = vec![(0, t)];
    if ended {
        head.push((at + name, vec![0]));
    }
    let mut f = Endless { head, fill: b'n', len: at + name + ended as u64, pos: 0 };
    ctx.step();
    // names take no more than a table can offer, however long the source is
    match bounded(at + name.min(1 << 24), "reading the table", || Fst::read(&mut f, 0))? {
        Err(_) => {
            // a table whose names take no more room than a table can offer is in order
            ensure!(!(ended && nodes as u64 * (name + 1) <= 0xFF_FFFF), "{nodes} nodes that share a name of {name:#x} bytes are refused");
            ctx.observe(1)
        }
        Ok(f) => {
            ensure!(ended, "a name without end is accepted");
            ensure!(f.get_entries().len() == nodes, "{} instead of {nodes} nodes", f.get_entries().len());
            for (i, n) in f.get_entries().iter().enumerate() {
                let want = name - if kind == 2 { (i as u64).min(name - 1).min(0xFF_FFFF) } else { 0 };
                ensure!(n.get_name().len() as u64 == want && n.get_name().bytes().all(|b| b == b'n'), "node {i} has a name of {:#x} instead of {want:#x} bytes", n.get_name().len());
            }
            ctx.observe(2)
        }
    }
    Ok(())
}

/// Partition tables that claim more than any disc has.
fn h14_parts(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let count = *ctx.pick(&[0u32, 1, 7, 7000, 0x2000, 0x10000, 0x100_0000, 0x1000_0000, 0x4000_0000, u32::MAX]);
    let groups = *ctx.pick(&[1usize, 2, 4]);
    let at = *ctx.pick(&[0u64, 0x40020, 0x50000, 1 << 32]);
    let len = *ctx.pick(&[0x60000u64, 1 << 30, 17 << 30]);
    ctx.note(|| format!("{groups} tables of {count:#x} entries each at {at:#x} in an image of {len:#x} bytes, all zero"));
    ctx.state(mix(mix(count as u64, at), mix(len, groups as u64)));
    let mut t = vec![];
    for _ in 0..groups {
        t.extend(count.to_be_bytes());
        t.extend(((at >> 2) as u32).to_be_bytes());
    }
    let f = Endless { head: vec![(0x40000, t)], fill: 0, len, pos: 0 };
    ctx.step();
    // the entries are there to be read, but no disc has that many
    match bounded(0x60000, "opening the image", || WiiIsoReader::open(f))? {
        Err(_) => {
            let fits = at + count as u64 * 8 <= len;
            // discs with a few partitions are in order wherever the table lies
            ensure!(!(fits && count <= 7), "{groups} tables of {count} entries are refused");
            ctx.observe(1)
        }
        Ok(rd) => {
            let n = rd.partitions().len();
            ensure!(n == count as usize * groups, "{n} partitions instead of {groups} times {count}");
            ctx.observe(2)
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- images

struct Base {
    spec: PartSpec,
    header: Vec<u8>,
}
fn base() -> &'static Base {
    static B: OnceLock<Base> = OnceLock::new();
    B.get_or_init(|| {
        let header = o::disc_header(b"Malformed", 5);
        let d = DataSpec {
            header: header.clone(),
            bi2: o::content(1, 0x2000).to_vec(),
            apploader: o::apploader(0x101, 0x20, 2),
            dol_off: 0x4000,
            dol: o::dol(0x323, 3, 3),
            fst_off: 0x6000,
            tree: vec![
                Node::File { name: b"a".to_vec(), off: 0x9000, len: 0x20 },
                Node::Dir { name: b"d".to_vec(), kids: vec![Node::File { name: b"b".to_vec(), off: 0x9040, len: 0x8000 }] },
            ],
            files: vec![],
            total: GD,
        };
        Base { spec: PartSpec::new(0, 0x50000, 9, d.build()), header }
    })
}
fn base_image() -> &'static Vec<u8> {
    static B: OnceLock<Vec<u8>> = OnceLock::new();
    B.get_or_init(|| o::image(&base().header, &o::region(5), &[base().spec.clone()]))
}

/// Everything a user can ask of an image. Returns a digest of how it went.
fn exercise(ctx: &Ctx, img: &[u8]) -> R<(u64, bool)> {
    let size = img.len() as u64;
    let mut d = 0u64;
    ctx.step();
    let mut rd = match bounded(size, "opening the image", || WiiIsoReader::open(Cursor::new(img)))? {
        Ok(r) => r,
        Err(_) => return Ok((1, false)),
    };
    let list = rd.partitions().to_vec();
    d = mix(d, list.len() as u64);
    let mut opened = false;
    for e in list.into_iter().take(4) {
        ctx.step();
        let mut pi = match bounded(size, "opening the partition", || rd.open_partition(e))? {
            Ok(p) => p,
            Err(_) => {
                d = mix(d, 2);
                continue;
            }
        };
        opened = true;
        ctx.steps(5);
        for r in [
            bounded(size, "reading the tmd", || pi.read_tmd(&mut rd))?.map(|t| ser(&t).len()).ok(),
            bounded(size, "reading the certificates", || pi.read_certificates(&mut rd))?.map(|t| ser(&t).len()).ok(),
            bounded(size, "reading the bi2", || pi.read_bi2(&mut rd))?.map(|t| t.len()).ok(),
            bounded(size, "reading the apploader", || pi.read_apploader(&mut rd))?.map(|t| t.len()).ok(),
            bounded(size, "reading the dol", || pi.read_dol(&mut rd))?.map(|t| t.len()).ok(),
        ] {
            d = mix(d, r.map_or(7, |x| x as u64 + 10));
        }
        let (fo, fs) = (*pi.get_encrypted_header().fst_off, *pi.get_encrypted_header().fst_sz);
        let mut buf = vec![];
        ctx.step();
        let r = bounded(size, "reading the file system table", || pi.get_crypto_reader(&mut rd).read_into_vec(fo, fs, &mut buf))?;
        d = mix(d, r.is_ok() as u64);
        let files: Vec<_> = node_files(&lib_tree(pi.get_fst().get_entries())).into_iter().take(6).collect();
        for (p, off, len) in files {
            ctx.steps(2);
            let r = bounded(size, "reading a file", || pi.get_crypto_reader(&mut rd).read_into_vec(off, len as u64, &mut buf))?;
            d = mix(d, r.is_ok() as u64 + 3);
            let p = p.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>().join("/");
            let r = match pi.open_file(&mut rd, &p) {
                Some(mut f) => {
                    let mut b = [0u8; 64];
                    let _ = f.seek(SeekFrom::End(-3));
                    let _ = f.read(&mut b);
                    let _ = f.seek(SeekFrom::Start(0));
                    f.read(&mut b).map(|n| n as u64).unwrap_or(99)
                }
                None => 100,
            };
            d = mix(d, r);
        }
        pi.get_fst().print_tree();
        ctx.steps(1);
        // and the scratch directory copy of the system files
        if ctx.worker < 64 {
            let s = Scratch::new("sys")?;
            let r = bounded(size, "extracting the system files", || pi.extract_system_files(s.path(), &mut rd))?;
            d = mix(d, r.is_ok() as u64 + 50);
        }
    }
    Ok((d, opened))
}

const EXTREME: [u32; 12] = [0, 1, 2, 3, 0x14, 0x0001_0000, 0x0100_0000, 0x3FFF_FFFF, 0x4000_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];

/// One word of an unencrypted structure replaced.
fn h14_plain(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let s = &base().spec;
    let areas: [(&str, u64, usize); 6] = [
        ("disc header", 0, 0x64),
        ("disc header end", 0x400, 0x40),
        ("partition table", 0x40000, 0x30),
        ("partition header", s.offset, 0x2C0),
        ("TMD", s.offset + s.tmd_off, s.tmd.len()),
        ("certificates", s.offset + s.cert_off, s.certs.len()),
    ];
    let (what, off, len) = *ctx.pick(&areas);
    let w = ctx.choose((len + 3) / 4);
    let v = *ctx.pick(&EXTREME);
    ctx.note(|| format!("{what} word {:#x} = {v:#x}", w * 4));
    ctx.state(mix(hash_bytes(what.as_bytes()), (w as u64) << 32 | v as u64));
    let mut img = base_image().clone();
    put32(&mut img, off as usize + w * 4, v);
    let (d, _) = exercise(ctx, &img)?;
    ctx.observe(d);
    Ok(())
}

/// The ticket's common key index must be one of the known ones.
fn h14_key(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let idx = ctx.choose(256);
    ctx.note(|| format!("common key index {idx}"));
    ctx.state(idx as u64);
    let mut img = base_image().clone();
    let at = base().spec.offset as usize + 0x1F1;
    let orig = img[at];
    img[at] = idx as u8;
    ctx.step();
    let Ok(mut rd) = WiiIsoReader::open(Cursor::new(&img)) else { fail!("image with an unusual ticket cannot even be opened") };
    let e = rd.partitions()[0].clone();
    ctx.step();
    let r = rd.open_partition(e);
    if idx >= 2 {
        ensure!(r.is_err(), "a ticket naming common key {idx} is accepted");
    } else if idx as u8 == orig {
        ensure!(r.is_ok(), "the unchanged image cannot be opened");
    }
    ctx.observe(r.is_ok() as u64);
    drop(r);
    // building with such a ticket
    let mut p = PartIn::new(0, 3, Def::new(vec![T::f("x", 1, 5)]));
    let mut t: disc_riider::structs::Ticket = parse(&p.ticket, "ticket")?;
    t.common_key_idx = idx as u8;
    let hdr: disc_riider::structs::DiscHeader = parse(&base().header, "disc header")?;
    let tmd: disc_riider::structs::TMD = parse(&p.tmd, "TMD")?;
    let certs: [disc_riider::structs::Certificate; 3] = parse(&p.certs, "certificates")?;
    let mut b = disc_riider::builder::WiiDiscBuilder::create(MemFile::new(), hdr, [0; 32]);
    ctx.step();
    let r = b.add_partition(ptype(0), t, tmd, certs, &mut p.def, &mut |_| {});
    ensure!(r.is_err() == (idx >= 2), "building with a ticket naming common key {idx}: {}", if r.is_ok() { "accepted" } else { "refused" });
    Ok(())
}

/// One word of the encrypted structures replaced (re-encrypted correctly).
fn h14_crypt(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let areas: [(&str, usize, usize); 6] = [
        ("partition header", 0, 0x24),
        ("partition header locations", 0x400, 0x40),
        ("apploader header", 0x2440, 0x20),
        ("DOL header", 0x4000, 0x100),
        ("file system table", 0x6000, 0x38),
        ("title", 0x20, 0x44),
    ];
    let (what, off, len) = *ctx.pick(&areas);
    let w = ctx.choose(len / 4);
    let v = *ctx.pick(&EXTREME);
    // the declared size: as stored, or the largest possible
    let huge = ctx.choose(2) == 1;
    let second = if what == "apploader header" && w == 5 { ctx.choose(3) } else { 0 };
    ctx.note(|| format!("{what} word {:#x} = {v:#x}, declared size huge: {huge}, second word {second}", w * 4));
    ctx.state(mix(hash_bytes(what.as_bytes()), (w as u64) << 34 | (v as u64) << 1 | huge as u64));
    let mut s = base().spec.clone();
    put32(&mut s.data, off + w * 4, v);
    if second > 0 {
        put32(&mut s.data, 0x2440 + 0x18, [0, 0x7FFF_FFE0, 0xFFFF_FFFF][second]);
    }
    if huge {
        s.data_size = 0x3_FFFF_FFFC;
    }
    let img = o::image(&base().header, &o::region(5), &[s]);
    let (d, _) = exercise(ctx, &img)?;
    ctx.observe(d);
    Ok(())
}

/// Truncated images.
fn h14_trunc(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let s = &base().spec;
    let full = base_image();
    let p = s.offset as usize;
    let marks = [
        0, 0x18, 0x20, 0x60, 0x400, 0x440, 0x40000, 0x40008, 0x40020, 0x40028, 0x4E000, 0x4E020, p, p + 4, p + 0x1BF, p + 0x2A4, p + 0x2C0, p + 0x2C0 + 0x1E4,
        p + 0x2C0 + s.tmd.len(), p + 0x4E0, p + 0x4E0 + s.certs.len(), p + 0x8000, p + 0x20000, p + 0x20000 + 0x8000, p + 0x20000 + 0x10000, full.len(),
    ];
    let m = *ctx.pick(&marks);
    let delta = *ctx.pick(&[-1i64, 0, 1, 4]);
    let n = (m as i64 + delta).clamp(0, full.len() as i64) as usize;
    ctx.note(|| format!("image cut to {n:#x} bytes"));
    ctx.state(n as u64);
    let (d, opened) = exercise(ctx, &full[..n])?;
    ensure!(opened == (n == full.len()), "an image cut to {n:#x} of {:#x} bytes: partition opened: {opened}", full.len());
    ctx.observe(d);
    Ok(())
}

// ---------------------------------------------------------------- directories

fn h14_dirs(ctx: &Ctx) -> R {
    small_memory();
    ctx.nontrivial();
    let d = dirs::Src::standard();
    let s = Scratch::new("mal")?;
    d.write(s.path())?;
    let req = dirs::REQUIRED;
    let which = ctx.choose(req.len() + 6);
    let what;
    let mut must_fail = false;
    if which < req.len() {
        let p = s.path().join(req[which]);
        let orig = std::fs::read(&p).map_err(|e| Stop::Engine(e.to_string()))?;
        let k = ctx.choose(9);
        what = format!("{} damaged in way {k}", req[which]);
        let put = |b: &[u8]| std::fs::write(&p, b).map_err(|e| Stop::Engine(e.to_string()));
        match k {
            0 => put(&[])?,
            1 => put(&orig[..orig.len() / 2])?,
            2 => put(&orig[..orig.len() - 1])?,
            3 => put(&vec![0xFF; orig.len()])?,
            4 => put(&vec![0; orig.len()])?,
            5 => put(&[orig.as_slice(), &[1, 2, 3]].concat())?,
            6 => {
                std::fs::remove_file(&p).map_err(|e| Stop::Engine(e.to_string()))?;
                std::fs::create_dir(&p).map_err(|e| Stop::Engine(e.to_string()))?;
                must_fail = true;
            }
            7 => {
                // a byte of the ticket or TMD that counts things
                let mut b = orig.clone();
                if req[which].ends_with("ticket.bin") {
                    b[0x1F1] = 2;
                    must_fail = true;
                } else if req[which].ends_with("tmd.bin") {
                    b[0x1DE..0x1E0].fill(0);
                    must_fail = true;
                } else {
                    return Err(Stop::Prune);
                }
                put(&b)?
            }
            _ => {
                if !req[which].ends_with("tmd.bin") {
                    return Err(Stop::Prune);
                }
                let mut b = orig.clone();
                b[0x1DE..0x1E0].fill(0xFF);
                must_fail = true;
                put(&b)?
            }
        }
    } else {
        let files = s.path().join("DATA/files");
        let k = which - req.len();
        what = format!("files folder damaged in way {k}");
        let io = |r: std::io::Result<()>| r.map_err(|e| Stop::Engine(e.to_string()));
        match k {
            0 => {
                io(std::fs::remove_dir_all(&files))?;
                must_fail = true;
            }
            1 => {
                io(std::fs::remove_dir_all(&files))?;
                io(std::fs::write(&files, b"x"))?;
                must_fail = true;
            }
            2 => {
                io(std::os::unix::fs::symlink("nowhere", files.join("dangling")))?;
                must_fail = true;
            }
            3 => {
                io(std::os::unix::fs::symlink(".", files.join("loop")))?;
                must_fail = true;
            }
            4 => {
                let c = std::ffi::CString::new(files.join("fifo").to_string_lossy().into_owned()).unwrap();
                if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
                    return Err(Stop::Engine("mkfifo".into()));
                }
                must_fail = true;
            }
            _ => {
                let mut p = files.clone();
                for i in 0..120 {
                    p.push(format!("level{i}"));
                }
                io(std::fs::create_dir_all(&p))?;
                io(std::fs::write(p.join("deep"), b"deep"))?;
            }
        }
    }
    ctx.note(|| what.clone());
    ctx.state(hash_bytes(what.as_bytes()));
    let mut dest = MemFile::new();
    ctx.step();
    let r = bounded(8 << 20, "building the image", || disc_riider::builder::build_from_directory(s.path(), &mut dest, &mut |_| {}))?;
    ensure!(!must_fail || r.is_err(), "building succeeds with {what}");
    ctx.observe(r.is_ok() as u64);
    if r.is_ok() {
        exercise(ctx, &dest.data)?;
    }
    Ok(())
}

/// Unoptimized code on a thread as programs and tests start them.
fn h14_stack(ctx: &Ctx) -> R {
    ctx.nontrivial();
    const OPS: [&str; 7] = [
        "reading an image",
        "extracting system files",
        "building a directory",
        "building a directory nested as deep as paths allow",
        "copying an image",
        "using a table with 250 nested directories",
        "reading a table with 200000 nested directories",
    ];
    let op = ctx.choose(OPS.len());
    let kib = *ctx.pick(&[2048usize, 8192]);
    ctx.note(|| format!("{} on a stack of {kib} KiB", OPS[op]));
    ctx.state((op * 10000 + kib) as u64);
    let s = Scratch::new("stack")?;
    let t = dirs::eng(std::env::current_exe())?;
    let Some(t) = t.parent().and_then(|p| p.parent()).map(|p| p.join("debug/mc_stack")) else { return Err(Stop::Engine("where is mc_stack".into())) };
    ctx.step();
    let out = dirs::eng(dirs::quiet(|| std::process::Command::new(t).arg(op.to_string()).arg(kib.to_string()).arg(s.path()).output()))?;
    ensure!(
        out.status.success(),
        "{} on a stack of {kib} KiB ends with {}: {} {}",
        OPS[op],
        out.status,
        String::from_utf8_lossy(&out.stdout).lines().last().unwrap_or(""),
        String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or("")
    );
    ctx.observe(op as u64);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C14",
        level: "model_checking",
        rule: "each execution feeds one damaged table, image or directory to the real code and uses everything the API offers on it; a state is a distinct input, a transition one library call; crashes, hangs and aborts of the process are detected from outside",
        bounds: "all tables of up to 5 (quick) / 6 (thorough) entries over file / directory with every end index, 7 root variants; every byte value at every position of a 5-entry table; all names with 2 arbitrary bytes at 4 places and behind 3 byte order marks; nesting and width up to 300000; up to 300000 nodes that share a name of up to 16 GiB; up to 4 partition tables of up to 2^32-1 entries; every word of every plain and encrypted structure x 12 extreme values x declared size; all 256 common key indexes; 26 truncation points +-; every required file of a directory x 9 kinds of damage, 6 kinds of damaged file trees; every library call held to 64 MiB plus 16 times the input's size (counted by the allocator) in an address space of 6 GiB; seven uses of the library compiled without optimization on threads with 2 and 8 MiB stacks",
        assumptions: &["a table with directories nested more than 250 deep may be refused"],
        scenarios: vec![
            Scenario::new("tables", h14_tables),
            Scenario::new("bytes", h14_bytes),
            Scenario::new("extreme", h14_extreme).workers(4),
            Scenario::new("name-bytes", h14_name_bytes),
            Scenario::new("names", h14_names).workers(2),
            Scenario::new("partition-table", h14_parts).workers(1),
            Scenario::new("key", h14_key),
            Scenario::new("plain", h14_plain),
            Scenario::new("crypt", h14_crypt),
            Scenario::new("truncated", h14_trunc),
            Scenario::new("directories", h14_dirs),
            Scenario::new("stack", h14_stack),
        ],
    }]
}
