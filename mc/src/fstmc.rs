//! C06 (serialization), C07 (names), C08 (editing), C09 (traversal).
use crate::common::lib_tree;
use disc_riider::{Fst, FstNode, FstToBytes};
use mclib::oracle::{self as o, Node};
use mclib::*;
use std::io::Cursor;

// ---------------------------------------------------------------- shapes

/// All ordered forests with at most `left` nodes; leaves are files or empty directories.
pub fn shape(ctx: &Ctx, left: &mut usize, depth: usize) -> Vec<FstNode> {
    let mut v = Vec::new();
    while *left > 0 {
        match ctx.choose(3) {
            0 => break,
            1 => {
                *left -= 1;
                v.push(FstNode::File { name: String::new(), offset: 0, length: 0 });
            }
            _ => {
                *left -= 1;
                let files = if depth > 0 { shape(ctx, left, depth - 1) } else { vec![] };
                v.push(FstNode::Directory { name: String::new(), files });
            }
        }
    }
    v
}
/// Calls `f` with (running number, depth, node) in preorder.
fn each(v: &mut [FstNode], depth: usize, n: &mut usize, f: &mut dyn FnMut(usize, usize, &mut FstNode)) {
    for x in v {
        let i = *n;
        *n += 1;
        f(i, depth, x);
        if let FstNode::Directory { files, .. } = x {
            each(files, depth + 1, n, f);
        }
    }
}
fn set_name(n: &mut FstNode, s: String) {
    match n {
        FstNode::File { name, .. } | FstNode::Directory { name, .. } => *name = s,
    }
}
fn to_fst(v: Vec<FstNode>) -> Fst {
    let mut f = Fst::new();
    *f.get_entries_mut() = v;
    f
}
fn count(v: &[FstNode]) -> usize {
    v.iter().map(|n| 1 + if let FstNode::Directory { files, .. } = n { count(files) } else { 0 }).sum()
}
fn count_files(v: &[FstNode]) -> usize {
    v.iter().map(|n| if let FstNode::Directory { files, .. } = n { count_files(files) } else { 1 }).sum()
}
fn show(v: &[FstNode]) -> String {
    let s = o::show_tree(&lib_tree(&v[..v.len().min(12)]));
    s.chars().take(400).collect()
}

/// Names of the oracle tree come from the stored bytes; decode ASCII/known ones.
fn expect_nodes(v: &[FstNode], enc: &dyn Fn(&str) -> Vec<u8>) -> Vec<Node> {
    v.iter()
        .map(|n| match n {
            FstNode::File { name, offset, length } => Node::File { name: enc(name), off: *offset, len: *length },
            FstNode::Directory { name, files } => Node::Dir { name: enc(name), kids: expect_nodes(files, enc) },
        })
        .collect()
}
fn sjis(s: &str) -> Vec<u8> {
    encoding_rs::SHIFT_JIS.encode(s).0.to_vec()
}

/// Serialize at `at`, judge the stored bytes, read back.
fn roundtrip(ctx: &Ctx, tree: &[FstNode], at: usize, tail: usize) -> R {
    ctx.steps(3);
    let tb = match FstToBytes::try_from(to_fst(tree.to_vec())) {
        Ok(t) => t,
        Err(e) => fail!("serializable tree refused: {e} [{}]", show(tree)),
    };
    let mut buf = vec![0xA5u8; at];
    let mut cur = Cursor::new(&mut buf);
    cur.set_position(at as u64);
    if let Err(e) = tb.write_to(&mut cur) {
        fail!("writing the table failed: {e}");
    }
    ensure!(buf[..at].iter().all(|b| *b == 0xA5), "bytes before the table were touched");
    let written = buf.len() - at;
    let (nodes, used) = match o::parse_fst(&buf[at..]) {
        Ok(x) => x,
        Err(e) => fail!("stored table is not well formed: {e} [{}]", show(tree)),
    };
    ensure!(used <= written, "names lie outside the table");
    let want = expect_nodes(tree, &sjis);
    if nodes != want {
        fail!("stored tree is [{}], supplied [{}]", o::show_tree(&nodes[..nodes.len().min(12)]), show(tree));
    }
    ctx.observe(written as u64);
    ctx.observe_bytes(&buf[at..]);
    buf.extend(std::iter::repeat(0xA5).take(tail));
    let mut cur = Cursor::new(&buf);
    cur.set_position((at / 2) as u64);
    match Fst::read(&mut cur, at as u64) {
        Err(e) => fail!("reading the table back failed: {e} [{}]", show(tree)),
        Ok(f) => {
            if f.get_entries() != &tree.to_vec() {
                fail!("read back [{}], supplied [{}]", show(f.get_entries()), show(tree));
            }
        }
    }
    Ok(())
}

fn h06_trees(ctx: &Ctx) -> R {
    let mut left = ctx.by_tier(8, 10);
    let mut t = shape(ctx, &mut left, 9);
    let at = [0usize, 3, 0x40][count(&t) % 3];
    let mut n = 0;
    each(&mut t, 0, &mut n, &mut |i, d, x| {
        set_name(x, format!("{}n{i}{}", if i % 2 == 0 { "A" } else { "b" }, "x".repeat((i * 5 + d) % 9)));
        if let FstNode::File { offset, length, .. } = x {
            *offset = (i as u64 * 0x1234_5678 + 4) & !3;
            *length = 0x0102_0304u32.wrapping_mul(i as u32 + 1);
        }
    });
    if n > 1 {
        ctx.nontrivial();
    }
    ctx.note(|| show(&t));
    ctx.state(hash_bytes(show(&t).as_bytes()));
    roundtrip(ctx, &t, at, n % 5)
}

/// Field values: every combination of extreme offsets and lengths on small trees.
fn h06_fields(ctx: &Ctx) -> R {
    ctx.nontrivial();
    const OFF: [u64; 10] = [0, 4, 0xFFFC, 0x1_0000, 0x3FFF_FFFC, 0x7FFF_FFFC, 0x8000_0000, 0xFFFF_FFFC, 0x1_0000_0000, 0x3_FFFF_FFFC];
    const LEN: [u32; 7] = [0, 1, 0xFF, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, u32::MAX];
    let k = ctx.choose(3);
    let f = |nm: &str| FstNode::File { name: nm.into(), offset: *ctx.pick(&OFF), length: *ctx.pick(&LEN) };
    let t = match k {
        0 => vec![f("one")],
        1 => vec![f("one"), FstNode::Directory { name: "d".into(), files: vec![f("two")] }],
        _ => vec![FstNode::Directory { name: "d".into(), files: vec![f("x")] }, f("x")],
    };
    ctx.state(hash_bytes(show(&t).as_bytes()));
    ctx.note(|| show(&t));
    roundtrip(ctx, &t, *ctx.pick(&[0usize, 0x1F]), 0)
}

/// Names of many kinds in all positions of a small tree.
fn h06_names(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let names: Vec<String> = vec![
        "a".into(),
        "".into(),
        "A b.c-d_e~(1)".into(),
        "..".into(),
        "x".repeat(255),
        "ゼルダ".into(),
        "ｾﾞﾙﾀﾞ".into(),
        "表ソ能十".into(), // trailing byte 0x5C
        "ぁあいうー".into(),
        "Ωя".into(),
        "\u{1}\u{7f}".into(),
        "y".repeat(5000),
    ];
    let n = |c: &Ctx| c.pick(&names).clone();
    let t = vec![
        FstNode::Directory {
            name: n(ctx),
            files: vec![FstNode::Directory { name: n(ctx), files: vec![] }, FstNode::File { name: n(ctx), offset: 8, length: 9 }],
        },
        FstNode::File { name: "end".into(), offset: 4, length: 2 },
    ];
    ctx.state(hash_bytes(show(&t).as_bytes()));
    ctx.note(|| show(&t));
    roundtrip(ctx, &t, 0, 0)
}

/// Large tables: wide, deep, many directories, string area beyond 64 KiB / 1 MiB.
fn h06_large(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let file = |i: usize, w: usize| FstNode::File {
        name: format!("{i:0w$}"),
        offset: (i as u64 * 64) & 0x3_FFFF_FFFC,
        length: i as u32,
    };
    let sizes: &[usize] = if ctx.thorough() { &[255, 256, 257, 4000, 65535, 65536, 70_000, 200_000, 500_000] } else { &[255, 256, 257, 4000, 65536, 70_000] };
    let kind = ctx.choose(6);
    let t: Vec<FstNode> = match kind {
        0 => (0..*ctx.pick(sizes)).map(|i| file(i, 6)).collect(),
        1 => (0..*ctx.pick(sizes)).map(|i| FstNode::Directory { name: format!("d{i}"), files: vec![] }).collect(),
        2 => (0..*ctx.pick(&sizes[..4]))
            .map(|i| FstNode::Directory { name: format!("dir{i}"), files: (0..8).map(|j| file(i + j, 20)).collect() })
            .collect(),
        3 => {
            // deep nesting with siblings before and after
            let mut t = vec![file(1, 3)];
            for i in 0..*ctx.pick(&[10usize, 100, 250]) {
                t = vec![file(i, 4), FstNode::Directory { name: format!("d{i}"), files: t }, file(i + 1, 5)];
            }
            t
        }
        // names areas of up to 12 MiB
        4 => {
            let (n, w) = *ctx.pick(&[(300usize, 300), (4000, 300), (40_000, 250), (50_000, 255), (180, 65_000)]);
            (0..n).map(|i| file(i, w)).collect()
        }
        _ => {
            // directories inside each other behind many files
            let mut t: Vec<_> = (0..*ctx.pick(sizes)).map(|i| file(i, 6)).collect();
            t.push(FstNode::Directory {
                name: "x".into(),
                files: vec![FstNode::Directory { name: "y".into(), files: vec![file(1, 2), FstNode::Directory { name: "z".into(), files: vec![file(2, 2)] }] }, file(3, 2)],
            });
            t.push(FstNode::Directory { name: "xx".into(), files: vec![FstNode::Directory { name: "y".into(), files: vec![] }] });
            t
        }
    };
    ctx.state(mix(kind as u64, count(&t) as u64));
    ctx.note(|| format!("kind {kind}, {} nodes", count(&t)));
    roundtrip(ctx, &t, 0x20, 4)
}

// ---------------------------------------------------------------- C07

fn name_case(ctx: &Ctx, name: &str, dir: bool) -> R<bool> {
    ctx.step();
    let leaf = FstNode::File { name: "zz".into(), offset: 0, length: 0 };
    let t = if dir {
        vec![FstNode::Directory { name: name.into(), files: vec![leaf.clone()] }, leaf]
    } else {
        vec![FstNode::File { name: name.into(), offset: 4, length: 7 }, leaf]
    };
    let tb = match FstToBytes::try_from(to_fst(t.clone())) {
        Ok(t) => t,
        Err(_) => {
            ensure!(!(name.chars().all(|c| (' '..='}').contains(&c))), "plain ASCII name {name:?} is refused");
            return Ok(false);
        }
    };
    let mut buf = Vec::new();
    if let Err(e) = tb.write_to(&mut Cursor::new(&mut buf)) {
        fail!("name {name:?}: write failed: {e}");
    }
    match Fst::read(&mut Cursor::new(&buf), 0) {
        Err(e) => fail!("name {name:?} was accepted but the table cannot be read back: {e}"),
        Ok(f) => {
            if f.get_entries() != &t {
                let got: Vec<&String> = f.get_entries().iter().map(|n| n.get_name()).collect();
                fail!("name {name:?} was accepted but reads back as {got:?}");
            }
        }
    }
    Ok(true)
}

fn h07_scalars(ctx: &Ctx) -> R {
    let block = ctx.choose(0x1100);
    let ctxk = ctx.choose(ctx.by_tier(4, 6));
    let mut ok = 0u64;
    for i in 0..256u32 {
        let Some(c) = char::from_u32(block as u32 * 256 + i) else { continue };
        let name = match ctxk {
            0 => c.to_string(),
            1 => format!("a{c}b"),
            2 => format!("{c}{c}"),
            3 => format!("表{c}"),
            4 => format!("{c}表.bin"),
            _ => format!("ｱ{c}ｱ"),
        };
        if name_case(ctx, &name, ctxk == 1)? {
            ok += 1;
        }
    }
    ctx.observe(ok);
    ctx.state(block as u64);
    if ok > 0 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("U+{:04X}.. context {ctxk}: {ok} of 256 names accepted", block * 256));
    Ok(())
}

const REPS: &[char] = &[
    'a', 'Z', '0', ' ', '.', '/', '\\', '~', '\u{0}', '\u{1}', '\u{7f}', '\u{80}', '\u{a0}', '\u{a5}', '\u{203e}', '\u{2212}',
    '\u{ff0d}', '\u{301c}', '\u{ff5e}', '\u{2225}', '\u{2016}', '\u{ffe3}', '\u{ff61}', 'ｱ', 'ﾞ', '\u{3099}', 'が', '表', 'ソ',
    '能', '亜', '\u{e000}', '\u{e757}', '\u{f8f0}', '\u{fffd}', '\u{1f600}', '\u{10ffff}', 'é', 'Ω', 'я', '①', 'Ⅰ', 'ⅰ', '￢', '∵', '㈱',
    '\u{5c}', '\u{ff3c}', '\u{ffe5}', '髙', '﨑', 'ı', '\u{feff}',
];
fn h07_strings(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let n = ctx.by_tier(2, 3);
    let mut s = String::new();
    for _ in 0..n {
        s.push(*ctx.pick(REPS));
    }
    // last position looped here to keep executions coarse
    let mut ok = 0;
    for c in REPS {
        let name = format!("{s}{c}");
        if name_case(ctx, &name, false)? {
            ok += 1;
        }
    }
    ctx.observe(ok);
    ctx.state(hash_bytes(s.as_bytes()));
    ctx.note(|| format!("{s:?} + each of {} characters: {ok} accepted", REPS.len()));
    Ok(())
}
/// Very long names, and the empty one.
fn h07_long(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let c = *ctx.pick(&['a', '表', 'ｱ', '¥', 'é']);
    let n = *ctx.pick(&[0usize, 1, 2, 63, 64, 127, 128, 255, 256, 257, 1000, 4095, 4096, 65535, 65536, 1 << 20]);
    let name: String = std::iter::repeat(c).take(n).collect();
    let ok = name_case(ctx, &name, ctx.flag())?;
    ctx.observe(ok as u64);
    ctx.state(mix(n as u64, c as u64));
    ctx.note(|| format!("{n} times {c:?}: accepted {ok}"));
    Ok(())
}

// ---------------------------------------------------------------- C08

fn low(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b.to_ascii_lowercase()).collect()
}
fn kids_mut(n: &mut FstNode) -> Option<&mut Vec<FstNode>> {
    match n {
        FstNode::Directory { files, .. } => Some(files),
        _ => None,
    }
}
/// Reference: add.
fn m_add(tree: &mut Vec<FstNode>, path: &[&str], node: FstNode) -> Result<Option<FstNode>, ()> {
    if let Some((head, rest)) = path.split_first() {
        if let Some(n) = tree.iter_mut().find(|n| low(n.get_name()) == low(head)) {
            return match kids_mut(n) {
                Some(k) => m_add(k, rest, node),
                None => Err(()),
            };
        }
        let mut files = vec![];
        let r = m_add(&mut files, rest, node);
        tree.push(FstNode::Directory { name: head.to_string(), files });
        tree.sort_by_key(|n| low(n.get_name()));
        return r;
    }
    if let Some(n) = tree.iter_mut().find(|n| low(n.get_name()) == low(node.get_name())) {
        return Ok(Some(std::mem::replace(n, node)));
    }
    tree.push(node);
    tree.sort_by_key(|n| low(n.get_name()));
    Ok(None)
}
fn m_find<'a>(tree: &'a [FstNode], path: &[&str]) -> Option<&'a FstNode> {
    let (head, rest) = path.split_first()?;
    let n = tree.iter().find(|n| n.get_name() == head)?;
    if rest.is_empty() {
        return Some(n);
    }
    match n {
        FstNode::Directory { files, .. } => m_find(files, rest),
        _ => None,
    }
}
fn m_remove(tree: &mut Vec<FstNode>, path: &[&str]) -> Option<FstNode> {
    let (head, rest) = path.split_first()?;
    let i = tree.iter().position(|n| n.get_name() == head)?;
    if rest.is_empty() {
        return Some(tree.remove(i));
    }
    m_remove(kids_mut(&mut tree[i])?, rest)
}

const NAMES: [&str; 8] = ["a", "A", "b", "_", "aa", "Z", "Ä", "["];

/// Every ordered tree with up to `left` nodes over the names (siblings strictly
/// increasing in lower case).
fn gen_ordered(ctx: &Ctx, names: &[&str], left: &mut usize, depth: usize) -> Vec<FstNode> {
    let mut sorted: Vec<&str> = names.to_vec();
    sorted.sort_by_key(|s| (low(s), s.to_string()));
    let mut v: Vec<FstNode> = Vec::new();
    for s in sorted {
        if *left == 0 {
            break;
        }
        if v.last().map_or(false, |l| low(l.get_name()) == low(s)) {
            continue;
        }
        match ctx.choose(3) {
            0 => {}
            1 => {
                *left -= 1;
                v.push(FstNode::File { name: s.into(), offset: 4 * *left as u64, length: 1 + *left as u32 });
            }
            _ => {
                *left -= 1;
                let files = if depth > 0 { gen_ordered(ctx, names, left, depth - 1) } else { vec![] };
                v.push(FstNode::Directory { name: s.into(), files });
            }
        }
    }
    v
}

fn fmt_path(p: &[&str], style: usize) -> String {
    match style {
        0 => p.join("/"),
        1 => format!("/{}", p.join("/")),
        2 => format!("{}/", p.join("//")),
        _ => format!("//{}//", p.join("/")),
    }
}

/// All single operations on one tree, compared with the reference.
fn all_ops(ctx: &Ctx, tree: &[FstNode], names: &[&str], maxlen: usize, deep: bool) -> R {
    let base = to_fst(tree.to_vec());
    let mut paths: Vec<Vec<&str>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..maxlen {
        let to = paths.len();
        for i in from..to {
            for n in names {
                let mut p = paths[i].clone();
                p.push(n);
                paths.push(p);
            }
        }
        from = to;
    }
    let mut n = 0u64;
    for (pi, p) in paths.iter().enumerate() {
        let style = pi % 4;
        let ps = fmt_path(p, style);
        // find, both flavours
        let want = m_find(tree, p);
        ensure!(base.find_node_path(&ps) == want, "find {ps:?} in [{}] gives {:?}, expected {want:?}", show(tree), base.find_node_path(&ps));
        ensure!(base.find_node_iter(p.iter().copied()) == want, "find_iter {p:?} in [{}] disagrees", show(tree));
        let mut f = base.clone();
        ensure!(f.find_node_path_mut(&ps).map(|n| n.clone()) == want.cloned(), "find_mut {ps:?} in [{}] disagrees", show(tree));
        ensure!(f.get_entries() == &tree.to_vec(), "find_mut changed the tree");
        // remove
        let mut f = base.clone();
        let mut m = tree.to_vec();
        let want = m_remove(&mut m, p);
        let got = if pi % 2 == 0 { f.remove_node_path(&ps) } else { f.remove_node_iter(p.iter().copied()) };
        ensure!(got == want, "remove {ps:?} from [{}] returns {got:?}, expected {want:?}", show(tree));
        ensure!(f.get_entries() == &m, "remove {ps:?} from [{}] leaves [{}]", show(tree), show(f.get_entries()));
        n += 4;
        if p.len() >= maxlen && !deep {
            continue;
        }
        for (ni, name) in names.iter().enumerate() {
            for kind in 0..2 {
                let node = if kind == 0 {
                    FstNode::File { name: name.to_string(), offset: 0x40, length: 99 }
                } else {
                    FstNode::Directory { name: name.to_string(), files: vec![FstNode::create_file("inner".into())] }
                };
                let mut f = base.clone();
                let mut m = tree.to_vec();
                let want = m_add(&mut m, p, node.clone());
                if want.is_err() {
                    m = tree.to_vec();
                }
                let got = if (pi + ni) % 2 == 0 {
                    f.add_node_path(&ps, node)
                } else {
                    f.add_node_iter(p.iter().copied(), node)
                };
                ensure!(got == want, "add {name:?} at {ps:?} to [{}] returns {got:?}, expected {want:?}", show(tree));
                ensure!(
                    f.get_entries() == &m,
                    "add {name:?} at {ps:?} to [{}] gives [{}], expected [{}]",
                    show(tree),
                    show(f.get_entries()),
                    show(&m)
                );
                n += 1;
            }
        }
    }
    ctx.steps(n);
    Ok(())
}
fn h08_ops(ctx: &Ctx) -> R {
    let mut left = ctx.by_tier(4, 5);
    let t = gen_ordered(ctx, &NAMES, &mut left, 2);
    ctx.state(hash_bytes(show(&t).as_bytes()));
    ctx.observe_str(&show(&t));
    ctx.note(|| show(&t));
    if count(&t) > 1 {
        ctx.nontrivial();
    }
    all_ops(ctx, &t, &NAMES, 2, true)
}
fn h08_deep(ctx: &Ctx) -> R {
    const N: [&str; 3] = ["a", "A", "b"];
    let mut left = ctx.by_tier(6, 7);
    let t = gen_ordered(ctx, &N, &mut left, 3);
    ctx.state(hash_bytes(show(&t).as_bytes()));
    ctx.observe_str(&show(&t));
    ctx.note(|| show(&t));
    if count(&t) > 1 {
        ctx.nontrivial();
    }
    all_ops(ctx, &t, &N, 3, ctx.thorough())
}
/// Wide levels (binary search): all subsets of a longer name list, every insertion.
fn h08_wide(ctx: &Ctx) -> R {
    ctx.nontrivial();
    const N: [&str; 10] = ["_", "a", "AA", "ab", "B", "ba", "c0", "C_", "z", "é"];
    let mask = ctx.choose(1 << N.len());
    let mut t: Vec<FstNode> = (0..N.len())
        .filter(|i| mask >> i & 1 == 1)
        .map(|i| if i % 3 == 0 { FstNode::create_dir(N[i].into()) } else { FstNode::create_file(N[i].into()) })
        .collect();
    t.sort_by_key(|n| low(n.get_name()));
    ctx.state(mask as u64);
    ctx.observe(mask as u64);
    ctx.note(|| show(&t));
    all_ops(ctx, &t, &["_", "A", "aa", "AB", "b", "Ba", "C0", "c_", "Z", "é", "^", "a0"], 1, true)
}
/// Names that only differ in or behind control characters.
fn h08_odd(ctx: &Ctx) -> R {
    ctx.nontrivial();
    const N: [&str; 9] = ["\0", "\0\0", "\u{1}", "A", "a\0", "A\0b", "a\u{1}", "a ", "\u{7f}"];
    let mask = ctx.choose(1 << N.len());
    let mut t: Vec<FstNode> = (0..N.len())
        .filter(|i| mask >> i & 1 == 1)
        .map(|i| if i % 3 == 0 { FstNode::create_dir(N[i].into()) } else { FstNode::create_file(N[i].into()) })
        .collect();
    t.sort_by_key(|n| low(n.get_name()));
    ctx.state(mask as u64);
    ctx.observe(mask as u64);
    ctx.note(|| show(&t));
    all_ops(ctx, &t, &["\0", "\0\0", "\u{1}", "a", "A\0", "a\0B", "A\u{1}", "A ", "\u{7f}"], 1, true)
}
/// Letters of other scripts have no case here, and order is that of the code points.
fn h08_scripts(ctx: &Ctx) -> R {
    ctx.nontrivial();
    const N: [&str; 10] = ["Я", "я", "ａ", "Ａ", "\u{212A}", "K", "\u{10400}", "É", "é", "ı"];
    let mask = ctx.choose(1 << N.len());
    let mut t: Vec<FstNode> = (0..N.len())
        .filter(|i| mask >> i & 1 == 1)
        .map(|i| if i % 3 == 0 { FstNode::create_dir(N[i].into()) } else { FstNode::create_file(N[i].into()) })
        .collect();
    t.sort_by_key(|n| low(n.get_name()));
    ctx.state(mask as u64);
    ctx.observe(mask as u64);
    ctx.note(|| show(&t));
    all_ops(ctx, &t, &["Я", "я", "ａ", "Ａ", "\u{212A}", "k", "\u{10400}", "\u{10428}", "É", "é", "i"], 1, true)
}
/// Names that only differ behind a long common start, or in their length.
fn h08_prefix(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let n = 1 + ctx.choose(260);
    let shift = ctx.choose(4);
    let start: String = "abcdefghijklmnopqrstuvwxyz0123456789._-".chars().cycle().skip(n % 7).take(n).collect();
    let names: Vec<String> = match shift {
        0 => ["", "a", "B", "b0", "C"].iter().map(|e| format!("{start}{e}")).collect(),
        1 => ["a", "A1", "b"].iter().flat_map(|e| [format!("{start}{e}"), format!("{}{e}", start.to_uppercase())]).collect(),
        2 => ["x", "Y", "z", "ー"].iter().map(|e| format!("{start}{e}{start}")).collect(),
        _ => vec!["q".repeat(n), "Q".repeat(n + 1), "q".repeat(2 * n), "q".repeat(n - 1) + "p"],
    };
    let sub: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
    // ordered subsets, one entry per name up to case
    let mask = ctx.choose(1 << sub.len());
    let mut t: Vec<FstNode> = vec![];
    for (i, x) in sub.iter().enumerate() {
        if mask >> i & 1 == 1 && !t.iter().any(|n| low(n.get_name()) == low(x)) {
            t.push(if i % 3 == 0 { FstNode::create_dir(x.to_string()) } else { FstNode::create_file(x.to_string()) });
        }
    }
    t.sort_by_key(|n| low(n.get_name()));
    ctx.state(mix(n as u64, mix(shift as u64, mask as u64)));
    ctx.observe(mask as u64);
    ctx.note(|| show(&t));
    all_ops(ctx, &t, &sub, 1, true)
}
/// Histories of operations from the empty tree.
fn h08_hist(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let names: &[&str] = &["a", "A", "b"];
    let paths: &[&[&str]] = &[&[], &["a"], &["A"], &["b"], &["a", "b"], &["B", "a"]];
    let depth = ctx.by_tier(3, 5);
    let mut f = Fst::new();
    let mut m: Vec<FstNode> = vec![];
    let mut h = 0;
    for step in 0..depth {
        let p = *ctx.pick(paths);
        match ctx.choose(3) {
            0 => {
                let mut q = p.to_vec();
                q.push(*ctx.pick(names));
                let want = m_remove(&mut m, &q);
                let got = f.remove_node_path(&q.join("/"));
                ctx.note(|| format!("remove {q:?} -> {want:?}"));
                ensure!(got == want, "remove {q:?} returns {got:?}, expected {want:?}");
            }
            k => {
                let name = ctx.pick(names).to_string();
                let node = if k == 1 {
                    FstNode::File { name, offset: 0, length: step as u32 }
                } else {
                    FstNode::create_dir(name)
                };
                let before = m.clone();
                let want = m_add(&mut m, p, node.clone());
                if want.is_err() {
                    m = before;
                }
                ctx.note(|| format!("add {node:?} at {p:?} -> {want:?}"));
                let got = f.add_node_path(&p.join("/"), node);
                ensure!(got == want, "add returns {got:?}, expected {want:?}");
            }
        }
        ctx.step();
        ensure!(f.get_entries() == &m, "tree is [{}], expected [{}]", show(f.get_entries()), show(&m));
        h = hash_bytes(show(&m).as_bytes());
        ctx.state(h);
    }
    ctx.observe(h);
    Ok(())
}
/// Long histories on wide folders, at any depth, added in many orders.
fn h08_many(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let n = *ctx.pick(&[1usize, 2, 7, 8, 9, 15, 16, 17, 20, 21, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 513, 1000]);
    let order = ctx.choose(5);
    let depth = *ctx.pick(&[0usize, 1, 2, 5, 16, 19, 20, 21, 33, 65, 130, 200]);
    if depth > 20 && n > 300 {
        return Err(Stop::Prune);
    }
    ctx.state(mix(n as u64, mix(order as u64, depth as u64)));
    ctx.note(|| format!("{n} entries in order {order}, {depth} folders deep"));
    let dirs: Vec<String> = (0..depth).map(|i| format!("{}{}", ["d", "D", "e"][i % 3], i % 7)).collect();
    let path: Vec<&str> = dirs.iter().map(|x| x.as_str()).collect();
    let ps = path.join("/");
    let index = |k: usize| match order {
        0 => k,
        1 => n - 1 - k,
        2 => if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 },
        3 => (k * 7919 + 3) % n,
        _ => (n / 2 + k * 104729) % n,
    };
    let name = |i: usize, up: bool| {
        let s = format!("{}{:04}.b", ["n", "N", "nn"][i / 5 % 3], i);
        if up { s.to_uppercase() } else { s }
    };
    let node = |i: usize, up: bool, round: u32| {
        let (nm, at) = (name(i, up), i as u32 * 8 + round);
        if i % 6 == 5 {
            FstNode::Directory { name: nm, files: vec![FstNode::File { name: "in".into(), offset: 4, length: at }] }
        } else {
            FstNode::File { name: nm, offset: 8, length: at }
        }
    };
    // the folder as a map from lowercased name to node
    let mut m: std::collections::BTreeMap<Vec<u8>, FstNode> = Default::default();
    let key = |x: &FstNode| low(x.get_name());
    let mut f = Fst::new();
    let check = |f: &Fst, m: &std::collections::BTreeMap<Vec<u8>, FstNode>| -> R {
        let mut level = f.get_entries();
        for d in &path {
            ensure!(level.len() == 1 && level[0].get_name() == d, "the folders leading to {ps:?} have changed");
            let FstNode::Directory { files, .. } = &level[0] else { fail!("{d} is no longer a folder") };
            level = files;
        }
        ensure!(level.len() == m.len(), "the folder holds {} entries instead of {}", level.len(), m.len());
        for (a, b) in level.iter().zip(m.values()) {
            ensure!(a == b, "the folder holds {a:?} where {b:?} belongs");
        }
        Ok(())
    };
    for round in 0..3u32 {
        for k in 0..n {
            let i = index(k);
            // then every third entry under another spelling, then every second again
            if (round == 1 && i % 3 != 0) || (round == 2 && i % 2 != 0) {
                continue;
            }
            let x = node(i, round == 1, round);
            let want = m.insert(key(&x), x.clone());
            let got = if k % 2 == 0 { f.add_node_path(&ps, x) } else { f.add_node_iter(path.iter().copied(), x) };
            ctx.step();
            match got {
                Ok(g) => ensure!(g == want, "adding entry {i} in round {round} replaces {g:?} instead of {want:?}"),
                Err(e) => fail!("adding entry {i} in round {round} fails: {e:?}"),
            }
        }
        check(&f, &m)?;
        for i in 0..n {
            for up in [false, true] {
                let nm = name(i, up);
                let full: Vec<&str> = path.iter().copied().chain([nm.as_str()]).collect();
                let want = m.get(&low(&nm)).filter(|x| *x.get_name() == nm);
                ensure!(f.find_node_iter(full.iter().copied()) == want, "looking up {nm:?} in round {round} finds the wrong thing");
                if i % 5 == 0 {
                    ensure!(f.find_node_path(&full.join("/")) == want, "looking up {nm:?} by path in round {round} finds the wrong thing");
                }
            }
            ctx.step();
        }
        for k in 0..n {
            let i = index(n - 1 - k);
            if i % 4 == round as usize {
                let nm = name(i, i % 8 < 4);
                let full: Vec<&str> = path.iter().copied().chain([nm.as_str()]).collect();
                let there = m.get(&low(&nm)).is_some_and(|x| *x.get_name() == nm);
                let want = if there { m.remove(&low(&nm)) } else { None };
                let got = f.remove_node_path(&full.join("/"));
                ctx.step();
                ensure!(got == want, "removing {nm:?} in round {round} returns {got:?} instead of {want:?}");
            }
        }
        check(&f, &m)?;
    }
    f.fix_ordering();
    check(&f, &m)?;
    ctx.observe(m.len() as u64);
    Ok(())
}
/// fix_ordering on arbitrary (unordered, colliding) trees.
fn h08_order(ctx: &Ctx) -> R {
    const N: [&str; 6] = ["b", "A", "_", "a", "Я", "я"];
    fn gen(ctx: &Ctx, left: &mut usize, depth: usize, id: &mut u32) -> Vec<FstNode> {
        let mut v = vec![];
        while *left > 0 {
            let k = ctx.choose(1 + 2 * N.len());
            if k == 0 {
                break;
            }
            *left -= 1;
            *id += 1;
            let name = N[(k - 1) / 2].to_string();
            if k % 2 == 1 {
                v.push(FstNode::File { name, offset: 0, length: *id });
            } else {
                let me = *id;
                let mut files = if depth > 0 { gen(ctx, left, depth - 1, id) } else { vec![] };
                files.insert(0, FstNode::File { name: format!("id{me}"), offset: 0, length: me });
                v.push(FstNode::Directory { name, files });
            }
        }
        v
    }
    let mut left = ctx.by_tier(4, 5);
    let t = gen(ctx, &mut left, 2, &mut 0);
    ctx.state(hash_bytes(show(&t).as_bytes()));
    ctx.note(|| show(&t));
    if t.len() > 1 {
        ctx.nontrivial();
    }
    let mut f = to_fst(t.clone());
    ctx.step();
    f.fix_ordering();
    ctx.observe_str(&show(f.get_entries()));
    // every level ordered, same nodes: canonicalize both and compare
    fn ordered(v: &[FstNode]) -> bool {
        v.windows(2).all(|w| low(w[0].get_name()) <= low(w[1].get_name()))
            && v.iter().all(|n| if let FstNode::Directory { files, .. } = n { ordered(files) } else { true })
    }
    fn canon(v: &mut Vec<FstNode>) {
        for n in v.iter_mut() {
            if let FstNode::Directory { files, .. } = n {
                canon(files);
            }
        }
        v.sort_by_key(|n| format!("{n:?}"));
    }
    ensure!(ordered(f.get_entries()), "not ordered: [{}] from [{}]", show(f.get_entries()), show(&t));
    let (mut a, mut b) = (f.get_entries().clone(), t.clone());
    canon(&mut a);
    canon(&mut b);
    ensure!(a == b, "nodes changed: [{}] from [{}]", show(f.get_entries()), show(&t));
    Ok(())
}

// ---------------------------------------------------------------- C09

type Visit = (Vec<String>, bool);
/// The new names a callback may give a node: unrelated ones and ones close to the old one.
const KINDS: usize = 6;
fn renamed(kind: usize, old: &str) -> String {
    match kind {
        0 => "RENAMED".into(),
        1 => old.to_ascii_uppercase(),
        2 => format!("{old}x"),
        3 => old.chars().take(old.chars().count().saturating_sub(1)).collect(),
        4 => old.chars().map(|_| 'q').collect(),
        _ => String::new(),
    }
}
type Rename<'a> = &'a dyn Fn(usize) -> Option<usize>;
fn m_visits(v: &[FstNode], p: &mut Vec<String>, rename: Rename, n: &mut usize, out: &mut Vec<Visit>) {
    for x in v {
        let i = *n;
        *n += 1;
        p.push(x.get_name().clone());
        out.push((p.clone(), x.is_dir()));
        if let Some(k) = rename(i) {
            p.pop();
            p.push(renamed(k, x.get_name()));
        }
        if let FstNode::Directory { files, .. } = x {
            m_visits(files, p, rename, n, out);
        }
        p.pop();
    }
}

fn h09(ctx: &Ctx) -> R {
    let mut left = ctx.by_tier(7, 9);
    let mut t = shape(ctx, &mut left, 7);
    let mut n = 0;
    let dup = ctx.choose(3);
    each(&mut t, 0, &mut n, &mut |i, _, x| {
        set_name(
            x,
            match dup {
                0 => format!("n{i}"),
                1 => "same".into(),
                _ => if i % 3 == 0 { String::new() } else { "x/y".into() },
            },
        )
    });
    ctx.state(hash_bytes(show(&t).as_bytes()));
    ctx.note(|| format!("[{}] every rename and error position", show(&t)));
    if n > 1 {
        ctx.nontrivial();
    }
    let mut want = vec![];
    m_visits(&t, &mut vec![], &|_| None, &mut 0, &mut want);
    let fst = to_fst(t.clone());
    let files: Vec<Vec<String>> = want.iter().filter(|v| !v.1).map(|v| v.0.clone()).collect();

    // read-only, with an error at each position (stop == n: none)
    for stop in 0..=n {
        let mut got: Vec<Visit> = vec![];
        ctx.step();
        let r = fst.callback_all_files::<usize, _>(&mut |p, node| {
            let i = got.len();
            got.push((p.iter().map(|s| s.to_string()).collect(), node.is_dir()));
            if i == stop {
                Err(i)
            } else {
                Ok(())
            }
        });
        let upto = if stop < n { stop + 1 } else { n };
        ensure!(r == if stop < n { Err(stop) } else { Ok(()) }, "traversal returned {r:?} for an error at {stop}");
        ensure!(got == want[..upto], "traversal visited {got:?}, expected {:?}", &want[..upto]);
    }
    // mutating: each position, all files, all directories and all nodes, under each kind of new name
    for pick in 0..n + 3 {
        for kind in 0..KINDS {
            let hit = |i: usize, dir: bool| {
                let yes = if pick < n { i == pick } else { pick == n + 2 || dir == (pick == n) };
                yes.then_some(kind)
            };
            let dirs: Vec<bool> = want.iter().map(|v| v.1).collect();
            let mut f = fst.clone();
            let mut w = vec![];
            m_visits(&t, &mut vec![], &|i| hit(i, dirs[i]), &mut 0, &mut w);
            let mut got: Vec<Visit> = vec![];
            ctx.step();
            let r = f.callback_all_files_mut::<(), _>(&mut |p, node| {
                let i = got.len();
                got.push((p.clone(), node.is_dir()));
                if let Some(k) = hit(i, node.is_dir()) {
                    let new = renamed(k, node.get_name());
                    set_name(node, new);
                }
                if let FstNode::File { length, .. } = node {
                    *length = i as u32 + 1;
                }
                Ok(())
            });
            ensure!(r.is_ok(), "mutating traversal failed");
            ensure!(got == w, "mutating traversal with nodes {pick} renamed ({kind}) visited {got:?}, expected {w:?}");
            let mut m = t.clone();
            let mut k = 0;
            each(&mut m, 0, &mut k, &mut |i, _, x| {
                if let Some(k) = hit(i, x.is_dir()) {
                    let new = renamed(k, x.get_name());
                    set_name(x, new);
                }
                if let FstNode::File { length, .. } = x {
                    *length = i as u32 + 1;
                }
            });
            ensure!(f.get_entries() == &m, "mutating traversal left [{}], expected [{}]", show(f.get_entries()), show(&m));
        }
    }
    for stop in 0..n {
        let mut f = fst.clone();
        let mut got: Vec<Visit> = vec![];
        ctx.step();
        let r = f.callback_all_files_mut::<usize, _>(&mut |p, node| {
            let i = got.len();
            got.push((p.clone(), node.is_dir()));
            if i == stop {
                Err(i)
            } else {
                Ok(())
            }
        });
        ensure!(r == Err(stop) && got == want[..stop + 1], "mutating traversal with an error at {stop}: {r:?}, {got:?}");
        ensure!(f.get_entries() == &t, "a failing traversal changed the tree");
    }
    // the traversal used while writing
    for stop in 0..=files.len() {
        let Ok(mut tb) = FstToBytes::try_from(fst.clone()) else { fail!("tree refused") };
        ensure!(tb.get_total_file_count() == files.len(), "file count {} instead of {}", tb.get_total_file_count(), files.len());
        let mut got: Vec<Vec<String>> = vec![];
        ctx.step();
        let r = tb.callback_all_files_mut::<usize, _>(&mut |p, off, len| {
            let i = got.len();
            got.push(p.clone());
            if i == stop {
                return Err(i);
            }
            *off = (i as u64 + 1) * 0x4_0000_0040 & 0x3_FFFF_FFFC;
            *len = 0xF000_0000 + i as u32;
            Ok(())
        });
        let upto = files.len().min(stop + 1);
        ensure!(r == if stop < files.len() { Err(stop) } else { Ok(()) }, "file traversal returned {r:?} for an error at {stop}");
        ensure!(got == files[..upto], "file traversal visited {got:?}, expected {:?}", &files[..upto]);
        let mut m = t.clone();
        let mut k = 0;
        let mut fi = 0;
        each(&mut m, 0, &mut k, &mut |_, _, x| {
            if let FstNode::File { offset, length, .. } = x {
                if fi < stop {
                    *offset = (fi as u64 + 1) * 0x4_0000_0040 & 0x3_FFFF_FFFC;
                    *length = 0xF000_0000 + fi as u32;
                }
                fi += 1;
            }
        });
        let mut buf = vec![];
        if let Err(e) = tb.write_to(&mut Cursor::new(&mut buf)) {
            fail!("write failed: {e}");
        }
        match o::parse_fst(&buf) {
            Ok((nodes, _)) => ensure!(nodes == lib_tree(&m), "serialized [{}], expected [{}]", o::show_tree(&nodes), show(&m)),
            Err(e) => fail!("serialized table invalid: {e}"),
        }
    }
    ctx.observe(want.len() as u64);
    ctx.observe_str(&show(&t));
    Ok(())
}
fn h09_large(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let k = ctx.choose(4);
    let t: Vec<FstNode> = match k {
        3 => {
            let mut t: Vec<_> = (0..66_000).map(|i| FstNode::create_file(format!("f{i}"))).collect();
            let sub = FstNode::Directory { name: "y".into(), files: vec![FstNode::create_file("g".into())] };
            t.push(FstNode::Directory { name: "x".into(), files: vec![sub, FstNode::create_file("h".into())] });
            t
        }
        0 => (0..3000).map(|i| FstNode::create_file(format!("f{i}"))).collect(),
        1 => (0..120)
            .map(|i| FstNode::Directory { name: format!("d{i}"), files: (0..i % 30).map(|j| FstNode::create_file(format!("f{j}"))).collect() })
            .collect(),
        _ => {
            let mut t = vec![FstNode::create_file("leaf".into())];
            for i in 0..200 {
                t = vec![FstNode::create_file(format!("a{i}")), FstNode::Directory { name: format!("d{i}"), files: t }];
            }
            t
        }
    };
    let mut want = vec![];
    m_visits(&t, &mut vec![], &|_| None, &mut 0, &mut want);
    let mut f = to_fst(t.clone());
    let mut got: Vec<Visit> = vec![];
    let _ = f.callback_all_files::<(), _>(&mut |p, n| {
        got.push((p.iter().map(|s| s.to_string()).collect(), n.is_dir()));
        Ok(())
    });
    ensure!(got == want, "traversal of a large tree differs");
    got.clear();
    let _ = f.callback_all_files_mut::<(), _>(&mut |p, n| {
        got.push((p.clone(), n.is_dir()));
        Ok(())
    });
    ensure!(got == want, "mutating traversal of a large tree differs");
    let Ok(tb) = FstToBytes::try_from(f) else { fail!("tree refused") };
    ensure!(tb.get_total_file_count() == count_files(&t), "file count differs");
    ctx.steps(3);
    ctx.state(k as u64);
    ctx.observe(want.len() as u64);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            level: "model_checking",
            rule: "each execution is one tree, serialized and read back by the real code and parsed by an independent strict parser; a state is a distinct tree, a transition one library call",
            bounds: "all ordered forests up to 8 (quick) / 10 (thorough) nodes; all pairs of 10 extreme offsets x 7 lengths; 12^3 name assignments incl. empty, 5000 byte and Japanese names; large tables up to 70000 (500000) nodes, nesting 250",
            assumptions: &["names in this check are representable in Shift-JIS", "encoding_rs is used to state the expected stored bytes of non-ASCII names"],
            scenarios: vec![
                Scenario::new("trees", h06_trees),
                Scenario::new("fields", h06_fields),
                Scenario::new("names", h06_names),
                Scenario::new("large", h06_large).workers(4),
            ],
        },
        Property {
            id: "C07",
            level: "model_checking",
            rule: "each execution checks 256 names (every Unicode scalar of a block in one context) or a string prefix with every representative appended; a transition is one name turned into a table and read back",
            bounds: "all 1,112,064 Unicode scalars in 4 (quick) / 6 (thorough) contexts; all strings of length 3 (4) over 53 representative characters; lengths up to 2^20",
            assumptions: &["plain ASCII names (0x20..0x7D) must be accepted; for other names refusal is always allowed"],
            scenarios: vec![
                Scenario::new("scalars", h07_scalars),
                Scenario::new("strings", h07_strings),
                Scenario::new("long", h07_long),
            ],
        },
        Property {
            id: "C08",
            level: "model_checking",
            rule: "states are ordered trees (all of them within the bound), transitions every add/remove/find on each state, compared with a reference map",
            bounds: "all ordered trees up to 4 (quick) / 5 (thorough) nodes over 8 names and up to 6 (7) over 3 names, every path up to length 2 (3), every node kind; all 1024 subsets of 10 names 512 of 9 names with control characters and 1024 of 10 names in other scripts; all subsets of 4 to 6 names with a common start of 1..260 characters in 4 patterns; all histories of 3 (5) operations; histories of up to some 5000 additions, look-ups and removals in 28 sizes of folder up to 1000 entries x 5 orders x 12 depths up to 200; all unordered trees up to 4 (5) nodes for order restoration",
            assumptions: &["the tree is ordered when an addition starts (as every tree built by additions is)"],
            scenarios: vec![
                Scenario::new("ops", h08_ops),
                Scenario::new("deep", h08_deep),
                Scenario::new("wide", h08_wide),
                Scenario::new("histories", h08_hist),
                Scenario::new("many", h08_many),
                Scenario::new("prefixes", h08_prefix),
                Scenario::new("odd-names", h08_odd),
                Scenario::new("scripts", h08_scripts),
                Scenario::new("reorder", h08_order),
            ],
        },
        Property {
            id: "C09",
            level: "model_checking",
            rule: "states are trees; for each, every traversal with every rename position and every error position is a transition",
            bounds: "all forests up to 7 (quick) / 9 (thorough) nodes x 3 name patterns; large trees of 3000 nodes and nesting 200",
            assumptions: &[],
            scenarios: vec![Scenario::new("trees", h09), Scenario::new("large", h09_large)],
        },
    ]
}
