//! C23: the encrypted read/write stream, driven directly (feature `verif-hooks`).
use disc_riider::verif_hooks::WiiEncryptedReadWriteStream as Stream;
use mclib::oracle::{self as o, BD, GD, GS};
use mclib::*;
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::OnceLock;

const KEY: [u8; 16] = [9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 0xFF, 0xFE, 0x80, 0x7F, 1, 2];

struct Mem {
    data: Vec<u8>,
    pos: u64,
}
impl Read for Mem {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.data.len() as u64).saturating_sub(self.pos).min(b.len() as u64) as usize;
        if n > 0 {
            b[..n].copy_from_slice(&self.data[self.pos as usize..][..n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Mem {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let e = self.pos as usize + b.len();
        if e > 64 << 20 {
            return Err(std::io::Error::other("harness: too large"));
        }
        if self.data.len() < e {
            self.data.resize(e, 0);
        }
        self.data[self.pos as usize..e].copy_from_slice(b);
        self.pos = e as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Mem {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(s) => s,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
            SeekFrom::End(d) => (self.data.len() as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

/// Two groups of content that exist before the stream is opened.
fn prefilled() -> &'static (Vec<u8>, Vec<u8>) {
    static P: OnceLock<(Vec<u8>, Vec<u8>)> = OnceLock::new();
    P.get_or_init(|| {
        let plain = o::content(71, 2 * GD).to_vec();
        let mut enc = vec![];
        for g in plain.chunks(GD) {
            o::encode_group(g, &KEY, &mut enc);
        }
        (plain, enc)
    })
}

struct Alphabet {
    pos: Vec<u64>,
    sizes: Vec<usize>,
    cur: Vec<usize>,
    reads: Vec<(u64, usize)>,
}

fn run(ctx: &Ctx, depth: usize, a: &Alphabet, configs: &[(u64, Option<u64>, u64)], zeros: bool) -> R {
    let (data_off, max_group, filled) = *ctx.pick(configs);
    ctx.note(|| format!("zeros written: {zeros}, data offset {data_off:#x}, max group {max_group:?}, {filled} groups already stored"));
    let mut f = Mem { data: vec![0x5A; data_off as usize], pos: 3 };
    let mut model: Vec<u8> = vec![];
    if filled > 0 {
        let (p, e) = prefilled();
        model = p.clone();
        f.data.extend_from_slice(e);
    }
    let mut s = Stream::create_write(&mut f, data_off, KEY, max_group, filled);
    let mut pos = 0u64;
    let mut groups = filled; // groups with content
    let mut touched = [false; 16];
    let mut pending = false;
    let mut id = 0usize;
    let nw = a.pos.len() * a.sizes.len();
    let mut h = 0;
    for _ in 0..depth {
        let op = ctx.choose(nw + a.cur.len() + 1 + 2 * a.reads.len());
        ctx.step();
        if op < nw + a.cur.len() {
            let (n, seek) = if op < nw { (a.sizes[op % a.sizes.len()], Some(a.pos[op / a.sizes.len()])) } else { (a.cur[op - nw], None) };
            if let Some(p) = seek {
                match s.seek(SeekFrom::Start(p)) {
                    Ok(x) if x == p => pos = p,
                    x => fail!("seek to {p:#x} returned {x:?}"),
                }
            }
            if pos / GD as u64 > groups {
                return Err(Stop::Prune); // would leave a whole group unwritten
            }
            let room = max_group.map_or(u64::MAX, |g| (g * GD as u64).saturating_sub(pos));
            let expect = room.min(n as u64) as usize;
            id += 1;
            let data = if zeros && id % 2 == (filled > 0) as usize { o::content(o::ZERO, n) } else { o::content(id * 7, n) };
            ctx.note(|| format!("write {n:#x} at {pos:#x}"));
            let mut done = 0;
            while done < n {
                match s.write(&data[done..]) {
                    Ok(0) => break,
                    Ok(k) if k <= n - done => done += k,
                    x => fail!("write of {:#x} returned {x:?}", n - done),
                }
            }
            ensure!(done == expect, "write of {n:#x} at {pos:#x} stored {done:#x} bytes, expected {expect:#x}");
            if done > 0 {
                let end = pos as usize + done;
                if model.len() < end {
                    model.resize(end, 0);
                }
                model[pos as usize..end].copy_from_slice(&data[..done]);
                for g in pos / GD as u64..=(end as u64 - 1) / GD as u64 {
                    touched[g as usize] = true;
                }
                groups = groups.max((end as u64 + GD as u64 - 1) / GD as u64);
                pos = end as u64;
                pending = true;
            }
        } else if op == nw + a.cur.len() {
            ctx.note(|| "flush".into());
            if let Err(e) = s.flush() {
                fail!("flush failed: {e}");
            }
            pending = false;
        } else {
            if pending {
                return Err(Stop::Prune); // outside the domain
            }
            let k = op - nw - a.cur.len() - 1;
            let (p, n) = a.reads[k / 2];
            if p + n as u64 > groups * GD as u64 {
                return Err(Stop::Prune);
            }
            let mut want = vec![0; n];
            for i in 0..n {
                want[i] = model.get(p as usize + i).copied().unwrap_or(0);
            }
            if k % 2 == 0 {
                ctx.note(|| format!("read_into_vec {n:#x} at {p:#x}"));
                let mut v = vec![1, 2, 3];
                if let Err(e) = s.read_into_vec(p, n as u64, &mut v) {
                    fail!("read_into_vec at {p:#x} failed: {e}");
                }
                if let Some(d) = o::diff(&v, &want) {
                    fail!("read_into_vec of {n:#x} at {p:#x}: {d}");
                }
            } else {
                ctx.note(|| format!("seek {p:#x}, read {n:#x}"));
                if s.seek(SeekFrom::Start(p)).ok() != Some(p) {
                    fail!("seek failed");
                }
                let mut v = vec![0; n];
                if let Err(e) = s.read_exact(&mut v) {
                    fail!("read at {p:#x} failed: {e}");
                }
                if let Some(d) = o::diff(&v, &want) {
                    fail!("read of {n:#x} at {p:#x}: {d}");
                }
                pos = p + n as u64;
            }
        }
        match s.stream_position() {
            Ok(p) if p == pos => {}
            x => fail!("position {x:?}, expected {pos:#x}"),
        }
        h = mix(mix(mix(h, op as u64), pos), groups * 2 + pending as u64);
        ctx.state(mix(mix(hash_bytes(&model[..model.len().min(4096)]), model.len() as u64), h));
    }
    if let Err(e) = s.flush() {
        fail!("final flush failed: {e}");
    }
    let Some(h3) = s.take_h3() else { fail!("no hash table") };
    drop(s);
    if groups > filled || touched.iter().any(|t| *t) {
        ctx.nontrivial();
    }
    ensure!(f.data[..data_off as usize].iter().all(|b| *b == 0x5A), "bytes before the data offset were touched");
    ensure!(f.data.len() as u64 == data_off + groups * GS as u64, "stored {:#x} bytes for {groups} groups", f.data.len() as u64 - data_off);
    model.resize(groups as usize * GD, 0);
    let mut plain = Vec::with_capacity(GD);
    for g in 0..groups as usize {
        plain.clear();
        let enc = &f.data[data_off as usize + g * GS..][..GS];
        match o::decode_group(enc, &KEY, &mut plain) {
            Err(e) => fail!("group {g}: {e}"),
            Ok(hash) => {
                if touched[g] {
                    ensure!(h3[g * 20..][..20] == hash, "hash table entry of group {g} is wrong");
                }
            }
        }
        if let Some(d) = o::diff(&plain, &model[g * GD..][..GD]) {
            fail!("group {g}: {d}");
        }
    }
    for g in 0..h3.len() / 20 {
        if g >= 16 || !touched[g] {
            ensure!(h3[g * 20..][..20] == [0; 20], "hash table entry {g} is set although the group was never written");
        }
    }
    ctx.observe_bytes(&h3[..320]);
    Ok(())
}

fn h_deep(ctx: &Ctx) -> R {
    let a = Alphabet {
        pos: vec![0, GD as u64 - 3, GD as u64 + BD as u64],
        sizes: vec![2, GD + 3],
        cur: vec![BD + 1],
        reads: vec![(GD as u64 - 9, 0x20)],
    };
    run(ctx, ctx.by_tier(4, 5), &a, &[(0x20000, None, 0), (0, None, 2)], false)
}
fn h_wide(ctx: &Ctx) -> R {
    let g = GD as u64;
    let b = BD as u64;
    let a = if ctx.thorough() {
        Alphabet {
            pos: vec![0, 5, b - 1, b, 8 * b - 1, g - 1, g, g + 7, g + b - 1, 2 * g - 3, 2 * g],
            sizes: vec![1, 0x400, BD, BD + 1, GD - 1, GD, GD + 5, 2 * GD + 9],
            cur: vec![1, GD],
            reads: vec![(0, 1), (b - 2, 5), (g - 1, 2), (g, BD), (2 * g - 5, 5)],
        }
    } else {
        Alphabet {
            pos: vec![0, b - 1, g - 1, g, g + b, 2 * g - 3],
            sizes: vec![1, BD + 1, GD, GD + 5],
            cur: vec![GD],
            reads: vec![(b - 2, 5), (g - 1, 2)],
        }
    };
    run(ctx, ctx.by_tier(2, 3), &a, &[(0, None, 0), (0x20000, Some(2), 0), (0x8000, None, 2), (0, Some(3), 2)], ctx.flag())
}
/// A dozen groups written in steps, then patched in some order, flushed now and then.
fn h_long(ctx: &Ctx) -> R {
    const N: usize = 12;
    ctx.nontrivial();
    let step = *ctx.pick(&[0x8000usize, BD, 3 * BD + 1, GD - 1, GD, GD + 1, 3 * GD + 5, 0x100_0000]);
    let order = ctx.choose(4);
    let period = *ctx.pick(&[0usize, 1, 3]);
    let max = ctx.flag().then_some(N as u64);
    ctx.note(|| format!("steps of {step:#x}, patched in order {order}, flushed every {period}, max group {max:?}"));
    ctx.state(mix(step as u64, mix(order as u64, mix(period as u64, max.is_some() as u64))));
    let mut f = Mem { data: vec![], pos: 0 };
    let mut s = Stream::create_write(&mut f, 0, KEY, max, 0);
    let mut model = o::content(33, N * GD - 0x77).to_vec();
    if let Err(e) = model.chunks(step).try_for_each(|c| s.write_all(c)) {
        fail!("writing in steps of {step:#x} fails: {e}");
    }
    ctx.steps((model.len() / step) as u64 + 1);
    for k in 0..3 * N {
        let g = match order {
            0 => k % N,
            1 => N - 1 - k % N,
            2 => k * 5 % N,
            _ => if k % 2 == 0 { k / 2 % N } else { (N - 1 - k / 2 % N) % N },
        };
        let at = g * GD + [7, GD - 5, BD * 9 - 2][k / N];
        let n = 9.min(model.len() - at.min(model.len()));
        let d = o::content(900 + k, 9);
        ctx.step();
        if s.seek(SeekFrom::Start(at as u64)).ok() != Some(at as u64) {
            fail!("seek to {at:#x} fails");
        }
        if n == 9 {
            if let Err(e) = s.write_all(d) {
                fail!("write at {at:#x} fails: {e}");
            }
            model[at..at + 9].copy_from_slice(d);
        }
        if period > 0 && k % period == 0 {
            if let Err(e) = s.flush() {
                fail!("flush fails: {e}");
            }
            let back = (at + 5 * GD) % (N * GD - 0x1000);
            let mut v = vec![];
            if let Err(e) = s.read_into_vec(back as u64, 0x20, &mut v) {
                fail!("read at {back:#x} fails: {e}");
            }
            if let Some(d) = o::diff(&v, &model[back..back + 0x20]) {
                fail!("read at {back:#x} after patch {k}: {d}");
            }
        }
    }
    if let Err(e) = s.flush() {
        fail!("final flush failed: {e}");
    }
    let Some(h3) = s.take_h3() else { fail!("no hash table") };
    drop(s);
    ensure!(f.data.len() == N * GS, "{:#x} bytes are stored", f.data.len());
    model.resize(N * GD, 0);
    let mut plain = Vec::with_capacity(GD);
    for g in 0..N {
        plain.clear();
        match o::decode_group(&f.data[g * GS..][..GS], &KEY, &mut plain) {
            Err(e) => fail!("group {g}: {e}"),
            Ok(hash) => ensure!(h3[g * 20..][..20] == hash, "hash table entry of group {g} is wrong"),
        }
        if let Some(d) = o::diff(&plain, &model[g * GD..][..GD]) {
            fail!("group {g}: {d}");
        }
    }
    ensure!(h3[N * 20..].iter().all(|b| *b == 0), "hash table entries beyond the last group are set");
    ctx.observe_bytes(&h3[..N * 20]);
    Ok(())
}
/// A sparse file of alternating stored groups, which keeps what is written over them.
struct Sparse {
    off: u64,
    groups: u64,
    pages: std::collections::BTreeMap<u64, Vec<u8>>,
    stray: bool,
    pos: u64,
}
const PAGE: u64 = 0x8000;
impl Sparse {
    fn page(&self, k: u64) -> &[u8] {
        let at = (k % (2 * GS as u64 / PAGE)) * PAGE;
        self.pages.get(&k).map_or(&prefilled().1[at as usize..][..PAGE as usize], |v| v)
    }
}
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let end = self.off + self.groups * GS as u64;
        if self.pos < self.off || self.pos >= end {
            return Ok(0);
        }
        let at = self.pos - self.off;
        let n = (PAGE - at % PAGE).min(b.len() as u64).min(end - self.pos) as usize;
        b[..n].copy_from_slice(&self.page(at / PAGE)[(at % PAGE) as usize..][..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.pos < self.off {
            self.stray = true;
            return Ok(b.len());
        }
        let at = self.pos - self.off;
        let n = (PAGE - at % PAGE).min(b.len() as u64) as usize;
        if n > 0 {
            let mut v = self.page(at / PAGE).to_vec();
            v[(at % PAGE) as usize..][..n].copy_from_slice(&b[..n]);
            self.pages.insert(at / PAGE, v);
        }
        self.pos += n as u64;
        self.groups = self.groups.max((at + n as u64).div_ceil(GS as u64));
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(s) => s,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
            SeekFrom::End(d) => ((self.off + self.groups * GS as u64) as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}
/// Streams that already hold up to 4912 groups, patched far from their start.
fn h_far(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let filled = *ctx.pick(&[2u64, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 2064, 2065, 2114, 2115, 3000, 4095, 4096, 4097, 4912]);
    let off = *ctx.pick(&[0u64, 0x20000, 0xF_FFFF_8000]);
    let size = *ctx.pick(&[1usize, 9, GD + 7]);
    let near = ctx.flag(); // also touch the groups of the same number modulo powers of two
    ctx.note(|| format!("{filled} groups at {off:#x}, writes of {size:#x}, near {near}"));
    ctx.state(mix(filled, mix(off, mix(size as u64, near as u64))));
    let mut f = Sparse { off, groups: filled, pages: Default::default(), stray: false, pos: 0 };
    let base = &prefilled().0;
    let g = GD as u64;
    let mut model: std::collections::BTreeMap<u64, Vec<u8>> = Default::default();
    let mut s = Stream::create_write(&mut f, off, KEY, Some(0x18000 / 20), filled);
    let mut groups = filled;
    let mut at = vec![filled * g - 5, (filled - 1) * g, filled * g, filled * g + g - 2, filled * g / 2, 3];
    if near {
        at.insert(3, (filled % 256) * g + 1);
        at.push((filled % 2048) * g + BD as u64);
    }
    for (k, &p) in at.iter().enumerate() {
        ctx.step();
        if p / g > groups {
            continue;
        }
        let d = o::content(300 + k, size);
        if s.seek(SeekFrom::Start(p)).ok() != Some(p) {
            fail!("seek to {p:#x} fails");
        }
        if let Err(e) = s.write_all(d) {
            fail!("write at {p:#x} fails: {e}");
        }
        if s.stream_position().ok() != Some(p + size as u64) {
            fail!("wrong position after the write at {p:#x}");
        }
        for (i, b) in d.iter().enumerate() {
            let q = p + i as u64;
            let v = model.entry(q / g).or_insert_with(|| if q / g < filled { base[(q / g % 2) as usize * GD..][..GD].to_vec() } else { vec![0; GD] });
            v[(q % g) as usize] = *b;
        }
        groups = groups.max((p + size as u64).div_ceil(g));
        if k % 2 == 1 {
            if let Err(e) = s.flush() {
                fail!("flush fails: {e}");
            }
            for r in [p, p / 2, (groups - 1) * g, 0] {
                let n = 0x30.min((groups * g - r) as usize);
                let want: Vec<u8> = (r..r + n as u64)
                    .map(|q| model.get(&(q / g)).map_or_else(|| base[(q / g % 2) as usize * GD + (q % g) as usize], |v| v[(q % g) as usize]))
                    .collect();
                let mut v = vec![];
                if let Err(e) = s.read_into_vec(r, n as u64, &mut v) {
                    fail!("read at {r:#x} fails: {e}");
                }
                if let Some(d) = o::diff(&v, &want) {
                    fail!("read at {r:#x}: {d}");
                }
            }
        }
    }
    if let Err(e) = s.flush() {
        fail!("final flush failed: {e}");
    }
    let Some(h3) = s.take_h3() else { fail!("no hash table") };
    drop(s);
    ensure!(!f.stray, "bytes before the data offset were written");
    ensure!(f.groups == groups, "{} groups are stored instead of {groups}", f.groups);
    for k in f.pages.keys() {
        ensure!(model.contains_key(&(k * PAGE / GS as u64)), "group {} was written to", k * PAGE / GS as u64);
    }
    let mut plain = Vec::with_capacity(GD);
    for (k, want) in &model {
        plain.clear();
        let per = GS as u64 / PAGE;
        let enc: Vec<u8> = (k * per..(k + 1) * per).flat_map(|p| f.page(p).to_vec()).collect();
        match o::decode_group(&enc, &KEY, &mut plain) {
            Err(e) => fail!("group {k}: {e}"),
            Ok(hash) => ensure!(h3[*k as usize * 20..][..20] == hash, "hash table entry of group {k} is wrong"),
        }
        if let Some(d) = o::diff(&plain, want) {
            fail!("group {k}: {d}");
        }
    }
    for k in 0..h3.len() / 20 {
        ensure!(model.contains_key(&(k as u64)) || h3[k * 20..][..20] == [0; 20], "hash table entry {k} is set although the group was never written");
    }
    ctx.observe_bytes(&h3[..]);
    Ok(())
}
/// A read-only stream: bounds, refusal of writes, piecewise reads.
fn h_readonly(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let (plain, enc) = prefilled();
    let mut f = Mem { data: vec![0; 0x100], pos: 0 };
    f.data.extend_from_slice(enc);
    let max = *ctx.pick(&[1u64, 2]);
    let mut s = Stream::create_readonly(&mut f, 0x100, KEY, max);
    let size = max as usize * GD;
    let p = *ctx.pick(&[0usize, 1, BD - 1, BD, GD - 2, GD - 1, GD, GD + 1, 2 * GD - 7, 2 * GD - 1, 2 * GD, 2 * GD + 5]);
    let n = *ctx.pick(&[0usize, 1, 3, BD, GD, GD + 1, 3 * GD]);
    ctx.note(|| format!("readonly max {max}: {n:#x} at {p:#x}"));
    let want = &plain[p.min(size)..(p + n).min(size).max(p.min(size))];
    let mut v = vec![7];
    ctx.steps(3);
    if let Err(e) = s.read_into_vec(p as u64, n as u64, &mut v) {
        fail!("read_into_vec failed: {e}");
    }
    if let Some(d) = o::diff(&v, want) {
        fail!("read_into_vec {n:#x} at {p:#x}: {d}");
    }
    ensure!(s.stream_position().ok() == Some(0), "positioned read moved the position");
    if s.seek(SeekFrom::Start(p as u64)).ok() != Some(p as u64) {
        fail!("seek failed");
    }
    let mut got = vec![];
    let mut buf = vec![0; n];
    while got.len() < n {
        match s.read(&mut buf[..n - got.len()]) {
            Ok(0) => break,
            Ok(k) => got.extend_from_slice(&buf[..k]),
            Err(e) => fail!("read failed: {e}"),
        }
    }
    if let Some(d) = o::diff(&got, want) {
        fail!("read {n:#x} at {p:#x}: {d}");
    }
    ensure!(s.stream_position().ok() == Some((p + got.len()) as u64), "position after read");
    ensure!(s.seek(SeekFrom::End(0)).is_err() || true, "");
    ensure!(s.write(&[1, 2, 3]).is_err(), "a read-only stream accepted a write");
    ctx.state(mix(p as u64, mix(n as u64, max)));
    ctx.observe(got.len() as u64);
    drop(s);
    ensure!(f.data[0x100..] == enc[..], "a read-only stream changed the file");
    Ok(())
}

fn main() {
    main_with(vec![Property {
        id: "C23",
        level: "model_checking",
        rule: "each execution is one history of operations on the real stream (through the verif-hooks export), its stored bytes decrypted and hash-checked by an independent decoder and compared with a plain file; a state is (content digest, history digest)",
        bounds: "deep: all histories of 4 (quick) / 5 (thorough) of 10 operations (writes straddling group ends, flush, reads) on a fresh and a pre-filled stream; wide: all histories of 2 (3) of 30 (101) operations in 4 configurations incl. maximum group, with random data or zeros in every second write; final flush always appended; long: 12 groups written in 8 step sizes, patched 36 times in 4 orders, with 3 flushing and reading patterns; far: streams that already hold 2..4912 groups (26 counts x 3 data offsets up to 64 GiB), patched at 6 or 8 places with 3 sizes; read-only stream: all (position, length) pairs of 12x7",
        assumptions: &["histories never start a write more than one group beyond the groups that have content", "reads only when no written data is pending"],
        scenarios: vec![
            Scenario::new("readonly", h_readonly),
            Scenario::new("wide", h_wide),
            Scenario::new("deep", h_deep),
            Scenario::new("long", h_long),
            Scenario::new("far", h_far),
        ],
    }])
}
