//! C11: I/O windows.
use crate::common::{Act, Faulty, MemFile, Op};
use disc_riider::IOWindow;
use mclib::*;
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom, Write};

const N: usize = 9;

fn run(ctx: &Ctx, depth: usize, wide: bool) -> R {
    let src: Vec<u8> = (0..N as u8).map(|i| 0x10 + i).collect();
    let starts: &[u64] = if wide { &[0, 1, 4, 9, 12] } else { &[0, 2, 8] };
    let start = *ctx.pick(starts);
    let lens: &[Option<u64>] = if wide { &[None, Some(0), Some(1), Some(3), Some(5), Some(20)] } else { &[None, Some(3), Some(20)] };
    let length = *ctx.pick(lens);
    let init = *ctx.pick(if wide { &[0u64, 3, 9][..] } else { &[0, 5] });
    let mut f = MemFile::with(src.clone());
    f.pos = init;
    let mut model = src;
    let mut pos: u64 = 0;
    ctx.note(|| format!("source of {N} bytes at position {init}, window start {start} length {length:?}"));
    let mut w = IOWindow::new(&mut f, start, length);
    let mut stamp = 0xA0u8;
    for _ in 0..depth {
        // 0..4 read, 4..8 read_exact, 8..11 write, then seeks
        let op = ctx.choose(27);
        ctx.step();
        let left = length.map_or(u64::MAX, |l| l.saturating_sub(pos));
        let at = start + pos;
        let avail = (model.len() as u64).saturating_sub(at).min(left) as usize;
        match op {
            0..=3 => {
                let n = [0usize, 1, 2, 7][op];
                let mut buf = vec![0xEE; n];
                let r = w.read(&mut buf);
                ctx.note(|| format!("read {n} -> {r:?}"));
                match r {
                    Ok(k) => {
                        ensure!(k <= n.min(avail), "read of {n} at window position {pos} returned {k} bytes, only {avail} are there");
                        ensure!(k > 0 || n == 0 || avail == 0, "read of {n} at {pos} made no progress, {avail} bytes are there");
                        ensure!(k == 0 || buf[..k] == model[at as usize..at as usize + k], "read at {pos} returned {:?}", &buf[..k]);
                        ensure!(buf[k..].iter().all(|b| *b == 0xEE), "read wrote beyond what it reported");
                        pos += k as u64;
                    }
                    Err(e) => fail!("read failed: {e}"),
                }
            }
            4..=7 => {
                let n = [0usize, 1, 3, 5][op - 4];
                let mut buf = vec![0xEE; n];
                let r = w.read_exact(&mut buf);
                ctx.note(|| format!("read_exact {n} -> {r:?}"));
                if n <= avail {
                    ensure!(r.is_ok(), "read_exact of {n} at {pos} failed although {avail} bytes are there: {r:?}");
                    ensure!(n == 0 || buf == model[at as usize..at as usize + n], "read_exact at {pos} returned {buf:?}");
                    pos += n as u64;
                } else {
                    ensure!(r.is_err(), "read_exact of {n} at {pos} succeeded although only {avail} bytes are in the window");
                    // the position after a failed exact read is unspecified, but it must be reported truthfully
                    match w.stream_position() {
                        Ok(p) if p >= pos && p <= pos + n as u64 => pos = p,
                        x => fail!("position after a failed read_exact: {x:?}"),
                    }
                }
            }
            8..=10 => {
                let n = [1usize, 2, 6][op - 8];
                let data: Vec<u8> = (0..n).map(|i| stamp + i as u8).collect();
                stamp = stamp.wrapping_add(0x10);
                let r = w.write(&data);
                ctx.note(|| format!("write {n} -> {r:?}"));
                match r {
                    Ok(k) => {
                        let room = left.min(n as u64) as usize;
                        ensure!(k <= room, "write of {n} at {pos} stored {k} bytes, the window has room for {room}");
                        ensure!(k > 0 || room == 0, "write of {n} at {pos} made no progress");
                        if k > 0 {
                            let end = at as usize + k;
                            if model.len() < end {
                                model.resize(end, 0);
                            }
                            model[at as usize..end].copy_from_slice(&data[..k]);
                        }
                        pos += k as u64;
                    }
                    Err(e) => fail!("write failed: {e}"),
                }
            }
            _ => {
                let sk = [
                    SeekFrom::Start(0),
                    SeekFrom::Start(1),
                    SeekFrom::Start(3),
                    SeekFrom::Start(6),
                    SeekFrom::Start(25),
                    SeekFrom::Current(0),
                    SeekFrom::Current(1),
                    SeekFrom::Current(4),
                    SeekFrom::Current(-1),
                    SeekFrom::Current(-2),
                    SeekFrom::Current(-5),
                    SeekFrom::End(0),
                    SeekFrom::End(-1),
                    SeekFrom::End(-4),
                    SeekFrom::End(2),
                    SeekFrom::Current(-40),
                ][op - 11];
                let r = w.seek(sk);
                ctx.note(|| format!("{sk:?} -> {r:?}"));
                let target: Option<i128> = match sk {
                    SeekFrom::Start(s) => Some(s as i128),
                    SeekFrom::Current(d) => Some(pos as i128 + d as i128),
                    SeekFrom::End(d) => length.map(|l| l as i128 + d as i128),
                };
                match target {
                    None => ensure!(r.is_err(), "{sk:?} on a window without length returned {r:?}"),
                    Some(t) if t >= 0 => {
                        match &r {
                            Ok(p) if *p as i128 == t => {}
                            x => fail!("{sk:?} at {pos} returned {x:?}, expected {t}"),
                        }
                        pos = t as u64;
                    }
                    // before the window: refused, or clamped to its start
                    Some(_) => match r {
                        Ok(0) => pos = 0,
                        Err(_) => {}
                        x => fail!("{sk:?} at {pos} (before the window) returned {x:?}"),
                    },
                }
            }
        }
        match w.stream_position() {
            Ok(p) if p == pos => {}
            x => fail!("window reports position {x:?}, expected {pos}"),
        }
        ctx.state(mix(mix(mix(start, length.unwrap_or(99)), pos), hash_bytes(&model)));
    }
    let _ = w.flush();
    drop(w);
    ensure!(f.data == model, "source is {:x?}, expected {:x?}", f.data, model);
    ctx.observe_bytes(&model);
    ctx.observe(pos);
    if pos != 0 {
        ctx.nontrivial();
    }
    Ok(())
}
fn h11_wide(ctx: &Ctx) -> R {
    run(ctx, ctx.by_tier(3, 4), true)
}
fn h11_deep(ctx: &Ctx) -> R {
    run(ctx, ctx.by_tier(4, 5), false)
}
/// Windows in windows and positions near 2^63.
fn h11_far(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let base = *ctx.pick(&[0u64, 7, 1 << 32, (1 << 62) + 5, i64::MAX as u64 - 3]);
    struct Far {
        pos: u64,
        log: Vec<(u64, usize)>,
    }
    impl Read for Far {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.log.push((self.pos, b.len()));
            for (i, x) in b.iter_mut().enumerate() {
                *x = (self.pos.wrapping_add(i as u64) % 251) as u8;
            }
            self.pos = self.pos.wrapping_add(b.len() as u64);
            Ok(b.len())
        }
    }
    impl Seek for Far {
        fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
            self.pos = match p {
                SeekFrom::Start(s) => s,
                SeekFrom::Current(d) => self.pos.wrapping_add(d as u64),
                SeekFrom::End(_) => return Err(std::io::ErrorKind::Unsupported.into()),
            };
            Ok(self.pos)
        }
    }
    let off = *ctx.pick(&[0u64, 3]);
    let seek = *ctx.pick(&[0u64, 1, 5]);
    let mut f = Far { pos: 77, log: vec![] };
    let mut outer = IOWindow::new(&mut f, base, Some(100));
    let mut inner = IOWindow::new(&mut outer, off, Some(10));
    let mut b = [0u8; 2];
    ctx.steps(4);
    let r1 = inner.seek(SeekFrom::Start(seek));
    let r2 = inner.read(&mut b);
    ctx.note(|| format!("base {base:#x} inner offset {off}: seek {seek} -> {r1:?}, read -> {r2:?} {b:?}"));
    ensure!(matches!(r1, Ok(p) if p == seek) && matches!(r2, Ok(2)), "nested window: seek {r1:?} read {r2:?}");
    let at = base + off + seek;
    ensure!(b == [(at % 251) as u8, ((at + 1) % 251) as u8], "nested window read the wrong bytes");
    let r3 = inner.seek(SeekFrom::Current(1));
    let r4 = inner.read_exact(&mut b);
    let fits = seek + 3 + 2 <= 10;
    ensure!(matches!(r3, Ok(p) if p == seek + 3), "relative seek {r3:?}");
    ensure!(r4.is_ok() == fits, "read_exact {r4:?}");
    if fits {
        ensure!(b == [((at + 3) % 251) as u8, ((at + 4) % 251) as u8], "nested window read_exact got the wrong bytes");
    }
    ctx.state(mix(base, mix(off, seek)));
    ctx.observe(at);
    Ok(())
}

/// Windows and positions where offsets do not fit in 64 bits: nothing outside may be touched.
fn h11_edge(ctx: &Ctx) -> R {
    ctx.nontrivial();
    let vals = [0u64, 1, 4, 9, 1 << 62, i64::MAX as u64, 1 << 63, u64::MAX - 5, u64::MAX - 1, u64::MAX];
    let start = *ctx.pick(&vals);
    let length = match ctx.choose(vals.len() + 1) {
        0 => None,
        k => Some(vals[k - 1]),
    };
    let mut f = MemFile::with((0..N as u8).map(|i| 0x10 + i).collect());
    let model = f.data.clone();
    let mut w = IOWindow::new(&mut f, start, length);
    let mut pos = 0u64;
    for _ in 0..ctx.by_tier(2, 3) {
        let k = ctx.choose(vals.len() * 3);
        let v = vals[k / 3];
        let sk = match k % 3 {
            0 => SeekFrom::Start(v),
            1 => SeekFrom::Current(v as i64),
            _ => SeekFrom::End(v as i64),
        };
        ctx.step();
        let r = w.seek(sk);
        ctx.note(|| format!("window at {start:#x} length {length:x?}, position {pos:#x}: {sk:x?} -> {r:x?}"));
        let target: Option<i128> = match sk {
            SeekFrom::Start(s) => Some(s as i128),
            SeekFrom::Current(d) => Some(pos as i128 + d as i128),
            SeekFrom::End(d) => length.map(|l| l as i128 + d as i128),
        };
        match (target, &r) {
            (None, Err(_)) => {}
            (Some(t), Ok(p)) if t >= 0 && *p as i128 == t => pos = *p,
            // before the window: clamped to its start
            (Some(t), Ok(0)) if t < 0 => pos = 0,
            (Some(t), Err(_)) if t < 0 => {}
            // not a position a source can have
            (Some(t), Err(_)) if start as i128 + t > i64::MAX as i128 || length.is_some_and(|l| start.checked_add(l).is_none()) => {}
            (Some(t), Ok(p)) if start as i128 + t > u64::MAX as i128 && *p == u64::MAX - start => pos = *p,
            x => fail!("{sk:x?} at {pos:#x} gives {:x?}, the target is {target:x?}", x.1),
        }
        ctx.step();
        let mut b = [0u8; 3];
        let r = w.read(&mut b);
        let at = start as u128 + pos as u128;
        let avail = if at >= N as u128 { 0 } else { (N as u64 - at as u64).min(length.map_or(u64::MAX, |l| l.saturating_sub(pos))).min(3) as usize };
        match r {
            Ok(n) => {
                ensure!(n <= avail && (n > 0 || avail == 0), "a read at {pos:#x} of the window at {start:#x} returns {n} bytes, {avail} are there");
                ensure!(n == 0 || b[..n] == model[at as usize..at as usize + n], "a read at {pos:#x} of the window at {start:#x} returns {b:x?}");
                pos += n as u64;
            }
            Err(e) => ensure!(avail == 0, "a read at {pos:#x} of the window at {start:#x} fails: {e}"),
        }
        ctx.state(mix(mix(start, length.unwrap_or(77)), pos));
    }
    ctx.observe(pos);
    Ok(())
}

/// A source that fails, is interrupted or transfers a single byte at any operation.
fn h11_faults(ctx: &Ctx) -> R {
    let src: Vec<u8> = (0..N as u8).map(|i| 0x10 + i).collect();
    let (start, length) = *ctx.pick(&[(0u64, None), (2, None), (2, Some(5u64)), (4, Some(20))]);
    let init = *ctx.pick(&[0u64, 5]);
    let mut model = src.clone();
    let mut file = MemFile::with(src);
    file.pos = init;
    let log = RefCell::new(vec![]);
    let f = Faulty::new(file, |op, len| {
        let acts: &[Act] = match op {
            Op::Read | Op::Write if len > 1 => &[Act::Ok, Act::Fail, Act::Intr, Act::One],
            _ => &[Act::Ok, Act::Fail, Act::Intr],
        };
        let a = acts[ctx.choose_dev(acts.len())];
        if a != Act::Ok {
            log.borrow_mut().push((op, a));
        }
        a
    });
    ctx.note(|| format!("source of {N} bytes at position {init}, window start {start} length {length:?}"));
    let mut w = IOWindow::new(f.clone(), start, length);
    let mut pos = 0u64;
    let mut stamp = 0xA0u8;
    for _ in 0..ctx.by_tier(3, 4) {
        let op = ctx.choose(10);
        ctx.step();
        log.borrow_mut().clear();
        let left = length.map_or(u64::MAX, |l| l.saturating_sub(pos));
        let at = start + pos;
        let avail = (model.len() as u64).saturating_sub(at).min(left) as usize;
        // where the window may stand after a failure
        let mut may: Vec<u64> = vec![pos];
        let mut failed = None;
        match op {
            0 | 1 => {
                let n = [2usize, 7][op];
                let mut buf = vec![0xEE; n];
                let r = w.read(&mut buf);
                ctx.note(|| format!("read {n} with {:?} -> {r:?}", log.borrow()));
                match r {
                    Ok(k) => {
                        ensure!(k <= n.min(avail) && (k > 0 || avail == 0), "read of {n} at {pos} returned {k} bytes, {avail} are there");
                        ensure!(k == 0 || buf[..k] == model[at as usize..at as usize + k], "read at {pos} returned {:?}", &buf[..k]);
                        pos += k as u64;
                    }
                    Err(e) => failed = Some(e.to_string()),
                }
            }
            2 => {
                let n = 3usize;
                let mut buf = vec![0xEE; n];
                let r = w.read_exact(&mut buf);
                ctx.note(|| format!("read_exact {n} with {:?} -> {r:?}", log.borrow()));
                match r {
                    Ok(()) => {
                        ensure!(n <= avail, "read_exact of {n} at {pos} succeeded although only {avail} bytes are in the window");
                        ensure!(buf == model[at as usize..at as usize + n], "read_exact at {pos} returned {buf:?}");
                        pos += n as u64;
                    }
                    Err(e) => {
                        may.extend(pos..=pos + n as u64);
                        if n <= avail {
                            failed = Some(e.to_string());
                        } else {
                            failed = Some(String::new());
                        }
                    }
                }
            }
            3 => {
                let data = [stamp, stamp + 1];
                stamp = stamp.wrapping_add(0x10);
                let r = w.write(&data);
                ctx.note(|| format!("write 2 with {:?} -> {r:?}", log.borrow()));
                match r {
                    Ok(k) => {
                        let room = left.min(2) as usize;
                        ensure!(k <= room && (k > 0 || room == 0), "write of 2 at {pos} stored {k} bytes, the window has room for {room}");
                        if k > 0 {
                            let end = at as usize + k;
                            if model.len() < end {
                                model.resize(end, 0);
                            }
                            model[at as usize..end].copy_from_slice(&data[..k]);
                        }
                        pos += k as u64;
                    }
                    Err(e) => failed = Some(e.to_string()),
                }
            }
            4 => {
                let r = w.flush();
                ctx.note(|| format!("flush with {:?} -> {r:?}", log.borrow()));
                match r {
                    Ok(()) => ensure!(!f.0.borrow().file.unflushed, "flush reports success, but the source was not flushed"),
                    Err(e) => failed = Some(e.to_string()),
                }
            }
            _ => {
                let sk = [SeekFrom::Start(1), SeekFrom::Start(0), SeekFrom::Current(1), SeekFrom::Current(-1), SeekFrom::End(-1)][op - 5];
                let r = w.seek(sk);
                ctx.note(|| format!("{sk:?} with {:?} -> {r:?}", log.borrow()));
                let target: Option<i64> = match sk {
                    SeekFrom::Start(s) => Some(s as i64),
                    SeekFrom::Current(d) => Some(pos as i64 + d),
                    SeekFrom::End(d) => length.map(|l| l as i64 + d),
                };
                match (target, r) {
                    (None, Err(_)) => {}
                    (Some(t), Ok(p)) if p as i64 == t.max(0) => pos = p,
                    (Some(t), Err(_)) if t < 0 => {}
                    (Some(t), Err(e)) => {
                        may.push(t as u64);
                        failed = Some(e.to_string());
                    }
                    (t, Ok(p)) => fail!("{sk:?} at {pos} returned {p}, expected {t:?}"),
                }
            }
        }
        if let Some(e) = failed {
            ensure!(e.is_empty() || !log.borrow().is_empty(), "operation {op} at {pos} fails although the source works: {e}");
            match w.stream_position() {
                Ok(p) if may.contains(&p) => pos = p,
                x => fail!("the window stands at {x:?} after a failure at {pos}"),
            }
        }
        match w.stream_position() {
            Ok(p) if p == pos => {}
            x => fail!("window reports position {x:?}, expected {pos}"),
        }
        let now = f.data();
        ensure!(now == model, "source is {now:x?}, expected {model:x?}");
        ctx.state(mix(mix(mix(start, length.unwrap_or(99)), pos), hash_bytes(&model)));
    }
    if ctx.deviations() > 0 {
        ctx.nontrivial();
    }
    ctx.observe_bytes(&model);
    ctx.observe(pos);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C11",
        level: "model_checking",
        rule: "each execution is one window and one operation sequence on the real IOWindow over an in-memory file, compared after every step with a reference; a state is (window, position, source content)",
        bounds: "wide: 5 starts x 6 lengths x 3 initial positions, all sequences of 3 (quick) / 4 (thorough) of 27 operations; deep: 3x3x2 windows, all sequences of 4 (5); nested windows and starts up to 2^63; edge: 10 starts x 11 lengths up to 2^64-1, all sequences of 2 (3) of 30 extreme seeks, each followed by a read; faults: 8 windows, all sequences of 3 (4) of 10 operations with one (two) failures, interruptions or one-byte transfers of the source at every operation",
        assumptions: &["seeks before the window may be refused or clamped to its start"],
        scenarios: vec![
            Scenario::new("wide", h11_wide),
            Scenario::new("deep", h11_deep),
            Scenario::new("far", h11_far),
            Scenario::new("edge", h11_edge),
            Scenario::new("faults", h11_faults).dev(1, 2),
        ],
    }]
}
