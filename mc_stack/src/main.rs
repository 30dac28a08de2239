//! Unoptimized library code on a thread with a given stack.
//! mc_stack OPERATION KIB DIRECTORY: exit 0 if the operation came to an end.
#![allow(dead_code)]
#[path = "../../mc/src/common.rs"]
mod common;
#[path = "../../mc/src/dirs.rs"]
mod dirs;

use common::*;
use disc_riider::{builder, Fst, FstNode, FstToBytes, WiiIsoReader};
use mclib::oracle::{self as o, DataSpec, Node, PartSpec, GD};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::path::Path;

fn image() -> Vec<u8> {
    let header = o::disc_header(b"Stack", 5);
    let mut data = DataSpec {
        header: header.clone(),
        bi2: o::content(1, 0x2000).to_vec(),
        apploader: o::apploader(0x101, 0x20, 2),
        dol_off: 0x4000,
        dol: o::dol(0x323, 3, 3),
        fst_off: 0x6000,
        tree: vec![Node::Dir { name: b"THP".to_vec(), kids: vec![Node::File { name: b"Demo".to_vec(), off: 0x9000, len: 0x20 }] }],
        files: vec![],
        total: GD,
    }
    .build();
    data[0x9000..0x9020].fill(7);
    o::image(&header, &o::region(5), &[PartSpec::new(0, 0x50000, 9, data)])
}
/// Directories that each contain the next one.
fn nested(n: u32) -> Vec<u8> {
    let mut t = vec![];
    for i in 0..n + 1 {
        for w in [0x0100_0000u32 + (i > 0) as u32, i.saturating_sub(1), n + 1] {
            t.extend(w.to_be_bytes());
        }
    }
    t.extend(b"\0x\0");
    t
}
fn run(op: usize, dir: &Path) -> Result<(), String> {
    let e = |e: &dyn std::fmt::Display| e.to_string();
    match op {
        // everything a reader offers
        0 | 1 => {
            let img = image();
            let mut rd = WiiIsoReader::open(Cursor::new(&img)).map_err(|x| e(&x))?;
            let p = rd.partitions()[0].clone();
            let mut pi = rd.open_partition(p).map_err(|x| e(&x))?;
            pi.read_tmd(&mut rd).map_err(|x| e(&x))?;
            pi.read_certificates(&mut rd).map_err(|x| e(&x))?;
            pi.read_dol(&mut rd).map_err(|x| e(&x))?;
            let mut b = vec![];
            let mut f = pi.open_file(&mut rd, "THP/Demo").ok_or("no file")?;
            f.seek(SeekFrom::Start(0)).map_err(|x| e(&x))?;
            f.read_to_end(&mut b).map_err(|x| e(&x))?;
            drop(f);
            if b != [7; 0x20] {
                return Err("wrong data".into());
            }
            if op == 1 {
                pi.extract_system_files(dir, &mut rd).map_err(|x| e(&x))?;
            }
        }
        // builds
        2 | 3 => {
            let s = dirs::Src::standard();
            s.write(dir).map_err(|_| "scratch")?;
            if op == 3 {
                // as deep as a path can be
                let mut p = dir.join("DATA/files");
                while p.as_os_str().len() < 4000 {
                    p.push("d");
                }
                std::fs::create_dir_all(&p).map_err(|x| e(&x))?;
                std::fs::write(p.join("f"), b"x").map_err(|x| e(&x))?;
            }
            let mut dest = MemFile::new();
            let r = builder::build_from_directory(dir, &mut dest, &mut |_| {});
            if op == 2 {
                r.map_err(|x| e(&x))?;
            }
        }
        4 => {
            std::fs::write(dir.join("src"), image()).map_err(|x| e(&x))?;
            std::fs::write(dir.join("dest"), b"").map_err(|x| e(&x))?;
            builder::build_copy(&dir.join("src"), &dir.join("dest")).map_err(|x| e(&x))?;
        }
        // the deepest table that is accepted for certain, and a hostile one
        5 => {
            let mut f = Fst::read(&mut Cursor::new(nested(250)), 0).map_err(|x| e(&x))?;
            let mut n = 0;
            f.callback_all_files::<std::io::Error, _>(&mut |_, _| {
                n += 1;
                Ok(())
            })
            .map_err(|x| e(&x))?;
            f.callback_all_files_mut::<std::io::Error, _>(&mut |_, _| {
                n += 1;
                Ok(())
            })
            .map_err(|x| e(&x))?;
            f.print_tree();
            let deep = vec!["x"; 249].join("/");
            f.add_node_path(&format!("{deep}/y"), FstNode::create_file("z".into())).map_err(|_| "not added")?;
            f.find_node_path(&format!("{deep}/y/z")).ok_or("not found")?;
            f.fix_ordering();
            if n != 500 {
                return Err(format!("{n} nodes"));
            }
            let b = FstToBytes::try_from(f).map_err(|x| e(&x))?;
            b.write_to(&mut Cursor::new(vec![])).map_err(|x| e(&x))?;
        }
        6 => {
            let _ = Fst::read(&mut Cursor::new(nested(200_000)), 0);
        }
        _ => return Err("no such operation".into()),
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (op, kib) = (a[1].parse().unwrap(), a[2].parse::<usize>().unwrap());
    let dir = std::path::PathBuf::from(&a[3]);
    let r = std::thread::Builder::new().stack_size(kib << 10).spawn(move || run(op, &dir)).unwrap().join();
    match r {
        Ok(Ok(())) => println!("done"),
        Ok(Err(e)) => {
            println!("error: {e}");
            std::process::exit(3)
        }
        Err(_) => {
            println!("panic");
            std::process::exit(4)
        }
    }
}
