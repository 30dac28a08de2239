//! Partition definitions, in-memory files and comparisons shared by the harnesses.
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::builder::{PartitionAddError, WiiDiscBuilder, WiiPartitionDefinition};
use disc_riider::structs::{Certificate, DiscHeader, Ticket, WiiPartType, TMD};
use disc_riider::{Fst, FstNode, WiiIsoReader, WiiPartitionReadInfo};
use mclib::oracle::{self as o, diff, Node, GD};
use mclib::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

// ---------------------------------------------------------------- files

/// A plain in-memory file; knows whether everything written was flushed.
pub struct MemFile {
    pub data: Vec<u8>,
    pub pos: u64,
    pub cap: u64,
    pub unflushed: bool,
}
impl MemFile {
    pub fn new() -> Self {
        MemFile { data: Vec::new(), pos: 0, cap: 400 << 20, unflushed: false }
    }
    pub fn with(data: Vec<u8>) -> Self {
        MemFile { data, pos: 0, cap: 400 << 20, unflushed: false }
    }
    pub fn seek_to(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(s) => s as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if n < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
impl Read for MemFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (self.data.len() as u64).saturating_sub(self.pos).min(buf.len() as u64) as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[self.pos as usize..][..n]);
            self.pos += n as u64;
        }
        Ok(n)
    }
}
impl Write for MemFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let end = self.pos + buf.len() as u64;
        if end > self.cap {
            return Err(io::Error::new(io::ErrorKind::Other, "harness: destination grew beyond its cap"));
        }
        if end > self.data.len() as u64 {
            self.data.resize(end as usize, 0);
        }
        self.data[self.pos as usize..end as usize].copy_from_slice(buf);
        self.pos = end;
        self.unflushed = true;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.unflushed = false;
        Ok(())
    }
}
impl Seek for MemFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.seek_to(p)
    }
}

/// A huge file of deduplicated 64 KiB pages (for images beyond 4 GiB).
pub struct PageFile {
    pub pages: HashMap<u64, Arc<Vec<u8>>>,
    pool: HashMap<u64, Arc<Vec<u8>>>,
    pub len: u64,
    pos: u64,
}
const PAGE: u64 = 0x10000;
impl PageFile {
    pub fn new() -> Self {
        PageFile { pages: HashMap::new(), pool: HashMap::new(), len: 0, pos: 0 }
    }
    pub fn put(&mut self, off: u64, b: &[u8]) {
        let mut done = 0usize;
        while done < b.len() {
            let p = off + done as u64;
            let (pg, o) = (p / PAGE, (p % PAGE) as usize);
            let n = (PAGE as usize - o).min(b.len() - done);
            let src = &b[done..done + n];
            let page = if n == PAGE as usize {
                let h = hash_bytes(src);
                match self.pool.get(&h) {
                    Some(a) if a.as_slice() == src => a.clone(),
                    _ => {
                        let a = Arc::new(src.to_vec());
                        self.pool.insert(h, a.clone());
                        a
                    }
                }
            } else {
                let mut v = match self.pages.get(&pg) {
                    Some(a) => a.as_ref().clone(),
                    None => vec![0; PAGE as usize],
                };
                v[o..o + n].copy_from_slice(src);
                Arc::new(v)
            };
            self.pages.insert(pg, page);
            done += n;
        }
        self.len = self.len.max(off + b.len() as u64);
    }
}
impl o::Image for PageFile {
    fn size(&self) -> u64 {
        self.len
    }
    fn read_at(&self, off: u64, buf: &mut [u8]) -> bool {
        if off + buf.len() as u64 > self.len {
            return false;
        }
        let mut done = 0;
        while done < buf.len() {
            let p = off + done as u64;
            let (pg, o) = (p / PAGE, (p % PAGE) as usize);
            let n = (PAGE as usize - o).min(buf.len() - done);
            match self.pages.get(&pg) {
                Some(a) => buf[done..done + n].copy_from_slice(&a[o..o + n]),
                None => buf[done..done + n].fill(0),
            }
            done += n;
        }
        true
    }
}
impl Read for PageFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.len.saturating_sub(self.pos).min(buf.len() as u64) as usize;
        if n > 0 {
            let p = self.pos;
            o::Image::read_at(self, p, &mut buf[..n]);
            self.pos += n as u64;
        }
        Ok(n)
    }
}
impl Write for PageFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.pos + buf.len() as u64 > 20 << 30 {
            return Err(io::Error::new(io::ErrorKind::Other, "harness: destination grew beyond its cap"));
        }
        let p = self.pos;
        self.put(p, buf);
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for PageFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(s) => s as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if n < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

// ---------------------------------------------------------------- definitions

#[derive(Clone, Debug)]
pub enum T {
    F { name: String, id: usize, size: usize, pad: u32 },
    D { name: String, kids: Vec<T> },
}
impl T {
    pub fn f(name: &str, id: usize, size: usize) -> T {
        T::F { name: name.into(), id, size, pad: 0 }
    }
    pub fn fp(name: &str, id: usize, size: usize, pad: u32) -> T {
        T::F { name: name.into(), id, size, pad }
    }
    pub fn d(name: &str, kids: Vec<T>) -> T {
        T::D { name: name.into(), kids }
    }
    pub fn name(&self) -> &str {
        match self {
            T::F { name, .. } | T::D { name, .. } => name,
        }
    }
}
pub fn show(t: &[T]) -> String {
    t.iter()
        .map(|n| match n {
            T::F { name, id, size, pad } => {
                let kind = match *id {
                    o::ZERO => "(zeros)",
                    o::ONES => "(ones)",
                    o::TAIL0 => "(zeros at the end)",
                    o::LEAD0 => "(zeros at the start)",
                    o::MIXED => "(zeros in parts)",
                    o::SPARSE => "(sparse)",
                    _ => "",
                };
                if *pad > 0 {
                    format!("{name}:{size:#x}{kind}+{pad:#x}")
                } else {
                    format!("{name}:{size:#x}{kind}")
                }
            }
            T::D { name, kids } => format!("{name}/[{}]", show(kids)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
/// Contents that are not random, and an ordinary one.
pub const KINDS: [usize; 7] = [1, o::ZERO, o::ONES, o::TAIL0, o::LEAD0, o::MIXED, o::SPARSE];
/// (path, id, size, pad) of all files in order
pub fn files(t: &[T]) -> Vec<(Vec<String>, usize, usize, u32)> {
    fn rec(t: &[T], p: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize, usize, u32)>) {
        for n in t {
            p.push(n.name().to_string());
            match n {
                T::F { id, size, pad, .. } => out.push((p.clone(), *id, *size, *pad)),
                T::D { kids, .. } => rec(kids, p, out),
            }
            p.pop();
        }
    }
    let mut out = vec![];
    rec(t, &mut vec![], &mut out);
    out
}

pub fn to_fst_nodes(t: &[T], sizes: bool) -> Vec<FstNode> {
    t.iter()
        .map(|n| match n {
            T::F { name, size, .. } => FstNode::File {
                name: name.clone(),
                offset: 0,
                length: if sizes { *size as u32 } else { 0 },
            },
            T::D { name, kids } => FstNode::Directory {
                name: name.clone(),
                files: to_fst_nodes(kids, sizes),
            },
        })
        .collect()
}
pub fn to_fst(t: &[T], sizes: bool) -> Fst {
    let mut f = Fst::new();
    *f.get_entries_mut() = to_fst_nodes(t, sizes);
    f
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct DefErr(pub u32);
impl std::fmt::Display for DefErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "definition error {}", self.0)
    }
}
impl std::error::Error for DefErr {}

pub struct Def {
    pub hdr: Vec<u8>,
    pub bi2: Vec<u8>,
    pub app: Vec<u8>,
    pub dol: Vec<u8>,
    pub tree: Vec<T>,
    pub sizes_known: bool,
    pub owned: bool,
    /// fail the n-th callback (0-based)
    pub fail_at: Option<u32>,
    /// 0 custom, 1 permission denied, 2 interrupted, 3 binrw assertion
    pub fail_kind: u8,
    pub calls: u32,
    lookup: Option<HashMap<Vec<String>, (usize, usize, u32)>>,
}
impl Clone for Def {
    fn clone(&self) -> Self {
        Def {
            hdr: self.hdr.clone(),
            bi2: self.bi2.clone(),
            app: self.app.clone(),
            dol: self.dol.clone(),
            tree: self.tree.clone(),
            sizes_known: self.sizes_known,
            owned: self.owned,
            fail_at: self.fail_at,
            fail_kind: self.fail_kind,
            calls: 0,
            lookup: None,
        }
    }
}
impl Def {
    pub fn new(tree: Vec<T>) -> Self {
        Def {
            hdr: o::disc_header(b"Model Checking Disc", 9),
            bi2: o::content(201, 0x2000).to_vec(),
            app: o::apploader(0x1000, 0x400, 202),
            dol: o::dol(0x500, 3, 203),
            tree,
            sizes_known: true,
            owned: false,
            fail_at: None,
            fail_kind: 0,
            calls: 0,
            lookup: None,
        }
    }
    fn tick(&mut self) -> Result<(), PartitionAddError<DefErr>> {
        let c = self.calls;
        self.calls += 1;
        if self.fail_at == Some(c) {
            return Err(match self.fail_kind {
                0 => PartitionAddError::Custom(DefErr(c)),
                1 => io::Error::new(io::ErrorKind::PermissionDenied, "marker").into(),
                2 => io::Error::from(io::ErrorKind::Interrupted).into(),
                _ => binrw::Error::AssertFail { pos: 42, message: "marker".into() }.into(),
            });
        }
        Ok(())
    }
    pub fn has_file_data(&self) -> bool {
        files(&self.tree).iter().any(|f| f.2 > 0)
    }
}
impl WiiPartitionDefinition<DefErr> for Def {
    fn get_disc_header(&mut self) -> Result<DiscHeader, PartitionAddError<DefErr>> {
        self.tick()?;
        Ok(Cursor::new(&self.hdr).read_be::<DiscHeader>()?)
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<DefErr>> {
        self.tick()?;
        Ok(Cow::Borrowed(&self.bi2))
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<DefErr>> {
        self.tick()?;
        Ok(Cow::Owned(self.app.clone()))
    }
    fn get_fst(&mut self) -> Result<Fst, PartitionAddError<DefErr>> {
        self.tick()?;
        Ok(to_fst(&self.tree, self.sizes_known))
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<DefErr>> {
        self.tick()?;
        Ok(Cow::Borrowed(&self.dol))
    }
    fn get_file_data<'a>(
        &'a mut self,
        path: &Vec<String>,
    ) -> Result<(Cow<'a, [u8]>, u32), PartitionAddError<DefErr>> {
        self.tick()?;
        if self.lookup.is_none() {
            self.lookup = Some(
                files(&self.tree).into_iter().map(|(p, i, s, d)| (p, (i, s, d))).collect(),
            );
        }
        match self.lookup.as_ref().and_then(|l| l.get(path)) {
            Some(&(id, size, pad)) => {
                let c = o::content(id, size);
                Ok((if self.owned { Cow::Owned(c.to_vec()) } else { Cow::Borrowed(c) }, pad))
            }
            None => Err(PartitionAddError::Custom(DefErr(9_999_999))),
        }
    }
}

#[derive(Clone)]
pub struct PartIn {
    pub ptype: u32,
    pub ticket: Vec<u8>,
    pub tmd: Vec<u8>,
    pub certs: Vec<u8>,
    pub def: Def,
}
impl PartIn {
    pub fn new(ptype: u32, seed: u8, def: Def) -> Self {
        let mut key = [0u8; 16];
        key.copy_from_slice(o::content(seed as usize + 300, 16));
        PartIn {
            ptype,
            ticket: o::ticket(&key, seed & 1, &[0, 1, 0, 0, b'R', b'M', b'C', seed], seed),
            tmd: o::tmd(1, seed),
            certs: o::certs_default(seed),
            def,
        }
    }
}
pub fn ptype(t: u32) -> WiiPartType {
    match t {
        0 => WiiPartType::Data,
        1 => WiiPartType::Update,
        _ => WiiPartType::Channel,
    }
}

/// Everything a disc is built from.
#[derive(Clone)]
pub struct DiscIn {
    pub header: Vec<u8>,
    pub region: [u8; 32],
    pub parts: Vec<PartIn>,
}
impl DiscIn {
    pub fn one(p: PartIn) -> Self {
        DiscIn { header: o::disc_header(b"Disc Title", 33), region: o::region(77), parts: vec![p] }
    }
    pub fn describe(&self) -> String {
        self.parts
            .iter()
            .map(|p| {
                format!(
                    "partition type={} system files {:016x} bi2={:#x} apploader={:#x} dol={:#x} tmd={:#x} sizes_known={} tree=[{}]",
                    p.ptype,
                    [&p.ticket, &p.tmd, &p.certs, &p.def.hdr, &p.def.bi2, &p.def.app, &p.def.dol].iter().fold(0, |h, b| mix(h, hash_bytes(b))),
                    p.def.bi2.len(),
                    p.def.app.len(),
                    p.def.dol.len(),
                    p.tmd.len(),
                    p.def.sizes_known,
                    if p.def.tree.len() > 12 { format!("{} entries", p.def.tree.len()) } else { show(&p.def.tree) }
                )
            })
            .collect::<Vec<_>>()
            .join("; ")
    }
}

pub fn parse<X>(b: &[u8], what: &str) -> R<X>
where
    X: binrw::BinRead,
    for<'a> X::Args<'a>: Default + binrw::__private::Required,
{
    match Cursor::new(b).read_be::<X>() {
        Ok(x) => Ok(x),
        Err(e) => viol(format!("a well-formed {what} cannot be decoded: {e}")),
    }
}

/// Adds one partition; the caller sees the library's result.
pub fn add<WS: Read + Write + Seek>(
    b: &mut WiiDiscBuilder<WS>,
    p: &mut PartIn,
    progress: &mut dyn FnMut(u8),
) -> R<Result<(), PartitionAddError<DefErr>>> {
    let ticket: Ticket = parse(&p.ticket, "ticket")?;
    let tmd: TMD = parse(&p.tmd, "TMD")?;
    let certs: [Certificate; 3] = parse(&p.certs, "certificate chain")?;
    Ok(b.add_partition(ptype(p.ptype), ticket, tmd, certs, &mut p.def, &mut |x| progress(x)))
}

/// Builds a whole disc; any error is a violation.
pub fn build_into<WS: Read + Write + Seek>(
    ctx: &Ctx,
    dest: WS,
    disc: &DiscIn,
    progress: &mut dyn FnMut(u8),
) -> R<()> {
    let hdr: DiscHeader = parse(&disc.header, "disc header")?;
    let mut b = WiiDiscBuilder::create(dest, hdr, disc.region);
    for p in &disc.parts {
        let mut p = p.clone();
        ctx.step();
        if let Err(e) = add(&mut b, &mut p, progress)? {
            fail!("adding a valid partition failed: {e}");
        }
    }
    ctx.step();
    if let Err(e) = b.finish() {
        fail!("finishing the image failed: {e}");
    }
    Ok(())
}
pub fn build_mem(ctx: &Ctx, disc: &DiscIn) -> R<Vec<u8>> {
    let mut f = MemFile::new();
    build_into(ctx, &mut f, disc, &mut |_| {})?;
    Ok(f.data)
}

// ---------------------------------------------------------------- comparisons through the reader

pub fn ser<X>(x: &X) -> Vec<u8>
where
    X: binrw::BinWrite,
    for<'a> X::Args<'a>: Default + binrw::__private::Required,
{
    let mut c = Cursor::new(Vec::new());
    match c.write_be(x) {
        Ok(()) => c.into_inner(),
        Err(_) => Vec::new(),
    }
}

pub fn lib_tree(v: &[FstNode]) -> Vec<Node> {
    v.iter()
        .map(|n| match n {
            FstNode::File { name, offset, length } => Node::File {
                name: name.as_bytes().to_vec(),
                off: *offset,
                len: *length,
            },
            FstNode::Directory { name, files } => Node::Dir {
                name: name.as_bytes().to_vec(),
                kids: lib_tree(files),
            },
        })
        .collect()
}

/// Structure, names and lengths must agree (offsets are the builder's business).
pub fn same_shape(got: &[Node], want: &[T]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!(
            "{} entries instead of {} (got [{}], want [{}])",
            got.len(),
            want.len(),
            o::show_tree(&got[..got.len().min(8)]),
            show(&want[..want.len().min(8)])
        ));
    }
    for (g, w) in got.iter().zip(want) {
        // as text or as it is stored
        if g.name() != w.name().as_bytes() && g.name() != encoding_rs::SHIFT_JIS.encode(w.name()).0.as_ref() {
            return Err(format!("name {:?} instead of {:?}", String::from_utf8_lossy(g.name()), w.name()));
        }
        match (g, w) {
            (Node::File { len, .. }, T::F { size, .. }) => {
                if *len as usize != *size {
                    return Err(format!("{}: length {len:#x} instead of {size:#x}", w.name()));
                }
            }
            (Node::Dir { kids, .. }, T::D { kids: k, .. }) => same_shape(kids, k)?,
            _ => return Err(format!("{}: file/directory confusion", w.name())),
        }
    }
    Ok(())
}

/// (path, offset, length) of files of an oracle tree
pub fn node_files(v: &[Node]) -> Vec<(Vec<Vec<u8>>, u64, u32)> {
    fn rec(v: &[Node], p: &mut Vec<Vec<u8>>, out: &mut Vec<(Vec<Vec<u8>>, u64, u32)>) {
        for n in v {
            p.push(n.name().to_vec());
            match n {
                Node::File { off, len, .. } => out.push((p.clone(), *off, *len)),
                Node::Dir { kids, .. } => rec(kids, p, out),
            }
            p.pop();
        }
    }
    let mut o = vec![];
    rec(v, &mut vec![], &mut o);
    o
}

pub fn bi2_expected(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v.resize(0x2000, 0);
    v
}

/// Header bytes with the builder-owned location fields blanked.
pub fn blank_hdr(h: &[u8]) -> Vec<u8> {
    let mut h = h.to_vec();
    if h.len() >= 0x430 {
        h[0x420..0x430].fill(0);
    }
    h
}
/// TMD bytes with the builder-owned fields blanked.
pub fn blank_tmd(t: &[u8]) -> Vec<u8> {
    let mut t = t.to_vec();
    if t.len() >= 0x208 {
        t[4..0x104].fill(0);
        t[0x19A..0x1D2].fill(0);
        t[0x1EC..0x208].fill(0);
    }
    t
}

pub struct ReadOpts {
    /// compare every file through all three access paths
    pub full: bool,
}

/// Compares one opened partition with its definition through the public reader.
pub fn verify_partition<RS: Read + Seek>(
    ctx: &Ctx,
    rd: &mut WiiIsoReader<RS>,
    pi: &mut WiiPartitionReadInfo,
    want: &PartIn,
    opts: &ReadOpts,
) -> R<()> {
    ensure!(pi.get_partition_type() == ptype(want.ptype), "partition type changed to {:?}", pi.get_partition_type());
    if let Some(d) = diff(&ser(&pi.get_partition_header().ticket), &want.ticket) {
        fail!("ticket differs: {d}");
    }
    if let Some(d) = diff(&blank_hdr(&ser(pi.get_encrypted_header())), &blank_hdr(&want.def.hdr)) {
        fail!("partition header differs: {d}");
    }
    ctx.steps(5);
    match pi.read_tmd(rd) {
        Ok(t) => {
            if let Some(d) = diff(&blank_tmd(&ser(&t)), &blank_tmd(&want.tmd)) {
                fail!("TMD differs: {d}");
            }
        }
        Err(e) => fail!("TMD cannot be read: {e}"),
    }
    match pi.read_certificates(rd) {
        Ok(c) => {
            if let Some(d) = diff(&ser(&c), &want.certs) {
                fail!("certificates differ: {d}");
            }
        }
        Err(e) => fail!("certificates cannot be read: {e}"),
    }
    match pi.read_bi2(rd) {
        Ok(b) => {
            if let Some(d) = diff(&b, &bi2_expected(&want.def.bi2)) {
                fail!("bi2 differs: {d}");
            }
        }
        Err(e) => fail!("bi2 cannot be read: {e}"),
    }
    match pi.read_apploader(rd) {
        Ok(b) => {
            if let Some(d) = diff(&b, &want.def.app) {
                fail!("apploader differs: {d}");
            }
        }
        Err(e) => fail!("apploader cannot be read: {e}"),
    }
    match pi.read_dol(rd) {
        Ok(b) => {
            if let Some(d) = diff(&b, &want.def.dol) {
                fail!("DOL differs: {d}");
            }
        }
        Err(e) => fail!("DOL cannot be read: {e}"),
    }
    let tree = lib_tree(pi.get_fst().get_entries());
    if let Err(e) = same_shape(&tree, &want.def.tree) {
        fail!("file tree differs: {e}");
    }
    let locs = node_files(&tree);
    let wants = files(&want.def.tree);
    let mut buf = Vec::new();
    for ((_, off, len), (path, id, size, _)) in locs.iter().zip(&wants) {
        let want_bytes = o::content(*id, *size);
        ctx.step();
        if let Err(e) = pi.get_crypto_reader(rd).read_into_vec(*off, *len as u64, &mut buf) {
            fail!("file {path:?}: read failed: {e}");
        }
        if let Some(d) = diff(&buf, want_bytes) {
            fail!("file {path:?} at {off:#x}: {d}");
        }
        if !opts.full {
            continue;
        }
        let p = path.join("/");
        ctx.step();
        match pi.open_file(rd, &p) {
            None => fail!("file {p} cannot be opened"),
            Some(mut f) => {
                buf.clear();
                if let Err(e) = f.read_to_end(&mut buf) {
                    fail!("opened file {p}: read failed: {e}");
                }
                if let Some(d) = diff(&buf, want_bytes) {
                    fail!("opened file {p}: {d}");
                }
            }
        }
        // piecewise, chunk size just off the block size
        ctx.step();
        let mut cr = pi.get_crypto_reader(rd);
        if let Err(e) = cr.seek(SeekFrom::Start(*off)) {
            fail!("file {p}: seek failed: {e}");
        }
        let mut chunk = vec![0u8; 0x7BFD];
        let mut done = 0usize;
        while done < *size {
            let n = chunk.len().min(*size - done);
            match cr.read(&mut chunk[..n]) {
                Ok(0) => fail!("file {p}: premature end at {done:#x}"),
                Ok(k) if k <= n => {
                    ensure!(chunk[..k] == want_bytes[done..done + k], "file {p}: piecewise read at {done:#x} is wrong");
                    done += k;
                }
                Ok(k) => fail!("file {p}: read of {n} bytes reports {k}"),
                Err(e) => fail!("file {p}: read failed: {e}"),
            }
        }
    }
    Ok(())
}

/// Opens an image with the library and compares everything with what it was built from.
pub fn verify_reader<RS: Read + Seek>(ctx: &Ctx, src: RS, disc: &DiscIn, opts: &ReadOpts) -> R<()> {
    ctx.step();
    let mut rd = match WiiIsoReader::open(src) {
        Ok(r) => r,
        Err(e) => fail!("the built image cannot be opened: {e}"),
    };
    if let Some(d) = diff(&ser(rd.get_header()), &disc.header) {
        fail!("disc header differs: {d}");
    }
    ensure!(rd.get_region() == &disc.region, "region data differs");
    let list: Vec<_> = rd.partitions().to_vec();
    ensure!(
        list.len() == disc.parts.len(),
        "{} partitions listed instead of {}",
        list.len(),
        disc.parts.len()
    );
    for (e, want) in list.iter().zip(&disc.parts) {
        ensure!(e.get_type() == ptype(want.ptype), "partition table lists type {:?} instead of {}", e.get_type(), want.ptype);
        ctx.step();
        let mut pi = match rd.open_partition(e.clone()) {
            Ok(p) => p,
            Err(err) => fail!("partition at {:#x} cannot be opened: {err}", e.get_offset()),
        };
        verify_partition(ctx, &mut rd, &mut pi, want, opts)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- nominal layout (coverage only)

fn al(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}
/// Where the builder is expected to put things. Only used to *choose* sizes
/// that land on boundaries; no verdict depends on it.
pub fn nominal_fst_off(app: usize, dol: usize) -> usize {
    let d = al(0x2440 + app, 0x20);
    al(d + dol, 0x20)
}
pub fn dol_size_for_fst_at(app: usize, fst_off: usize) -> usize {
    fst_off - al(0x2440 + app, 0x20)
}
pub fn nominal_data_start(fst_off: usize, tree: &[T]) -> usize {
    fn count(t: &[T]) -> (usize, usize) {
        t.iter().fold((0, 0), |(n, s), x| {
            let (a, b) = match x {
                T::D { kids, .. } => count(kids),
                _ => (0, 0),
            };
            (n + 1 + a, s + x.name().len() + 1 + b)
        })
    }
    let (n, s) = count(tree);
    al(fst_off + 12 * (n + 1) + 1 + s + 4, 0x40)
}

pub fn gd() -> usize {
    GD
}

pub struct CellLog<X>(pub RefCell<Vec<X>>);

// ---------------------------------------------------------------- misbehaving files

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Read,
    Write,
    Seek,
    Flush,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Ok,
    /// transfer one byte only
    One,
    /// transfer half of what was asked for (at least one byte)
    Half,
    Intr,
    Fail,
    Zero,
}
/// An in-memory file whose every operation first asks `hook` how to behave.
/// Clones share the file.
#[derive(Clone)]
pub struct Faulty<'a>(pub std::rc::Rc<RefCell<FaultyIn<'a>>>);
pub struct FaultyIn<'a> {
    pub file: MemFile,
    pub hook: Box<dyn FnMut(Op, usize) -> Act + 'a>,
    pub ops: u64,
}
impl<'a> Faulty<'a> {
    pub fn new(file: MemFile, hook: impl FnMut(Op, usize) -> Act + 'a) -> Self {
        Faulty(std::rc::Rc::new(RefCell::new(FaultyIn { file, hook: Box::new(hook), ops: 0 })))
    }
    pub fn data(&self) -> Vec<u8> {
        self.0.borrow().file.data.clone()
    }
}
fn injected() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "injected fault")
}
impl FaultyIn<'_> {
    fn act(&mut self, op: Op, n: usize) -> Act {
        self.ops += 1;
        (self.hook)(op, n)
    }
    fn cut(a: Act, n: usize) -> io::Result<usize> {
        match a {
            Act::Ok => Ok(n),
            Act::One => Ok(n.min(1)),
            Act::Half => Ok((n / 2).max(1).min(n)),
            Act::Intr => Err(io::ErrorKind::Interrupted.into()),
            Act::Fail => Err(injected()),
            Act::Zero => Ok(0),
        }
    }
}
impl Read for Faulty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let a = s.act(Op::Read, buf.len());
        let n = FaultyIn::cut(a, buf.len())?;
        s.file.read(&mut buf[..n])
    }
}
impl Write for Faulty<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let a = s.act(Op::Write, buf.len());
        let n = FaultyIn::cut(a, buf.len())?;
        s.file.write(&buf[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        match s.act(Op::Flush, 0) {
            Act::Intr => Err(io::ErrorKind::Interrupted.into()),
            Act::Fail => Err(injected()),
            _ => s.file.flush(),
        }
    }
}
impl Seek for Faulty<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut s = self.0.borrow_mut();
        match s.act(Op::Seek, 0) {
            Act::Intr => Err(io::ErrorKind::Interrupted.into()),
            Act::Fail => Err(injected()),
            _ => s.file.seek(p),
        }
    }
}

// ---------------------------------------------------------------- memory

/// The system allocator, counting what the current thread holds.
pub struct Counting;
thread_local! {
    // bytes held, most bytes held, since the last `memory_of`
    static HELD: std::cell::Cell<(i64, i64)> = const { std::cell::Cell::new((0, 0)) };
}
fn count(d: i64) {
    let _ = HELD.try_with(|h| {
        let (held, most) = h.get();
        h.set((held + d, most.max(held + d)));
    });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
}
/// Runs `f` and says how much memory it held at most beyond what was held before.
pub fn memory_of<T>(f: impl FnOnce() -> T) -> (T, u64) {
    HELD.with(|h| h.set((0, 0)));
    let r = f();
    (r, HELD.with(|h| h.get().1.max(0) as u64))
}
