//! Builders for NTFS structures. Every expected value used by the checks is taken from what is put
//! in here, never from parsing the result.
#![allow(dead_code)]

use crate::disk::Img;
use std::sync::Arc;

pub fn w16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes())
}
pub fn w32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes())
}
pub fn w64(b: &mut [u8], o: usize, v: u64) {
    b[o..o + 8].copy_from_slice(&v.to_le_bytes())
}
pub fn align8(n: usize) -> usize {
    (n + 7) & !7
}
pub fn u16s(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}
pub fn u16bytes(s: &[u16]) -> Vec<u8> {
    s.iter().flat_map(|c| c.to_le_bytes()).collect()
}

// ------------------------------------------------------------------ runs

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Run {
    pub len: u64,
    pub lcn: Option<u64>,
}
pub fn run(len: u64, lcn: u64) -> Run {
    Run { len, lcn: Some(lcn) }
}
pub fn hole(len: u64) -> Run {
    Run { len, lcn: None }
}
fn min_unsigned(v: u64) -> usize {
    let mut n = 1;
    // real NTFS keeps the count positive as a signed number; one byte more when the top bit is set
    while n < 8 && (v >> (8 * n - 1)) != 0 {
        n += 1;
    }
    n
}
fn min_signed(v: i64) -> usize {
    let mut n = 1;
    while n < 8 && (v << (64 - 8 * n)) >> (64 - 8 * n) != v {
        n += 1;
    }
    n
}
/// Encodes runs; `extra` widens every integer by that many bytes (redundant sign bytes).
pub fn encode_runs_w(runs: &[Run], extra: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut prev = 0i64;
    for r in runs {
        let ln = (min_unsigned(r.len) + extra).min(8);
        match r.lcn {
            Some(l) => {
                let d = (l as i64).wrapping_sub(prev);
                prev = l as i64;
                let on = (min_signed(d) + extra).min(8);
                out.push((on as u8) << 4 | ln as u8);
                out.extend(&r.len.to_le_bytes()[..ln]);
                out.extend(&d.to_le_bytes()[..on]);
            }
            None => {
                out.push(ln as u8);
                out.extend(&r.len.to_le_bytes()[..ln]);
            }
        }
    }
    out.push(0);
    out
}
pub fn encode_runs(runs: &[Run]) -> Vec<u8> {
    encode_runs_w(runs, 0)
}
pub fn runs_clusters(runs: &[Run]) -> u64 {
    runs.iter().map(|r| r.len).sum()
}
/// On-disk address of stream byte `off` (None for a hole or beyond the runs).
pub fn addr_of(runs: &[Run], cs: u64, off: u64) -> Option<u64> {
    let mut base = 0;
    for r in runs {
        let n = r.len * cs;
        if off < base + n {
            return r.lcn.map(|l| l * cs + (off - base));
        }
        base += n;
    }
    None
}
/// Content of a non-resident stream: the reference model used by most checks.
pub fn content(img: &Img, runs: &[Run], cs: u64, size: u64, init: u64) -> Vec<u8> {
    let mut v = vec![0u8; size as usize];
    let mut base = 0u64;
    for r in runs {
        let n = (r.len * cs).min(size.saturating_sub(base));
        if n == 0 {
            break;
        }
        if let Some(l) = r.lcn {
            img.read_at(l * cs, &mut v[base as usize..(base + n) as usize]);
        }
        base += r.len * cs;
    }
    for x in v.iter_mut().skip(init as usize) {
        *x = 0;
    }
    v
}

// ------------------------------------------------------------------ attributes

pub mod ty {
    pub const STD: u32 = 0x10;
    pub const LIST: u32 = 0x20;
    pub const NAME: u32 = 0x30;
    pub const OBJID: u32 = 0x40;
    pub const SECURITY: u32 = 0x50;
    pub const VOLNAME: u32 = 0x60;
    pub const VOLINFO: u32 = 0x70;
    pub const DATA: u32 = 0x80;
    pub const ROOT: u32 = 0x90;
    pub const ALLOC: u32 = 0xA0;
    pub const BITMAP: u32 = 0xB0;
    pub const REPARSE: u32 = 0xC0;
}

#[derive(Clone, Debug)]
pub enum Val {
    Res(Vec<u8>),
    Non { runs: Vec<u8>, lo: u64, hi: u64, alloc: u64, size: u64, init: u64 },
}
#[derive(Clone, Debug)]
pub struct Attr {
    pub ty: u32,
    pub name: Vec<u16>,
    pub inst: u16,
    pub flags: u16,
    pub val: Val,
    /// extra padding between name and value / after the value (multiples of 8)
    pub pad: usize,
    /// bytes between the header and the name
    pub gap: usize,
}
impl Attr {
    pub fn res(ty: u32, name: &str, inst: u16, data: &[u8]) -> Attr {
        Attr { ty, name: u16s(name), inst, flags: 0, val: Val::Res(data.to_vec()), pad: 0, gap: 0 }
    }
    pub fn non(ty: u32, name: &str, inst: u16, runs: &[Run], cs: u64, size: u64) -> Attr {
        let cl = runs_clusters(runs);
        let sparse = runs.iter().any(|r| r.lcn.is_none());
        Attr {
            ty,
            name: u16s(name),
            inst,
            flags: if sparse { 0x8000 } else { 0 },
            val: Val::Non { runs: encode_runs(runs), lo: 0, hi: cl.wrapping_sub(1), alloc: cl.wrapping_mul(cs), size, init: size },
            pad: 0,
            gap: 0,
        }
    }
    /// A continuation (or first part) extent of a split attribute.
    pub fn extent(ty: u32, name: &str, inst: u16, lo: u64, runs: &[Run], cs: u64, size: u64) -> Attr {
        let mut a = Attr::non(ty, name, inst, runs, cs, size);
        let cl = runs_clusters(runs);
        if let Val::Non { lo: l, hi, alloc, size, init, .. } = &mut a.val {
            *l = lo;
            *hi = (lo + cl).wrapping_sub(1);
            if lo != 0 {
                *alloc = 0;
                *size = 0;
                *init = 0;
            }
        }
        a
    }
    pub fn with_init(mut self, i: u64) -> Attr {
        if let Val::Non { init, .. } = &mut self.val {
            *init = i
        }
        self
    }
    pub fn value_offset(&self) -> usize {
        align8(self.name_offset() + 2 * self.name.len()) + self.pad
    }
    /// The header of the first part of a compressed or sparse attribute has a field more.
    pub fn name_offset(&self) -> usize {
        self.gap
            + match &self.val {
                Val::Res(_) => 24,
                Val::Non { lo: 0, .. } if self.flags & 0x8001 != 0 => 72,
                Val::Non { .. } => 64,
            }
    }
    pub fn encode(&self) -> Vec<u8> {
        let vo = self.value_offset();
        let hdr = self.name_offset();
        let body: &[u8] = match &self.val {
            Val::Res(d) => d,
            Val::Non { runs, .. } => runs,
        };
        let len = align8(vo + body.len()) + self.pad;
        let mut b = vec![0u8; len];
        w32(&mut b, 0, self.ty);
        w32(&mut b, 4, len as u32);
        b[9] = self.name.len() as u8;
        w16(&mut b, 10, if self.name.is_empty() { 0 } else { hdr as u16 });
        w16(&mut b, 12, self.flags);
        w16(&mut b, 14, self.inst);
        match &self.val {
            Val::Res(d) => {
                w32(&mut b, 16, d.len() as u32);
                w16(&mut b, 20, vo as u16);
            }
            Val::Non { lo, hi, alloc, size, init, .. } => {
                b[8] = 1;
                w64(&mut b, 16, *lo);
                w64(&mut b, 24, *hi);
                w16(&mut b, 32, vo as u16);
                w64(&mut b, 40, *alloc);
                w64(&mut b, 48, *size);
                w64(&mut b, 56, *init);
                if hdr - self.gap == 72 {
                    b[34] = 4;
                    w64(&mut b, 64, *alloc);
                }
            }
        }
        b[hdr..hdr + 2 * self.name.len()].copy_from_slice(&u16bytes(&self.name));
        b[vo..vo + body.len()].copy_from_slice(body);
        b
    }
}

// ------------------------------------------------------------------ multi-sector records

/// Applies the update sequence protection to a record.
pub fn protect(rec: &mut [u8], usa_ofs: usize, usn: u16) {
    let n = rec.len() / 512;
    w16(rec, 4, usa_ofs as u16);
    w16(rec, 6, (n + 1) as u16);
    w16(rec, usa_ofs, usn);
    for i in 0..n {
        let e = (i + 1) * 512 - 2;
        let (a, b) = (rec[e], rec[e + 1]);
        rec[usa_ofs + 2 + 2 * i] = a;
        rec[usa_ofs + 3 + 2 * i] = b;
        w16(rec, e, usn);
    }
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub size: usize,
    pub seq: u16,
    pub links: u16,
    pub flags: u16,
    pub base: u64,
    pub usn: u16,
    pub usa_ofs: usize,
    pub attrs: Vec<Attr>,
    pub next_inst: u16,
    pub lsn: u64,
    /// overrides for the sizes in the header
    pub used: Option<u32>,
    pub alloc: Option<u32>,
    pub end_marker: bool,
    /// byte the unused rest of the record is filled with
    pub slack: u8,
}
impl Rec {
    pub fn new(size: usize) -> Rec {
        Rec {
            size,
            seq: 1,
            links: 1,
            flags: 1,
            base: 0,
            usn: 0x5A01,
            usa_ofs: 48,
            attrs: vec![],
            next_inst: 100,
            lsn: 0x1122_3344,
            used: None,
            alloc: None,
            end_marker: true,
            slack: 0,
        }
    }
    pub fn dir(mut self) -> Rec {
        self.flags |= 2;
        self
    }
    pub fn attr(mut self, a: Attr) -> Rec {
        self.attrs.push(a);
        self
    }
    pub fn first_attr(&self) -> usize {
        let n = self.size / 512;
        align8((self.usa_ofs + 2 * (n + 1)).max(48 + 2 * (n + 1)))
    }
    /// Offset of each attribute within the record.
    pub fn offsets(&self) -> Vec<usize> {
        let mut o = self.first_attr();
        self.attrs
            .iter()
            .map(|a| {
                let r = o;
                o += a.encode().len();
                r
            })
            .collect()
    }
    /// The record's content as the file system driver sees it (before update sequence protection).
    pub fn plain(&self) -> Vec<u8> {
        let mut b = vec![self.slack; self.size];
        b[..48 + 8].fill(0);
        let fa = self.first_attr();
        b[..fa].fill(0);
        b[0..4].copy_from_slice(b"FILE");
        w64(&mut b, 8, self.lsn);
        w16(&mut b, 16, self.seq);
        w16(&mut b, 18, self.links);
        w16(&mut b, 20, fa as u16);
        w16(&mut b, 22, self.flags);
        w32(&mut b, 28, self.alloc.unwrap_or(self.size as u32));
        w64(&mut b, 32, self.base);
        w16(&mut b, 40, self.next_inst);
        let mut o = fa;
        for a in &self.attrs {
            let e = a.encode();
            assert!(o + e.len() + 8 <= self.size, "harness: record overflow ({} + {} > {})", o, e.len(), self.size);
            b[o..o + e.len()].copy_from_slice(&e);
            o += e.len();
        }
        if self.end_marker {
            w32(&mut b, o, 0xFFFF_FFFF);
            w32(&mut b, o + 4, 0);
            o += 8;
        }
        w32(&mut b, 24, self.used.unwrap_or(o as u32));
        b
    }
    pub fn build(&self) -> Vec<u8> {
        let mut b = self.plain();
        protect(&mut b, self.usa_ofs, self.usn);
        b
    }
}

// ------------------------------------------------------------------ structured values

pub fn fref(rec: u64, seq: u16) -> u64 {
    rec & 0xffff_ffff_ffff | (seq as u64) << 48
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FName {
    pub parent: u64,
    pub times: [u64; 4],
    pub alloc: u64,
    pub size: u64,
    pub attrs: u32,
    pub tag: u32,
    pub ns: u8,
    pub name: Vec<u16>,
}
impl FName {
    pub fn new(parent: u64, name: &str, ns: u8) -> FName {
        FName::u(parent, &u16s(name), ns)
    }
    pub fn u(parent: u64, name: &[u16], ns: u8) -> FName {
        let h = crate::engine::fp(&(parent, name, ns));
        FName {
            parent,
            times: [h >> 2, h >> 3, h >> 4, h >> 5],
            alloc: h >> 20,
            size: h >> 21,
            attrs: 0x20,
            tag: 0,
            ns,
            name: name.to_vec(),
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![0u8; 66];
        w64(&mut b, 0, self.parent);
        for i in 0..4 {
            w64(&mut b, 8 + 8 * i, self.times[i]);
        }
        w64(&mut b, 40, self.alloc);
        w64(&mut b, 48, self.size);
        w32(&mut b, 56, self.attrs);
        w32(&mut b, 60, self.tag);
        b[64] = self.name.len() as u8;
        b[65] = self.ns;
        b.extend(u16bytes(&self.name));
        b
    }
}

pub fn std_info(n: u64) -> Vec<u8> {
    let mut b = vec![0u8; 72];
    for i in 0..4 {
        w64(&mut b, 8 * i, 0x01D0_0000_0000_0000 + n * 1000 + i as u64);
    }
    w32(&mut b, 32, 0x20);
    w32(&mut b, 36, 1);
    w32(&mut b, 40, 2);
    w32(&mut b, 44, 3);
    w32(&mut b, 48, 4);
    w32(&mut b, 52, n as u32);
    w64(&mut b, 56, 5);
    w64(&mut b, 64, 6);
    b
}

/// One attribute list entry.
pub fn list_entry(ty: u32, name: &[u16], lo: u64, rec: u64, inst: u16) -> Vec<u8> {
    let len = align8(26 + 2 * name.len());
    let mut b = vec![0u8; len];
    w32(&mut b, 0, ty);
    w16(&mut b, 4, len as u16);
    b[6] = name.len() as u8;
    b[7] = 26;
    w64(&mut b, 8, lo);
    w64(&mut b, 16, fref(rec, 1));
    w16(&mut b, 24, inst);
    b[26..26 + 2 * name.len()].copy_from_slice(&u16bytes(name));
    b
}

// ------------------------------------------------------------------ indexes

#[derive(Clone, Debug)]
pub struct Entry {
    pub fref: u64,
    pub key: Option<Vec<u8>>, // None: last entry
    pub sub: Option<u64>,
    pub pad: usize,
}
impl Entry {
    pub fn encode(&self) -> Vec<u8> {
        let kl = self.key.as_ref().map_or(0, |k| k.len());
        let len = align8(16 + kl) + self.pad + if self.sub.is_some() { 8 } else { 0 };
        let mut b = vec![0u8; len];
        if self.key.is_some() {
            w64(&mut b, 0, self.fref);
        }
        w16(&mut b, 8, len as u16);
        w16(&mut b, 10, kl as u16);
        let mut f = 0u16;
        if self.sub.is_some() {
            f |= 1;
        }
        if self.key.is_none() {
            f |= 2;
        }
        w16(&mut b, 12, f);
        if let Some(k) = &self.key {
            b[16..16 + kl].copy_from_slice(k);
        }
        if let Some(v) = self.sub {
            w64(&mut b, len - 8, v);
        }
        b
    }
}
pub fn encode_entries(es: &[Entry]) -> Vec<u8> {
    es.iter().flat_map(|e| e.encode()).collect()
}
pub fn index_root(entries: &[u8], irs: u32, large: bool, cs: u32) -> Vec<u8> {
    let mut b = vec![0u8; 32];
    w32(&mut b, 0, ty::NAME);
    w32(&mut b, 4, 1);
    w32(&mut b, 8, irs);
    b[12] = if irs >= cs { (irs / cs) as u8 } else { (irs / 512) as u8 };
    w32(&mut b, 16, 16);
    w32(&mut b, 20, 16 + entries.len() as u32);
    w32(&mut b, 24, 16 + entries.len() as u32);
    b[28] = large as u8;
    b.extend(entries);
    b
}
/// First entry's offset within an index record of that size.
pub fn indx_entries_start(irs: usize) -> usize {
    align8(40 + 2 * (irs / 512 + 1))
}
pub fn index_record_plain(irs: usize, vcn: u64, entries: &[u8], subnodes: bool) -> Vec<u8> {
    let start = indx_entries_start(irs);
    let mut b = vec![0u8; irs];
    b[0..4].copy_from_slice(b"INDX");
    w64(&mut b, 8, 0x77);
    w64(&mut b, 16, vcn);
    w32(&mut b, 24, (start - 24) as u32);
    w32(&mut b, 28, (start - 24 + entries.len()) as u32);
    w32(&mut b, 32, (irs - 24) as u32);
    b[36] = subnodes as u8;
    assert!(start + entries.len() <= irs, "harness: index record overflow");
    b[start..start + entries.len()].copy_from_slice(entries);
    b
}
pub fn index_record(irs: usize, vcn: u64, entries: &[u8], subnodes: bool, usn: u16) -> Vec<u8> {
    let mut b = index_record_plain(irs, vcn, entries, subnodes);
    protect(&mut b, 40, usn);
    b
}

// ------------------------------------------------------------------ volume

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Geo {
    pub ss: u16,
    pub cs: u32,
    /// file record size
    pub rs: u32,
    /// total clusters
    pub clusters: u64,
}
impl Geo {
    pub fn std() -> Geo {
        Geo { ss: 512, cs: 512, rs: 1024, clusters: 8192 }
    }
    pub fn new(ss: u16, cs: u32, rs: u32) -> Geo {
        Geo { ss, cs, rs, clusters: (8 << 20) / cs as u64 }
    }
}
pub fn boot_sector(g: &Geo, mft_lcn: u64) -> Vec<u8> {
    let mut b = vec![0u8; 512];
    b[0..3].copy_from_slice(&[0xEB, 0x52, 0x90]);
    b[3..11].copy_from_slice(b"NTFS    ");
    w16(&mut b, 11, g.ss);
    let spc = g.cs / g.ss as u32;
    b[13] = if spc <= 128 { spc as u8 } else { (-(spc.trailing_zeros() as i32)) as i8 as u8 };
    b[21] = 0xF8;
    w64(&mut b, 40, g.clusters * spc as u64);
    w64(&mut b, 48, mft_lcn);
    w64(&mut b, 56, mft_lcn + 1);
    b[64] = match g.rs {
        1024 => (-10i8) as u8,
        2048 => (-11i8) as u8,
        4096 => (-12i8) as u8,
        n => (n / g.cs) as u8,
    };
    b[68] = (-12i8) as u8;
    w64(&mut b, 72, 0xDEAD_BEEF_1234_5678);
    b[510] = 0x55;
    b[511] = 0xAA;
    b
}

#[derive(Clone)]
pub struct Vol {
    pub g: Geo,
    pub img: Img,
    pub mft_runs: Vec<Run>,
    pub mft_size: u64,
    pub next: u64,
}
impl Vol {
    /// A volume with `records` MFT records laid out over `mft_runs` (record 0 written, others blank).
    pub fn with_mft(g: Geo, mft_runs: Vec<Run>, mft_size: u64) -> Vol {
        let mut img = Img::new(g.clusters * g.cs as u64);
        let lcn = mft_runs[0].lcn.unwrap();
        img.write(0, &boot_sector(&g, lcn));
        let next = mft_runs.iter().filter_map(|r| r.lcn.map(|l| l + r.len)).max().unwrap();
        let mut v = Vol { g, img, mft_runs: mft_runs.clone(), mft_size, next };
        let r0 = v
            .rec()
            .attr(Attr::res(ty::STD, "", 0, &std_info(0)))
            .attr(Attr::res(ty::NAME, "", 1, &FName::new(fref(5, 5), "$MFT", 3).encode()))
            .attr(Attr::non(ty::DATA, "", 2, &mft_runs, g.cs as u64, mft_size));
        v.put(0, &r0);
        v
    }
    pub fn new(g: Geo, records: u64) -> Vol {
        let cl = (records * g.rs as u64).div_ceil(g.cs as u64);
        let first = (16384 / g.cs as u64).max(4);
        Vol::with_mft(g, vec![run(cl, first)], records * g.rs as u64)
    }
    pub fn cs(&self) -> u64 {
        self.g.cs as u64
    }
    pub fn rec(&self) -> Rec {
        Rec::new(self.g.rs as usize)
    }
    pub fn rec_addr(&self, n: u64) -> u64 {
        addr_of(&self.mft_runs, self.cs(), n * self.g.rs as u64).expect("harness: record in hole")
    }
    pub fn put(&mut self, n: u64, r: &Rec) {
        self.put_raw(n, &r.build())
    }
    /// Writes bytes at record n's place in the MFT stream, following the MFT runs.
    pub fn put_raw(&mut self, n: u64, b: &[u8]) {
        self.write_stream(&self.mft_runs.clone(), n * self.g.rs as u64, b)
    }
    pub fn write_stream(&mut self, runs: &[Run], off: u64, b: &[u8]) {
        let cs = self.cs();
        let mut i = 0u64;
        while i < b.len() as u64 {
            let o = off + i;
            let n = (512 - o % 512).min(b.len() as u64 - i);
            if let Some(a) = addr_of(runs, cs, o) {
                self.img.write(a, &b[i as usize..(i + n) as usize]);
            }
            i += n;
        }
    }
    /// Allocates clusters (never reused).
    pub fn alloc(&mut self, n: u64) -> u64 {
        let r = self.next;
        self.next += n;
        assert!(self.next <= self.g.clusters, "harness: volume full");
        r
    }
    pub fn content(&self, runs: &[Run], size: u64) -> Vec<u8> {
        content(&self.img, runs, self.cs(), size, size)
    }
    /// Stores an uppercase table in record 10.
    pub fn put_upcase(&mut self, table: &[u16]) {
        let b = u16bytes(table);
        let cl = (b.len() as u64).div_ceil(self.cs());
        let l = self.alloc(cl);
        let runs = [run(cl, l)];
        self.write_stream(&runs, 0, &b);
        let r = self
            .rec()
            .attr(Attr::res(ty::STD, "", 0, &std_info(10)))
            .attr(Attr::res(ty::NAME, "", 1, &FName::new(fref(5, 5), "$UpCase", 3).encode()))
            .attr(Attr::non(ty::DATA, "", 2, &runs, self.cs(), b.len() as u64));
        self.put(10, &r);
    }
    pub fn done(self) -> Arc<Img> {
        Arc::new(self.img)
    }
}

/// The uppercase table used by most checks: like the usual one for letters, but with a few mappings no
/// built-in rule would produce, so that using anything but the volume's own table is noticed.
pub fn upcase_table() -> Vec<u16> {
    let mut t: Vec<u16> = (0..=0xFFFFu32).map(|x| x as u16).collect();
    for c in b'a'..=b'z' {
        t[c as usize] = (c - 32) as u16;
    }
    for c in 0xE0..=0xFEu16 {
        if c != 0xF7 {
            t[c as usize] = c - 32;
        }
    }
    t[0xFF] = 0x178;
    for c in (0x100..0x130u16).step_by(2) {
        t[c as usize + 1] = c;
    }
    // peculiarities of this volume
    t['z' as usize] = 'z' as u16; // z has no uppercase here
    t['~' as usize] = '!' as u16;
    t['q' as usize] = 0x2200;
    t['Q' as usize] = 0x2200;
    t[0xFF5E] = 0x0001;
    t[0xD801] = 0xD800; // even surrogates are mapped by unit
    t
}
pub fn up(t: &[u16], s: &[u16]) -> Vec<u16> {
    s.iter().map(|c| t[*c as usize]).collect()
}
