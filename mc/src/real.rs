//! A volume that this framework did not write: `testdata/testfs1` of the repository, made by mkntfs and ntfs-3g.
//! It is parsed here a second time, by code that shares nothing with the library, and everything the library says
//! about any of its records is compared with that. This also ties the image builder's idea of the format to
//! what another implementation writes.
#![allow(dead_code)]
use crate::disk::{Disk, Img};
use crate::images::{Part, Rich};
use crate::img::*;
use ntfs::Ntfs;
use std::sync::{Arc, OnceLock};

pub fn u16a(b: &[u8], o: usize) -> usize {
    u16::from_le_bytes([b[o], b[o + 1]]) as usize
}
pub fn u32a(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn u64a(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
pub fn name_at(b: &[u8], o: usize, n: usize) -> Vec<u16> {
    (0..n).map(|k| u16a(b, o + 2 * k) as u16).collect()
}

#[derive(Clone)]
pub struct RAttr {
    pub off: usize,
    pub ty: u32,
    pub len: u32,
    pub resident: bool,
    pub name: Vec<u16>,
    pub flags: u16,
    pub inst: u16,
    /// offset of the value (or of the run list) in the record
    pub val: usize,
    pub size: u64,
    pub init: u64,
    pub runs: Vec<Run>,
    pub data: Vec<u8>,
}
pub struct RRec {
    pub n: u64,
    pub plain: Vec<u8>,
    pub attrs: Vec<RAttr>,
}
/// One index entry with a key, in the order of a walk.
#[derive(Clone)]
pub struct REntry {
    pub addr: u64,
    pub fref: u64,
    pub len: usize,
    pub key: Vec<u8>,
    pub name: Vec<u16>,
    pub sub: Option<u64>,
}
pub struct Real {
    pub img: Arc<Img>,
    pub ntfs: Ntfs,
    pub cs: u64,
    pub rs: usize,
    pub mft: Vec<Run>,
    /// None: there is no valid record
    pub recs: Vec<Option<RRec>>,
    pub upcase: Vec<u16>,
}

pub fn unfix(b: &[u8]) -> Option<Vec<u8>> {
    let (o, n) = (u16a(b, 4), u16a(b, 6));
    let mut r = b.to_vec();
    for i in 1..n {
        if b[512 * i - 2..512 * i] != b[o..o + 2] {
            return None;
        }
        r[512 * i - 2] = b[o + 2 * i];
        r[512 * i - 1] = b[o + 2 * i + 1];
    }
    Some(r)
}
fn decode_runs(b: &[u8]) -> Vec<Run> {
    let (mut o, mut at, mut out) = (0, 0i64, vec![]);
    while b[o] != 0 {
        let (n, m) = ((b[o] & 15) as usize, (b[o] >> 4) as usize);
        let le = |s: &[u8]| s.iter().rev().fold(0i64, |a, x| a << 8 | *x as i64);
        let c = le(&b[o + 1..o + 1 + n]) as u64;
        if m == 0 {
            out.push(hole(c));
        } else {
            let mut d = le(&b[o + 1 + n..o + 1 + n + m]);
            if m < 8 && d >> (8 * m - 1) & 1 == 1 {
                d -= 1 << (8 * m);
            }
            at += d;
            out.push(run(c, at as u64));
        }
        o += 1 + n + m;
    }
    out
}
fn attrs(img: &Img, cs: u64, r: &[u8]) -> Vec<RAttr> {
    let mut o = u16a(r, 20);
    let mut out = vec![];
    while o + 4 <= r.len() && u32a(r, o) != 0xFFFF_FFFF {
        let len = u32a(r, o + 4);
        let resident = r[o + 8] == 0;
        let name = name_at(r, o + u16a(r, o + 10), r[o + 9] as usize);
        let mut a = RAttr { off: o, ty: u32a(r, o), len, resident, name, flags: u16a(r, o + 12) as u16, inst: u16a(r, o + 14) as u16, val: 0, size: 0, init: 0, runs: vec![], data: vec![] };
        if resident {
            a.val = o + u16a(r, o + 20);
            a.size = u32a(r, o + 16) as u64;
            a.data = r[a.val..a.val + a.size as usize].to_vec();
        } else {
            a.val = o + u16a(r, o + 32);
            a.size = u64a(r, o + 48);
            a.init = u64a(r, o + 56);
            a.runs = decode_runs(&r[a.val..o + len as usize]);
            a.data = content(img, &a.runs, cs, a.size, a.init);
        }
        out.push(a);
        o += len as usize;
    }
    out
}
impl RRec {
    pub fn attr(&self, ty: u32, name: &str) -> Option<&RAttr> {
        self.attrs.iter().find(|a| a.ty == ty && a.name == u16s(name))
    }
    pub fn flags(&self) -> u16 {
        u16a(&self.plain, 22) as u16
    }
}

pub fn path() -> String {
    std::env::var("MC_TESTFS1").unwrap_or_else(|_| "/repo/testdata/testfs1".into())
}
/// The parsed volume; None if the file is not there.
pub fn real() -> Option<&'static Real> {
    static R: OnceLock<Option<Real>> = OnceLock::new();
    R.get_or_init(|| {
        let bytes = std::fs::read(path()).ok()?;
        let mut img = Img::new(bytes.len() as u64);
        img.write(0, &bytes);
        let img = Arc::new(img);
        let cs = u16a(&bytes, 11) as u64 * bytes[13] as u64;
        let rs = bytes[64] as usize * cs as usize;
        let first = u64a(&bytes, 48) * cs;
        let r0 = unfix(&bytes[first as usize..first as usize + rs])?;
        let a0 = attrs(&img, cs, &r0);
        let m = a0.iter().find(|a| a.ty == ty::DATA && a.name.is_empty())?;
        let mft = m.runs.clone();
        let recs: Vec<Option<RRec>> = m
            .data
            .chunks(rs)
            .enumerate()
            .map(|(n, b)| {
                if &b[..4] != b"FILE" {
                    return None;
                }
                let plain = unfix(b)?;
                let attrs = attrs(&img, cs, &plain);
                Some(RRec { n: n as u64, plain, attrs })
            })
            .collect();
        let upcase = recs[10].as_ref()?.attr(ty::DATA, "")?.data.chunks(2).map(|c| u16a(c, 0) as u16).collect();
        let mut d = Disk::new(img.clone());
        let mut ntfs = Ntfs::new(&mut d).expect("testfs1: mount");
        ntfs.read_upcase_table(&mut d).expect("testfs1: uppercase table");
        Some(Real { img, ntfs, cs, rs, mft, recs, upcase })
    })
    .as_ref()
}
impl Real {
    pub fn disk(&self) -> Disk {
        Disk::new(self.img.clone())
    }
    pub fn at(&self, n: u64, o: usize) -> u64 {
        addr_of(&self.mft, self.cs, n * self.rs as u64 + o as u64).expect("testfs1: record")
    }
    /// The entries of one node, and where the node of a last entry goes.
    fn node(&self, b: &[u8], start: usize, addr: impl Fn(usize) -> u64, file_names: bool) -> (Vec<REntry>, Option<u64>) {
        let mut o = start;
        let mut out = vec![];
        loop {
            let (len, klen, fl) = (u16a(b, o + 8), u16a(b, o + 10), b[o + 12]);
            let sub = (fl & 1 != 0).then(|| u64a(b, o + len - 8));
            if fl & 2 != 0 {
                return (out, sub);
            }
            let key = b[o + 16..o + 16 + klen].to_vec();
            let name = if file_names { name_at(&key, 66, key[64] as usize) } else { vec![] };
            out.push(REntry { addr: addr(o), fref: u64a(b, o), len, key, name, sub });
            o += len;
        }
    }
    /// The entries of an index in order.
    pub fn walk(&self, r: &RRec, name: &str) -> Option<Vec<REntry>> {
        let root = r.attr(ty::ROOT, name)?;
        let irs = u32a(&root.data, 8) as u64;
        let unit = if irs < self.cs { 512 } else { self.cs };
        let alloc = r.attr(ty::ALLOC, name);
        let fname = u32a(&root.data, 0) == 0x30;
        fn go(s: &Real, es: (Vec<REntry>, Option<u64>), get: &dyn Fn(u64) -> (Vec<REntry>, Option<u64>), out: &mut Vec<REntry>) {
            for e in es.0 {
                if let Some(v) = e.sub {
                    go(s, get(v), get, out);
                }
                out.push(e);
            }
            if let Some(v) = es.1 {
                go(s, get(v), get, out);
            }
        }
        let get = |v: u64| {
            let a = alloc.expect("testfs1: index allocation");
            let at = v * unit;
            let b = unfix(&a.data[at as usize..(at + irs) as usize]).expect("testfs1: index record");
            assert!(&b[..4] == b"INDX" && u64a(&b, 16) == v, "testfs1: index record {}", v);
            self.node(&b, 24 + u32a(&b, 24) as usize, |o| addr_of(&a.runs, self.cs, at + o as u64).expect("testfs1: entry"), fname)
        };
        let top = self.node(&root.data, 16 + u32a(&root.data, 16) as usize, |o| self.at(r.n, root.val + o), fname);
        let mut out = vec![];
        go(self, top, &get, &mut out);
        Some(out)
    }
    pub fn what(&self, n: u64) -> String {
        format!("testfs1, record {}", n)
    }
}

/// The volume as one more of those that hold one of everything (with a selection of its records).
pub fn rich() -> Option<Rich> {
    let r = real()?;
    let recs: Vec<u64> = vec![0, 3, 5, 8, 9, 11, 16, 24, 30, 64, 65, 66, 67, 68, 69];
    let mut parts = vec![Part { name: "real boot sector", addr: 0, len: 84, recs: recs.clone(), fields: vec![], in_rec: 0, mount: true }];
    for (name, n) in [("real MFT record", 0u64), ("real root directory", 5), ("real bad clusters", 8), ("real security", 9), ("real fragmented directory", 68), ("real sparse file", 67), ("real file", 66)] {
        let rec = r.recs[n as usize].as_ref()?;
        let mut fields: Vec<(usize, usize)> = vec![(4, 2), (6, 2), (16, 2), (18, 2), (20, 2), (22, 2), (24, 4), (28, 4)];
        for a in &rec.attrs {
            let o = a.off;
            fields.extend([(o, 4), (o + 4, 4), (o + 8, 1), (o + 9, 1), (o + 10, 2), (o + 14, 2)]);
            if a.resident {
                fields.extend([(o + 16, 4), (o + 20, 2)]);
            } else {
                fields.extend([(o + 16, 8), (o + 32, 2), (o + 40, 8), (o + 48, 8), (o + 56, 8), (a.val, 1), (a.val + 1, 1)]);
            }
        }
        parts.push(Part { name, addr: r.at(n, 0), len: u32a(&rec.plain, 24) as usize, recs: if n == 0 { vec![0, 5, 66] } else { vec![n] }, fields, in_rec: r.rs, mount: n == 0 });
    }
    Some(Rich { name: "real", img: r.img.clone(), recs, parts, names: ["1", "512", "FILE-with-12345", "$MFT", "zz", ""].map(String::from).to_vec() })
}
