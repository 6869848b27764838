//! Layouts of one attribute value: where its bytes lie (in the record, in runs, spread over records),
//! together with the reference content.
#![allow(dead_code)]
use crate::disk::{Disk, Img};
use crate::img::*;
use ntfs::{Ntfs, NtfsAttribute};
use std::sync::Arc;

/// Record of the file under test.
pub const REC: u64 = 6;

/// How the value's attribute is stored.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Place {
    /// number of runs per extent; empty: a single attribute in the base record without attribute list
    pub ext: Vec<usize>,
    /// which extents are in the base record (bit mask)
    pub in_base: u32,
    pub list_nonres: bool,
    /// other split streams around, using the same instance numbers
    pub decoy: bool,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Res { len: usize, place: Place },
    Non { runs: Vec<Run>, size: u64, init: u64, place: Place },
}
#[derive(Clone, Debug)]
pub struct Lay {
    pub geo: Geo,
    pub kind: Kind,
}

#[derive(Clone)]
pub enum Content {
    Res(Vec<u8>),
    Non { img: Arc<Img>, runs: Vec<Run>, cs: u64, size: u64, init: u64 },
}
impl Content {
    pub fn len(&self) -> u64 {
        match self {
            Content::Res(d) => d.len() as u64,
            Content::Non { size, .. } => *size,
        }
    }
    /// Whatever a file with this content returns when reading n bytes from there.
    pub fn get(&self, off: u64, n: usize) -> Vec<u8> {
        let len = self.len();
        if off >= len {
            return vec![];
        }
        let n = (n as u64).min(len - off) as usize;
        match self {
            Content::Res(d) => d[off as usize..off as usize + n].to_vec(),
            Content::Non { img, runs, cs, init, .. } => {
                let mut v = vec![0u8; n];
                let mut base = 0u64;
                for r in runs {
                    let end = base + r.len * cs;
                    let (s, e) = (off.max(base), (off + n as u64).min(end));
                    if s < e {
                        if let Some(l) = r.lcn {
                            img.read_at(l * cs + (s - base), &mut v[(s - off) as usize..(e - off) as usize]);
                        }
                    }
                    base = end;
                }
                for (i, x) in v.iter_mut().enumerate() {
                    if off + i as u64 >= *init {
                        *x = 0;
                    }
                }
                v
            }
        }
    }
    /// Positions where something changes: run boundaries, initialized size, data size.
    pub fn bounds(&self) -> Vec<u64> {
        let mut b = vec![0, self.len()];
        if let Content::Non { runs, cs, init, size, .. } = self {
            let mut o = 0;
            for r in runs {
                o += r.len * cs;
                b.push(o);
            }
            b.push(*init);
            let _ = size;
        }
        b.sort();
        b.dedup();
        b
    }
}

pub struct Bed {
    pub img: Arc<Img>,
    pub ntfs: Ntfs,
    pub content: Content,
    /// absolute address of the resident value's first byte
    pub res_addr: Option<u64>,
}

pub fn data_bytes(len: usize) -> Vec<u8> {
    (0..len).map(|i| (crate::engine::mix(0xDA7A_0000 + i as u64) as u8) | 1).collect()
}

impl Lay {
    pub fn build(&self) -> Bed {
        let g = self.geo;
        let mut v = Vol::new(g, 16);
        let cs = v.cs();
        let (place, parts): (&Place, Vec<Attr>) = match &self.kind {
            Kind::Res { len, place } => (place, vec![Attr::res(ty::DATA, "", 3, &data_bytes(*len))]),
            Kind::Non { runs, size, init, place } => {
                let total = runs_clusters(runs) * cs;
                let counts = if place.ext.is_empty() { vec![runs.len()] } else { place.ext.clone() };
                assert_eq!(counts.iter().sum::<usize>(), runs.len());
                let mut lo = 0;
                let mut at = 0;
                let mut out = vec![];
                for c in counts {
                    let part = &runs[at..at + c];
                    let mut a = Attr::extent(ty::DATA, "", 3, lo, part, cs, *size).with_init(*init);
                    if let Val::Non { alloc, init, .. } = &mut a.val {
                        if lo == 0 {
                            *alloc = total;
                        } else {
                            *init = 0;
                        }
                    }
                    out.push(a);
                    at += c;
                    lo += runs_clusters(part);
                }
                (place, out)
            }
        };
        let std = Attr::res(ty::STD, "", 0, &std_info(REC));
        let name = Attr::res(ty::NAME, "", 2, &FName::new(fref(5, 5), "file", 1).encode());
        let mut res_addr = None;
        if place.ext.is_empty() {
            let r = v.rec().attr(std).attr(name).attr(parts[0].clone());
            if let Kind::Res { .. } = self.kind {
                res_addr = Some(v.rec_addr(REC) + r.offsets()[2] as u64 + parts[0].value_offset() as u64);
            }
            v.put(REC, &r);
        } else {
            // base record: std, list, name, parts in base; one extension record per other part
            let mut list = vec![];
            list.extend(list_entry(ty::STD, &[], 0, REC, 0));
            list.extend(list_entry(ty::NAME, &[], 0, REC, 2));
            let mut lo = 0;
            let mut base_parts = vec![];
            let mut next = 7u64;
            for (i, a) in parts.iter().enumerate() {
                let mut a = a.clone();
                let rec = if place.in_base & (1 << i) != 0 {
                    a.inst = 10 + i as u16;
                    base_parts.push(a.clone());
                    REC
                } else {
                    a.inst = 0;
                    let mut r = v.rec().attr(a.clone());
                    if i % 2 == 1 {
                        // something else before it, so that instance numbers matter
                        r = v.rec();
                        a.inst = 1;
                        r = r.attr(Attr::res(ty::OBJID, "", 0, &[i as u8; 16])).attr(a.clone());
                    }
                    r.base = fref(REC, 1);
                    r.links = 0;
                    if let Kind::Res { .. } = self.kind {
                        let n = r.attrs.len() - 1;
                        res_addr = Some(v.rec_addr(next) + r.offsets()[n] as u64 + a.value_offset() as u64);
                    }
                    v.put(next, &r);
                    next += 1;
                    next - 1
                };
                list.extend(list_entry(ty::DATA, &[], lo, rec, a.inst));
                if let Val::Non { hi, .. } = a.val {
                    lo = hi.wrapping_add(1);
                }
            }
            if place.decoy {
                // a split stream "d" whose parts follow directly in the list and reuse instance 0
                let l = v.alloc(4);
                for (k, lcn) in [l, l + 2].iter().enumerate() {
                    let a = Attr::extent(ty::DATA, "d", 0, k as u64, &[run(1, *lcn)], cs, 2 * cs);
                    let mut r = v.rec().attr(a);
                    r.base = fref(REC, 1);
                    v.put(next, &r);
                    list.extend(list_entry(ty::DATA, &u16s("d"), k as u64, next, 0));
                    next += 1;
                }
            }
            let la = if place.list_nonres {
                let cl = (list.len() as u64).div_ceil(cs);
                let l = v.alloc(cl + 1);
                v.write_stream(&[run(cl, l)], 0, &list);
                Attr::non(ty::LIST, "", 1, &[run(cl, l)], cs, list.len() as u64)
            } else {
                Attr::res(ty::LIST, "", 1, &list)
            };
            let mut r = v.rec().attr(std).attr(la).attr(name);
            for a in base_parts {
                if let Kind::Res { .. } = self.kind {
                    res_addr = Some(v.rec_addr(REC) + r.first_attr() as u64
                        + r.attrs.iter().map(|x| x.encode().len() as u64).sum::<u64>() + a.value_offset() as u64);
                }
                r = r.attr(a);
            }
            v.put(REC, &r);
        }
        // virtual extent of the image: everything the runs can reach
        if let Kind::Non { runs, .. } = &self.kind {
            for r in runs {
                if let Some(l) = r.lcn {
                    v.img.size = v.img.size.max((l + r.len) * cs);
                }
            }
        }
        let img = v.done();
        let ntfs = Ntfs::new(&mut Disk::new(img.clone())).expect("harness: mount");
        let content = match &self.kind {
            Kind::Res { len, .. } => Content::Res(data_bytes(*len)),
            Kind::Non { runs, size, init, .. } => Content::Non { img: img.clone(), runs: runs.clone(), cs, size: *size, init: *init },
        };
        Bed { img, ntfs, content, res_addr }
    }
    pub fn desc(&self) -> String {
        match &self.kind {
            Kind::Res { len, place } => format!("{:?} resident {} bytes {:?}", self.geo, len, place),
            Kind::Non { runs, size, init, place } => format!(
                "cluster {} runs [{}] size {} initialized {} {:?}",
                self.geo.cs,
                runs.iter().map(|r| match r.lcn { Some(l) => format!("{}@{}", r.len, l), None => format!("{}~", r.len) }).collect::<Vec<_>>().join(" "),
                size,
                init,
                place
            ),
        }
    }
}

impl Bed {
    pub fn disk(&self) -> Disk {
        Disk::new(self.img.clone())
    }
    /// Opens the value's attribute and hands it to `f`.
    pub fn with_attr<X>(&self, disk: &mut Disk, f: impl FnOnce(&NtfsAttribute, &mut Disk) -> X) -> Result<X, ntfs::NtfsError> {
        let file = self.ntfs.file(disk, REC)?;
        let item = match file.data(disk, "") {
            Some(r) => r?,
            None => panic!("harness: no data attribute found"),
        };
        let attr = item.to_attribute()?;
        Ok(f(&attr, disk))
    }
}

// ------------------------------------------------------------------ enumerations

/// Every way to lay out up to `k` runs of the given lengths: sparse, or placed forward, backward or
/// adjacent to the previous allocated run. `first` is a free region's first cluster.
pub fn run_lists(k: usize, lens: &[u64], first: u64, stride: u64) -> Vec<Vec<Run>> {
    let mut out = vec![vec![]];
    let mut level: Vec<(Vec<Run>, u64, u64, u64)> = vec![(vec![], first + 8 * stride, first + 8 * stride, first + 8 * stride)]; // runs, low, high, last end
    for depth in 0..k {
        let mut next = vec![];
        for (rs, low, high, last) in &level {
            for &len in lens {
                let mut push = |r: Run, low: u64, high: u64, last: u64| {
                    let mut n = rs.clone();
                    n.push(r);
                    next.push((n, low, high, last));
                };
                push(hole(len), *low, *high, *last);
                // forward with a gap
                let l = high + 3;
                push(run(len, l), *low, l + len, l + len);
                if depth > 0 && rs.iter().any(|r| r.lcn.is_some()) {
                    // backward with a gap
                    let l = low - len - 2;
                    push(run(len, l), l, *high, l + len);
                    // directly behind the previous allocated run, if that is free
                    if *last == *high {
                        push(run(len, *high), *low, high + len, high + len);
                    }
                }
            }
        }
        out.extend(next.iter().map(|x| x.0.clone()));
        level = next;
    }
    out
}
/// Data sizes for a run list: exact, inside the last cluster, over-allocated, empty.
pub fn sizes(total: u64, cs: u64) -> Vec<u64> {
    let mut s = vec![total];
    if total > 0 {
        s.extend([total - 1, total - cs + 1, 0]);
        if total > cs {
            s.push(total - cs);
        }
        if total > 2 * cs {
            s.push(cs + 7);
        }
    }
    s.sort();
    s.dedup();
    s
}
pub fn inits(size: u64, cs: u64) -> Vec<u64> {
    let mut s = vec![size];
    if size > 0 {
        s.extend([size - 1, size / 2, 0]);
        if size > cs {
            s.push(cs);
        }
    }
    s.sort();
    s.dedup();
    s.reverse();
    s
}
