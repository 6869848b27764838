//! Files made of any attributes, stored in the base record or in extension records, whole or in pieces.
#![allow(dead_code)]
use crate::img::*;
use crate::util::*;
use ntfs::{NtfsAttribute, NtfsReadSeek};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    Res(Vec<u8>),
    /// runs of each piece; data size, initialized size
    Non { pieces: Vec<Vec<Run>>, size: u64, init: u64 },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct LAttr {
    pub ty: u32,
    pub name: Vec<u16>,
    pub flags: u16,
    pub form: Form,
    /// record of each piece: 0 is the base record
    pub at: Vec<usize>,
    pub pad: usize,
}
impl LAttr {
    pub fn res(ty: u32, name: &str, data: &[u8]) -> LAttr {
        LAttr { ty, name: u16s(name), flags: 0, form: Form::Res(data.to_vec()), at: vec![0], pad: 0 }
    }
    pub fn non(ty: u32, name: &str, pieces: Vec<Vec<Run>>, size: u64) -> LAttr {
        let n = pieces.len();
        LAttr { ty, name: u16s(name), flags: 0, form: Form::Non { pieces, size, init: size }, at: vec![0; n], pad: 0 }
    }
    pub fn pieces(&self) -> usize {
        match &self.form {
            Form::Res(_) => 1,
            Form::Non { pieces, .. } => pieces.len(),
        }
    }
    pub fn len(&self) -> u64 {
        match &self.form {
            Form::Res(d) => d.len() as u64,
            Form::Non { size, .. } => *size,
        }
    }
    pub fn content(&self, v: &Vol) -> Vec<u8> {
        match &self.form {
            Form::Res(d) => d.clone(),
            Form::Non { pieces, size, init } => content(&v.img, &pieces.concat(), v.cs(), *size, *init),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ListForm {
    None,
    Res,
    Non,
    /// every 512 bytes of the list in a cluster run of its own, backwards on disk
    Frag,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Inst {
    /// counted within each record
    PerRecord,
    Unique,
    /// counted down within each record
    Down,
    /// within each record, all with the same low byte
    High,
    /// counted down from one, so that the second attribute of a record is number zero
    Turn,
}
#[derive(Clone, Debug)]
pub struct FileLay {
    pub attrs: Vec<LAttr>,
    pub list: ListForm,
    pub inst: Inst,
    pub dir: bool,
    /// record numbers: base, extensions
    pub recs: Vec<u64>,
}

/// Where a logical attribute's first piece ended up.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stored {
    pub inst: u16,
    pub len: u32,
    /// record index and offset in it
    pub rec: usize,
    pub off: usize,
    /// offset of a resident value in the record
    pub val_off: usize,
}
pub struct Built {
    pub stored: Vec<Stored>,
    /// raw attributes of every record, in order
    pub raw: Vec<Vec<Attr>>,
    pub raw_off: Vec<Vec<usize>>,
    pub list: Vec<u8>,
    /// offset of every list entry and the logical attribute and piece it stands for
    pub list_entries: Vec<(usize, usize, usize)>,
}

impl FileLay {
    pub fn new(attrs: Vec<LAttr>) -> FileLay {
        FileLay { attrs, list: ListForm::None, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] }
    }
    /// Writes the file's records. Attributes have to be given in stored order.
    pub fn build(&self, v: &mut Vol) -> Option<Built> {
        let cs = v.cs();
        let nrec = self.attrs.iter().flat_map(|a| a.at.iter()).max().map_or(1, |m| m + 1);
        let mut raw: Vec<Vec<Attr>> = vec![vec![]; nrec];
        let mut count = vec![0u16; nrec];
        let mut all = 0u16;
        let mut list = vec![];
        let mut list_entries = vec![];
        let mut firsts = vec![];
        let mut list_at = 0;
        for (ai, a) in self.attrs.iter().enumerate() {
            let pieces: Vec<Attr> = match &a.form {
                Form::Res(d) => vec![Attr::res(a.ty, "", 0, d)],
                Form::Non { pieces, size, init } => {
                    let total: u64 = pieces.iter().map(|p| runs_clusters(p)).sum();
                    let mut lo = 0;
                    pieces
                        .iter()
                        .map(|p| {
                            let mut x = Attr::extent(a.ty, "", 0, lo, p, cs, *size);
                            if let Val::Non { init: i, alloc, .. } = &mut x.val {
                                if lo == 0 {
                                    *i = *init;
                                    *alloc = total * cs;
                                }
                            }
                            x.flags = 0;
                            lo += runs_clusters(p);
                            x
                        })
                        .collect()
                }
            };
            let mut lo = 0;
            for (pi, mut x) in pieces.into_iter().enumerate() {
                let r = a.at[pi];
                x.name = a.name.clone();
                x.flags = a.flags;
                x.pad = a.pad;
                x.inst = match self.inst {
                    Inst::PerRecord => count[r],
                    Inst::Unique => all,
                    Inst::Down => 90 - count[r],
                    Inst::Turn => 1u16.wrapping_sub(count[r]),
                    Inst::High => 0x7 | count[r] << 8 | (count[r] & 1) << 15,
                };
                count[r] += 1;
                all += 1;
                list_entries.push((list.len(), ai, pi));
                list.extend(list_entry(a.ty, &a.name, lo, self.recs[r], x.inst));
                if let Val::Non { hi, .. } = &x.val {
                    lo = hi.wrapping_add(1);
                }
                if pi == 0 {
                    firsts.push((r, raw[r].len()));
                }
                raw[r].push(x);
            }
            if a.ty <= ty::LIST {
                list_at = raw[0].len();
            }
        }
        let la = match self.list {
            ListForm::None => None,
            ListForm::Res => Some(Attr::res(ty::LIST, "", 95, &list)),
            ListForm::Non => {
                let n = (list.len() as u64).div_ceil(cs).max(1);
                let l = v.alloc(n + 1);
                v.write_stream(&[run(n, l)], 0, &list);
                Some(Attr::non(ty::LIST, "", 95, &[run(n, l)], cs, list.len() as u64))
            }
            ListForm::Frag => {
                let n = (list.len() as u64).div_ceil(cs).max(1);
                let l = v.alloc(2 * n + 1);
                let runs: Vec<Run> = (0..n).map(|i| run(1, l + 2 * (n - i))).collect();
                v.write_stream(&runs, 0, &list);
                Some(Attr::non(ty::LIST, "", 95, &runs, cs, list.len() as u64))
            }
        };
        if let Some(la) = la {
            raw[0].insert(list_at, la);
            for f in firsts.iter_mut() {
                if f.0 == 0 && f.1 >= list_at {
                    f.1 += 1;
                }
            }
        }
        let mut raw_off = vec![];
        for (i, attrs) in raw.iter().enumerate() {
            let mut r = v.rec();
            r.attrs = attrs.clone();
            if i > 0 {
                r.base = fref(self.recs[0], 1);
                r.links = 0;
            } else if self.dir {
                r = r.dir();
            }
            let total: usize = attrs.iter().map(|a| a.encode().len()).sum();
            if r.first_attr() + total + 8 > v.g.rs as usize {
                return None;
            }
            raw_off.push(r.offsets());
            v.put(self.recs[i], &r);
        }
        let stored = firsts
            .iter()
            .map(|(r, k)| Stored {
                inst: raw[*r][*k].inst,
                len: raw[*r][*k].encode().len() as u32,
                rec: *r,
                off: raw_off[*r][*k],
                val_off: raw_off[*r][*k] + raw[*r][*k].value_offset(),
            })
            .collect();
        Some(Built { stored, raw, raw_off, list, list_entries })
    }
}

/// Volumes for files of very many pieces.
pub const MANY: Geo = Geo { ss: 512, cs: 512, rs: 4096, clusters: 9000 };
pub const MANY_RECORDS: u64 = 170;
/// One stream in `n` pieces, next to a short one and one in two pieces. `way`: bit 0: the pieces take turns
/// through the records instead of filling one after the other; bit 1: the first ones are in the base record;
/// bit 2: the attributes have names.
pub fn many_pieces(n: usize, way: usize, list: ListForm) -> FileLay {
    const PER: usize = 30;
    let nrec = n.div_ceil(PER) + 1;
    let first = (way >> 1 & 1) ^ 1;
    let at = |i: usize| if way & 1 == 0 { first + i / PER } else { first + i % (nrec - first) };
    let name = ["", "long stream name"][way >> 2 & 1];
    let place = |i: usize| 6500 + (i * 7919 + 13) as u64 % 2400;
    let mut big = LAttr::non(ty::DATA, name, (0..n).map(|i| vec![run(1, place(i))]).collect(), n as u64 * 512 - 3);
    big.at = (0..n).map(at).collect();
    let mut two = LAttr::non(ty::DATA, "two", vec![vec![run(2, 6100)], vec![run(1, 6050)]], 3 * 512 - 7);
    two.at = vec![nrec - 1, first];
    let mut res = LAttr::res(ty::BITMAP, "", &crate::lay::data_bytes(24));
    res.at = vec![nrec - 1];
    FileLay { attrs: vec![LAttr::res(ty::STD, "", &std_info(6)), big, two, res], list, inst: Inst::PerRecord, dir: false, recs: [6].into_iter().chain(24..24 + nrec as u64).collect() }
}
/// Numbers around the limits of bytes and of lists of 4 KiB and 64 KiB.
pub fn many_counts(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (2..if thorough { 300 } else { 24 }).collect();
    v.extend([40, 41, 60, 79, 80, 81, 100, 126, 127, 128, 129, 130, 160, 254, 255, 256, 257, 258, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2044, 2045, 2046, 2047, 2048, 2049, 2300, 4095, 4096, 4100]);
    v.sort();
    v.dedup();
    v
}

/// Everything an attribute reports, in comparable form.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Seen {
    pub ty: Option<u32>,
    pub name: Vec<u16>,
    pub inst: u16,
    pub flags: u16,
    pub resident: bool,
    pub len: u64,
    pub attr_len: u32,
    pub pos: u64,
    pub data: Result<Vec<u8>, String>,
}
pub fn see(a: &NtfsAttribute, d: &mut crate::disk::Disk, with_data: bool) -> Result<Seen, ntfs::NtfsError> {
    let data = if with_data { a.value(d).and_then(|mut v| read_all(&mut v, d, 1 << 22)).map_err(|e| format!("{:?}", e)) } else { Ok(vec![]) };
    Ok(Seen {
        ty: a.ty().ok().map(|t| t as u32),
        name: a.name()?.u16_iter().collect(),
        inst: a.instance(),
        flags: a.flags().bits(),
        resident: a.is_resident(),
        len: a.value_length(),
        attr_len: a.attribute_length(),
        pos: a.position().value().map_or(0, |p| p.get()),
        data,
    })
}
/// Reads from the current position to the end, with retries of interrupted reads.
pub fn read_all<V: NtfsReadSeek>(v: &mut V, d: &mut crate::disk::Disk, cap: usize) -> Result<Vec<u8>, ntfs::NtfsError> {
    let mut out = vec![];
    let mut buf = vec![0u8; 4096];
    loop {
        match v.read(d, &mut buf) {
            Ok(0) => return Ok(out),
            Ok(n) => out.extend(&buf[..n]),
            Err(e) if is_interrupted(&e) => {}
            Err(e) => return Err(e),
        }
        if out.len() > cap {
            return Ok(out);
        }
    }
}
