//! Directory trees: every shape within bounds, laid out on a volume in every way asked for, together
//! with the entries they contain in order.
#![allow(dead_code)]
use crate::disk::{Disk, Img};
use crate::img::*;
use ntfs::Ntfs;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub const DIR: u64 = 6;

/// A node with its keys (indices into the sorted names) and the subnodes around them.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub keys: Vec<usize>,
    /// one more than keys, or empty if no entry has a subnode
    pub kids: Vec<Option<Node>>,
}
impl Node {
    pub fn size(&self) -> usize {
        self.keys.len() + self.kids.iter().flatten().map(|k| k.size()).sum::<usize>()
    }
    /// Number of index records below this node.
    pub fn records(&self) -> usize {
        self.kids.iter().flatten().map(|k| 1 + k.records()).sum()
    }
    fn number(&mut self, next: &mut usize) {
        let n = self.keys.len();
        for i in 0..=n {
            if let Some(Some(k)) = self.kids.get_mut(i) {
                k.number(next);
            }
            if i < n {
                self.keys[i] = *next;
                *next += 1;
            }
        }
    }
    pub fn number_from_zero(&mut self) {
        self.number(&mut 0)
    }
    pub fn short(&self) -> String {
        let mut s = String::from("(");
        for i in 0..=self.keys.len() {
            if let Some(Some(k)) = self.kids.get(i) {
                s += &k.short();
            } else if !self.kids.is_empty() {
                s += "-";
            }
            if i < self.keys.len() {
                s += &format!("{}", self.keys[i]);
            }
            if i < self.keys.len() && self.kids.is_empty() {
                s += " ";
            }
        }
        s + ")"
    }
}

/// Every tree with n keys and at most `depth` levels. With `partial`, entries of a node may have subnodes
/// or not independently of each other and leaves may be empty.
pub fn shapes(n: usize, depth: usize, partial: bool) -> Vec<Node> {
    fn rec(n: usize, d: usize, root: bool, partial: bool, memo: &mut HashMap<(usize, usize, bool), Vec<Node>>) -> Vec<Node> {
        if let Some(v) = memo.get(&(n, d, root)) {
            return v.clone();
        }
        let mut out = vec![];
        if n > 0 || root || partial {
            out.push(Node { keys: vec![0; n], kids: vec![] });
        }
        if d > 1 {
            for m in 0..=n {
                // distribute n-m keys over m+1 children
                let mut combos: Vec<(usize, Vec<Option<Node>>)> = vec![(n - m, vec![])];
                for i in 0..=m {
                    let mut next = vec![];
                    for (left, ks) in &combos {
                        let range = if i == m { *left..=*left } else { 0..=*left };
                        for k in range {
                            for c in rec(k, d - 1, false, partial, memo) {
                                let mut v = ks.clone();
                                v.push(Some(c));
                                next.push((left - k, v));
                            }
                            if k == 0 && partial {
                                let mut v = ks.clone();
                                v.push(None);
                                next.push((*left, v));
                            }
                        }
                    }
                    combos = next;
                }
                for (_, kids) in combos {
                    if kids.iter().any(|k| k.is_some()) {
                        out.push(Node { keys: vec![0; m], kids });
                    }
                }
            }
        }
        memo.insert((n, d, root), out.clone());
        out
    }
    let mut v = rec(n, depth, true, partial, &mut HashMap::new());
    for t in &mut v {
        t.number(&mut 0);
    }
    v
}

// ------------------------------------------------------------------ names

/// Names on the volume, in index order under `upcase_table`, pairwise different under it.
pub fn names(n: usize) -> Vec<Vec<u16>> {
    static POOL: OnceLock<Vec<Vec<u16>>> = OnceLock::new();
    let pool = POOL.get_or_init(|| {
        let t = upcase_table();
        let mut v: Vec<Vec<u16>> = ["0", "!x", "aB", "Ab.c", "abcdefgh", "cafÉ", "qq", "Z", "z", "\u{10400}x", "\u{FF5E}", "m", "mm", "MMM", "k~1", "_", "ÿ"]
            .iter()
            .map(|s| u16s(s))
            .collect();
        v.push(vec!['x' as u16; 60]);
        v.push(vec!['x' as u16; 59]);
        v.push(vec![0xD801, 'x' as u16]);
        v.push(vec!['n' as u16, 0, 'n' as u16]);
        v.sort_by_key(|s| up(&t, s));
        v.dedup_by_key(|s| up(&t, s));
        v
    });
    if n <= pool.len() {
        // spread over the pool, so that something sorts before, between and behind
        (0..n).map(|i| pool[(2 * i + 1) * pool.len() / (2 * n)].clone()).collect()
    } else {
        (0..n).map(|i| u16s(&format!("F{:06}", i))).collect()
    }
}

/// What a directory says about its k-th file: every namespace, files that are hidden, compressed, directories ...
pub fn flavour(k: usize, names: &[Vec<u16>]) -> FName {
    let mut f = FName::u(fref(5, 5), &names[k], [1u8, 0, 3, 2, 1, 3][(k + names.len()) % 6]);
    f.attrs = [0x20, 0x1000_0000, 0x26, 0x400, 0, 0x2800, 0x10][(k * 3 + names.len()) % 7];
    f
}
/// The file an entry belongs to: among them the master file table, the directory itself and the largest number.
pub fn entry_ref(k: usize, n: usize) -> u64 {
    match (k + n) % 8 {
        5 => fref(0, 1),
        2 => fref(5, 5),
        3 => fref(0xFFFF_FFFF_FFFF, 0xFFFF),
        6 => fref(30, 0),
        _ => fref(20 + k as u64, 3 + k as u16),
    }
}

// ------------------------------------------------------------------ layouts

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Frag {
    One,
    /// each index record in a run of its own, in reverse order on disk
    PerRecord,
    /// each cluster in a run of its own, reverse order
    PerCluster,
    /// like PerRecord, with several GiB of holes between the records
    Far,
    /// the same with distances of 2^32 VCNs
    Far32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Where {
    Base,
    /// root node in another record
    Root,
    /// allocation in another record
    Alloc,
    /// both in other records
    Both,
    /// allocation split over two other records
    AllocSplit,
    /// allocation split, first part in the base record
    AllocSplitBase,
}
#[derive(Clone, Debug)]
pub struct TreeLay {
    pub geo: Geo,
    pub irs: u32,
    pub tree: Node,
    /// slot of each record, in depth-first order
    pub slots: Vec<usize>,
    pub frag: Frag,
    pub place: Where,
    /// other indexes of the same file, under other names
    pub decoy: bool,
    pub list_nonres: bool,
    /// bytes of padding after each key
    pub pad: usize,
    /// stale allocation although the tree needs none
    pub stale_alloc: bool,
    /// index records filled up to so many bytes, by an entry counted from the node's last one
    pub full: Option<(usize, usize)>,
    /// entries with data instead of file names
    pub data: Option<DataKind>,
    /// names other than those of the pool
    pub own: Option<Arc<Vec<FName>>>,
}
/// Entries with a key of so many bytes, and so many bytes of data that far behind it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct DataKind {
    pub key: usize,
    pub gap: usize,
    pub data: usize,
}
impl DataKind {
    /// Keys are ordered by their first four bytes.
    pub fn key(&self, k: usize) -> Vec<u8> {
        let mut b = (2 * k as u32 + 1).to_be_bytes().to_vec();
        b.extend((4..self.key).map(|i| (k * 37 + i * 11 + 5) as u8));
        b
    }
    pub fn data(&self, k: usize) -> Vec<u8> {
        (0..self.data).map(|i| (k * 91 + i * 7 + 0x80) as u8).collect()
    }
    pub fn offset(&self) -> usize {
        align8(16 + self.key) + self.gap
    }
}
impl TreeLay {
    pub fn new(geo: Geo, irs: u32, tree: &Node) -> TreeLay {
        TreeLay {
            geo,
            irs,
            tree: tree.clone(),
            slots: (0..tree.records()).collect(),
            frag: Frag::One,
            place: Where::Base,
            decoy: false,
            list_nonres: false,
            pad: 0,
            stale_alloc: false,
            full: None,
            data: None,
            own: None,
        }
    }
    fn index_name(&self) -> &'static str {
        if self.data.is_some() { "$SII" } else { "$I30" }
    }
    /// Size of an entry without subnode.
    pub fn entry_size(&self, k: usize, names: &[Vec<u16>]) -> usize {
        self.pad + match self.data {
            None => align8(16 + 66 + 2 * names[k].len()),
            Some(d) => d.offset() + d.data,
        }
    }
    pub fn desc(&self) -> String {
        format!(
            "cluster {} index record {} tree {} slots {:?} {:?} {:?}{}{}{}{}{}{}{}",
            self.geo.cs,
            self.irs,
            self.tree.short(),
            self.slots,
            self.frag,
            self.place,
            if self.decoy { " decoys" } else { "" },
            if self.list_nonres { " non-resident list" } else { "" },
            if self.pad > 0 { " padded" } else { "" },
            if self.stale_alloc { " stale allocation" } else { "" },
            self.full.map_or(String::new(), |(gap, e)| format!(" all but {} bytes in use (entry {} from the end)", gap, e)),
            self.own.as_ref().map_or(String::new(), |o| format!(" names {:?}", o.iter().map(|n| (String::from_utf16_lossy(&n.name), n.ns)).collect::<Vec<_>>())),
            self.data.map_or(String::new(), |d| format!(" keys of {} bytes, {} bytes of data {} bytes behind", d.key, d.data, d.gap)),
        )
    }
}

/// An entry as stored.
#[derive(Clone, Debug)]
pub struct Stored {
    /// number of the entry in order
    pub k: usize,
    pub fname: FName,
    pub fref: u64,
    pub flags: u8,
    pub entry_len: u16,
    pub key_len: u16,
    pub sub: Option<u64>,
    /// absolute address of the entry's first byte
    pub addr: u64,
    /// slot of the record holding it, None for the root node
    pub slot: Option<usize>,
}
pub struct TreeBed {
    pub img: Arc<Img>,
    pub ntfs: &'static Ntfs,
    pub entries: Vec<Stored>,
    /// stream address and on-disk address of each record
    pub vcns: Vec<u64>,
    pub runs: Vec<Run>,
    pub step: u64,
    pub irs: u32,
    pub cs: u64,
    /// absolute address of the root value and of the allocation attribute
    pub root_addr: u64,
}

/// A volume with an uppercase table in the given geometry, and its mounted state.
pub fn base(g: Geo) -> &'static (Vol, Ntfs) {
    static M: OnceLock<Mutex<HashMap<Geo, &'static (Vol, Ntfs)>>> = OnceLock::new();
    let mut m = M.get_or_init(Default::default).lock().unwrap();
    m.entry(g).or_insert_with(|| {
        let mut v = Vol::new(g, 24);
        v.put_upcase(&upcase_table());
        let img = Arc::new(v.img.clone());
        let mut d = Disk::new(img);
        let mut n = Ntfs::new(&mut d).expect("harness: mount");
        n.read_upcase_table(&mut d).expect("harness: uppercase table");
        Box::leak(Box::new((v, n)))
    })
}

impl TreeLay {
    pub fn build(&self) -> TreeBed {
        let (v0, ntfs) = base(self.geo);
        let mut v = v0.clone();
        let cs = v.cs();
        let irs = self.irs as u64;
        let unit = if irs >= cs { cs } else { 512 };
        let nrec = self.slots.iter().max().map_or(0, |m| m + 1);
        let n = self.tree.size();
        let names = self.own.as_ref().map_or_else(|| names(n), |o| o.iter().map(|f| f.name.clone()).collect());
        // clusters of the allocation
        let mut runs: Vec<Run> = vec![];
        let far = matches!(self.frag, Frag::Far | Frag::Far32);
        // distance of adjacent slots within the stream
        let step = match self.frag {
            Frag::Far => (5u64 << 30) + irs.max(cs),
            Frag::Far32 => if irs < cs { 512 << 32 } else { cs << 32 },
            _ => irs,
        };
        // the allocation of one layout ends with its last record, that of the other with a hole behind it
        let bytes = if self.frag == Frag::Far && nrec > 0 { (nrec as u64 - 1) * step + irs } else { nrec as u64 * step };
        if far {
            let l = (irs / cs).max(1);
            let at = v.alloc((l + 1) * nrec as u64 + 1);
            for i in 0..nrec as u64 {
                runs.push(run(l, at + (nrec as u64 - 1 - i) * (l + 1)));
                if self.frag == Frag::Far32 || i + 1 < nrec as u64 {
                    runs.push(hole(step / cs - l));
                }
            }
        } else if nrec > 0 || self.stale_alloc {
            let nc = bytes.div_ceil(cs).max(1);
            let per = match self.frag {
                Frag::One => nc,
                Frag::PerRecord => (irs / cs).max(1),
                _ => 1,
            };
            let pieces = nc.div_ceil(per);
            let at = v.alloc(pieces * (per + 1) + 2);
            let mut left = nc;
            for i in 0..pieces {
                let l = per.min(left);
                left -= l;
                runs.push(run(l, at + (pieces - 1 - i) * (per + 1) + 1));
            }
        }
        // nodes
        struct B<'a> {
            lay: &'a TreeLay,
            names: &'a [Vec<u16>],
            next: usize,
            recs: Vec<(usize, Vec<u8>, bool)>,
            stored: Vec<Option<Stored>>,
            unit: u64,
            step: u64,
        }
        impl<'a> B<'a> {
            fn vcn(&self, slot: usize) -> u64 {
                slot as u64 * self.step / self.unit
            }
            /// Encodes a node's entries; addresses are offsets from the first entry for now.
            fn node(&mut self, n: &Node, slot: Option<usize>) -> Vec<u8> {
                let mut subs = vec![];
                for i in 0..=n.keys.len() {
                    subs.push(n.kids.get(i).and_then(|k| k.as_ref()).map(|k| {
                        let slot = self.lay.slots[self.next];
                        self.next += 1;
                        let e = self.node(k, Some(slot));
                        self.recs.push((slot, e, k.kids.iter().any(|x| x.is_some())));
                        self.vcn(slot)
                    }));
                }
                let mut out = vec![];
                let (mut extra, mut extra_at) = (0, usize::MAX);
                if let (Some((gap, from)), Some(_)) = (self.lay.full, slot) {
                    let sz = |i: usize| if i == n.keys.len() { 16 } else { self.lay.entry_size(n.keys[i], self.names) };
                    let total: usize = (0..=n.keys.len()).map(|i| sz(i) + if subs[i].is_some() { 8 } else { 0 }).sum();
                    extra = (self.lay.irs as usize - indx_entries_start(self.lay.irs as usize)).saturating_sub(gap + total);
                    extra_at = n.keys.len().saturating_sub(from);
                }
                for i in 0..=n.keys.len() {
                    let last = i == n.keys.len();
                    let k = if last { usize::MAX } else { n.keys[i] };
                    let f = if last { None } else { Some(self.lay.own.as_ref().map_or_else(|| flavour(k, self.names), |o| o[k].clone())) };
                    let more = if i == extra_at { extra } else { 0 };
                    let e = match self.lay.data {
                        Some(d) if !last => Entry {
                            fref: if d.data == 0 { 0 } else { d.offset() as u64 | (d.data as u64) << 16 },
                            key: Some(d.key(k)),
                            sub: subs[i],
                            pad: d.gap + d.data + self.lay.pad + more,
                        },
                        _ => Entry {
                            fref: if last { 0 } else { entry_ref(k, self.names.len()) },
                            key: f.as_ref().map(|f| f.encode()),
                            sub: subs[i],
                            pad: if last { 0 } else { self.lay.pad } + more,
                        },
                    };
                    let mut b = e.encode();
                    if let (Some(d), false) = (self.lay.data, last) {
                        b[d.offset()..d.offset() + d.data].copy_from_slice(&d.data(k));
                    }
                    if let Some(f) = f {
                        self.stored[k] = Some(Stored {
                            k,
                            key_len: u16::from_le_bytes([b[10], b[11]]),
                            fname: f,
                            fref: e.fref,
                            flags: e.sub.is_some() as u8,
                            entry_len: b.len() as u16,
                            sub: e.sub,
                            addr: out.len() as u64,
                            slot,
                        });
                    }
                    out.extend(b);
                }
                out
            }
        }
        let mut b = B { lay: self, names: &names, next: 0, recs: vec![], stored: vec![None; n], unit, step };
        let root_entries = b.node(&self.tree, None);
        let B { recs, mut stored, .. } = b;
        let start = indx_entries_start(self.irs as usize) as u64;
        // unused slots hold plausible stale records
        for s in 0..nrec {
            let mut es = Entry { fref: fref(77, 7), key: Some(FName::new(fref(5, 5), "stale", 1).encode()), sub: None, pad: 0 }.encode();
            es.extend(Entry { fref: 0, key: None, sub: None, pad: 0 }.encode());
            if es.len() + start as usize <= irs as usize {
                let r = index_record(irs as usize, s as u64 * step / unit, &es, false, 9);
                v.write_stream(&runs, s as u64 * step, &r);
            }
        }
        for (slot, es, sub) in &recs {
            let r = index_record(irs as usize, *slot as u64 * step / unit, es, *sub, 0x0102 + *slot as u16);
            v.write_stream(&runs, *slot as u64 * step, &r);
        }
        let mut root_val = index_root(&root_entries, self.irs, !runs.is_empty(), cs as u32);
        if self.data.is_some() {
            w32(&mut root_val, 0, 0);
            w32(&mut root_val, 4, 0x10);
        }
        // attributes
        let std = Attr::res(ty::STD, "", 0, &std_info(DIR));
        let name = Attr::res(ty::NAME, "", 1, &FName::new(fref(5, 5), "dir", 1).encode());
        let root = Attr::res(ty::ROOT, self.index_name(), 4, &root_val);
        let has_alloc = !runs.is_empty();
        let alloc_whole = Attr::non(ty::ALLOC, self.index_name(), 5, &runs, cs, bytes);
        let decoy_root = |nm: &str, inst| {
            let mut es = Entry { fref: fref(70, 7), key: Some(FName::new(fref(5, 5), "decoy", 1).encode()), sub: None, pad: 0 }.encode();
            es.extend(Entry { fref: 0, key: None, sub: None, pad: 0 }.encode());
            Attr::res(ty::ROOT, nm, inst, &index_root(&es, self.irs, false, cs as u32))
        };
        let root_at;
        if self.place == Where::Base {
            let mut r = v.rec().dir().attr(std).attr(name);
            if self.decoy {
                r = r.attr(decoy_root("$A", 7));
            }
            let at = r.attrs.len();
            r = r.attr(root);
            if self.decoy {
                r = r.attr(decoy_root("$Z", 8));
                if has_alloc {
                    let l = v.alloc(4);
                    r = r.attr(Attr::non(ty::ALLOC, "$A", 9, &[run(2, l)], cs, 2 * cs));
                }
            }
            if has_alloc {
                r = r.attr(alloc_whole);
            }
            root_at = (DIR, r.offsets()[at] + r.attrs[at].value_offset());
            v.put(DIR, &r);
        } else {
            let mut list = vec![];
            list.extend(list_entry(ty::STD, &[], 0, DIR, 0));
            list.extend(list_entry(ty::NAME, &[], 0, DIR, 1));
            let i30 = u16s(self.index_name());
            let (root_rec, parts): (u64, Vec<(u64, Attr)>) = match self.place {
                Where::Root => (7, vec![(DIR, alloc_whole)]),
                Where::Alloc => (DIR, vec![(8, alloc_whole)]),
                Where::Both => (7, vec![(8, alloc_whole)]),
                Where::AllocSplit | Where::AllocSplitBase => {
                    let cut = runs.len().div_ceil(2);
                    let (a, c) = runs.split_at(cut);
                    let first = if self.place == Where::AllocSplit { 8 } else { DIR };
                    let mut pa = Attr::extent(ty::ALLOC, self.index_name(), 5, 0, a, cs, bytes);
                    if let Val::Non { alloc, .. } = &mut pa.val {
                        *alloc = runs_clusters(&runs) * cs;
                    }
                    let mut ps = vec![(first, pa)];
                    if !c.is_empty() {
                        ps.push((9, Attr::extent(ty::ALLOC, self.index_name(), 5, runs_clusters(a), c, cs, bytes)));
                    }
                    (DIR, ps)
                }
                Where::Base => unreachable!(),
            };
            let mut recs: HashMap<u64, Vec<Attr>> = HashMap::new();
            if self.decoy {
                list.extend(list_entry(ty::ROOT, &u16s("$A"), 0, 10 + 1, 0));
                recs.entry(11).or_default().push(Attr { inst: 0, ..decoy_root("$A", 0) });
            }
            list.extend(list_entry(ty::ROOT, &i30, 0, root_rec, 4));
            recs.entry(root_rec).or_default().push(root);
            if has_alloc {
                for (rec, a) in parts {
                    let Val::Non { lo, .. } = &a.val else { unreachable!() };
                    list.extend(list_entry(ty::ALLOC, &i30, *lo, rec, a.inst));
                    recs.entry(rec).or_default().push(a);
                }
            }
            let la = if self.list_nonres {
                let cl = (list.len() as u64).div_ceil(cs);
                let l = v.alloc(cl + 1);
                v.write_stream(&[run(cl, l)], 0, &list);
                Attr::non(ty::LIST, "", 2, &[run(cl, l)], cs, list.len() as u64)
            } else {
                Attr::res(ty::LIST, "", 2, &list)
            };
            let mut where_root = (0, 0);
            let mut all: Vec<u64> = recs.keys().copied().collect();
            if !all.contains(&DIR) {
                all.push(DIR);
            }
            all.sort();
            for rn in all {
                let attrs = recs.remove(&rn).unwrap_or_default();
                let mut r = v.rec().dir();
                if rn == DIR {
                    r = r.attr(std.clone()).attr(la.clone()).attr(name.clone());
                } else {
                    r.base = fref(DIR, 1);
                }
                for a in attrs {
                    r = r.attr(a);
                }
                if let Some(at) = r.attrs.iter().position(|a| a.ty == ty::ROOT && a.name == i30) {
                    where_root = (rn, r.offsets()[at] + r.attrs[at].value_offset());
                }
                v.put(rn, &r);
            }
            root_at = where_root;
        }
        let root_addr = v.rec_addr(root_at.0) + root_at.1 as u64;
        for s in stored.iter_mut().flatten() {
            s.addr = match s.slot {
                None => root_addr + 32 + s.addr,
                Some(sl) => {
                    // the library knows the address of the record's first byte and counts from there
                    addr_of(&runs, cs, sl as u64 * step).unwrap() + start + s.addr
                }
            };
        }
        TreeBed {
            img: Arc::new(v.img),
            ntfs,
            entries: stored.into_iter().map(|s| s.unwrap()).collect(),
            step,
            vcns: (0..nrec as u64).map(|s| s * step / unit).collect(),
            runs,
            irs: self.irs,
            cs,
            root_addr,
        }
    }
}
impl TreeBed {
    pub fn disk(&self) -> Disk {
        Disk::new(self.img.clone())
    }
    pub fn slot_addr(&self, slot: usize) -> u64 {
        addr_of(&self.runs, self.cs, slot as u64 * self.step).unwrap()
    }
}
/// Geometry for a tree volume.
pub fn tgeo(cs: u32) -> Geo {
    let ss = if cs >= 4096 { 4096.min(cs) as u16 } else { 512 };
    Geo { ss: if cs == 4096 { 4096 } else { ss.min(512) }, cs, rs: if cs == 512 { 4096 } else { 4096 }, clusters: (64u64 << 20).div_ceil(cs as u64).max(400) }
}
