//! Small volumes that hold one of everything, for the checks that run the whole library over a volume.
//! Uses nothing but the image builder.
#![allow(dead_code)]
use crate::img::*;
use std::sync::Arc;

/// A stored structure: where its bytes are, and in which records' output it shows.
#[derive(Clone, Debug)]
pub struct Part {
    pub name: &'static str,
    pub addr: u64,
    pub len: usize,
    /// records to look at when it changed
    pub recs: Vec<u64>,
    /// known fields: offset within the part and width
    pub fields: Vec<(usize, usize)>,
    /// size of the protected record the part lies in, and its offset there: the last two bytes of each 512 are not data
    pub in_rec: usize,
    /// mount again
    pub mount: bool,
}
#[derive(Clone)]
pub struct Rich {
    pub name: &'static str,
    pub img: Arc<crate::disk::Img>,
    pub recs: Vec<u64>,
    pub parts: Vec<Part>,
    pub names: Vec<String>,
}

fn attr_fields(o: usize, a: &Attr) -> Vec<(usize, usize)> {
    let mut f: Vec<(usize, usize)> = vec![(0, 4), (4, 4), (8, 1), (9, 1), (10, 2), (12, 2), (14, 2)];
    match &a.val {
        Val::Res(_) => f.extend([(16, 4), (20, 2), (22, 1)]),
        _ => f.extend([(16, 8), (24, 8), (32, 2), (34, 1), (40, 8), (48, 8), (56, 8)]),
    }
    if !matches!(a.val, Val::Res(_)) {
        let s = a.value_offset();
        for k in 0..a.encode().len().saturating_sub(s).min(12) {
            f.push((s + k, 1));
        }
    } else {
        let s = a.value_offset();
        match a.ty {
            ty::NAME => f.extend([(s, 8), (s + 56, 4), (s + 64, 1), (s + 65, 1)]),
            ty::ROOT => {
                f.extend([(s, 4), (s + 8, 4), (s + 12, 1), (s + 16, 4), (s + 20, 4), (s + 24, 4), (s + 28, 1)]);
                let Val::Res(d) = &a.val else { unreachable!() };
                f.extend(entry_fields(s + 32, &d[32..]));
            }
            ty::LIST => {
                let Val::Res(d) = &a.val else { unreachable!() };
                f.extend(list_fields(s, d));
            }
            _ => {}
        }
    }
    f.into_iter().map(|(x, w)| (x + o, w)).collect()
}
fn list_fields(s: usize, d: &[u8]) -> Vec<(usize, usize)> {
    let mut f = vec![];
    let mut p = 0;
    while p + 26 <= d.len() {
        let l = u16::from_le_bytes([d[p + 4], d[p + 5]]) as usize;
        f.extend([(0, 4), (4, 2), (6, 1), (7, 1), (8, 8), (16, 8), (24, 2)].map(|(x, w)| (s + p + x, w)));
        p += l.max(26);
    }
    f
}
fn entry_fields(s: usize, d: &[u8]) -> Vec<(usize, usize)> {
    let mut f = vec![];
    let mut p = 0;
    while p + 16 <= d.len() {
        let l = u16::from_le_bytes([d[p + 8], d[p + 9]]) as usize;
        f.extend([(0, 8), (8, 2), (10, 2), (12, 2)].map(|(x, w)| (s + p + x, w)));
        if d[p + 12] & 1 == 1 && l >= 24 {
            f.push((s + p + l - 8, 8));
        }
        if d[p + 12] & 2 == 0 {
            f.extend([(s + p + 16 + 64, 1), (s + p + 16 + 65, 1)]);
        }
        p += l.max(16);
    }
    f
}
fn rec_part(v: &Vol, name: &'static str, n: u64, r: &Rec, recs: &[u64]) -> Part {
    let mut fields = vec![(0, 4), (4, 2), (6, 2), (16, 2), (18, 2), (20, 2), (22, 2), (24, 4), (28, 4), (32, 8)];
    let mut used = r.first_attr();
    for (o, a) in r.offsets().iter().zip(&r.attrs) {
        fields.extend(attr_fields(*o, a));
        used = o + a.encode().len();
    }
    fields.extend([(used, 4)]);
    fields.extend((0..3).map(|k| (r.usa_ofs + 2 * k, 2)));
    Part { name, addr: v.rec_addr(n), len: (used + 8).min(v.g.rs as usize), recs: recs.to_vec(), fields, in_rec: v.g.rs as usize, mount: n == 0 }
}
fn put(v: &mut Vol, parts: &mut Vec<Part>, name: &'static str, n: u64, r: &Rec, recs: &[u64]) {
    v.put(n, r);
    parts.push(rec_part(v, name, n, r, recs));
}
fn names(l: &[&str]) -> Vec<String> {
    l.iter().map(|s| s.to_string()).collect()
}
fn bytes(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(29).wrapping_add(k) | 1).collect()
}

/// Volume record, files with resident and non-resident streams.
pub fn files(g: Geo) -> Rich {
    let mut v = Vol::new(g, 24);
    let mut parts = vec![];
    v.put_upcase(&upcase_table());
    parts.push(Part { name: "boot sector", addr: 0, len: 512, recs: vec![6], fields: vec![(11, 2), (13, 1), (40, 8), (48, 8), (64, 1), (68, 1), (510, 2)], in_rec: 0, mount: true });
    // the MFT's record again, to know its fields
    let r0 = v
        .rec()
        .attr(Attr::res(ty::STD, "", 0, &std_info(0)))
        .attr(Attr::res(ty::NAME, "", 1, &FName::new(fref(5, 5), "$MFT", 3).encode()))
        .attr(Attr::non(ty::DATA, "", 2, &v.mft_runs.clone(), g.cs as u64, v.mft_size));
    put(&mut v, &mut parts, "mft record", 0, &r0, &[0, 6]);
    let mut vi = vec![0u8; 12];
    vi[8] = 3;
    vi[9] = 1;
    vi[10] = 1;
    let r3 = v
        .rec()
        .attr(Attr::res(ty::STD, "", 0, &std_info(3)))
        .attr(Attr::res(ty::OBJID, "", 1, &bytes(64, 7)))
        .attr(Attr::res(ty::VOLNAME, "", 2, &u16bytes(&u16s("label"))))
        .attr(Attr::res(ty::VOLINFO, "", 3, &vi));
    put(&mut v, &mut parts, "volume record", 3, &r3, &[3]);
    let cs = v.cs();
    let a = v.alloc(8);
    let b = v.alloc(8);
    let runs = [run(2, b), hole(3), run(1, a), run(2, b + 5)];
    let size = 8 * cs - 100;
    let data: Vec<u8> = bytes(size as usize, 3);
    v.write_stream(&runs, 0, &data);
    let r6 = v
        .rec()
        .attr(Attr::res(ty::STD, "", 0, &std_info(6)[..48]))
        .attr(Attr::res(ty::NAME, "", 1, &FName::new(fref(5, 5), "file", 1).encode()))
        .attr(Attr::res(ty::NAME, "", 2, &FName::new(fref(77, 5), "FILE~1", 2).encode()))
        .attr(Attr::non(ty::DATA, "", 3, &runs, cs, size).with_init(7 * cs + 9))
        .attr(Attr::res(ty::DATA, "s", 4, &bytes(90, 9)));
    put(&mut v, &mut parts, "file record", 6, &r6, &[6]);
    // a name and a std info stored outside
    let l = v.alloc(2);
    v.img.write(l * cs, &FName::new(fref(5, 5), "out", 1).encode());
    let r7 = v
        .rec()
        .attr(Attr::non(ty::NAME, "", 2, &[run(1, l)], cs, 72))
        .attr(Attr::non(ty::DATA, "S2", 3, &[run(1, l + 1), run(1, a + 5)], cs, cs + 50))
        .attr(Attr::non(ty::DATA, "sparse", 4, &[hole(1 << 30)], cs, cs << 30));
    put(&mut v, &mut parts, "file record with outside name", 7, &r7, &[7]);
    parts.push(Part { name: "outside name", addr: l * cs, len: 72, recs: vec![7], fields: vec![(64, 1), (65, 1), (0, 8)], in_rec: 0, mount: false });
    Rich { name: "files", img: Arc::new(v.img), recs: vec![0, 3, 6, 7, 10, 12, 100], parts, names: names(&["file"]) }
}

/// Files with attribute lists.
pub fn lists(g: Geo) -> Rich {
    let mut v = Vol::new(g, 40);
    let mut parts = vec![];
    v.put_upcase(&upcase_table());
    let cs = v.cs();
    // one resident list, one outside
    for (k, outside) in [(0u64, false), (1, true)] {
        let (b, e1, e2, e3) = (12 + 6 * k, 13 + 6 * k, 14 + 6 * k, 15 + 6 * k);
        let c = v.alloc(16);
        let p1 = [run(2, c), hole(1)];
        let p2 = [run(1, c + 5)];
        let p3 = [run(3, c + 2), run(1, c + 9)];
        let size = 8 * cs - 30;
        let all: Vec<Run> = [&p1[..], &p2[..], &p3[..]].concat();
        let data = bytes(size as usize, 5 + k as u8);
        v.write_stream(&all, 0, &data);
        let mut list = vec![];
        let nm = FName::new(fref(5, 5), "listed", 1).encode();
        list.extend(list_entry(ty::STD, &[], 0, b, 0));
        list.extend(list_entry(ty::NAME, &[], 0, e1, 0));
        list.extend(list_entry(ty::DATA, &[], 0, e1, 1));
        list.extend(list_entry(ty::DATA, &[], 3, e2, 0));
        list.extend(list_entry(ty::DATA, &[], 4, e3, 0));
        list.extend(list_entry(ty::DATA, &u16s("s"), 0, e2, 1));
        list.extend(list_entry(ty::DATA, &u16s("S2"), 0, b, 2));
        let la = if outside {
            let l = v.alloc(2);
            v.img.write(l * cs, &list);
            parts.push(Part { name: "outside attribute list", addr: l * cs, len: list.len(), recs: vec![b], fields: list_fields(0, &list), in_rec: 0, mount: false });
            Attr::non(ty::LIST, "", 1, &[run(1, l)], cs, list.len() as u64)
        } else {
            Attr::res(ty::LIST, "", 1, &list)
        };
        let rb = v.rec().attr(Attr::res(ty::STD, "", 0, &std_info(b))).attr(la).attr(Attr::res(ty::DATA, "S2", 2, &bytes(40, 1)));
        put(&mut v, &mut parts, "base record", b, &rb, &[b]);
        let ext = |v: &Vol| {
            let mut r = v.rec();
            r.base = fref(b, 1);
            r
        };
        let mut a1 = Attr::extent(ty::DATA, "", 1, 0, &p1, cs, size);
        if let Val::Non { alloc, .. } = &mut a1.val {
            *alloc = 8 * cs;
        }
        let r1 = ext(&v).attr(Attr::res(ty::NAME, "", 0, &nm)).attr(a1);
        put(&mut v, &mut parts, "extension record", e1, &r1, &[b]);
        let r2 = ext(&v).attr(Attr::extent(ty::DATA, "", 0, 3, &p2, cs, size)).attr(Attr::res(ty::DATA, "s", 1, &bytes(33, 2)));
        put(&mut v, &mut parts, "extension record", e2, &r2, &[b]);
        let r3 = ext(&v).attr(Attr::extent(ty::DATA, "", 0, 4, &p3, cs, size));
        put(&mut v, &mut parts, "extension record", e3, &r3, &[b]);
    }
    Rich { name: "lists", img: Arc::new(v.img), recs: vec![12, 18, 13], parts, names: names(&["listed"]) }
}

/// Directories: small, large and deep.
pub fn dirs(g: Geo) -> Rich {
    let mut v = Vol::new(g, 40);
    let mut parts = vec![];
    v.put_upcase(&upcase_table());
    let cs = v.cs();
    let irs = 1024usize;
    let unit = if irs as u64 >= cs { cs } else { 512 };
    let per = irs as u64 / unit;
    let e = |s: &str, n: u64, sub: Option<u64>| Entry { fref: fref(n, 1), key: Some(FName::new(fref(5, 1), s, 1).encode()), sub, pad: 0 };
    let last = |sub: Option<u64>| Entry { fref: 0, key: None, sub, pad: 0 };
    // root directory: entries in the root only
    let es = encode_entries(&[e("bb", 30, None), e("dd", 31, None), e("e", 5, None), last(None)]);
    let r5 = v.rec().dir().attr(Attr::res(ty::STD, "", 0, &std_info(5))).attr(Attr::res(ty::ROOT, "$I30", 1, &index_root(&es, irs as u32, false, cs as u32)));
    put(&mut v, &mut parts, "small directory", 5, &r5, &[5]);
    // three levels: root -> records 0 and 1, record 1 -> records 2 and 3
    let c = v.alloc(4 * irs as u64 / cs + 12);
    let n_cl = (4 * irs as u64).div_ceil(cs);
    let runs: Vec<Run> = if n_cl >= 4 { vec![run(3, c + 6), run(n_cl - 3, c)] } else { vec![run(n_cl, c)] };
    let root = encode_entries(&[e("g", 32, Some(0)), last(Some(per))]);
    let recs = [
        (0u64, encode_entries(&[e("a", 33, None), e("c", 34, None), last(None)]), false),
        (1, encode_entries(&[e("m", 35, Some(2 * per)), e("p", 36, None), last(Some(3 * per))]), true),
        (2, encode_entries(&[e("i", 37, None), last(None)]), false),
        (3, encode_entries(&[e("q2", 38, None), e("s", 39, None), e("u", 30, None), last(None)]), false),
    ];
    for (k, es, sub) in &recs {
        let rec = index_record(irs, k * per, es, *sub, 9);
        v.write_stream(&runs, k * irs as u64, &rec);
        let s = indx_entries_start(irs);
        let mut fields = vec![(0, 4), (4, 2), (6, 2), (16, 8), (24, 4), (28, 4), (32, 4), (36, 1), (40, 2), (42, 2)];
        fields.extend(entry_fields(s, es));
        // a record may be torn over runs: list it in pieces
        let mut o = 0usize;
        while o < s + es.len() {
            let a = addr_of(&runs, cs, k * irs as u64 + o as u64).unwrap();
            let mut n = 512 - o % 512;
            while o + n < s + es.len() && addr_of(&runs, cs, k * irs as u64 + (o + n) as u64) == Some(a + n as u64) {
                n += 512;
            }
            let n = n.min(s + es.len() - o);
            let f = fields.iter().filter(|f| f.0 >= o && f.0 + f.1 <= o + n).map(|f| (f.0 - o, f.1)).collect();
            parts.push(Part { name: "index record", addr: a, len: n, recs: vec![16], fields: f, in_rec: irs, mount: false });
            o += n;
        }
    }
    let r16 = v
        .rec()
        .dir()
        .attr(Attr::res(ty::STD, "", 0, &std_info(16)))
        .attr(Attr::res(ty::ROOT, "$I30", 1, &index_root(&root, irs as u32, true, cs as u32)))
        .attr(Attr::non(ty::ALLOC, "$I30", 2, &runs, cs, 4 * irs as u64))
        .attr(Attr::res(ty::BITMAP, "$I30", 3, &[15, 0, 0, 0, 0, 0, 0, 0]));
    put(&mut v, &mut parts, "large directory", 16, &r16, &[16]);
    // the index allocation is in another record
    let r17 = v.rec().dir().attr(Attr::res(ty::STD, "", 0, &std_info(17))).attr(Attr::res(
        ty::LIST,
        "",
        1,
        &[list_entry(ty::STD, &[], 0, 17, 0), list_entry(ty::ROOT, &u16s("$I30"), 0, 18, 1), list_entry(ty::ALLOC, &u16s("$I30"), 0, 18, 2)].concat(),
    ));
    put(&mut v, &mut parts, "listed directory", 17, &r17, &[17]);
    let mut r18 = v.rec().attr(Attr::res(ty::ROOT, "$I30", 1, &index_root(&root, irs as u32, true, cs as u32))).attr(Attr::non(ty::ALLOC, "$I30", 2, &runs, cs, 4 * irs as u64));
    r18.base = fref(17, 1);
    put(&mut v, &mut parts, "listed directory's extension", 18, &r18, &[17]);
    // an index with keys and data of another kind
    let any = |k: u8, sub: Option<u64>| {
        let mut b = Entry { fref: 24 | 12 << 16, key: Some(vec![k, 0, 0, 0, 7]), sub, pad: 12 + 4 }.encode();
        b[24..36].copy_from_slice(&bytes(12, k));
        b
    };
    let l = v.alloc((irs as u64).div_ceil(cs) + 1);
    let runs = [run((irs as u64).div_ceil(cs), l)];
    let es = [any(1, None), any(2, None), last(None).encode()].concat();
    v.write_stream(&runs, 0, &index_record(irs, 0, &es, false, 8));
    let s = indx_entries_start(irs);
    let mut fields = vec![(16, 8), (24, 4), (28, 4), (32, 4)];
    for p in [0usize, 40, 80] {
        fields.extend([(0, 2), (2, 2), (8, 2), (10, 2), (12, 2)].map(|(x, w)| (s + p + x, w)));
    }
    parts.push(Part { name: "other index record", addr: l * cs, len: s + es.len(), recs: vec![19], fields, in_rec: irs, mount: false });
    let mut root = index_root(&[any(5, Some(0)), any(9, None), last(None).encode()].concat(), irs as u32, true, cs as u32);
    w32(&mut root, 0, 0);
    let r19 = v.rec().attr(Attr::res(ty::STD, "", 0, &std_info(19))).attr(Attr::res(ty::ROOT, "$S", 1, &root)).attr(Attr::non(ty::ALLOC, "$S", 2, &runs, cs, irs as u64));
    put(&mut v, &mut parts, "other index", 19, &r19, &[19]);
    Rich { name: "dirs", img: Arc::new(v.img), recs: vec![5, 16, 17, 18, 19, 30], parts, names: names(&["a", "B", "i", "Q2", "U", "zz", "h", ""]) }
}
pub fn all(g: Geo) -> Vec<Rich> {
    vec![files(g), lists(g), dirs(g)]
}
pub fn geos() -> Vec<Geo> {
    vec![
        Geo { ss: 512, cs: 512, rs: 1024, clusters: 2400 },
        Geo { ss: 512, cs: 4096, rs: 1024, clusters: 300 },
        Geo { ss: 1024, cs: 1024, rs: 4096, clusters: 1200 },
    ]
}
