//! C12: structured values decode every field exactly as stored.
use crate::disk::Disk;
use crate::engine::*;
use crate::images;
use crate::img::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use ntfs::structured_values::*;
use ntfs::{Ntfs, NtfsAttribute, NtfsError};
use std::sync::Arc;

/// A decoded value: its fields, in an order of our own.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Dec {
    n: Vec<(&'static str, u64)>,
    s: Vec<(&'static str, Vec<u8>)>,
}
impl Dec {
    fn n(&mut self, k: &'static str, v: u64) {
        self.n.push((k, v))
    }
    fn s(&mut self, k: &'static str, v: impl AsRef<[u8]>) {
        self.s.push((k, v.as_ref().to_vec()))
    }
}
fn diff_dec(a: &Option<Dec>, b: &Option<Dec>) -> String {
    match (a, b) {
        (Some(a), Some(b)) => {
            let mut out = vec![];
            for (x, y) in a.n.iter().zip(&b.n).filter(|(x, y)| x != y) {
                out.push(format!("{} is {:#x}, stored {} {:#x}", x.0, x.1, y.0, y.1));
            }
            for (x, y) in a.s.iter().zip(&b.s).filter(|(x, y)| x != y) {
                out.push(format!("{} is {}, stored {}", x.0, show(&x.1), show(&y.1)));
            }
            if a.n.len() != b.n.len() || a.s.len() != b.s.len() {
                out.push(format!("{:?} instead of {:?}", a, b));
            }
            out.join("; ")
        }
        (None, Some(b)) => format!("refused, but valid: {:?}", b),
        (Some(a), None) => format!("accepted as {:?}, but invalid", a),
        _ => String::new(),
    }
}
fn show(b: &[u8]) -> String {
    std::str::from_utf8(b).map_or_else(|_| hexs(b), |s| if s.chars().all(|c| c.is_ascii_graphic()) { format!("'{}'", s) } else { hexs(b) })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    Std,
    Name,
    Oid,
    VolName,
    VolInfo,
    Root,
    List,
}
const KINDS: [K; 7] = [K::Std, K::Name, K::Oid, K::VolName, K::VolInfo, K::Root, K::List];
impl K {
    fn ty(self) -> u32 {
        match self {
            K::Std => ty::STD,
            K::Name => ty::NAME,
            K::Oid => ty::OBJID,
            K::VolName => ty::VOLNAME,
            K::VolInfo => ty::VOLINFO,
            K::Root => ty::ROOT,
            K::List => ty::LIST,
        }
    }
}

// ------------------------------------------------------------------ what the format says

fn le(v: &[u8], o: usize, n: usize) -> u64 {
    v[o..o + n].iter().rev().fold(0, |a, b| a << 8 | *b as u64)
}
const FILE_FLAGS: [(u32, &str); 14] = [
    (0x1, "READ_ONLY"),
    (0x2, "HIDDEN"),
    (0x4, "SYSTEM"),
    (0x20, "ARCHIVE"),
    (0x40, "DEVICE"),
    (0x80, "NORMAL"),
    (0x100, "TEMPORARY"),
    (0x200, "SPARSE_FILE"),
    (0x400, "REPARSE_POINT"),
    (0x800, "COMPRESSED"),
    (0x1000, "OFFLINE"),
    (0x2000, "NOT_CONTENT_INDEXED"),
    (0x4000, "ENCRYPTED"),
    (0x1000_0000, "IS_DIRECTORY"),
];
const FILE_MASK: u64 = 0x1000_7FE7;
const VOL_MASK: u64 = 0xC03F;
const TYPES: [u32; 16] = [0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0, 0xF0, 0x100];

fn guid(v: &[u8]) -> String {
    let h = |n: u64, w: usize| format!("{:0w$X}", n, w = w);
    let b: Vec<String> = v[8..16].iter().map(|x| h(*x as u64, 2)).collect();
    format!("{}-{}-{}-{}-{}", h(le(v, 0, 4), 8), h(le(v, 4, 2), 4), h(le(v, 6, 2), 4), b[..2].concat(), b[2..].concat())
}
fn model_std(v: &[u8]) -> Option<Dec> {
    if v.len() < 48 {
        return None;
    }
    let mut d = Dec::default();
    for (i, k) in ["creation", "modification", "record modification", "access"].into_iter().enumerate() {
        d.n(k, le(v, 8 * i, 8));
    }
    d.n("attributes", le(v, 32, 4) & FILE_MASK);
    for (k, o, n) in [("maximum versions", 36, 4), ("version", 40, 4), ("class", 44, 4), ("owner", 48, 4), ("security", 52, 4), ("quota", 56, 8), ("usn", 64, 8)] {
        let there = v.len() >= 72;
        d.n(k, there as u64);
        d.n(k, if there { le(v, o, n) } else { 0 });
    }
    Some(d)
}
fn model_name(v: &[u8]) -> Option<Dec> {
    // at least one character
    if v.len() < 68 {
        return None;
    }
    let n = 2 * v[64] as usize;
    if 66 + n > v.len() || v[65] > 3 {
        return None;
    }
    let mut d = Dec::default();
    d.n("parent record", le(v, 0, 6));
    d.n("parent sequence", le(v, 6, 2));
    for (i, k) in ["creation", "modification", "record modification", "access"].into_iter().enumerate() {
        d.n(k, le(v, 8 + 8 * i, 8));
    }
    d.n("allocated size", le(v, 40, 8));
    d.n("data size", le(v, 48, 8));
    d.n("attributes", le(v, 56, 4) & FILE_MASK);
    d.n("is directory", le(v, 56, 4) >> 28 & 1);
    d.n("name length", n as u64);
    d.n("namespace", v[65] as u64);
    d.s("name", &v[66..66 + n]);
    Some(d)
}
fn model_oid(v: &[u8]) -> Option<Dec> {
    if v.len() < 16 {
        return None;
    }
    let mut d = Dec::default();
    for (i, k) in ["object id", "birth volume", "birth object", "domain"].into_iter().enumerate() {
        let g = v.get(16 * i..16 * i + 16);
        d.n(k, g.is_some() as u64);
        if let Some(g) = g {
            d.s(k, guid(g));
            d.n(k, le(g, 0, 4));
            d.n(k, le(g, 4, 2));
            d.n(k, le(g, 6, 2));
            d.s(k, &g[8..]);
        }
    }
    Some(d)
}
fn model_volname(v: &[u8]) -> Option<Dec> {
    if v.len() > 256 {
        return None;
    }
    let mut d = Dec::default();
    d.n("length", v.len() as u64);
    d.s("name", v);
    Some(d)
}
fn model_volinfo(v: &[u8]) -> Option<Dec> {
    if v.len() < 12 {
        return None;
    }
    let mut d = Dec::default();
    d.n("major", v[8] as u64);
    d.n("minor", v[9] as u64);
    d.n("flags", le(v, 10, 2) & VOL_MASK);
    Some(d)
}
fn model_root(v: &[u8]) -> Option<Dec> {
    if v.len() < 32 {
        return None;
    }
    let (start, end) = (16 + le(v, 16, 4), 16 + le(v, 20, 4));
    if start >= v.len() as u64 || end > v.len() as u64 || start > end {
        return None;
    }
    let mut d = Dec::default();
    d.n("record size", le(v, 8, 4));
    d.n("used size", le(v, 20, 4));
    d.n("allocated size", le(v, 24, 4));
    d.n("large", v[28] as u64 & 1);
    Some(d)
}
/// The entries of a list up to the first one that is invalid, and whether there is one.
fn model_list(v: &[u8]) -> (Vec<Dec>, bool) {
    let mut out = vec![];
    let mut o = 0;
    while o < v.len() {
        let e = &v[o..];
        if e.len() < 26 {
            return (out, true);
        }
        let (len, n) = (le(e, 4, 2) as usize, 2 * e[6] as usize);
        if 26 + n > len || e.len() < 26 + n {
            return (out, true);
        }
        let mut d = Dec::default();
        let t = le(e, 0, 4);
        let known = TYPES.contains(&(t as u32));
        d.n("type known", known as u64);
        d.n("type", if known { t } else { 0 });
        d.n("length", len as u64);
        d.n("name length", n as u64);
        d.n("lowest vcn", le(e, 8, 8));
        d.n("record", le(e, 16, 6));
        d.n("sequence", le(e, 22, 2));
        d.n("instance", le(e, 24, 2));
        d.s("name", &e[26..26 + n]);
        out.push(d);
        o += len;
    }
    (out, false)
}
fn model(k: K, v: &[u8]) -> Option<Dec> {
    match k {
        K::Std => model_std(v),
        K::Name => model_name(v),
        K::Oid => model_oid(v),
        K::VolName => model_volname(v),
        K::VolInfo => model_volinfo(v),
        K::Root => model_root(v),
        K::List => unreachable!(),
    }
}

// ------------------------------------------------------------------ what the library says

fn lib_std(v: &NtfsStandardInformation) -> Dec {
    let mut d = Dec::default();
    d.n("creation", v.creation_time().nt_timestamp());
    d.n("modification", v.modification_time().nt_timestamp());
    d.n("record modification", v.mft_record_modification_time().nt_timestamp());
    d.n("access", v.access_time().nt_timestamp());
    d.n("attributes", v.file_attributes().bits() as u64);
    let mut o = |k, x: Option<u64>| {
        d.n(k, x.is_some() as u64);
        d.n(k, x.unwrap_or(0));
    };
    o("maximum versions", v.maximum_versions().map(|x| x as u64));
    o("version", v.version().map(|x| x as u64));
    o("class", v.class_id().map(|x| x as u64));
    o("owner", v.owner_id().map(|x| x as u64));
    o("security", v.security_id().map(|x| x as u64));
    o("quota", v.quota_charged());
    o("usn", v.usn());
    d
}
fn lib_name(v: &NtfsFileName) -> Dec {
    let mut d = Dec::default();
    d.n("parent record", v.parent_directory_reference().file_record_number());
    d.n("parent sequence", v.parent_directory_reference().sequence_number() as u64);
    d.n("creation", v.creation_time().nt_timestamp());
    d.n("modification", v.modification_time().nt_timestamp());
    d.n("record modification", v.mft_record_modification_time().nt_timestamp());
    d.n("access", v.access_time().nt_timestamp());
    d.n("allocated size", v.allocated_size());
    d.n("data size", v.data_size());
    d.n("attributes", v.file_attributes().bits() as u64);
    d.n("is directory", v.is_directory() as u64);
    d.n("name length", v.name_length() as u64);
    d.n("namespace", v.namespace() as u64);
    d.s("name", v.name().0);
    d
}
fn lib_oid(v: &NtfsObjectId) -> Dec {
    let mut d = Dec::default();
    for (k, g) in [("object id", Some(v.object_id())), ("birth volume", v.birth_volume_id()), ("birth object", v.birth_object_id()), ("domain", v.domain_id())] {
        d.n(k, g.is_some() as u64);
        if let Some(g) = g {
            d.s(k, g.to_string());
            d.n(k, g.data1 as u64);
            d.n(k, g.data2 as u64);
            d.n(k, g.data3 as u64);
            d.s(k, g.data4);
        }
    }
    d
}
fn lib_volname(v: &NtfsVolumeName) -> Dec {
    let mut d = Dec::default();
    d.n("length", v.name_length() as u64);
    d.s("name", v.name().0);
    d
}
fn lib_volinfo(v: &NtfsVolumeInformation) -> Dec {
    let mut d = Dec::default();
    d.n("major", v.major_version() as u64);
    d.n("minor", v.minor_version() as u64);
    d.n("flags", v.flags().bits() as u64);
    d
}
fn lib_root(v: &NtfsIndexRoot) -> Dec {
    let mut d = Dec::default();
    d.n("record size", v.index_record_size() as u64);
    d.n("used size", v.index_data_size() as u64);
    d.n("allocated size", v.index_allocated_size() as u64);
    d.n("large", v.is_large_index() as u64);
    d
}
/// Decodes through the value reader and, for those types that have it, directly from the record.
type Two = (Result<Dec, NtfsError>, Option<Result<Dec, NtfsError>>);
fn lib(k: K, a: &NtfsAttribute, d: &mut Disk) -> Two {
    macro_rules! both {
        ($t:ty, $f:ident) => {
            (a.structured_value::<_, $t>(d).map(|v| $f(&v)), Some(a.resident_structured_value::<$t>().map(|v| $f(&v))))
        };
    }
    match k {
        K::Std => both!(NtfsStandardInformation, lib_std),
        K::Name => (a.structured_value::<_, NtfsFileName>(d).map(|v| lib_name(&v)), None),
        K::Oid => both!(NtfsObjectId, lib_oid),
        K::VolName => both!(NtfsVolumeName, lib_volname),
        K::VolInfo => both!(NtfsVolumeInformation, lib_volinfo),
        K::Root => both!(NtfsIndexRoot, lib_root),
        K::List => (a.structured_value::<_, NtfsAttributeList>(d).map(|_| Dec::default()), None),
    }
}

// ------------------------------------------------------------------ where the value is stored

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Place {
    Resident,
    Outside,
    /// in two clusters far apart
    Split,
    /// resident in an extension record
    Extension,
    /// in two clusters, described by an extension record
    ExtensionOutside,
    RootKey,
    RecordKey,
}
const PLACES: [Place; 5] = [Place::Resident, Place::Outside, Place::Split, Place::Extension, Place::ExtensionOutside];

struct Bed {
    img: Arc<crate::disk::Img>,
    ntfs: Ntfs,
    vol: Vol,
}
fn bed(g: Geo) -> Bed {
    let mut vol = Vol::new(g, 48);
    let r = vol.rec().attr(Attr::res(ty::STD, "", 0, &std_info(1)));
    vol.put(30, &r);
    let img = vol.clone().done();
    let mut d = Disk::new(img.clone());
    let ntfs = Ntfs::new(&mut d).expect("harness: mount");
    Bed { img, ntfs, vol }
}

/// Checks that the value decodes to what the model says.
fn check(b: &Bed, k: K, place: Place, v: &[u8], ctx: &mut Ctx, what: &str) -> R {
    let want = model(k, v);
    let mut d = Disk::new(b.img.clone());
    let cs = b.vol.cs();
    let (l1, l2) = (b.vol.next + 3, b.vol.next + 1);
    let n = v.len() as u64;
    let cl = n.div_ceil(cs);
    let runs = if place == Place::Outside || cl < 2 { vec![run(cl.max(1), l1)] } else { vec![run(1, l1), run(cl - 1, l2)] };
    let attr = |name: &str, inst: u16| match place {
        Place::Outside | Place::Split | Place::ExtensionOutside => Attr::non(k.ty(), name, inst, &runs, cs, n),
        _ => Attr::res(k.ty(), name, inst, v),
    };
    // other attributes of the same record
    let other = |inst: u16| Attr::res(ty::BITMAP, "x", inst, &[0xEE; 16]);
    let outside = match place {
        Place::Outside | Place::Split | Place::ExtensionOutside => true,
        _ => false,
    };
    if outside {
        let mut o = 0usize;
        for r in &runs {
            let e = (o + (r.len * cs) as usize).min(v.len());
            let mut bytes = v[o..e].to_vec();
            // what follows must not matter
            bytes.resize((r.len * cs) as usize, 0xC3);
            d.patch.push((r.lcn.unwrap() * cs, bytes));
            o = e;
        }
    }
    let here = format!("{:?} {} {} bytes", k, what, v.len());
    let what = || format!("{} stored as {:?}: {}", here, place, hexs(&v[..v.len().min(120)]));
    let same = |got: Result<Dec, NtfsError>, how: &str| -> R {
        let got = got.ok();
        ensure!(got == want, format!("c12-{:?}", k), "{} ({}): {}", what(), how, diff_dec(&got, &want));
        Ok(())
    };
    match place {
        Place::Resident | Place::Outside | Place::Split => {
            let r = b.vol.rec().attr(attr("", 7)).attr(other(9));
            d.patch.push((b.vol.rec_addr(30), r.build()));
            let f = must(b.ntfs.file(&mut d, 30), "c12-file", &what())?;
            let a = must_some(f.attributes_raw().next(), "c12-attribute", &what())?;
            let a = must(a, "c12-attribute", &what())?;
            let (x, y) = lib(k, &a, &mut d);
            ctx.steps(2);
            if k == K::Root && outside {
                ensure!(x.is_err(), "c12-root-outside", "{}: an index root outside the record was accepted", what());
            } else {
                same(x, "structured_value")?;
            }
            match y {
                Some(y) if outside => ensure!(y.is_err(), "c12-resident-only", "{}: resident_structured_value accepted a non-resident value", what()),
                Some(y) => same(y, "resident_structured_value")?,
                None => {}
            }
        }
        Place::Extension | Place::ExtensionOutside => {
            let mut list = vec![];
            list.extend(list_entry(ty::STD, &[], 0, 30, 0));
            list.extend(list_entry(k.ty(), &[], 0, 31, 7));
            let r = b.vol.rec().attr(Attr::res(ty::STD, "", 0, &std_info(3))).attr(Attr::res(ty::LIST, "", 1, &list)).attr(other(9));
            let mut e = b.vol.rec().attr(attr("", 7)).attr(other(3));
            e.base = fref(30, 1);
            d.patch.push((b.vol.rec_addr(30), r.build()));
            d.patch.push((b.vol.rec_addr(31), e.build()));
            let f = must(b.ntfs.file(&mut d, 30), "c12-file", &what())?;
            let mut it = f.attributes();
            let mut seen = 0;
            while let Some(i) = it.next(&mut d) {
                let i = must(i, "c12-attribute", &what())?;
                let a = must(i.to_attribute(), "c12-attribute", &what())?;
                if a.instance() != 7 {
                    continue;
                }
                seen += 1;
                let (x, _) = lib(k, &a, &mut d);
                ctx.step();
                if k == K::Root && outside {
                    ensure!(x.is_err(), "c12-root-outside", "{}: an index root outside the record was accepted", what());
                } else {
                    same(x, "structured_value")?;
                }
            }
            ensure_eq!(seen, 1, "c12-attribute", "{}: attribute found in the extension record", what());
        }
        Place::RootKey | Place::RecordKey => {
            if v.is_empty() {
                return Ok(());
            }
            let key = Entry { fref: fref(33, 2), key: Some(v.to_vec()), sub: None, pad: 0 };
            let last = Entry { fref: 0, key: None, sub: None, pad: 0 };
            let r = if place == Place::RootKey {
                let es = encode_entries(&[key, last]);
                b.vol.rec().dir().attr(Attr::res(ty::ROOT, "$I30", 1, &index_root(&es, 4096, false, cs as u32)))
            } else {
                let es = encode_entries(&[key, last]);
                let n = 4096u64.div_ceil(cs);
                d.patch.push(((l1 + 2) * cs, index_record(4096, 0, &es, false, 0x33)));
                let es = encode_entries(&[Entry { fref: 0, key: None, sub: Some(0), pad: 0 }]);
                b.vol
                    .rec()
                    .dir()
                    .attr(Attr::res(ty::ROOT, "$I30", 1, &index_root(&es, 4096, true, cs as u32)))
                    .attr(Attr::non(ty::ALLOC, "$I30", 2, &[run(n, l1 + 2)], cs, 4096))
            };
            d.patch.push((b.vol.rec_addr(30), r.build()));
            let f = must(b.ntfs.file(&mut d, 30), "c12-file", &what())?;
            let ix = must(f.directory_index(&mut d), "c12-index", &what())?;
            let mut it = ix.entries();
            let e = must_some(it.next(&mut d), "c12-index", &what())?;
            let e = must(e, "c12-index", &what())?;
            let key = must_some(e.key(), "c12-key", &what())?;
            ctx.steps(2);
            same(key.map(|v| lib_name(&v)), "index key")?;
        }
    }
    ctx.state(&(k, place, v));
    ctx.outcome(&want);
    ctx.exec();
    Ok(())
}
fn places(k: K, v: &[u8], rs: usize) -> Vec<Place> {
    let mut p: Vec<Place> = PLACES.to_vec();
    if k == K::Name && !v.is_empty() {
        p.extend([Place::RootKey, Place::RecordKey]);
    }
    // what fits into a record
    p.retain(|p| match p {
        Place::Resident | Place::Extension => v.len() + 180 <= rs,
        Place::RootKey => v.len() + 200 <= rs,
        Place::RecordKey => v.len() <= 3900,
        _ => true,
    });
    p
}
/// A valid value in which every byte differs from its neighbours.
fn base(k: K, len: usize, pat: u8) -> Vec<u8> {
    let mut v: Vec<u8> = (0..len).map(|i| match pat {
        0 => 0,
        1 => (i as u8).wrapping_mul(29).wrapping_add(17),
        _ => 0xFF,
    }).collect();
    match k {
        K::Name if len >= 66 => {
            v[64] = ((len - 66) / 2).min(255) as u8;
            v[65] = 1;
        }
        K::Root if len >= 32 => {
            w32(&mut v, 16, 16);
            w32(&mut v, 20, len as u32 - 16);
        }
        _ => {}
    }
    v
}

// ------------------------------------------------------------------ attribute lists

/// Checks an attribute list's entries.
fn check_list(b: &Bed, place: Place, v: &[u8], ctx: &mut Ctx, what: &str) -> R {
    let (want, bad) = model_list(v);
    let mut d = Disk::new(b.img.clone());
    let cs = b.vol.cs();
    let (l1, l2) = (b.vol.next + 40, b.vol.next + 1);
    let n = v.len() as u64;
    let cl = n.div_ceil(cs);
    let runs = if place == Place::Outside || cl < 2 { vec![run(cl.max(1), l1)] } else { vec![run(1, l1), run(cl - 1, l2)] };
    let a = if place == Place::Resident { Attr::res(ty::LIST, "", 4, v) } else { Attr::non(ty::LIST, "", 4, &runs, cs, n) };
    if place != Place::Resident {
        let mut o = 0usize;
        for r in &runs {
            let e = (o + (r.len * cs) as usize).min(v.len());
            let mut bytes = v[o..e].to_vec();
            bytes.resize((r.len * cs) as usize, 0xC3);
            d.patch.push((r.lcn.unwrap() * cs, bytes));
            o = e;
        }
    }
    let r = b.vol.rec().attr(a);
    d.patch.push((b.vol.rec_addr(30), r.build()));
    let what = || format!("attribute list {} stored as {:?}: {}", what, place, hexs(&v[..v.len().min(160)]));
    let f = must(b.ntfs.file(&mut d, 30), "c12-file", &what())?;
    let a = must(must_some(f.attributes_raw().next(), "c12-attribute", &what())?, "c12-attribute", &what())?;
    let l: NtfsAttributeList = must(a.structured_value(&mut d), "c12-list", &what())?;
    let mut it = l.entries();
    let mut i = 0;
    loop {
        let e = it.next(&mut d);
        ctx.step();
        match e {
            None => {
                ensure!(i == want.len() && !bad, "c12-list-end", "{}: ended after {} entries of {}{}", what(), i, want.len(), if bad { " and an invalid one" } else { "" });
                break;
            }
            Some(Err(e)) => {
                ensure!(i == want.len() && bad, "c12-list-error", "{}: error {:?} for entry {}, which is valid", what(), e, i);
                break;
            }
            Some(Ok(e)) => {
                let mut x = Dec::default();
                let t = e.ty().ok();
                x.n("type known", t.is_some() as u64);
                x.n("type", t.map_or(0, |t| t as u64));
                x.n("length", e.list_entry_length() as u64);
                x.n("name length", e.name_length() as u64);
                x.n("lowest vcn", e.lowest_vcn().value() as u64);
                x.n("record", e.base_file_reference().file_record_number());
                x.n("sequence", e.base_file_reference().sequence_number() as u64);
                x.n("instance", e.instance() as u64);
                x.s("name", e.name().0);
                let (x, w) = (Some(x), want.get(i).cloned());
                ensure!(x == w, "c12-list-entry", "{}: entry {}: {}", what(), i, diff_dec(&x, &w));
                i += 1;
            }
        }
    }
    ctx.state(&(place, v));
    ctx.outcome(&(want, bad));
    ctx.exec();
    Ok(())
}
fn le_entry(t: u32, name: usize, pad: usize, seed: u64) -> Vec<u8> {
    let h = mix(seed);
    let nm: Vec<u16> = (0..name).map(|i| 0x61 + i as u16).collect();
    let mut e = list_entry(t, &nm, mix(h), mix(h + 1), mix(h + 2) as u16);
    let n = e.len() + pad;
    e.resize(n, 0xC3);
    w16(&mut e, 4, n as u16);
    w64(&mut e, 16, mix(h + 3));
    e
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut out = vec![];
    let beds: Arc<Vec<Bed>> = Arc::new(vec![bed(Geo::std()), bed(Geo::new(512, 4096, 4096)), bed(Geo::new(4096, 4096, 4096))]);
    let _ = images::geos;

    // lengths
    let b = beds.clone();
    let kinds: Vec<K> = KINDS[..6].to_vec();
    let nk = kinds.len();
    let ks = kinds.clone();
    let maxlen = t.pick(340usize, 720);
    out.push(Phase::new("lengths", format!("{} kinds x all lengths 0 to {} x 3 patterns x 3 geometries x where the value is stored", nk, maxlen), nk * (maxlen + 1), move |i, ctx| {
        let (k, len) = (ks[i % nk], i / nk);
        for b in b.iter() {
            for pat in 0..3 {
                let v = base(k, len, pat);
                ctx.sample(|| format!("{:?} of {} bytes", k, len));
                for p in places(k, &v, b.vol.rec().size) {
                    check(b, k, p, &v, ctx, "of length")?;
                }
            }
        }
        Ok(())
    }));

    // every value of every byte
    let b = beds.clone();
    let mut items: Vec<(K, usize, usize)> = vec![];
    for k in &kinds {
        let lens: Vec<usize> = match k {
            K::Std => vec![48, 71, 72, 80],
            K::Name => vec![68, 76, 90],
            K::Oid => vec![16, 31, 32, 48, 64, 72],
            K::VolName => vec![2, 24, 256],
            K::VolInfo => vec![12, 16],
            _ => vec![32, 48, 64],
        };
        for l in lens {
            for p in 0..l {
                items.push((*k, l, p));
            }
        }
    }
    let n = items.len();
    out.push(Phase::new("bytes", format!("all 256 values of every byte of {} values x 2 patterns x where the value is stored", 21), n, move |i, ctx| {
        let (k, len, p) = items[i];
        let b = &b[0];
        for pat in 0..2 {
            for x in 0..=255u8 {
                let mut v = base(k, len, pat);
                v[p] = x;
                for pl in places(k, &v, 1024) {
                    if k == K::VolName && len > 24 && !(t.thorough() || pl == Place::Resident) {
                        continue;
                    }
                    check(b, k, pl, &v, ctx, &format!("with byte {} = {:#x} of", p, x))?;
                }
            }
        }
        Ok(())
    }));

    // flags
    let b = beds.clone();
    out.push(Phase::new("flags", "all values of the low and high half of the file attributes and of the volume flags; the names of all flags", 512, move |i, ctx| {
        for x in (i as u32 * 128)..(i as u32 + 1) * 128 {
            for hi in [false, true] {
                let f = if hi { x << 16 | 0x21 } else { x };
                let mut v = base(K::Std, 72, 1);
                w32(&mut v, 32, f);
                check(&b[0], K::Std, Place::Resident, &v, ctx, "with flags")?;
                let mut v = base(K::Name, 76, 1);
                w32(&mut v, 56, f);
                check(&b[0], K::Name, if hi { Place::Resident } else { Place::RootKey }, &v, ctx, "with flags")?;
            }
            let mut v = base(K::VolInfo, 12, 1);
            w16(&mut v, 10, x as u16);
            check(&b[0], K::VolInfo, Place::Resident, &v, ctx, "with flags")?;
        }
        if i == 0 {
            use NtfsFileAttributeFlags as F;
            let named = [F::READ_ONLY, F::HIDDEN, F::SYSTEM, F::ARCHIVE, F::DEVICE, F::NORMAL, F::TEMPORARY, F::SPARSE_FILE, F::REPARSE_POINT, F::COMPRESSED, F::OFFLINE, F::NOT_CONTENT_INDEXED, F::ENCRYPTED, F::IS_DIRECTORY];
            for (f, (bit, name)) in named.into_iter().zip(FILE_FLAGS) {
                ensure_eq!(f.bits(), bit, "c12-flag", "file attribute {}", name);
            }
            use NtfsVolumeFlags as W;
            for (f, bit) in [(W::IS_DIRTY, 1), (W::RESIZE_LOG_FILE, 2), (W::UPGRADE_ON_MOUNT, 4), (W::MOUNTED_ON_NT4, 8), (W::DELETE_USN_UNDERWAY, 0x10), (W::REPAIR_OBJECT_ID, 0x20), (W::CHKDSK_UNDERWAY, 0x4000), (W::MODIFIED_BY_CHKDSK, 0x8000)] {
                ensure_eq!(f.bits(), bit, "c12-flag", "volume flag {:?}", f);
            }
            use NtfsFileNamespace as N;
            ensure_eq!([N::Posix as u8, N::Win32 as u8, N::Dos as u8, N::Win32AndDos as u8], [0, 1, 2, 3], "c12-namespace", "namespaces");
        }
        Ok(())
    }));

    // name lengths
    let b = beds.clone();
    out.push(Phase::new("name lengths", "all 256 name lengths x value lengths around and beyond the name's end x namespaces x where the value is stored x 3 geometries", 256, move |i, ctx| {
        for b in b.iter() {
            for d in [-3i32, -2, -1, 0, 1, 2, 5, 8, 40] {
                for ns in [0u8, 3, 4] {
                    let len = (66 + 2 * i as i32 + d).max(0) as usize;
                    let mut v = base(K::Name, len, 1);
                    if len >= 66 {
                        v[64] = i as u8;
                        v[65] = ns;
                    }
                    for p in places(K::Name, &v, b.vol.rec().size) {
                        check(b, K::Name, p, &v, ctx, &format!("with a name of {} characters in namespace {}", i, ns))?;
                    }
                }
            }
        }
        Ok(())
    }));

    // index root ranges
    let b = beds.clone();
    let edge: Vec<u32> = (0..=80).chain([0x7FFF_FFFF, 0x8000_0000, u32::MAX - 16, u32::MAX - 15, u32::MAX]).collect();
    let ne = edge.len();
    out.push(Phase::new("index root ranges", format!("{} entry offsets x {} sizes x 9 lengths", ne, ne), ne, move |i, ctx| {
        for e in &edge {
            for len in [32usize, 33, 40, 47, 48, 49, 64, 72, 80] {
                let mut v = base(K::Root, len, 1);
                w32(&mut v, 16, edge[i]);
                w32(&mut v, 20, *e);
                check(&b[0], K::Root, Place::Resident, &v, ctx, &format!("with entries from {} to {}", edge[i], e))?;
            }
        }
        Ok(())
    }));

    // identifiers
    let b = beds.clone();
    out.push(Phase::new("identifiers", "every value of every byte of the identifier at every place, and all pairs of zero and non-zero nibbles", 64, move |i, ctx| {
        for x in 0..1024u32 {
            // which of the 16 bytes are zero, small or large
            let s = mix((i as u64) << 32 | x as u64);
            let mut v = base(K::Oid, 64, 1);
            for j in 0..64 {
                v[j] = match s >> j & 1 | (s >> ((j + 7) % 64) & 1) << 1 {
                    0 => 0,
                    1 => 0x0A,
                    2 => 0xA0,
                    _ => 0xFB,
                };
            }
            check(&b[0], K::Oid, Place::Resident, &v, ctx, "")?;
        }
        Ok(())
    }));

    // an attribute of another type
    let b = beds.clone();
    out.push(Phase::new("other types", "a value asked for as every kind other than its own, resident and not", 16, move |i, ctx| {
        let stored = TYPES[i];
        for non in [false, true] {
            for k in KINDS {
                if k.ty() == stored {
                    continue;
                }
                let v = base(k, 72, 1);
                let b = &b[0];
                let mut d = Disk::new(b.img.clone());
                let l = b.vol.next + 3;
                let a = if non { Attr::non(stored, "", 7, &[run(1, l)], 512, v.len() as u64) } else { Attr::res(stored, "", 7, &v) };
                d.patch.push((l * 512, v.clone()));
                d.patch.push((b.vol.rec_addr(30), b.vol.rec().attr(a).build()));
                let f = must(b.ntfs.file(&mut d, 30), "c12-file", "other type")?;
                let a = must(must_some(f.attributes_raw().next(), "c12-attribute", "other type")?, "c12-attribute", "other type")?;
                let (x, y) = lib(k, &a, &mut d);
                ctx.steps(2);
                ensure!(x.is_err() && y.map_or(true, |y| y.is_err()), "c12-type", "an attribute of type {:#x} was decoded as {:?}", stored, k);
                ctx.state(&(stored, k, non));
                ctx.exec();
            }
        }
        Ok(())
    }));

    // attribute lists
    let b = beds.clone();
    let pl = [Place::Resident, Place::Outside, Place::Split];
    out.push(Phase::new("list entries", "one to three list entries: all 256 name lengths x padding x where the list is stored; all bytes of an entry", 256, move |i, ctx| {
        let b0 = &b[0];
        // a name of that length
        for pad in [0usize, 1, 2, 7, 8, 300] {
            for pre in 0..t.pick(6, 40) {
                let mut v = vec![];
                for j in 0..pre {
                    v.extend(le_entry(0x80, j % 4, 0, j as u64));
                }
                v.extend(le_entry(0x30, i, pad, i as u64));
                let mid = v.len();
                v.extend(le_entry(0x90, 3, 0, 77));
                for p in pl {
                    if p != Place::Resident || v.len() < 800 {
                        check_list(b0, p, &v, ctx, &format!("with a name of {} characters", i))?;
                    }
                    // cut off
                    for cut in [v.len() - 1, v.len() - 6, v.len() - 7, mid + 26, mid + 25, mid + 8, mid + 1, mid, mid - pad, (mid - pad).saturating_sub(1)] {
                        if p != Place::Resident || cut < 800 {
                            check_list(b0, p, &v[..cut], ctx, &format!("with a name of {} characters, cut off", i))?;
                        }
                    }
                }
            }
        }
        // that value at each byte
        for pos in 0..32 {
            // the name's offset says what it always says
            if pos == 7 {
                continue;
            }
            let mut v = le_entry(0x80, 3, 0, 5);
            v.extend(le_entry(0x30, 2, 0, 6));
            v.extend(le_entry(0x10, 0, 0, 7));
            v[pos] = i as u8;
            // an entry of another length makes what follows meaningless, but not unpredictable
            for p in pl {
                check_list(b0, p, &v, ctx, &format!("with byte {} = {:#x}", pos, i))?;
            }
        }
        // types
        for k in 0..64u32 {
            let t = (i as u32) << 4 | k << 12 | (k & 7) >> 1;
            let v = [le_entry(t, 2, 0, 9), le_entry(0x80, 0, 0, 5)].concat();
            check_list(b0, Place::Resident, &v, ctx, &format!("with type {:#x}", t))?;
        }
        Ok(())
    }));

    (out, Opts::default())
}
