//! C11: convenience accessors return the matching attribute and nothing else.
use crate::disk::Disk;
use crate::engine::*;
use crate::files::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::{NtfsFileName, NtfsFileNamespace};
use ntfs::{Ntfs, NtfsFile, NtfsIndex};
use std::sync::Arc;

pub struct Base {
    pub vol: Vol,
    /// with and without the uppercase table
    pub ntfs: Ntfs,
    pub bare: Ntfs,
}
pub fn base(g: Geo) -> Base {
    base_of(g, 24)
}
fn base_of(g: Geo, records: u64) -> Base {
    let mut v = Vol::new(g, records);
    v.put_upcase(&upcase_table());
    v.alloc(300);
    let img = Arc::new(v.img.clone());
    let mut d = Disk::new(img);
    let bare = Ntfs::new(&mut d).expect("harness: mount");
    let mut ntfs = Ntfs::new(&mut d).expect("harness: mount");
    ntfs.read_upcase_table(&mut d).expect("harness: uppercase table");
    Base { ntfs, bare, vol: v }
}
fn std_geo() -> Geo {
    Geo { ss: 512, cs: 512, rs: 1024, clusters: 1200 }
}
fn v(key: &str, msg: String) -> V {
    V { key: key.into(), msg }
}

/// Positions of the attributes in the order in which the file enumerates them.
fn order(f: &NtfsFile, d: &mut Disk) -> Result<Vec<u64>, V> {
    let mut it = f.attributes();
    let mut out = vec![];
    while let Some(i) = it.next(d) {
        let i = i.map_err(|e| v("c11-enum", format!("{:?}", e)))?;
        let a = i.to_attribute().map_err(|e| v("c11-enum", format!("{:?}", e)))?;
        out.push(a.position().value().unwrap().get());
        if out.len() > 4096 {
            return Err(v("c11-enum", "enumeration does not end".into()));
        }
    }
    Ok(out)
}
fn addr(b: &Vol, lay: &FileLay, s: &Stored) -> u64 {
    b.rec_addr(lay.recs[s.rec]) + s.off as u64
}
fn desc(lay: &FileLay) -> String {
    let a: Vec<String> = lay.attrs.iter().map(|a| format!("{:x}:{:?}{}@{:?}", a.ty, String::from_utf16_lossy(&a.name), if matches!(a.form, Form::Res(_)) { "" } else { "~" }, a.at)).collect();
    format!("[{}] list {:?}", a.join(" "), lay.list)
}
fn list_of(attrs: &[LAttr]) -> Vec<ListForm> {
    if attrs.iter().any(|a| a.at.len() > 1 || a.at[0] > 0) {
        vec![ListForm::Res, ListForm::Non]
    } else {
        vec![ListForm::None, ListForm::Res]
    }
}

// ------------------------------------------------------------------ data streams

const STREAMS: [&str; 8] = ["", "s", "sS", "ü", "z", "Z", "q", "\u{10400}x"];
const QUERIES: [&str; 19] = ["", "s", "S", "ss", "SS", "Ss", "sss", "ü", "Ü", "u", "z", "Z", "q", "Q", "\u{2200}", "\u{10400}X", "\u{10000}x", " ", "s\0"];

fn data_case(b: &Base, lay: &FileLay, queries: &[&str], ctx: &mut Ctx) -> R {
    let mut vol = b.vol.clone();
    let Some(built) = lay.build(&mut vol) else { return Ok(()) };
    let t = upcase_table();
    ctx.sample(|| desc(lay));
    let mut d = Disk::new(Arc::new(vol.img.clone()));
    let f = b.ntfs.file(&mut d, lay.recs[0]).map_err(|e| v("c11-file", format!("{}: {:?}", desc(lay), e)))?;
    let ord = order(&f, &mut d)?;
    for q in queries {
        ctx.step();
        let q = *q;
        let qu = up(&t, &u16s(q));
        let mut m: Vec<usize> = (0..lay.attrs.len())
            .filter(|i| {
                let a = &lay.attrs[*i];
                a.ty == ty::DATA && if q.is_empty() { a.name.is_empty() } else { up(&t, &a.name) == qu }
            })
            .collect();
        m.sort_by_key(|i| ord.iter().position(|p| *p == addr(&vol, lay, &built.stored[*i])).unwrap_or(99));
        let got = f.data(&mut d, q);
        match (m.first(), got) {
            (None, None) => {}
            (None, Some(g)) => {
                let w = g.and_then(|i| i.to_attribute().map(|a| a.name().map(|n| n.to_string_lossy())));
                return fail("c11-data-extra", format!("{}: asked for {:?}, got {:?}", desc(lay), q, w));
            }
            (Some(_), None) => return fail("c11-data-absent", format!("{}: {:?} reported absent", desc(lay), q)),
            (Some(i), Some(g)) => {
                let g = g.map_err(|e| v("c11-data-err", format!("{}: {:?}: {:?}", desc(lay), q, e)))?;
                let a = g.to_attribute().map_err(|e| v("c11-data-err", format!("{}: {:?}: {:?}", desc(lay), q, e)))?;
                let s = see(&a, &mut d, true).map_err(|e| v("c11-data-err", format!("{}: {:?}: {:?}", desc(lay), q, e)))?;
                ensure_eq!(s.pos, addr(&vol, lay, &built.stored[*i]), "c11-data-other", "{}: {:?}: other attribute", desc(lay), q);
                ensure!(s.ty == Some(ty::DATA) && s.name == lay.attrs[*i].name && s.data == Ok(lay.attrs[*i].content(&vol)), "c11-data-content", "{}: {:?}: wrong type, name or content", desc(lay), q);
            }
        }
        ctx.outcome(&(q.len(), q.chars().next(), m.len()));
    }
    // the unnamed stream does not need the table
    let f = b.bare.file(&mut d, lay.recs[0]).map_err(|e| v("c11-file", format!("{:?}", e)))?;
    ensure_eq!(f.data(&mut d, "").is_some(), lay.attrs.iter().any(|a| a.ty == ty::DATA && a.name.is_empty()), "c11-data-bare", "{}: unnamed stream without uppercase table", desc(lay));
    // an unreadable extension record never makes a stream absent
    for r in 1..lay.recs.len() {
        if !lay.attrs.iter().any(|a| a.at.contains(&r)) {
            continue;
        }
        let mut vd = vol.clone();
        vd.put_raw(lay.recs[r], b"BAAD");
        let mut d = Disk::new(Arc::new(vd.img));
        let f = b.ntfs.file(&mut d, lay.recs[0]).map_err(|e| v("c11-file", format!("{:?}", e)))?;
        for a in lay.attrs.iter().filter(|a| a.ty == ty::DATA) {
            let n = String::from_utf16_lossy(&a.name);
            ctx.step();
            ensure!(f.data(&mut d, &n).is_some(), "c11-data-damaged", "{}: {:?} reported absent although record {} is unreadable", desc(lay), n, r);
        }
    }
    ctx.exec();
    Ok(())
}

// ------------------------------------------------------------------ file names

fn ns_of(n: u8) -> NtfsFileNamespace {
    [NtfsFileNamespace::Posix, NtfsFileNamespace::Win32, NtfsFileNamespace::Dos, NtfsFileNamespace::Win32AndDos][n as usize]
}
/// Names a file can have: namespace and parent reference.
const PARENTS: [u64; 4] = [5 | 5 << 48, 300 | 9 << 48, 300 | 5 << 48, (1 << 40 | 5) | 1 << 48];
const PQ: [Option<u64>; 7] = [None, Some(5), Some(300), Some(1 << 40 | 5), Some(5 | 5 << 48), Some(6), Some(0)];

fn name_case(b: &Base, lay: &FileLay, names: &[FName], ctx: &mut Ctx) -> R {
    let mut vol = b.vol.clone();
    let Some(built) = lay.build(&mut vol) else { return Ok(()) };
    // contents of non-resident names
    for (a, n) in lay.attrs.iter().filter(|a| a.ty == ty::NAME).zip(names) {
        if let Form::Non { pieces, .. } = &a.form {
            vol.write_stream(&pieces.concat(), 0, &n.encode());
        }
    }
    ctx.sample(|| desc(lay));
    let mut d = Disk::new(Arc::new(vol.img.clone()));
    let f = b.bare.file(&mut d, lay.recs[0]).map_err(|e| v("c11-file", format!("{}: {:?}", desc(lay), e)))?;
    let ord = order(&f, &mut d)?;
    let first = lay.attrs.iter().position(|a| a.ty == ty::NAME).unwrap_or(0);
    for ns in [None, Some(0u8), Some(1), Some(2), Some(3)] {
        for p in PQ {
            ctx.step();
            let mut m: Vec<usize> = (0..names.len())
                .filter(|i| ns.map_or(true, |n| names[*i].ns == n) && p.map_or(true, |p| names[*i].parent & 0xFFFF_FFFF_FFFF == p))
                .collect();
            m.sort_by_key(|i| ord.iter().position(|x| *x == addr(&vol, lay, &built.stored[first + *i])).unwrap_or(99));
            let got = f.name(&mut d, ns.map(ns_of), p);
            let what = || format!("{} names {:x?} asked for {:?} {:x?}", desc(lay), names.iter().map(|n| (n.ns, n.parent)).collect::<Vec<_>>(), ns, p);
            match (m.first(), got) {
                (None, None) => {}
                (None, Some(g)) => return fail("c11-name-extra", format!("{}: got {:?}", what(), g.map(|n| n.name().to_string_lossy()))),
                (Some(_), None) => return fail("c11-name-absent", format!("{}: reported absent", what())),
                (Some(i), Some(g)) => {
                    let g = g.map_err(|e| v("c11-name-err", format!("{}: {:?}", what(), e)))?;
                    let w = &names[*i];
                    let n: Vec<u16> = g.name().u16_iter().collect();
                    ensure!(
                        n == w.name && g.namespace() as u8 == w.ns && g.parent_directory_reference().file_record_number() == w.parent & 0xFFFF_FFFF_FFFF && g.data_size() == w.size && g.creation_time().nt_timestamp() == w.times[0],
                        "c11-name-other",
                        "{}: got {:?}",
                        what(),
                        g
                    );
                }
            }
            ctx.outcome(&(ns, p, m.len()));
        }
    }
    ctx.exec();
    Ok(())
}

// ------------------------------------------------------------------ indexes

fn idx_entries(tag: u8, sub: Option<u64>) -> Vec<u8> {
    let e = |s: String, n: u64| Entry { fref: fref(n, tag as u16), key: Some(FName::new(fref(6, 1), &s, 1).encode()), sub: None, pad: 0 };
    let mut l = vec![];
    match sub {
        None => {
            l.push(e(format!("a{}", tag), 20));
            l.push(e(format!("b{}", tag), 21));
            l.push(Entry { fref: 0, key: None, sub: None, pad: 0 });
        }
        Some(s) => l.push(Entry { fref: 0, key: None, sub: Some(s), pad: 0 }),
    }
    encode_entries(&l)
}
const INDEX_NAMES: [&str; 4] = ["$I30", "$I3", "$SDH", "$i30"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ix {
    Root(usize, bool),
    Alloc(usize),
}

fn index_case(b: &Base, parts: &[Ix], at: &[usize], dir: bool, ctx: &mut Ctx) -> R {
    let mut vol = b.vol.clone();
    let cs = vol.cs();
    let mut attrs = vec![LAttr::res(ty::STD, "", &std_info(6))];
    for (k, p) in parts.iter().enumerate() {
        let mut a = match p {
            Ix::Root(n, large) => {
                let e = if *large { idx_entries(*n as u8, Some(0)) } else { idx_entries(*n as u8, None) };
                LAttr::res(ty::ROOT, INDEX_NAMES[*n], &index_root(&e, 1024, *large, cs as u32))
            }
            Ix::Alloc(n) => {
                let l = vol.alloc(4);
                let rec = index_record(1024, 0, &idx_entries(16 + *n as u8, None), false, 3);
                vol.write_stream(&[run(2, l)], 0, &rec);
                LAttr::non(ty::ALLOC, INDEX_NAMES[*n], vec![vec![run(2, l)]], 1024)
            }
        };
        a.at = vec![at[k]];
        attrs.push(a);
    }
    let lists = list_of(&attrs);
    for list in lists {
        let lay = FileLay { attrs: attrs.clone(), list, inst: Inst::PerRecord, dir, recs: vec![6, 7, 8, 9] };
        let mut vol = vol.clone();
        let Some(built) = lay.build(&mut vol) else { continue };
        let what = || format!("{} directory {} parts {:?}", desc(&lay), dir, parts);
        ctx.sample(what);
        let mut d = Disk::new(Arc::new(vol.img.clone()));
        let f = b.bare.file(&mut d, 6).map_err(|e| v("c11-file", format!("{}: {:?}", what(), e)))?;
        let ord = order(&f, &mut d)?;
        let pos = |k: usize| ord.iter().position(|x| *x == addr(&vol, &lay, &built.stored[k + 1])).unwrap_or(99);
        ensure_eq!(f.is_directory(), dir, "c11-isdir", "{}", what());
        let mut roots: Vec<usize> = (0..parts.len()).filter(|i| matches!(parts[*i], Ix::Root(0, _))).collect();
        roots.sort_by_key(|k| pos(*k));
        let alloc = parts.iter().any(|p| *p == Ix::Alloc(0));
        let want: Option<Vec<String>> = match roots.first().map(|r| parts[*r]) {
            _ if !dir => None,
            Some(Ix::Root(_, false)) => Some(vec!["a0".into(), "b0".into()]),
            Some(Ix::Root(_, true)) if alloc => Some(vec!["a16".into(), "b16".into()]),
            _ => None,
        };
        ctx.step();
        let got: Result<Vec<String>, ntfs::NtfsError> = f.directory_index(&mut d).and_then(|ix: NtfsIndex<NtfsFileNameIndex>| {
            let mut it = ix.entries();
            let mut out = vec![];
            while let Some(e) = it.next(&mut d) {
                out.push(e?.key().unwrap()?.name().to_string_lossy());
            }
            Ok(out)
        });
        ctx.outcome(&want.is_some());
        match (&want, &got) {
            (None, Err(e)) => {
                let nd = matches!(e, ntfs::NtfsError::NotADirectory { .. });
                ensure_eq!(nd, !dir, "c11-index-notdir", "{}: {:?}", what(), e);
            }
            (Some(w), Ok(g)) => ensure_eq!(g, w, "c11-index-other", "{}", what()),
            _ => return fail("c11-index", format!("{}: got {:?}, expected {:?}", what(), got, want)),
        }
        ctx.exec();
    }
    Ok(())
}

// ------------------------------------------------------------------ everything in one file

/// Kinds of attributes a file can have.
const KINDS: usize = 11;
fn kind(k: usize, j: usize, vol: &mut Vol) -> LAttr {
    let cs = vol.cs() as u32;
    let lcn = 240 - 8 * j as u64;
    match k {
        0 => LAttr::res(ty::STD, "", &std_info(50 + j as u64)),
        1 => LAttr::res(ty::NAME, "", &FName::new(fref(5, 5), &format!("n{}", j), 1).encode()),
        2 => LAttr::res(ty::NAME, "", &FName::new(fref(300, 5), &format!("n{}", j), 2).encode()),
        3 => LAttr::res(ty::DATA, "", &crate::lay::data_bytes(3 + j)),
        4 => LAttr::non(ty::DATA, "", vec![vec![run(1, lcn)], vec![run(2, lcn - 4)]], 1300),
        5 => LAttr::non(ty::DATA, "s", vec![vec![run(1, lcn), run(2, lcn - 4)]], 1300),
        6 => LAttr::res(ty::ROOT, "$I30", &index_root(&idx_entries(j as u8, None), 1024, false, cs)),
        7 => LAttr::res(ty::ROOT, "$I30", &index_root(&idx_entries(j as u8, Some(0)), 1024, true, cs)),
        8 => {
            let l = vol.alloc(4);
            let rec = index_record(1024, 0, &idx_entries(16 + j as u8, None), false, 3);
            vol.write_stream(&[run(2, l)], 0, &rec);
            LAttr::non(ty::ALLOC, "$I30", vec![vec![run(2, l)]], 1024)
        }
        9 => LAttr::res(ty::BITMAP, "$I30", &[1; 8]),
        _ => LAttr::res(ty::REPARSE, "", &[7; 12]),
    }
}

fn together(b: &Base, kinds: &[usize], ctx: &mut Ctx) -> R {
    let mut vol = b.vol.clone();
    let mut attrs: Vec<LAttr> = kinds.iter().enumerate().map(|(j, k)| kind(*k, j, &mut vol)).collect();
    let n: usize = attrs.iter().map(|a| a.at.len()).sum();
    for m in 0..1usize << n {
        let mut bit = 0;
        for a in attrs.iter_mut() {
            for x in a.at.iter_mut() {
                *x = m >> bit & 1;
                bit += 1;
            }
        }
        ctx.state(&(kinds, m));
        for list in list_of(&attrs) {
            let lay = FileLay { attrs: attrs.clone(), list, inst: Inst::PerRecord, dir: true, recs: vec![6, 7, 8, 9] };
            let mut vol = vol.clone();
            let Some(built) = lay.build(&mut vol) else { continue };
            let what = || desc(&lay);
            ctx.sample(what);
            let mut d = Disk::new(Arc::new(vol.img.clone()));
            let f = b.ntfs.file(&mut d, 6).map_err(|e| v("c11-file", format!("{}: {:?}", what(), e)))?;
            let ord = order(&f, &mut d)?;
            let pos = |j: usize| ord.iter().position(|x| *x == addr(&vol, &lay, &built.stored[j])).unwrap_or(99);
            let at = |i: usize| attrs[i].at[0];
            // the first of these kinds in the order of enumeration
            let first = |ks: &[usize]| (0..kinds.len()).filter(|j| ks.contains(&kinds[*j])).min_by_key(|j| pos(*j));
            ctx.steps(7);
            for (ns, p, ks) in [(None, None, &[1, 2][..]), (Some(1), None, &[1]), (Some(2), None, &[2]), (None, Some(5), &[1]), (None, Some(300), &[2]), (Some(1), Some(300), &[])] {
                let want = first(ks).map(|j| format!("n{}", j));
                let got = f.name(&mut d, ns.map(ns_of), p).transpose().map_err(|e| v("c11-name-err", format!("{}: {:?}", what(), e)))?.map(|n| n.name().to_string_lossy());
                ensure_eq!(got, want, "c11-name-other", "{}: {:?} {:?}", what(), ns, p);
            }
            for (q, ks) in [("", &[3, 4][..]), ("S", &[5]), ("$I30", &[])] {
                let want = first(ks).map(|j| addr(&vol, &lay, &built.stored[j]));
                let got = f.data(&mut d, q).transpose().map_err(|e| v("c11-data-err", format!("{}: {:?}", what(), e)))?.map(|i| i.to_attribute().map(|a| a.position().value().unwrap().get()).unwrap_or(0));
                ensure_eq!(got, want, "c11-data-other", "{}: {:?}", what(), q);
            }
            // only the base record's is looked for
            let std = (0..kinds.len()).filter(|j| kinds[*j] == 0).collect::<Vec<_>>();
            match (std.iter().filter(|j| at(**j) == 0).min_by_key(|j| pos(**j)), f.info()) {
                (Some(j), Ok(i)) => ensure_eq!(i.security_id(), Some(50 + *j as u32), "c11-info", "{}", what()),
                (Some(_), Err(e)) => return fail("c11-info", format!("{}: {:?}", what(), e)),
                (None, Ok(i)) if !std.iter().any(|j| i.security_id() == Some(50 + *j as u32)) => return fail("c11-info", format!("{}: {:?}", what(), i)),
                _ => {}
            }
            let alloc = first(&[8]);
            let want = match first(&[6, 7]).map(|j| (j, kinds[j])) {
                Some((j, 6)) => Some(vec![format!("a{}", j), format!("b{}", j)]),
                Some((_, 7)) => alloc.map(|j| vec![format!("a{}", 16 + j), format!("b{}", 16 + j)]),
                _ => None,
            };
            let got: Result<Vec<String>, ntfs::NtfsError> = f.directory_index(&mut d).and_then(|ix: NtfsIndex<NtfsFileNameIndex>| {
                let mut it = ix.entries();
                let mut out = vec![];
                while let Some(e) = it.next(&mut d) {
                    out.push(e?.key().unwrap()?.name().to_string_lossy());
                }
                Ok(out)
            });
            ensure_eq!(got.ok(), want, "c11-index-other", "{}", what());
            ctx.outcome(&(want.is_some(), std.len(), alloc));
            ctx.exec();
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ base record lookups

fn volume_case(b: &Base, seq: &[usize], ctx: &mut Ctx) -> R {
    let mut vol = b.vol.clone();
    let vi = |maj: u8| {
        let mut x = vec![0u8; 12];
        x[8] = maj;
        x[9] = 7;
        w16(&mut x, 10, 0x8001);
        x
    };
    let menu = |k: usize, i: usize| -> Attr {
        match k {
            0 => Attr::res(ty::VOLNAME, "", 10 + i as u16, &u16bytes(&u16s(&format!("label{}", i)))),
            1 => Attr::res(ty::VOLINFO, "", 10 + i as u16, &vi(3 + i as u8)),
            2 => Attr::res(ty::STD, "", 10 + i as u16, &std_info(50 + i as u64)),
            3 => Attr::res(ty::DATA, "$VOLUME_NAME", 10 + i as u16, b"xxxxxxxx"),
            4 => Attr::res(ty::VOLNAME, "", 10 + i as u16, &[]),
            _ => Attr::res(0x222, "", 10 + i as u16, &[1, 2]),
        }
    };
    let attrs: Vec<Attr> = seq.iter().enumerate().map(|(i, k)| menu(*k, i)).collect();
    // the MFT's own attributes must stay intact
    let mut r = vol.rec();
    r.attrs = attrs;
    vol.put(3, &r);
    let mut d = Disk::new(Arc::new(vol.img));
    let what = || format!("volume record with {:?}", seq);
    ctx.sample(what);
    // unknown attribute types in front make the lookup fail, but never return something else
    let first = |ks: &[usize]| seq.iter().position(|k| ks.contains(k));
    let unknown = |i: Option<usize>| seq.iter().position(|k| *k == 5).map_or(false, |u| i.map_or(true, |i| u < i));
    ctx.steps(3);
    let (wn, wi, ws) = (first(&[0, 4]), first(&[1]), first(&[2]));
    match (wn, b.bare.volume_name(&mut d)) {
        (_, Some(Err(_))) if unknown(wn) => {}
        (None, None) => {}
        (Some(i), Some(Ok(n))) => {
            let w = if seq[i] == 4 { String::new() } else { format!("label{}", i) };
            ensure!(n.name().to_string_lossy() == w && n.name_length() == 2 * w.len(), "c11-volname", "{}: got {:?}", what(), n.name().to_string_lossy());
        }
        (w, g) => return fail("c11-volname", format!("{}: got {:?}, expected attribute {:?}", what(), g, w)),
    }
    match (wi, b.bare.volume_info(&mut d)) {
        (_, Err(_)) if unknown(wi) => {}
        (None, Err(_)) => {}
        (Some(i), Ok(x)) => ensure!(x.major_version() == 3 + i as u8 && x.minor_version() == 7 && x.flags().bits() == 0x8001, "c11-volinfo", "{}: got {:?}", what(), x),
        (w, g) => return fail("c11-volinfo", format!("{}: got {:?}, expected attribute {:?}", what(), g, w)),
    }
    let f = b.bare.file(&mut d, 3).map_err(|e| v("c11-file", format!("{:?}", e)))?;
    match (ws, f.info()) {
        (_, Err(_)) if unknown(ws) => {}
        (None, Err(_)) => {}
        (Some(i), Ok(x)) => ensure!(x.security_id() == Some(50 + i as u32), "c11-info", "{}: got {:?}", what(), x),
        (w, g) => return fail("c11-info", format!("{}: got {:?}, expected attribute {:?}", what(), g, w)),
    }
    ctx.outcome(&(wn, wi, ws));
    ctx.state(seq);
    Ok(())
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>()).filter(|s| s.len() <= k).collect()
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut out = vec![];
    let b = Arc::new(base(std_geo()));
    let sub = subsets(STREAMS.len(), t.pick(3, 4));
    let n = sub.len();
    let b1 = b.clone();
    out.push(Phase::new("streams", format!("{} sets of streams x resident, whole or split x order x every assignment to 3 records x {} queried names", n, QUERIES.len()), n, move |i, ctx| {
        let s = &sub[i];
        let mut attrs = vec![LAttr::res(ty::STD, "", &std_info(6)), LAttr::res(ty::NAME, "", &FName::new(fref(5, 5), "s", 1).encode())];
        let mut s = s.clone();
        if s.len() > 1 && ctx.flag() {
            s.reverse();
        }
        let mut lcn = 250;
        for k in &s {
            lcn -= 8;
            let mut a = match ctx.choose(3) {
                0 => LAttr::res(ty::DATA, STREAMS[*k], &crate::lay::data_bytes(3 + k)),
                1 => LAttr::non(ty::DATA, STREAMS[*k], vec![vec![run(1, lcn), run(2, lcn - 4)]], 1300),
                _ => LAttr::non(ty::DATA, STREAMS[*k], vec![vec![run(1, lcn)], vec![run(2, lcn - 4)]], 1300),
            };
            for x in a.at.iter_mut() {
                *x = ctx.choose(if s.len() > 2 { 2 } else { 3 });
            }
            attrs.push(a);
        }
        // another attribute with a stream's name
        attrs.push(LAttr::res(ty::BITMAP, "s", &[1; 8]));
        ctx.state(&attrs);
        for list in list_of(&attrs) {
            let lay = FileLay { attrs: attrs.clone(), list, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] };
            data_case(&b1, &lay, &QUERIES, ctx)?;
        }
        Ok(())
    }));
    let k = t.pick(3, 4);
    let b1 = b.clone();
    out.push(Phase::new("names", format!("every sequence of up to {} file names over 4 namespaces x 4 parents, resident or not, in up to 2 records, x every query", k), 16 * 16 + 1, move |i, ctx| {
        let mut names: Vec<FName> = vec![];
        let mut attrs = vec![LAttr::res(ty::STD, "", &std_info(6))];
        if i < 256 {
            let n = 1 + ctx.choose(k);
            for j in 0..n {
                let m = match j {
                    0 => i % 16,
                    1 => i / 16,
                    _ => [0usize, 5, 10, 15, 6][ctx.choose(5)],
                };
                if n == 1 && i >= 16 {
                    return Ok(());
                }
                names.push(FName::new(PARENTS[m / 4], &format!("name{}", j), (m % 4) as u8));
            }
            for (j, f) in names.iter().enumerate() {
                let mut a = if j < 2 && ctx.flag() {
                    let l = 240 - 4 * j as u64;
                    LAttr::non(ty::NAME, "", vec![vec![run(1, l)]], f.encode().len() as u64)
                } else {
                    LAttr::res(ty::NAME, "", &f.encode())
                };
                a.at = vec![ctx.choose(2)];
                attrs.push(a);
            }
        }
        attrs.push(LAttr::res(ty::DATA, "", &FName::new(fref(5, 5), "decoy", 1).encode()));
        ctx.state(&(attrs.iter().map(|a| a.at.clone()).collect::<Vec<_>>(), names.iter().map(|n| (n.ns, n.parent)).collect::<Vec<_>>()));
        for list in list_of(&attrs) {
            let lay = FileLay { attrs: attrs.clone(), list, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] };
            name_case(&b1, &lay, &names, ctx)?;
        }
        Ok(())
    }));
    let menu: Vec<Ix> = (0..4).flat_map(|n| [Ix::Root(n, false), Ix::Root(n, true), Ix::Alloc(n)]).collect();
    let k = t.pick(4, 4);
    let b1 = b.clone();
    let nm = menu.len();
    let most = t.pick(2, 3);
    out.push(Phase::new("indexes", format!("every sequence of up to {} index roots and allocations of 4 names, small and large, in up to {} records, directory or not", k, most), nm * nm + 1, move |i, ctx| {
        let mut parts = vec![];
        if i < nm * nm {
            parts.push(menu[i % nm]);
            let n = 1 + ctx.choose(k);
            if n == 1 && i >= nm {
                return Ok(());
            }
            if n > 1 {
                parts.push(menu[i / nm]);
            }
            for _ in 2..n {
                // a third and fourth part: the ones that matter
                parts.push([Ix::Root(0, false), Ix::Root(0, true), Ix::Alloc(0), Ix::Alloc(2), Ix::Root(3, true)][ctx.choose(5)]);
            }
        }
        let at: Vec<usize> = parts.iter().map(|_| ctx.choose(most)).collect();
        let dir = ctx.flag();
        ctx.state(&(format!("{:?}", parts), &at, dir));
        index_case(&b1, &parts, &at, dir, ctx)
    }));
    let b1 = b.clone();
    let k = t.pick(5u32, 6);
    out.push(Phase::new("volume", format!("every sequence of up to {} attributes of 6 kinds in the volume record: name, information, standard information", k), 6usize.pow(k), move |i, ctx| {
        for n in 0..=k {
            if i >= 6usize.pow(n) {
                continue;
            }
            let seq: Vec<usize> = (0..n).map(|j| i / 6usize.pow(j) % 6).collect();
            volume_case(&b1, &seq, ctx)?;
            ctx.exec();
        }
        Ok(())
    }));
    let k = t.pick(4, 6);
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..k {
        let to = sets.len();
        for x in from..to {
            for j in sets[x].last().copied().unwrap_or(0)..KINDS {
                let mut y = sets[x].clone();
                y.push(j);
                sets.push(y);
            }
        }
        from = to;
    }
    let b1 = b.clone();
    let n = sets.len();
    out.push(Phase::new("together", format!("every multiset of up to {} attributes of {} kinds (names, streams, indexes, others) x every assignment to 2 records x every accessor", k, KINDS), n, move |i, ctx| together(&b1, &sets[i], ctx)));
    let b1 = b.clone();
    out.push(Phase::new("units of names", "a stream whose name is any UTF-16 unit, or that unit before or after another, alone, before or after an unnamed one or in another record x queries for it and for the unnamed stream", 1024, move |i, ctx| {
        for u in (i as u32 * 64..i as u32 * 64 + 64).map(|u| u as u16) {
            let names = [vec![u], vec![u, 0x73], vec![0x73, u]];
            for (k, name) in names.iter().enumerate() {
                let stream = |at: usize| LAttr { name: name.clone(), at: vec![at], ..LAttr::res(ty::DATA, "", &crate::lay::data_bytes(9)) };
                let bare = || LAttr::res(ty::DATA, "", &crate::lay::data_bytes(4));
                let sets = [vec![stream(0)], vec![stream(0), bare()], vec![bare(), stream(0)], vec![stream(1)], vec![stream(1), bare()]];
                for (j, set) in sets.iter().enumerate() {
                    // the other orders for names of one unit
                    if k > 0 && j % 3 > 0 {
                        continue;
                    }
                    let mut attrs = vec![LAttr::res(ty::STD, "", &std_info(6))];
                    attrs.extend(set.iter().cloned());
                    ctx.state(&(u, k, j));
                    let lay = FileLay { list: list_of(&attrs)[0], attrs, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] };
                    let s = String::from_utf16(name).unwrap_or_default();
                    let q = ["", &s, "s"];
                    data_case(&b1, &lay, if s.is_empty() { &q[..1] } else { &q }, ctx)?;
                }
            }
        }
        Ok(())
    }));
    let big = Arc::new(base(Geo { ss: 512, cs: 512, rs: 4096, clusters: 1200 }));
    out.push(Phase::new("long names", "streams whose names have every length from 1 to 255: the first characters of each other, in other case, ending in another character, or all different, in 2 records, x queries for each and its neighbours", 255, move |i, ctx| {
        let n = i + 1;
        let all: String = (0..256).map(|j| char::from_u32(0x61 + (j * 7 + n as u32) % 26 + if j % 5 == 4 { 0x3D0 } else { 0 }).unwrap()).collect();
        let cut = |k: usize| -> String { all.chars().take(k).collect() };
        let other = |k: usize| -> String { cut(k - 1) + "!" };
        let first = |k: usize| -> String { "!".to_string() + &cut(k - 1) };
        let mut names = vec![cut(n), other(n)];
        if n > 1 {
            names.push(cut(n - 1));
        }
        if n < 255 {
            names.push(cut(n + 1));
        }
        let mut queries = names.clone();
        queries.push(cut(n).to_uppercase());
        queries.push(other(n).to_uppercase());
        queries.push(first(n));
        queries.push(cut(256));
        let queries: Vec<&str> = queries.iter().map(|s| &s[..]).collect();
        // every subset of the streams
        for m in 1..1usize << names.len() {
            for split in [false, true] {
                let mut attrs = vec![LAttr::res(ty::STD, "", &std_info(6))];
                for (k, name) in names.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1) {
                    let mut a = LAttr::res(ty::DATA, name, &crate::lay::data_bytes(3 + k));
                    a.at = vec![(split && k % 2 == 1) as usize];
                    attrs.push(a);
                }
                ctx.state(&(i, m, split));
                let lay = FileLay { list: list_of(&attrs)[0], attrs, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] };
                data_case(&big, &lay, &queries, ctx)?;
            }
        }
        Ok(())
    }));
    let b1 = b.clone();
    out.push(Phase::new("attribute flags", "every value of one or two bits, of none and of all of the attribute flags on a stream, a name, an index root or an allocation, each resident, not resident or in pieces where that exists, in one record or two, with another attribute of its kind without flags before or after it", 138, move |i, ctx| {
        let flags = match i {
            0 => 0,
            1..=16 => 1u16 << (i - 1),
            137 => 0xFFFF,
            _ => {
                let pairs: Vec<u16> = (0..16).flat_map(|a| (0..a).map(move |b| 1u16 << a | 1 << b)).collect();
                pairs[i - 17]
            }
        };
        let lay = |attrs: Vec<LAttr>| FileLay { list: list_of(&attrs)[0], attrs, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] };
        let stdi = LAttr::res(ty::STD, "", &std_info(6));
        for at in 0..2 {
            for twin in 0..3 {
                for form in 0..3 {
                    for q in ["", "s"] {
                        let mut a = match form {
                            0 => LAttr::res(ty::DATA, q, &crate::lay::data_bytes(9)),
                            1 => LAttr::non(ty::DATA, q, vec![vec![run(2, 200), run(1, 230)]], 1300),
                            _ => LAttr::non(ty::DATA, q, vec![vec![run(2, 200)], vec![run(1, 230)]], 1300),
                        };
                        // what a compressed stream reads as is not stated
                        a.flags = if form == 0 { flags } else { flags & !1 };
                        a.at[0] = at;
                        let b = LAttr { at: vec![at], ..LAttr::res(ty::DATA, q, &crate::lay::data_bytes(5)) };
                        let mut attrs = vec![stdi.clone()];
                        attrs.extend(match twin {
                            0 => vec![a],
                            1 => vec![a, b],
                            _ => vec![b, a],
                        });
                        ctx.state(&(flags, at, twin, form, q));
                        data_case(&b1, &lay(attrs), &["", "s"], ctx)?;
                    }
                }
                for form in 0..2 {
                    let names = [FName::new(PARENTS[0], "one", 1), FName::new(PARENTS[1], "two", 2)];
                    let mut x: Vec<LAttr> = names
                        .iter()
                        .enumerate()
                        .map(|(j, f)| {
                            let mut a = if form == 1 && j == 0 { LAttr::non(ty::NAME, "", vec![vec![run(1, 240)]], f.encode().len() as u64) } else { LAttr::res(ty::NAME, "", &f.encode()) };
                            a.at = vec![at];
                            a
                        })
                        .collect();
                    x[0].flags = flags;
                    let mut attrs = vec![stdi.clone()];
                    let mut names = names.to_vec();
                    match twin {
                        0 => {
                            x.truncate(1);
                            names.truncate(1);
                        }
                        1 => {}
                        _ => {
                            x.reverse();
                            names.reverse();
                        }
                    }
                    attrs.extend(x);
                    ctx.state(&(flags, at, twin, form, "name"));
                    name_case(&b1, &lay(attrs), &names, ctx)?;
                }
            }
            for twin in 0..3 {
                // an index whose root or allocation carries the flags
                for which in 0..3 {
                    let mut vol = b1.vol.clone();
                    let l = vol.alloc(4);
                    vol.write_stream(&[run(2, l)], 0, &index_record(1024, 0, &idx_entries(16, None), false, 3));
                    let large = which > 0;
                    let mut root = LAttr::res(ty::ROOT, "$I30", &index_root(&idx_entries(0, if large { Some(0) } else { None }), 1024, large, vol.cs() as u32));
                    let mut alloc = LAttr::non(ty::ALLOC, "$I30", vec![vec![run(2, l)]], 1024);
                    root.at = vec![at];
                    alloc.at = vec![at];
                    match which {
                        0 | 1 => root.flags = flags,
                        _ => alloc.flags = flags,
                    }
                    let mut attrs = vec![stdi.clone()];
                    if twin == 1 {
                        attrs.push(LAttr { at: vec![at], ..LAttr::res(ty::ROOT, "$SDH", &index_root(&idx_entries(7, None), 1024, false, vol.cs() as u32)) });
                    }
                    attrs.push(root);
                    if large {
                        attrs.push(alloc);
                    }
                    if twin == 2 {
                        attrs.push(LAttr { flags, at: vec![at], ..LAttr::res(ty::BITMAP, "$I30", &[1; 8]) });
                    }
                    ctx.state(&(flags, at, twin, which, "index"));
                    let mut lay = lay(attrs);
                    lay.dir = true;
                    lay.build(&mut vol).expect("harness: layout");
                    let mut d = Disk::new(Arc::new(vol.img));
                    ctx.step();
                    let got: Result<Vec<String>, ntfs::NtfsError> = b1.bare.file(&mut d, 6).and_then(|f| {
                        let ix: NtfsIndex<NtfsFileNameIndex> = f.directory_index(&mut d)?;
                        let mut it = ix.entries();
                        let mut out = vec![];
                        while let Some(e) = it.next(&mut d) {
                            out.push(e?.key().unwrap()?.name().to_string_lossy());
                        }
                        Ok(out)
                    });
                    let want: Vec<String> = if large { vec!["a16".into(), "b16".into()] } else { vec!["a0".into(), "b0".into()] };
                    let what = format!("flags {:#x} at {} twin {} which {}", flags, at, twin, which);
                    ensure!(got.as_ref().ok() == Some(&want), "c11-index-flags", "{}: got {:?}", what, got);
                }
            }
        }
        Ok(())
    }));
    let b1 = b.clone();
    out.push(Phase::new("damaged names", "up to 3 file names of which one is damaged (cut to every length, a name longer than the value, every namespace that does not exist), in one record or two x every query: an error when it is met before a match, and never absence", 66 + 4 + 252, move |i, ctx| {
        for n in 1..=3usize {
            for bad in 0..n {
                for at in 0..1 << n {
                    let names: Vec<FName> = (0..n).map(|j| FName::new(PARENTS[j], &format!("name{}", j), j as u8)).collect();
                    let mut attrs = vec![LAttr::res(ty::STD, "", &std_info(6))];
                    for (j, f) in names.iter().enumerate() {
                        let mut e = f.encode();
                        if j == bad {
                            match i {
                                0..66 => e.truncate(i),
                                66..70 => e[64] += [1u8, 2, 100, 250][i - 66],
                                _ => e[65] = (i - 66) as u8,
                            }
                        }
                        attrs.push(LAttr { at: vec![at >> j & 1], ..LAttr::res(ty::NAME, "", &e) });
                    }
                    let lay = FileLay { list: list_of(&attrs)[0], attrs, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] };
                    let mut vol = b1.vol.clone();
                    let built = lay.build(&mut vol).expect("harness: layout");
                    let mut d = Disk::new(Arc::new(vol.img.clone()));
                    let f = b1.bare.file(&mut d, 6).map_err(|e| v("c11-file", format!("{}: {:?}", desc(&lay), e)))?;
                    let ord = order(&f, &mut d)?;
                    let mut by: Vec<usize> = (0..n).collect();
                    by.sort_by_key(|j| ord.iter().position(|x| *x == addr(&vol, &lay, &built.stored[1 + j])).unwrap_or(99));
                    ctx.state(&(i, n, bad, at));
                    for ns in [None, Some(0u8), Some(1), Some(2), Some(3)] {
                        for p in PQ {
                            ctx.step();
                            let hit = by.iter().find(|j| **j == bad || ns.map_or(true, |x| names[**j].ns == x) && p.map_or(true, |p| names[**j].parent & 0xFFFF_FFFF_FFFF == p));
                            let got = f.name(&mut d, ns.map(ns_of), p).map(|r| r.map(|x| x.name().to_string_lossy()).ok());
                            let want = hit.map(|j| if *j == bad { None } else { Some(format!("name{}", j)) });
                            ensure_eq!(got, want, "c11-name-damaged", "{} {:?} {:?}: damage {} in name {}", desc(&lay), ns, p, i, bad);
                        }
                    }
                    ctx.exec();
                }
            }
        }
        Ok(())
    }));
    let wide = Arc::new(base_of(Geo { ss: 512, cs: 512, rs: 1024, clusters: 1600 }, 220));
    let mut counts: Vec<usize> = (1..=t.pick(40, 70)).collect();
    counts.extend([63, 64, 65, 100, 127, 128, 129]);
    counts.extend(if t.thorough() { vec![200, 255, 256, 257, 300, 600] } else { vec![255, 256, 257] });
    counts.sort();
    counts.dedup();
    let n = counts.len();
    out.push(Phase::new("many", "files of 1 to 257 (600) streams, and of as many names, filling one record or spread over up to 200 in 3 ways: the first, the last, a middle one and an absent one by name, by namespace and by parent", n * 2, move |i, ctx| {
        let n = counts[i / 2];
        for way in 0..3 {
            // 3 or 4 attributes of either kind fit into a record besides the list entries
            let recs = match way {
                0 if n > 3 => continue,
                0 => 1,
                1 => n.div_ceil(4) + 1,
                _ => n.min(199) + 1,
            };
            let place = |j: usize| match way {
                0 => 0,
                1 => 1 + j / 4,
                _ => 1 + j % (recs - 1),
            };
            if recs > 200 || way == 2 && n.div_ceil(recs - 1) > 4 {
                continue;
            }
            ctx.state(&(n, way, i % 2));
            let mut attrs = vec![LAttr::res(ty::STD, "", &std_info(6))];
            if i % 2 == 0 {
                let name = |j: usize| format!("s{:04}", j);
                for j in 0..n {
                    attrs.push(LAttr { at: vec![place(j)], ..LAttr::res(ty::DATA, &name(j), &crate::lay::data_bytes(3 + j % 40)) });
                }
                let q: Vec<String> = [0, 1, n / 2, n.saturating_sub(2), n - 1, n, n + 256].iter().map(|j| name(*j).to_uppercase()).collect();
                let mut q: Vec<&str> = q.iter().map(|s| &s[..]).collect();
                q.push("");
                let lay = FileLay { list: if recs > 1 { ListForm::Non } else { ListForm::None }, attrs, inst: Inst::PerRecord, dir: false, recs: (6..6 + recs as u64).collect() };
                data_case(&wide, &lay, &q, ctx)?;
            } else {
                // the only name of its namespace or parent comes last, or in the middle
                for special in [n - 1, n / 2, 0] {
                    let mut attrs = attrs.clone();
                    let names: Vec<FName> = (0..n).map(|j| FName::new(if j == special { PARENTS[1] } else { PARENTS[3] }, &format!("n{:04}", j), if j == special { 2 } else { 1 })).collect();
                    for (j, f) in names.iter().enumerate() {
                        attrs.push(LAttr { at: vec![place(j)], ..LAttr::res(ty::NAME, "", &f.encode()) });
                    }
                    let lay = FileLay { list: if recs > 1 { ListForm::Non } else { ListForm::None }, attrs, inst: Inst::PerRecord, dir: false, recs: (6..6 + recs as u64).collect() };
                    name_case(&wide, &lay, &names, ctx)?;
                }
            }
        }
        Ok(())
    }));
    let _ = NtfsFileName::is_directory;
    (out, Opts { alloc_cap: 1 << 30, ..Default::default() })
}
