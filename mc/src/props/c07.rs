//! C07: attribute enumeration yields every attribute exactly once, with its own content.
use crate::disk::Disk;
use crate::engine::*;
use crate::files::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use ntfs::Ntfs;
use std::sync::Arc;

const KNOWN: u16 = 0xC001;

struct Base {
    vol: Vol,
    ntfs: Ntfs,
}
fn base(g: Geo) -> Base {
    let mut v = Vol::new(g, 24);
    v.alloc(300);
    let img = Arc::new(v.img.clone());
    Base { ntfs: Ntfs::new(&mut Disk::new(img)).expect("harness: mount"), vol: v }
}

// ------------------------------------------------------------------ raw enumeration

fn alphabet(cs: u64) -> Vec<Attr> {
    let mut a = vec![
        Attr::res(ty::STD, "", 0, &std_info(6)),
        Attr::res(ty::DATA, "", 3, &[]),
        Attr::res(ty::DATA, "str", 4, b"1234567"),
        Attr::non(ty::DATA, "n", 5, &[run(1, 30), run(2, 20)], cs, 3 * cs - 9),
        Attr::non(ty::BITMAP, "", 6, &[], cs, 0),
        Attr::res(0x55, "q", 8, &[9u8; 16]),
        Attr::res(ty::NAME, "", 9, &FName::new(fref(5, 5), "some name", 1).encode()),
        Attr::non(0x100, "$EFS", 7, &[hole(3)], cs, 3 * cs),
    ];
    // names further behind
    a[2].gap = 8;
    a[3].gap = 6;
    a[2].flags = 0xFFFF;
    a[3].flags = 0x4002;
    a[6].pad = 16;
    a[7].flags = 0x8001;
    a
}
#[derive(Clone, Copy, Debug)]
enum Tail {
    Marker,
    /// no end marker, the used size ends right behind the last attribute
    NoMarker,
    /// further attributes behind the end marker, within the used size
    BehindMarker,
    /// further attributes behind the used size, no end marker
    BehindUsed,
    /// end marker, used size of the whole record, garbage behind
    Garbage,
}
const TAILS: [Tail; 5] = [Tail::Marker, Tail::NoMarker, Tail::BehindMarker, Tail::BehindUsed, Tail::Garbage];

fn raw_record(v: &Vol, attrs: &[Attr], tail: Tail) -> (Vec<u8>, Vec<usize>) {
    let mut r = v.rec();
    r.attrs = attrs.to_vec();
    let offs = r.offsets();
    let stale = Attr::res(ty::DATA, "stale", 3, b"stale").encode();
    let mut b = r.plain();
    let end = r.first_attr() + attrs.iter().map(|a| a.encode().len()).sum::<usize>();
    match tail {
        Tail::Marker => {}
        Tail::NoMarker => {
            b[end..end + 8].fill(0);
            w32(&mut b, 24, end as u32);
        }
        Tail::BehindMarker => {
            b[end + 8..end + 8 + stale.len()].copy_from_slice(&stale);
            w32(&mut b, 24, (end + 8 + stale.len()) as u32);
        }
        Tail::BehindUsed => {
            b[end..end + stale.len()].copy_from_slice(&stale);
            w32(&mut b, 24, end as u32);
        }
        Tail::Garbage => {
            for (i, x) in b[end + 8..].iter_mut().enumerate() {
                *x = mix(i as u64) as u8 | 1;
            }
            let n = b.len() as u32;
            w32(&mut b, 24, n);
        }
    }
    protect(&mut b, r.usa_ofs, r.usn);
    (b, offs)
}

fn known_type(t: u32) -> bool {
    matches!(t, 0x10 | 0x20 | 0x30 | 0x40 | 0x50 | 0x60 | 0x70 | 0x80 | 0x90 | 0xA0 | 0xB0 | 0xC0 | 0xD0 | 0xE0 | 0xF0 | 0x100)
}
/// Types the library has no name for: all up to 0x120, and every known one and zero with one or more high bits.
fn other_types() -> Vec<u32> {
    let mut v: Vec<u32> = (0..0x120).collect();
    for t in (0..=0x10).map(|i| i << 4) {
        v.extend((8..32).map(|k| t | 1 << k));
        v.extend((9..32).map(|k| t | u32::MAX << k));
    }
    v.extend((1..32).map(|k| u32::MAX >> k));
    v.extend((0..32).map(|k| !(1 << k)));
    v.retain(|t| !known_type(*t) && *t != u32::MAX);
    v.sort();
    v.dedup();
    v
}
fn want_raw(a: &Attr, at: u64, v: &Vol) -> Seen {
    let (resident, len, data) = match &a.val {
        Val::Res(d) => (true, d.len() as u64, d.clone()),
        Val::Non { size, .. } => {
            // the runs of the alphabet
            let runs: Vec<Run> = match a.ty {
                ty::DATA => vec![run(1, 30), run(2, 20)],
                0x100 => vec![hole(3)],
                _ => vec![],
            };
            (false, *size, content(&v.img, &runs, v.cs(), *size, *size))
        }
    };
    Seen {
        ty: if known_type(a.ty) { Some(a.ty) } else { None },
        name: a.name.clone(),
        inst: a.inst,
        flags: a.flags & KNOWN,
        resident,
        len,
        attr_len: a.encode().len() as u32,
        pos: at,
        data: Ok(data),
    }
}

fn run_raw(b: &Base, attrs: &[Attr], tail: Tail, ctx: &mut Ctx) -> R {
    let mut v = b.vol.clone();
    let (rec, offs) = raw_record(&v, attrs, tail);
    v.put_raw(6, &rec);
    let addr = v.rec_addr(6);
    let want: Vec<Seen> = attrs.iter().zip(&offs).map(|(a, o)| want_raw(a, addr + *o as u64, &v)).collect();
    let desc = format!("attributes {:x?} {:?}", attrs.iter().map(|a| a.ty).collect::<Vec<_>>(), tail);
    let mut d = Disk::new(Arc::new(v.img));
    let f = b.ntfs.file(&mut d, 6).map_err(|e| V { key: "c07-file".into(), msg: format!("{}: {:?}", desc, e) })?;
    let mut it = f.attributes_raw();
    let mut got = vec![];
    while let Some(a) = it.next() {
        ctx.step();
        let a = a.map_err(|e| V { key: "c07-raw-err".into(), msg: format!("{}: {:?}", desc, e) })?;
        got.push(see(&a, &mut d, true).map_err(|e| V { key: "c07-raw-err".into(), msg: format!("{}: {:?}", desc, e) })?);
        ensure!(got.len() <= want.len(), "c07-raw-more", "{}: more attributes than stored, then {:x?}", desc, got.last());
    }
    ensure_eq!(got, want, "c07-raw", "{}: raw enumeration", desc);
    for _ in 0..2 {
        ensure!(it.next().is_none(), "c07-raw-more", "{}: another attribute after the end", desc);
    }
    // without attribute list, flattened enumeration is the same
    let mut it = f.attributes();
    let mut got = vec![];
    while let Some(a) = it.next(&mut d) {
        ctx.step();
        let a = a.map_err(|e| V { key: "c07-flat-err".into(), msg: format!("{}: {:?}", desc, e) })?;
        let a = a.to_attribute().map_err(|e| V { key: "c07-flat-err".into(), msg: format!("{}: {:?}", desc, e) })?;
        got.push(see(&a, &mut d, true).map_err(|e| V { key: "c07-flat-err".into(), msg: format!("{}: {:?}", desc, e) })?);
        ensure!(got.len() <= want.len(), "c07-flat-more", "{}: more attributes than stored", desc);
    }
    ensure_eq!(got, want, "c07-flat", "{}: enumeration without attribute list", desc);
    ctx.state(&(attrs.iter().map(|a| a.ty).collect::<Vec<_>>(), tail as u8));
    Ok(())
}

// ------------------------------------------------------------------ flattened enumeration

#[derive(Clone, Copy, Debug, PartialEq)]
enum Damage {
    /// the list entry's record does not exist
    NoRecord,
    /// the list entry's instance does not exist
    NoInstance,
    /// the record is not a file record
    BadRecord,
}

fn known_flags(x: u16) -> u16 {
    x & KNOWN
}
fn want_flat(b: &FileLay, built: &Built, v: &Vol) -> Vec<Seen> {
    let mut w: Vec<Seen> = b
        .attrs
        .iter()
        .zip(&built.stored)
        .map(|(a, s)| Seen {
            ty: Some(a.ty),
            name: a.name.clone(),
            inst: s.inst,
            flags: known_flags(a.flags),
            resident: matches!(a.form, Form::Res(_)),
            len: a.len(),
            attr_len: s.len,
            pos: v.rec_addr(b.recs[s.rec]) + s.off as u64,
            data: Ok(a.content(v)),
        })
        .collect();
    w.sort();
    w
}

fn flat(b: &Base, lay: &FileLay, damage: Option<(usize, Damage)>, ctx: &mut Ctx) -> R {
    let mut v = b.vol.clone();
    let Some(built) = lay.build(&mut v) else { return Ok(()) };
    let want = want_flat(lay, &built, &v);
    let mut foreign = false;
    if let Some((k, dm)) = damage {
        // only entries of other records are resolved
        let (_, ai, pi) = built.list_entries[k];
        let r = lay.attrs[ai].at[pi];
        if r == 0 {
            return Ok(());
        }
        let mut l2 = lay.clone();
        match dm {
            Damage::BadRecord => {
                let n = lay.recs[r];
                v.put_raw(n, b"BAAD");
            }
            _ => {
                // write the list again with the entry changed: it has to be found in the image
                l2.list = lay.list;
                let mut list = built.list.clone();
                let o = built.list_entries[k].0;
                if dm == Damage::NoRecord {
                    w64(&mut list, o + 16, fref(24, 1));
                } else {
                    w16(&mut list, o + 24, 77);
                }
                // replace it where it is stored
                let old = &built.list;
                let (start, end) = (v.rec_addr(lay.recs[0]), v.rec_addr(lay.recs[0]) + v.g.rs as u64);
                let _ = end;
                match lay.list {
                    ListForm::Res => {
                        let mut rec = v.img.get(start, v.g.rs as usize);
                        let i = rec.windows(old.len()).position(|w| w == &old[..]);
                        let Some(i) = i else { return Ok(()) }; // a sector end lies within the list
                        rec[i..i + list.len()].copy_from_slice(&list);
                        v.img.write(start, &rec);
                    }
                    ListForm::Non => {
                        let cs = v.cs();
                        let n = (list.len() as u64).div_ceil(cs).max(1);
                        let at = (v.next - n - 1) * cs;
                        v.img.write(at, &list);
                    }
                    _ => return Ok(()),
                }
            }
        }
        foreign = true;
    }
    let desc = || {
        let a: Vec<String> = lay
            .attrs
            .iter()
            .map(|a| format!("{:x}:{}{}@{:?}", a.ty, String::from_utf16_lossy(&a.name), if matches!(a.form, Form::Res(_)) { "" } else { "~" }, a.at))
            .collect();
        format!("[{}] list {:?} {:?}{}", a.join(" "), lay.list, lay.inst, damage.map_or(String::new(), |d| format!(" damaged entry {:?}", d)))
    };
    ctx.sample(desc);
    let mut d = Disk::new(Arc::new(v.img));
    let f = b.ntfs.file(&mut d, lay.recs[0]).map_err(|e| V { key: "c07-file".into(), msg: format!("{}: {:?}", desc(), e) })?;
    let mut it = f.attributes();
    let mut got = vec![];
    let mut errs = 0;
    while let Some(item) = it.next(&mut d) {
        ctx.step();
        let r = item.and_then(|i| i.to_attribute().and_then(|a| see(&a, &mut d, true)));
        match r {
            Ok(s) => {
                if s.data.is_err() && foreign {
                    errs += 1;
                    continue;
                }
                got.push(s)
            }
            Err(e) => {
                ensure!(foreign, "c07-flat-err", "{}: {:?}", desc(), e);
                errs += 1;
            }
        }
        if foreign {
            // what an enumeration does after an error is its own business, but it must not go on forever
            if errs > 0 && errs + got.len() > 4 * want.len() + 4 {
                break;
            }
        }
        ensure!(got.len() <= want.len(), "c07-more", "{}: more attributes than the file has", desc());
    }
    got.sort();
    ctx.outcome(&(got.len(), errs > 0));
    if foreign {
        ensure!(errs > 0, "c07-damaged", "{}: no error", desc());
        for (i, s) in got.iter().enumerate() {
            ensure!(want.contains(s), "c07-damaged-foreign", "{}: unexpected {:x?}", desc(), s);
            ensure!(i == 0 || got[i - 1] != *s || want.iter().filter(|w| *w == s).count() > 1, "c07-damaged-twice", "{}: twice {:x?}", desc(), s);
        }
        return Ok(());
    }
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let short = |s: Option<&Seen>| s.map(|s| format!("{:x?} {} inst {} flags {:x} res {} len {} attr_len {} pos {:x} data {}", s.ty, String::from_utf16_lossy(&s.name), s.inst, s.flags, s.resident, s.len, s.attr_len, s.pos,
            match &s.data { Ok(d) => format!("{} bytes, hash {:x}", d.len(), fp(d)), Err(e) => e.clone() }));
        return fail("c07-flat", format!("{}: {} attributes, expected {}; first difference: {:?} expected {:?}", desc(), got.len(), want.len(), short(got.get(i)), short(want.get(i))));
    }
    for _ in 0..2 {
        ensure!(it.next(&mut d).is_none(), "c07-more", "{}: another attribute after the end", desc());
    }
    // the attached iterator
    let n = f.attributes().attach(&mut d).filter(|x| x.is_ok()).count();
    ensure_eq!(n, want.len(), "c07-attached", "{}: attached iterator", desc());
    // raw enumeration of the base record still yields what that record stores
    let n: Vec<(Option<u32>, u16)> = f.attributes_raw().map(|a| a.map(|a| (a.ty().ok().map(|t| t as u32), a.instance())).unwrap_or((None, 0xFFFF))).collect();
    let w: Vec<(Option<u32>, u16)> = built.raw[0].iter().map(|a| (Some(a.ty), a.inst)).collect();
    ensure_eq!(n, w, "c07-raw-base", "{}: raw enumeration of the base record", desc());
    ctx.exec();
    Ok(())
}

/// Forms a slot of the file can take: number of pieces, 0 for resident.
#[derive(Clone)]
struct SlotForms {
    ty: u32,
    name: &'static str,
    forms: Vec<i32>, // -1: absent
}
fn slots() -> Vec<SlotForms> {
    vec![
        SlotForms { ty: ty::NAME, name: "", forms: vec![-1, 0] },
        SlotForms { ty: ty::NAME, name: "", forms: vec![-1, 0] },
        SlotForms { ty: ty::DATA, name: "", forms: vec![-1, 0, 1, 2, 3] },
        SlotForms { ty: ty::DATA, name: "s", forms: vec![-1, 0, 1, 2, 3] },
        SlotForms { ty: ty::DATA, name: "t", forms: vec![-1, 1, 2] },
        SlotForms { ty: ty::ALLOC, name: "s", forms: vec![-1, 1, 2] },
        SlotForms { ty: ty::BITMAP, name: "s", forms: vec![-1, 0] },
    ]
}
fn combos(max_pieces: usize) -> Vec<Vec<i32>> {
    let s = slots();
    let mut out: Vec<Vec<i32>> = vec![vec![]];
    for f in &s {
        out = out.iter().flat_map(|c| f.forms.iter().map(move |x| [&c[..], &[*x]].concat())).collect();
    }
    let pieces = |c: &Vec<i32>| c.iter().map(|x| match x { -1 => 0, 0 => 1, n => *n as usize }).sum::<usize>();
    out.retain(|c| pieces(c) <= max_pieces && pieces(c) > 0 && !(c[0] == -1 && c[1] == 0));
    out
}
fn file_of(combo: &[i32], at: &mut impl FnMut() -> usize, cs: u64) -> Vec<LAttr> {
    let mut attrs = vec![LAttr::res(ty::STD, "", &std_info(6))];
    let mut lcn = 250u64;
    for (k, (s, f)) in slots().iter().zip(combo).enumerate() {
        let mut a = match f {
            -1 => continue,
            0 => {
                if s.ty == ty::NAME {
                    LAttr::res(s.ty, s.name, &FName::new(fref(5, 5), ["one", "two"][k], 1).encode())
                } else {
                    LAttr::res(s.ty, s.name, &crate::lay::data_bytes(5 + k))
                }
            }
            n => {
                let mut pieces = vec![];
                let mut total = 0;
                for p in 0..*n {
                    // two runs per first piece, one per other; backwards on disk; one of them sparse
                    let mut r = vec![];
                    for j in 0..if p == 0 { 2 } else { 1 } {
                        lcn -= 4;
                        let len = 1 + ((p + j + k as i32) % 2) as u64;
                        r.push(if p == 1 && k == 3 { hole(len) } else { run(len, lcn) });
                        total += len;
                    }
                    pieces.push(r);
                }
                let mut a = LAttr::non(s.ty, s.name, pieces, total * cs - 11 * (k as u64));
                if k == 4 {
                    if let Form::Non { init, .. } = &mut a.form {
                        *init = cs + 5;
                    }
                }
                a
            }
        };
        a.flags = [0, 0, 1, 0x8000, 0x4000, 0, 2][k];
        for x in a.at.iter_mut() {
            *x = at();
        }
        attrs.push(a);
    }
    attrs
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut v = vec![];
    // raw: all sequences of attributes
    let k = t.pick(4, 5);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut level = seqs.clone();
    for _ in 0..k {
        level = level.iter().flat_map(|s| (0..8).map(move |x| [&s[..], &[x]].concat())).collect();
        seqs.extend(level.clone());
    }
    let chunk = 64;
    let n = seqs.len();
    let b1 = Arc::new(base(Geo { ss: 512, cs: 512, rs: 1024, clusters: 1000 }));
    v.push(Phase::new("raw", format!("every sequence of up to {} attributes out of 8 kinds x 5 kinds of record tails", k), n.div_ceil(chunk), move |i, ctx| {
        let al = alphabet(512);
        for s in &seqs[i * chunk..((i + 1) * chunk).min(n)] {
            let attrs: Vec<Attr> = s.iter().map(|x| al[*x].clone()).collect();
            let size: usize = attrs.iter().map(|a| a.encode().len()).sum();
            if size + 64 + 56 > 1024 {
                continue;
            }
            for tail in TAILS {
                run_raw(&b1, &attrs, tail, ctx)?;
                ctx.exec();
            }
        }
        Ok(())
    }));
    // every placement of everything
    let b1 = Arc::new(base(Geo { ss: 512, cs: 512, rs: 1024, clusters: 1000 }));
    let mp = t.pick(6, 7);
    let cs = combos(mp);
    let n = cs.len();
    v.push(Phase::new("placements", format!("{} files of up to {} attribute pieces x every assignment of the pieces to 3 records x resident or non-resident list x 5 ways to number instances", n, mp), n, move |i, ctx| {
        let mut at = || ctx.choose(3);
        let attrs = file_of(&cs[i], &mut at, 512);
        ctx.state(&(i, attrs.iter().map(|a| a.at.clone()).collect::<Vec<_>>()));
        for list in [ListForm::Res, ListForm::Non] {
            for inst in [Inst::PerRecord, Inst::Unique, Inst::Down, Inst::High, Inst::Turn] {
                let lay = FileLay { attrs: attrs.clone(), list, inst, dir: false, recs: vec![6, 7, 8, 9] };
                flat(&b1, &lay, None, ctx)?;
            }
        }
        Ok(())
    }));
    // geometries and extension records anywhere
    let geos = [(512u32, 4096u32), (1024, 1024), (4096, 1024), (4096, 4096), (65536, 2048)];
    let bs: Arc<Vec<Base>> = Arc::new(geos.iter().map(|(c, r)| base(Geo { ss: 512, cs: *c, rs: *r, clusters: 1000 })).collect());
    let cs = combos(t.pick(4, 5));
    let n = cs.len();
    v.push(Phase::new("geometries", format!("5 geometries x {} files x every assignment to 3 records in other orders on disk", n), n * geos.len(), move |i, ctx| {
        let g = i % geos.len();
        let b = &bs[g];
        let mut at = || ctx.choose(3);
        let attrs = file_of(&cs[i / geos.len()], &mut at, geos[g].0 as u64);
        ctx.state(&(i, attrs.iter().map(|a| a.at.clone()).collect::<Vec<_>>()));
        for recs in [vec![20, 7, 3, 9], vec![6, 12, 5, 9]] {
            let lay = FileLay { attrs: attrs.clone(), list: ListForm::Res, inst: Inst::PerRecord, dir: false, recs };
            flat(b, &lay, None, ctx)?;
        }
        Ok(())
    }));
    // damaged entries
    let b1 = Arc::new(base(Geo { ss: 512, cs: 512, rs: 1024, clusters: 1000 }));
    let cs = combos(t.pick(4, 6));
    let n = cs.len();
    v.push(Phase::new("damaged", format!("{} files x every assignment to 3 records x every list entry naming a missing record, a missing attribute or a record that is none", n), n, move |i, ctx| {
        let mut at = || ctx.choose(3);
        let attrs = file_of(&cs[i], &mut at, 512);
        let pieces: usize = attrs.iter().map(|a| a.pieces()).sum();
        for list in [ListForm::Res, ListForm::Non] {
            for k in 0..pieces {
                for dm in [Damage::NoRecord, Damage::NoInstance, Damage::BadRecord] {
                    let lay = FileLay { attrs: attrs.clone(), list, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] };
                    flat(&b1, &lay, Some((k, dm)), ctx)?;
                    ctx.exec();
                }
            }
        }
        Ok(())
    }));
    // long lists
    let b1 = Arc::new(base(Geo { ss: 512, cs: 512, rs: 4096, clusters: 6000 }));
    let most = t.pick(90usize, 160);
    v.push(Phase::new("long", format!("lists of 1..{} entries with names of 7 lengths, resident, non-resident and fragmented, entries crossing clusters and runs", most), most * 7, move |i, ctx| {
        let (n, nl) = (i / 7 + 1, [0usize, 1, 2, 3, 4, 9, 100][i % 7]);
        let name = |k: usize| -> String { (0..nl).map(|j| char::from(b'a' + ((k >> (4 * (j % 2))) % 16) as u8)).collect() };
        let mut attrs = vec![LAttr::res(ty::STD, "", &std_info(6))];
        let mut left = [3200i64 - 200, 3600, 3600, 3600];
        for k in 0..n {
            let mut a = if k % 3 == 2 {
                LAttr::non(ty::DATA, &name(k), vec![vec![run(1, 40 + k as u64)], vec![run(1, 39 - (k % 30) as u64)]], 1000)
            } else {
                LAttr::res(ty::DATA, &name(k), &crate::lay::data_bytes(k % 9))
            };
            let cost = 140 + 2 * nl as i64;
            for (p, x) in a.at.iter_mut().enumerate() {
                *x = (k + p) % 4;
                left[*x] -= cost;
            }
            attrs.push(a);
        }
        for list in [ListForm::Res, ListForm::Non, ListForm::Frag] {
            let lay = FileLay { attrs: attrs.clone(), list, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] };
            flat(&b1, &lay, None, ctx)?;
        }
        ctx.state(&i);
        Ok(())
    }));
    let large: Vec<(Geo, Arc<Base>)> = [(512u32, 4096u32), (512, 8192), (4096, 16384), (512, 32768), (512, 65024), (4096, 65536), (1024, 114688)]
        .iter()
        .map(|(c, r)| Geo { ss: 512, cs: *c, rs: *r, clusters: (16 << 20) / *c as u64 })
        .map(|g| (g, Arc::new(base(g))))
        .collect();
    let n = large.len();
    v.push(Phase::new("large records", "records of 4 to 112 KiB: a value of each of about 60 lengths up to all of the record before, between or behind 8 other attributes, and as many attributes as fit x 5 kinds of record tails", n * 5, move |i, ctx| {
        let (g, b) = &large[i / 5];
        let tail = TAILS[i % 5];
        let other = alphabet(g.cs as u64);
        let size = |a: &[Attr]| a.iter().map(|x| x.encode().len()).sum::<usize>();
        // the stale attribute behind the end
        let room = g.rs as usize - b.vol.rec().first_attr() - 8 - 64;
        let most = (room - size(&other) - 64) & !7;
        let mut lens: Vec<usize> = vec![0, 1, 9, most - 9, most - 1, most];
        for k in 7..17 {
            lens.extend([(1 << k) - 24, (1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 24]);
        }
        lens.retain(|l| *l <= most);
        for len in lens {
            let mut a = Attr::res(ty::DATA, if len % 2 == 1 { "big" } else { "" }, 40, &crate::lay::data_bytes(len));
            a.flags = if len % 3 == 0 { 0x4000 } else { 0 };
            for at in [0, 3, 8] {
                let mut l = other.clone();
                l.insert(at, a.clone());
                ctx.state(&(i, len, at));
                run_raw(b, &l, tail, ctx)?;
            }
        }
        let mut l: Vec<Attr> = vec![];
        loop {
            let mut a = other[(l.len() * 3 + 1) % 8].clone();
            a.inst = (l.len() * 257) as u16;
            if size(&l) + a.encode().len() > room {
                break;
            }
            l.push(a);
        }
        run_raw(b, &l, tail, ctx)
    }));
    let many = Arc::new({
        let mut v = Vol::new(MANY, MANY_RECORDS);
        v.alloc(100);
        let img = Arc::new(v.img.clone());
        Base { ntfs: Ntfs::new(&mut Disk::new(img)).expect("harness: mount"), vol: v }
    });
    let counts = many_counts(t.thorough());
    v.push(Phase::new("many pieces", format!("a stream in {} numbers of pieces from 2 to {} (lists up to 128 KiB) in records of their own or taking turns, named or not, list in one run or many", counts.len(), counts.last().unwrap()), counts.len() * 8, move |i, ctx| {
        for list in [ListForm::Res, ListForm::Non, ListForm::Frag] {
            ctx.state(&(i, list));
            let lay = many_pieces(counts[i / 8], i % 8, list);
            assert!(list != ListForm::Non || lay.build(&mut many.vol.clone()).is_some(), "harness: does not fit");
            flat(&many, &lay, None, ctx)?;
        }
        Ok(())
    }));
    // types the library does not know
    let b1 = Arc::new(base(Geo { ss: 512, cs: 512, rs: 1024, clusters: 1000 }));
    let types = other_types();
    let n = types.len();
    v.push(Phase::new("other types", format!("{} types without a name in the library x the attribute's place among three x two forms x 5 kinds of record tails: enumerated like any other", n), n.div_ceil(16), move |i, ctx| {
        for x in &types[i * 16..((i + 1) * 16).min(n)] {
            for at in 0..3 {
                for form in 0..2 {
                    let mut l = vec![Attr::res(ty::STD, "", 0, &std_info(6)), Attr::res(ty::DATA, "z", 2, b"1234567")];
                    let a = match form {
                        0 => Attr::res(*x, "x", 3, b"other"),
                        _ => Attr::res(*x, "", 0, b""),
                    };
                    l.insert(at, a);
                    for tail in TAILS {
                        run_raw(&b1, &l, tail, ctx)?;
                        ctx.exec();
                    }
                }
            }
        }
        Ok(())
    }));
    // every length of names
    let b1 = Arc::new(base(Geo { ss: 512, cs: 512, rs: 4096, clusters: 2000 }));
    v.push(Phase::new("name lengths", "names of every length from 0 to 255 x resident, whole or in two pieces x every assignment to 2 records x form of the list; without list: every order of three", 256, move |i, ctx| {
        let name = |n: usize| -> String { (0..n).map(|j| char::from(b'a' + ((j * 7 + n) % 26) as u8)).collect() };
        // three attributes, one of them with the name of this length
        for k in 0..3 {
            let n = |j: usize| name(if j == k { i } else { [0, 3, 2][j] });
            let attrs = vec![
                Attr::res(ty::DATA, &n(0), 4, b"1234567"),
                Attr::non(ty::DATA, &n(1), 5, &[run(1, 30), run(2, 20)], 512, 3 * 512 - 9),
                Attr::res(ty::DATA, &n(2), 6, b"more"),
            ];
            for tail in TAILS {
                run_raw(&b1, &attrs, tail, ctx)?;
                ctx.exec();
            }
        }
        for form in 0..3 {
            for at in 0..4usize {
                let n = name(i);
                let mut a = match form {
                    0 => LAttr::res(ty::DATA, &n, &crate::lay::data_bytes(9)),
                    1 => LAttr::non(ty::DATA, &n, vec![vec![run(1, 40), run(1, 60)]], 900),
                    _ => LAttr::non(ty::DATA, &n, vec![vec![run(1, 40)], vec![run(2, 60)]], 1400),
                };
                for (p, x) in a.at.iter_mut().enumerate() {
                    *x = at >> p & 1;
                }
                let mut after = LAttr::res(ty::BITMAP, &name(255 - i), &[1; 8]);
                after.at = vec![1];
                for list in [ListForm::Res, ListForm::Non, ListForm::Frag] {
                    let lay = FileLay { attrs: vec![LAttr::res(ty::STD, "", &std_info(6)), a.clone(), after.clone()], list, inst: Inst::PerRecord, dir: false, recs: vec![6, 7, 8, 9] };
                    flat(&b1, &lay, None, ctx)?;
                }
            }
        }
        ctx.state(&i);
        Ok(())
    }));
    (v, Opts { alloc_cap: 1 << 30, ..Default::default() })
}
