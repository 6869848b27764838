//! What the library says about the volume of `real.rs`, record by record, for the checks of the single properties.
use crate::engine::*;
use crate::files::{read_all, see};
use crate::img::*;
use crate::real::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::{NtfsAttributeType, NtfsReadSeek};
use binrw::io::SeekFrom;

/// the documented file attributes
const FLAGS: u32 = 0x1000_7FE7;

/// A phase over all records of the volume, if it is there.
fn over(name: &'static str, bound: &str, f: impl Fn(&'static Real, u64, &mut Ctx) -> R + Send + Sync + 'static) -> Vec<Phase> {
    let Some(r) = real() else { return vec![] };
    let n = r.recs.len();
    const PER: usize = 8;
    vec![Phase::new(name, format!("{}, for all {} records of a volume made by mkntfs and ntfs-3g", bound, n), n.div_ceil(PER), move |i, ctx| {
        for k in i * PER..((i + 1) * PER).min(n) {
            ctx.state(&k);
            ctx.exec();
            f(r, k as u64, ctx)?;
        }
        Ok(())
    })]
}

fn c02() -> Vec<Phase> {
    over("real volume", "header fields and position", |r, n, ctx| {
        let what = r.what(n);
        let mut d = r.disk();
        let got = r.ntfs.file(&mut d, n);
        ctx.step();
        if n == r.recs.len() as u64 - 1 {
            for m in [n + 1, n + 2, n + 1000, 1 << 40, u64::MAX / 1024, u64::MAX] {
                ensure!(r.ntfs.file(&mut d, m).is_err(), "c02-beyond", "testfs1: record {} of {} was found", m, n + 1);
            }
        }
        let Some(rec) = &r.recs[n as usize] else {
            ensure!(got.is_err(), "c02-invalid", "{}: it is not valid", what);
            return Ok(());
        };
        let f = must(got, "c02-file", &what)?;
        let p = &rec.plain;
        ensure_eq!(f.file_record_number(), n, "c02-number", "{}", what);
        ensure_eq!(f.position().value().map(|x| x.get()), Some(r.at(n, 0)), "c02-position", "{}", what);
        ensure_eq!(
            (f.sequence_number() as usize, f.hard_link_count() as usize, f.flags().bits() as usize, f.data_size(), f.allocated_size()),
            (u16a(p, 16), u16a(p, 18), u16a(p, 22) & 3, u32a(p, 24), u32a(p, 28)),
            "c02-header",
            "{}",
            what
        );
        ensure_eq!(f.is_directory(), u16a(p, 22) & 2 != 0, "c02-header", "{}", what);
        Ok(())
    })
}
fn c04() -> Vec<Phase> {
    over("real volume", "every value read in pieces of 1 to 5000 bytes and sought at its ends, run boundaries and block boundaries", |r, n, ctx| {
        let Some(rec) = &r.recs[n as usize] else { return Ok(()) };
        let mut d = r.disk();
        let f = must(r.ntfs.file(&mut d, n), "c04-file", &r.what(n))?;
        for (k, a) in f.attributes_raw().enumerate() {
            let a = must(a, "c04-attribute", &r.what(n))?;
            let s = &rec.attrs[k];
            let what = format!("{}, attribute {} ({:#x}, {} bytes)", r.what(n), k, s.ty, s.size);
            let v = must(a.value(&mut d), "c04-value", &what)?;
            ensure_eq!(v.len(), s.size, "c04-len", "{}", what);
            for chunk in [1usize, 2, 7, 64, 511, 512, 513, 1000, 4096, 5000] {
                if s.size > 20_000 && chunk < 511 {
                    continue;
                }
                let mut v = v.clone();
                let mut buf = vec![0xEE; chunk];
                let mut p = 0usize;
                loop {
                    let g = must(v.read(&mut d, &mut buf), "c04-read", &what)?;
                    let w = &s.data[p..(p + chunk).min(s.data.len())];
                    ensure!(buf[..g] == *w, "c04-read", "{}: reading {} at {}: {}", what, chunk, p, diff(&buf[..g], w));
                    p += g;
                    ensure_eq!(v.stream_position(), p as u64, "c04-position", "{}", what);
                    ctx.step();
                    if g == 0 {
                        break;
                    }
                }
                ensure_eq!(p as u64, s.size, "c04-read", "{}: end", what);
            }
            let mut at: Vec<u64> = vec![0, s.size, s.init];
            let mut o = 0;
            for x in s.runs.iter() {
                o += x.len * r.cs;
                at.push(o);
            }
            at.extend((0..(s.size / 512).min(64)).map(|k| 512 * k));
            let mut pts: Vec<u64> = at.iter().flat_map(|x| [x.saturating_sub(1), *x, x + 1]).collect();
            pts.sort();
            pts.dedup();
            let mut v = v.clone();
            let mut cur = 0i64;
            for (i, p) in pts.iter().enumerate() {
                let to = match i % 3 {
                    0 => SeekFrom::Start(*p),
                    1 => SeekFrom::Current(*p as i64 - cur),
                    _ => SeekFrom::End(*p as i64 - s.size as i64),
                };
                ensure_eq!(must(v.seek(&mut d, to), "c04-seek", &what)?, *p, "c04-seek", "{}: {:?}", what, to);
                let mut buf = [0u8; 600];
                let g = must(v.read(&mut d, &mut buf), "c04-read", &what)?;
                let w = &s.data[(*p as usize).min(s.data.len())..(*p as usize + 600).min(s.data.len())];
                ensure!(buf[..g] == *w, "c04-seek", "{}: reading after {:?}: {}", what, to, diff(&buf[..g], w));
                cur = *p as i64 + g as i64;
                ctx.step();
            }
        }
        Ok(())
    })
}
fn c06() -> Vec<Phase> {
    over("real volume", "the run lists", |r, n, ctx| {
        let Some(rec) = &r.recs[n as usize] else { return Ok(()) };
        let mut d = r.disk();
        let f = must(r.ntfs.file(&mut d, n), "c06-file", &r.what(n))?;
        for (k, a) in f.attributes_raw().enumerate() {
            let a = must(a, "c06-attribute", &r.what(n))?;
            let s = &rec.attrs[k];
            if s.resident {
                continue;
            }
            let what = format!("{}, attribute {}", r.what(n), k);
            let NtfsAttributeValue::NonResident(v) = must(a.value(&mut d), "c06-value", &what)? else { return fail("c06-value", what) };
            let mut got = vec![];
            for x in v.data_runs() {
                let x = must(x, "c06-run", &what)?;
                got.push((x.allocated_size(), x.data_position().value().map(|p| p.get())));
                ctx.step();
            }
            let want: Vec<(u64, Option<u64>)> = s.runs.iter().map(|x| (x.len * r.cs, x.lcn.map(|l| l * r.cs).filter(|p| *p > 0))).collect();
            ensure_eq!(got, want, "c06-runs", "{}", what);
        }
        Ok(())
    })
}
fn c07() -> Vec<Phase> {
    over("real volume", "all attributes with their values, raw and flattened", |r, n, ctx| {
        let Some(rec) = &r.recs[n as usize] else { return Ok(()) };
        let mut d = r.disk();
        let f = must(r.ntfs.file(&mut d, n), "c07-file", &r.what(n))?;
        let compare = |s: &crate::files::Seen, k: usize| -> R {
            let w = &rec.attrs[k];
            let what = format!("{}, attribute {}", r.what(n), k);
            ensure_eq!((s.ty, s.inst, s.flags, s.resident, s.len, s.attr_len, s.pos), (Some(w.ty), w.inst, w.flags, w.resident, w.size, w.len, r.at(n, w.off)), "c07-header", "{}", what);
            ensure_eq!(s.name, w.name, "c07-name", "{}", what);
            ensure!(s.data.as_deref() == Ok(&w.data), "c07-data", "{}: {:?}", what, s.data.as_ref().map(|x| diff(x, &w.data)));
            Ok(())
        };
        let mut k = 0;
        for a in f.attributes_raw() {
            let a = must(a, "c07-raw", &r.what(n))?;
            ensure!(k < rec.attrs.len(), "c07-raw", "{}: too many attributes", r.what(n));
            compare(&must(see(&a, &mut d, true), "c07-raw", &r.what(n))?, k)?;
            ctx.step();
            k += 1;
        }
        ensure_eq!(k, rec.attrs.len(), "c07-raw", "{}: attributes", r.what(n));
        let mut k = 0;
        let mut it = f.attributes();
        while let Some(i) = it.next(&mut d) {
            let i = must(i, "c07-flat", &r.what(n))?;
            let a = must(i.to_attribute(), "c07-flat", &r.what(n))?;
            ensure!(k < rec.attrs.len(), "c07-flat", "{}: too many attributes", r.what(n));
            compare(&must(see(&a, &mut d, true), "c07-flat", &r.what(n))?, k)?;
            ctx.step();
            k += 1;
        }
        ensure_eq!(k, rec.attrs.len(), "c07-flat", "{}: flattened attributes", r.what(n));
        Ok(())
    })
}
fn entry(e: &ntfs::NtfsIndexEntry<NtfsFileNameIndex>, w: &REntry, key: &str, what: &str) -> R {
    ensure_eq!(e.file_reference().file_record_number(), w.fref & 0xFFFF_FFFF_FFFF, key, "{}: reference", what);
    ensure_eq!(e.file_reference().sequence_number() as u64, w.fref >> 48, key, "{}: reference", what);
    ensure_eq!(e.index_entry_length() as usize, w.len, key, "{}: length", what);
    ensure_eq!(e.key_length() as usize, w.key.len(), key, "{}: key length", what);
    let sub = match e.subnode_vcn() {
        None => None,
        Some(v) => Some(must(v, key, what)?.value() as u64),
    };
    ensure_eq!(sub, w.sub, key, "{}: subnode", what);
    let k = must(must_some(e.key(), key, what)?, key, what)?;
    name_value(&k, &w.key, key, what)
}
fn name_value(k: &NtfsFileName, b: &[u8], key: &str, what: &str) -> R {
    ensure_eq!(k.name().u16_iter().collect::<Vec<_>>(), name_at(b, 66, b[64] as usize), key, "{}: name", what);
    ensure_eq!(k.parent_directory_reference().file_record_number(), u64a(b, 0) & 0xFFFF_FFFF_FFFF, key, "{}: parent", what);
    ensure_eq!(
        (k.creation_time().nt_timestamp(), k.modification_time().nt_timestamp(), k.mft_record_modification_time().nt_timestamp(), k.access_time().nt_timestamp(), k.allocated_size(), k.data_size()),
        (u64a(b, 8), u64a(b, 16), u64a(b, 24), u64a(b, 32), u64a(b, 40), u64a(b, 48)),
        key,
        "{}: times and sizes",
        what
    );
    ensure_eq!((k.file_attributes().bits(), k.namespace() as u8), (u32a(b, 56) & FLAGS, b[65]), key, "{}: attributes and namespace", what);
    ensure_eq!(k.is_directory(), u32a(b, 56) & 0x1000_0000 != 0, key, "{}: directory", what);
    Ok(())
}
fn c08() -> Vec<Phase> {
    over("real volume", "every entry of every directory", |r, n, ctx| {
        let Some(rec) = &r.recs[n as usize] else { return Ok(()) };
        let mut d = r.disk();
        let f = must(r.ntfs.file(&mut d, n), "c08-file", &r.what(n))?;
        let Some(w) = r.walk(rec, "$I30") else {
            ensure!(f.directory_index(&mut d).is_err(), "c08-index", "{}: it has no index", r.what(n));
            return Ok(());
        };
        let ix = must(f.directory_index(&mut d), "c08-index", &r.what(n))?;
        let mut it = ix.entries();
        let mut k = 0;
        while let Some(e) = it.next(&mut d) {
            let what = format!("{}, entry {}", r.what(n), k);
            let e = must(e, "c08-entry", &what)?;
            ensure!(k < w.len(), "c08-entry", "{}: too many entries", what);
            entry(&e, &w[k], "c08-entry", &what)?;
            ensure_eq!(e.position().value().map(|p| p.get()), Some(w[k].addr), "c08-entry", "{}: position", what);
            k += 1;
            ctx.step();
        }
        ctx.outcome(&k);
        ensure_eq!(k, w.len(), "c08-entry", "{}: entries", r.what(n));
        Ok(())
    })
}
fn c09() -> Vec<Phase> {
    over("real volume", "every stored name in three spellings and its neighbours", |r, n, ctx| {
        let Some(rec) = &r.recs[n as usize] else { return Ok(()) };
        let Some(w) = r.walk(rec, "$I30") else { return Ok(()) };
        let mut d = r.disk();
        let f = must(r.ntfs.file(&mut d, n), "c09-file", &r.what(n))?;
        let ix = must(f.directory_index(&mut d), "c09-index", &r.what(n))?;
        let mut fi = ix.finder();
        let mut qs: Vec<String> = ["", "0", "a", "1000", "$", "$mft", "\u{FFFF}", "\u{10FFFF}"].map(String::from).to_vec();
        for e in &w {
            let s = String::from_utf16_lossy(&e.name);
            qs.extend([s.to_lowercase(), s.to_uppercase(), format!("{}0", s), s[..s.len() - 1].to_string(), s]);
        }
        qs.sort();
        qs.dedup();
        for q in &qs {
            let what = format!("{}, looking for {:?}", r.what(n), q);
            let k = up(&r.upcase, &u16s(q));
            let want = w.iter().find(|e| up(&r.upcase, &e.name) == k);
            match (NtfsFileNameIndex::find(&mut fi, &r.ntfs, &mut d, q), want) {
                (None, None) => {}
                (Some(e), Some(w)) => entry(&must(e, "c09-entry", &what)?, w, "c09-entry", &what)?,
                (g, w) => return fail("c09-result", format!("{}: found {}, stored {}", what, g.is_some(), w.is_some())),
            }
            ctx.step();
        }
        Ok(())
    })
}
fn c11() -> Vec<Phase> {
    over("real volume", "data streams, names, standard information, directory index and the volume's own data", |r, n, ctx| {
        let Some(rec) = &r.recs[n as usize] else { return Ok(()) };
        let mut d = r.disk();
        let what = r.what(n);
        let f = must(r.ntfs.file(&mut d, n), "c11-file", &what)?;
        let streams: Vec<String> = rec.attrs.iter().filter(|a| a.ty == ty::DATA).map(|a| String::from_utf16_lossy(&a.name)).collect();
        let mut asks: Vec<String> = ["", "$Bad", "$SDS", "$Info", "$I30", "x"].map(String::from).to_vec();
        asks.extend(streams.iter().flat_map(|s| [s.to_lowercase(), s.to_uppercase()]));
        for s in asks {
            let want = rec.attrs.iter().find(|a| a.ty == ty::DATA && up(&r.upcase, &a.name) == up(&r.upcase, &u16s(&s)));
            let got = match f.data(&mut d, &s) {
                None => None,
                Some(i) => {
                    let i = must(i, "c11-data", &what)?;
                    let a = must(i.to_attribute(), "c11-data", &what)?;
                    let mut v = must(a.value(&mut d), "c11-data", &what)?;
                    Some((a.position().value().map_or(0, |p| p.get()), must(read_all(&mut v, &mut d, 1 << 22), "c11-data", &what)?))
                }
            };
            ensure!(got == want.map(|a| (r.at(n, a.off), a.data.clone())), "c11-data", "{}: stream {:?}", what, s);
            ctx.step();
        }
        let names: Vec<&RAttr> = rec.attrs.iter().filter(|a| a.ty == ty::NAME).collect();
        for ns in [None, Some(0u8), Some(1), Some(2), Some(3)] {
            for p in [None, Some(5u64), Some(68), Some(11), Some(0)] {
                let want = names.iter().find(|a| ns.is_none_or(|x| a.data[65] == x) && p.is_none_or(|x| u64a(&a.data, 0) & 0xFFFF_FFFF_FFFF == x));
                let nsv = ns.map(|x| [NtfsFileNamespace::Posix, NtfsFileNamespace::Win32, NtfsFileNamespace::Dos, NtfsFileNamespace::Win32AndDos][x as usize]);
                match (f.name(&mut d, nsv, p), want) {
                    (None, None) => {}
                    (Some(g), Some(w)) => name_value(&must(g, "c11-name", &what)?, &w.data, "c11-name", &what)?,
                    (g, w) => return fail("c11-name", format!("{}: name {:?} {:?}: found {}, stored {}", what, ns, p, g.is_some(), w.is_some())),
                }
                ctx.step();
            }
        }
        let std = rec.attrs.iter().find(|a| a.ty == ty::STD);
        match (f.info(), std) {
            (Ok(i), Some(a)) => ensure_eq!(i.creation_time().nt_timestamp(), u64a(&a.data, 0), "c11-info", "{}", what),
            (Err(_), None) => {}
            (g, w) => return fail("c11-info", format!("{}: info {:?}, stored {}", what, g.map(|_| ()), w.is_some())),
        }
        ensure_eq!(f.directory_index(&mut d).is_ok(), rec.flags() & 2 != 0 && rec.attr(ty::ROOT, "$I30").is_some(), "c11-index", "{}", what);
        if n == 3 {
            let nm = must(must_some(r.ntfs.volume_name(&mut d), "c11-volume", &what)?, "c11-volume", &what)?;
            let w = &rec.attr(0x60, "").expect("testfs1: volume name").data;
            ensure_eq!(nm.name().u16_iter().collect::<Vec<_>>(), name_at(w, 0, w.len() / 2), "c11-volume", "volume name");
            let i = must(r.ntfs.volume_info(&mut d), "c11-volume", &what)?;
            let w = &rec.attr(0x70, "").expect("testfs1: volume information").data;
            ensure_eq!((i.major_version(), i.minor_version(), i.flags().bits() as usize), (w[8], w[9], u16a(w, 10)), "c11-volume", "volume information");
        }
        Ok(())
    })
}
fn c12() -> Vec<Phase> {
    over("real volume", "standard information, names and index roots", |r, n, ctx| {
        let Some(rec) = &r.recs[n as usize] else { return Ok(()) };
        let mut d = r.disk();
        let f = must(r.ntfs.file(&mut d, n), "c12-file", &r.what(n))?;
        for (k, a) in f.attributes_raw().enumerate() {
            let a = must(a, "c12-attribute", &r.what(n))?;
            let s = &rec.attrs[k];
            let what = format!("{}, attribute {}", r.what(n), k);
            ctx.step();
            match a.ty() {
                Ok(NtfsAttributeType::StandardInformation) => {
                    for i in [must(a.resident_structured_value::<NtfsStandardInformation>(), "c12-std", &what)?, must(a.structured_value(&mut d), "c12-std", &what)?] {
                        let b = &s.data;
                        ensure_eq!(
                            (i.creation_time().nt_timestamp(), i.modification_time().nt_timestamp(), i.mft_record_modification_time().nt_timestamp(), i.access_time().nt_timestamp(), i.file_attributes().bits()),
                            (u64a(b, 0), u64a(b, 8), u64a(b, 16), u64a(b, 24), u32a(b, 32) & FLAGS),
                            "c12-std",
                            "{}",
                            what
                        );
                        let long = b.len() >= 72;
                        ensure_eq!(
                            (i.maximum_versions(), i.version(), i.class_id(), i.owner_id(), i.security_id(), i.quota_charged(), i.usn()),
                            (
                                long.then(|| u32a(b, 36)),
                                long.then(|| u32a(b, 40)),
                                long.then(|| u32a(b, 44)),
                                long.then(|| u32a(b, 48)),
                                long.then(|| u32a(b, 52)),
                                long.then(|| u64a(b, 56)),
                                long.then(|| u64a(b, 64))
                            ),
                            "c12-std",
                            "{}: fields of version 3",
                            what
                        );
                    }
                }
                Ok(NtfsAttributeType::FileName) => name_value(&must(a.structured_value(&mut d), "c12-name", &what)?, &s.data, "c12-name", &what)?,
                Ok(NtfsAttributeType::IndexRoot) => {
                    let root: NtfsIndexRoot = must(a.resident_structured_value(), "c12-root", &what)?;
                    ensure_eq!(root.index_record_size(), u32a(&s.data, 8), "c12-root", "{}", what);
                    ensure_eq!(root.is_large_index(), s.data[28] & 1 != 0, "c12-root", "{}", what);
                    ensure_eq!((root.index_data_size(), root.index_allocated_size()), (u32a(&s.data, 20), u32a(&s.data, 24)), "c12-root", "{}", what);
                }
                _ => {}
            }
        }
        Ok(())
    })
}
fn c16() -> Vec<Phase> {
    over("real volume", "positions of records, attributes, run lists and value bytes", |r, n, ctx| {
        let Some(rec) = &r.recs[n as usize] else { return Ok(()) };
        let mut d = r.disk();
        let f = must(r.ntfs.file(&mut d, n), "c16-file", &r.what(n))?;
        ensure_eq!(f.position().value().map(|p| p.get()), Some(r.at(n, 0)), "c16-file", "{}", r.what(n));
        for (k, a) in f.attributes_raw().enumerate() {
            let a = must(a, "c16-attribute", &r.what(n))?;
            let s = &rec.attrs[k];
            let what = format!("{}, attribute {}", r.what(n), k);
            ensure_eq!(a.position().value().map(|p| p.get()), Some(r.at(n, s.off)), "c16-attribute", "{}", what);
            let mut v = must(a.value(&mut d), "c16-value", &what)?;
            // where value byte p lies; 0 is not a position that can be reported
            let at = |p: u64| if s.resident { Some(r.at(n, s.val + p as usize)) } else { addr_of(&s.runs, r.cs, p) };
            let mut pts: Vec<u64> = (0..s.size.min(80)).collect();
            let mut o = 0;
            for x in &s.runs {
                o += x.len * r.cs;
                pts.extend([o.saturating_sub(1), o, o + 1]);
            }
            pts.extend((0..s.size / 512).map(|k| 512 * k));
            pts.retain(|p| *p < s.size);
            for p in pts {
                must(v.seek(&mut d, SeekFrom::Start(p)), "c16-value", &what)?;
                ensure_eq!(v.data_position().value().map(|p| p.get()), at(p).filter(|p| *p > 0), "c16-value", "{}: value byte {}", what, p);
                let mut b = [0];
                must(v.read(&mut d, &mut b), "c16-value", &what)?;
                if let Some(x) = at(p) {
                    // the last two bytes of a block of a record are elsewhere
                    if p < s.init.max(if s.resident { s.size } else { 0 }) && !(s.resident && (s.val + p as usize) % 512 >= 510) {
                        ensure_eq!(r.img.get(x, 1)[0], b[0], "c16-value", "{}: value byte {} and the byte at {:#x}", what, p, x);
                    }
                }
                ctx.step();
            }
        }
        Ok(())
    })
}

fn c21() -> Vec<Phase> {
    use crate::props::c21::{open, RawIndex};
    over("real volume", "every index ($SDH, $SII, $O, $Q, $R and $I30): keys and data", |r, n, ctx| {
        let Some(rec) = &r.recs[n as usize] else { return Ok(()) };
        let mut d = r.disk();
        let f = must(r.ntfs.file(&mut d, n), "c21-file", &r.what(n))?;
        for a in rec.attrs.iter().filter(|a| a.ty == ty::ROOT) {
            let name = String::from_utf16_lossy(&a.name);
            let w = r.walk(rec, &name).expect("testfs1: index");
            let what = format!("{}, index {}", r.what(n), name);
            let ix = must_some(must(open::<RawIndex>(&f, &a.name, &mut d), "c21-open", &what)?, "c21-open", &what)?;
            let mut it = ix.entries();
            let mut k = 0;
            while let Some(e) = it.next(&mut d) {
                let e = must(e, "c21-entry", &what)?;
                ensure!(k < w.len(), "c21-entry", "{}: too many entries", what);
                let w = &w[k];
                ensure_eq!(e.position().value().map(|p| p.get()), Some(w.addr), "c21-entry", "{}: position of entry {}", what, k);
                ensure_eq!(must(must_some(e.key(), "c21-entry", &what)?, "c21-entry", &what)?.bytes, w.key, "c21-entry", "{}: key {}", what, k);
                if name != "$I30" {
                    let (o, l) = (w.fref as u16 as usize, (w.fref >> 16) as u16 as usize);
                    let x = must(must_some(e.data(), "c21-entry", &what)?, "c21-entry", &what)?;
                    ensure_eq!(x.bytes, r.img.get(w.addr + o as u64, l), "c21-entry", "{}: data {}", what, k);
                    ensure!(o >= 16 + w.key.len() && l > 0 && o + l <= w.len, "c21-entry", "{}: stored data of entry {}", what, k);
                }
                k += 1;
                ctx.step();
            }
            ensure_eq!(k, w.len(), "c21-entry", "{}: entries", what);
            ctx.outcome(&(name, k));
        }
        Ok(())
    })
}

pub fn phases(id: &str) -> Vec<Phase> {
    match id {
        "C02" => c02(),
        "C04" => c04(),
        "C06" => c06(),
        "C07" => c07(),
        "C08" => c08(),
        "C09" => c09(),
        "C11" => c11(),
        "C12" => c12(),
        "C16" => c16(),
        "C21" => c21(),
        _ => vec![],
    }
}
