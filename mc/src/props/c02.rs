//! C02: record N of the MFT is what Ntfs::file(N) returns, for every fragmentation.
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::structured_values::NtfsFileName;
use ntfs::{Ntfs, NtfsAttributeType, NtfsFileFlags, NtfsReadSeek};
use std::sync::Arc;

fn payload(n: u64) -> Vec<u8> {
    // long enough to cross the first 512-byte block boundary of the record
    let mut p: Vec<u8> = (0..600u64).map(|i| (n.wrapping_mul(31).wrapping_add(i * 7 + (i >> 5))) as u8).collect();
    p[4..12].copy_from_slice(&n.to_le_bytes());
    p
}
fn rec_for(v: &Vol, n: u64) -> Rec {
    let mut r = v.rec();
    r.seq = (n as u16).wrapping_mul(3).wrapping_add(0x1000);
    r.links = n as u16 ^ 0x0155;
    r.flags = (n % 4) as u16;
    r.usn = (n as u16).wrapping_add(0x7000);
    let p = payload(n);
    let keep = (v.g.rs as usize - 200).min(p.len());
    r.attr(Attr::res(ty::DATA, "", 3, &p[..keep]))
}

/// A volume whose MFT has the given run lengths, placed in the given order on disk.
fn volume(g: Geo, lens: &[u64], order: &[usize], slack_clusters: u64, records: u64) -> Vol {
    let mut at = (16384 / g.cs as u64).max(4);
    let mut pos = vec![0; lens.len()];
    for &k in order {
        pos[k] = at;
        at += lens[k] + 1; // gap so that runs never merge by accident
    }
    let runs: Vec<Run> = lens.iter().zip(&pos).map(|(l, p)| run(*l, *p)).collect();
    let total: u64 = lens.iter().sum::<u64>() * g.cs as u64;
    assert!(records * g.rs as u64 <= total);
    let _ = slack_clusters;
    let mut v = Vol::with_mft(g, runs, records * g.rs as u64);
    for n in 1..records {
        let r = rec_for(&v, n);
        v.put(n, &r);
    }
    // allocated but unused part of the MFT: valid-looking records that must never be returned
    let mut n = records;
    while (n + 1) * g.rs as u64 <= total {
        let r = rec_for(&v, n);
        v.put(n, &r);
        n += 1;
    }
    v
}

fn check_record(c: &mut Ctx, v: &Vol, ntfs: &Ntfs, d: &mut Disk, n: u64, key: &str) -> R {
    c.step();
    let f = must(ntfs.file(d, n), key, &format!("file({})", n))?;
    let r = if n == 0 { None } else { Some(rec_for(v, n)) };
    ensure_eq!(f.file_record_number(), n, key, "file_record_number of record {}", n);
    ensure_eq!(f.position().value().map(|p| p.get()), Some(v.rec_addr(n)), key, "position of record {}", n);
    ensure_eq!(f.allocated_size(), v.g.rs, key, "allocated_size of record {}", n);
    if let Some(r) = r {
        let p = r.plain();
        ensure_eq!(f.sequence_number(), r.seq, key, "sequence_number of record {}", n);
        ensure_eq!(f.hard_link_count(), r.links, key, "hard_link_count of record {}", n);
        ensure_eq!(f.flags(), NtfsFileFlags::from_bits_truncate(r.flags), key, "flags of record {}", n);
        ensure_eq!(f.is_directory(), r.flags & 2 != 0, key, "is_directory of record {}", n);
        ensure_eq!(f.data_size(), u32::from_le_bytes(p[24..28].try_into().unwrap()), key, "data_size of record {}", n);
        let want = match &r.attrs[0].val {
            Val::Res(x) => x.clone(),
            _ => unreachable!(),
        };
        let a = must(must_some(f.attributes_raw().next(), key, "first attribute")?, key, "first attribute")?;
        ensure_eq!(must(a.ty(), key, "ty")?, NtfsAttributeType::Data, key, "type of the first attribute of record {}", n);
        match must(a.value(d), key, "value")? {
            NtfsAttributeValue::Resident(x) => {
                ensure!(x.data() == want, key, "content of record {}: {}", n, diff(x.data(), &want))
            }
            _ => return fail(key, "resident value expected"),
        }
    } else {
        let a = f.attributes_raw().count();
        ensure_eq!(a, 3, key, "attribute count of record 0");
    }
    c.outcome(&(n, f.sequence_number(), f.data_size()));
    Ok(())
}

fn out_of_range(v: &Vol, records: u64) -> Vec<u64> {
    let rs = v.g.rs as u64;
    let mut x: Vec<u64> = (records..records + 12).collect();
    for b in [1u64 << 16, 1 << 31, 1 << 32, 1 << 47, (1 << 48) - 1, u64::MAX / rs, u64::MAX / rs + 1, u64::MAX / rs + 2, u64::MAX, 1 << 63, (1u64 << 63) / rs, (1u64 << 63) / rs + 1] {
        x.extend([b.wrapping_sub(1), b, b.wrapping_add(1)]);
    }
    // numbers whose byte offset wraps around to an existing record
    for k in 0..records {
        let wrap = (u64::MAX / rs).wrapping_add(1).wrapping_add(k);
        x.push(wrap);
    }
    x.retain(|n| *n >= records);
    x.sort();
    x.dedup();
    x
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut v = vec![];
    // geometry x fragmentation
    let mut items: Vec<(Geo, Vec<u64>, Vec<usize>, u64)> = vec![];
    let geos = [
        (512u16, 512u32, 1024u32),
        (512, 512, 2048),
        (512, 512, 4096),
        (512, 512, 512 * 3),
        (512, 1024, 1024),
        (512, 2048, 1024),
        (512, 4096, 1024),
        (4096, 4096, 4096),
        (4096, 4096, 8192),
        (512, 1024, 4096),
        (1024, 65536, 1024),
        (512, 2 << 20, 1024),
        (512, 512, 16384),
        (512, 512, 65024),
        (512, 4096, 65536),
        (4096, 4096, 32768),
        (1024, 1024, 114688),
    ];
    for (ss, cs, rs) in geos {
        let mut g = Geo::new(ss, cs, rs);
        g.clusters = g.clusters.max(64);
        let recs: u64 = t.pick(5, 7);
        let total_bytes = recs * rs as u64;
        let cl = total_bytes.div_ceil(cs as u64);
        let extra_opts: &[u64] = if cs as u64 <= 4096 { &[0, 2] } else { &[0] };
        for extra in extra_opts {
            let n = cl + extra;
            let maxparts = if n > 100 { t.pick(1, 2) } else if n > 14 { t.pick(2, 3) } else { t.pick(3, 4) };
            for lens in compositions(n, maxparts) {
                if lens[0] * (cs as u64) < rs as u64 {
                    continue; // record 0 must be contiguous, it is found without the run list
                }
                for order in permutations(lens.len()) {
                    items.push((g, lens.clone(), order, recs));
                }
            }
        }
    }
    let items = Arc::new(items);
    let n = items.len();
    v.push(Phase::new(
        "fragmentation",
        "every split of the MFT into up to 3 (4) runs in every placement order, 17 sector/cluster/record size combinations; every record and ~40 record numbers out of range",
        n,
        move |i, c| {
            let (g, lens, order, recs) = &items[i];
            let v = volume(*g, lens, order, 0, *recs);
            let key = format!("cs{} rs{} runs{:?} order{:?}", g.cs, g.rs, lens, order);
            let mut d = Disk::new(Arc::new(v.img.clone()));
            let ntfs = must(Ntfs::new(&mut d), &key, "mount")?;
            c.state(&(i, lens, order));
            c.sample(|| key.clone());
            for n in 0..*recs {
                c.exec();
                check_record(c, &v, &ntfs, &mut d, n, &key)?;
            }
            for n in out_of_range(&v, *recs) {
                c.exec();
                c.step();
                if let Ok(f) = ntfs.file(&mut d, n) {
                    return fail(
                        format!("{} n{}", key, n),
                        format!("record number {} of a table of {} records gave a file (position {:?}, seq {})", n, recs, f.position(), f.sequence_number()),
                    );
                }
            }
            // order independence: backwards again
            for n in (0..*recs).rev() {
                check_record(c, &v, &ntfs, &mut d, n, &key)?;
            }
            Ok(())
        },
    ));
    v.push(Phase::new("sparse-mft", "an MFT with a hole: records inside the hole are refused, the others are right", 8, move |i, c| {
        let g = [Geo::std(), Geo::new(512, 1024, 1024), Geo::new(512, 4096, 1024), Geo::new(512, 2048, 4096)][i % 4];
        let per = (g.rs as u64 * 4).div_ceil(g.cs as u64).max(1);
        let recs_per_part = per * g.cs as u64 / g.rs as u64;
        let runs = if i < 4 { vec![run(per, 64), hole(per), run(per, 40)] } else { vec![run(per, 40), hole(per), run(per, 64)] };
        let recs = recs_per_part * 3;
        let mut v = Vol::with_mft(g, runs, recs * g.rs as u64);
        let in_hole = |n: u64| n >= recs_per_part && n < 2 * recs_per_part;
        for n in 1..recs {
            if !in_hole(n) {
                let r = rec_for(&v, n);
                v.put(n, &r);
            }
        }
        let key = format!("sparse{}", i);
        let mut d = Disk::new(Arc::new(v.img.clone()));
        let ntfs = must(Ntfs::new(&mut d), &key, "mount")?;
        for n in 0..recs {
            c.exec();
            c.state(&(i, n));
            if in_hole(n) {
                c.step();
                ensure!(ntfs.file(&mut d, n).is_err(), &key, "record {} lies in a hole but was returned", n);
            } else {
                check_record(c, &v, &ntfs, &mut d, n, &key)?;
            }
        }
        Ok(())
    }));
    let mut its = vec![];
    for (cs, rs) in [(512u32, 1024u32), (1024, 1024), (4096, 1024), (2048, 4096)] {
        let mut g = Geo::new(512, cs, rs);
        g.clusters = g.clusters.max(96);
        for lens in compositions((8 * rs as u64).div_ceil(cs as u64), 3) {
            if lens[0] * (cs as u64) < 2 * rs as u64 {
                continue; // the continuation is record 1
            }
            for order in permutations(lens.len()) {
                for k in 1..lens.len() {
                    its.push((g, lens.clone(), order.clone(), k));
                }
            }
        }
    }
    let n = its.len();
    v.push(Phase::new("continued", "a table whose runs are continued in another record by an attribute list: the records of the first piece are right, the others right or refused", n, move |i, c| {
        let (g, lens, order, k) = &its[i];
        let mut v = volume(*g, lens, order, 0, 8);
        let cs = v.cs();
        let (a, b) = v.mft_runs.split_at(*k);
        let first = runs_clusters(a);
        let x = Attr::extent(ty::DATA, "", 2, 0, a, cs, v.mft_size);
        let y = Attr::extent(ty::DATA, "", 0, first, b, cs, v.mft_size);
        let mut list = list_entry(ty::STD, &[], 0, 0, 0);
        list.extend(list_entry(ty::DATA, &[], 0, 0, 2));
        list.extend(list_entry(ty::DATA, &[], first, 1, 0));
        let r0 = v.rec().attr(Attr::res(ty::STD, "", 0, &std_info(0))).attr(Attr::res(ty::LIST, "", 1, &list)).attr(x);
        let mut r1 = v.rec().attr(y);
        r1.base = fref(0, 1);
        v.put(0, &r0);
        v.put(1, &r1);
        let key = format!("cs{} rs{} runs{:?} order{:?} split{}", g.cs, g.rs, lens, order, k);
        c.sample(|| key.clone());
        let mut d = Disk::new(Arc::new(v.img.clone()));
        let ntfs = must(Ntfs::new(&mut d), &key, "mount")?;
        for n in (2..8).chain([7, 3, 2]) {
            c.exec();
            c.state(&(i, n));
            if (n + 1) * g.rs as u64 <= first * cs || ntfs.file(&mut d, n).is_ok() {
                check_record(c, &v, &ntfs, &mut d, n, &key)?;
            }
        }
        for n in out_of_range(&v, 8) {
            c.step();
            ensure!(ntfs.file(&mut d, n).is_err(), &key, "record number {} of a table of 8 records gave a file", n);
        }
        Ok(())
    }));
    v.push(Phase::new("signature", "every single-byte change of the record signature is refused", 4, move |i, c| {
        let mut v = Vol::new(Geo::std(), 8);
        for n in 1..8 {
            let r = rec_for(&v, n);
            v.put(n, &r);
        }
        let img = Arc::new(v.img.clone());
        for val in 0..=255u8 {
            let mut d = Disk::new(img.clone());
            let ntfs = must(Ntfs::new(&mut d), "sig", "mount")?;
            let orig = b"FILE"[i];
            d.patch = vec![(v.rec_addr(4) + i as u64, vec![val])];
            c.exec();
            c.step();
            c.state(&(i, val));
            ensure_eq!(ntfs.file(&mut d, 4).is_ok(), val == orig, format!("byte{}={}", i, val), "record with signature byte {} = {:#x}", i, val);
            check_record(c, &v, &ntfs, &mut d, 5, "neighbour")?;
        }
        Ok(())
    }));
    v.push(Phase::new(
        "headers",
        "all 65536 flags, sequence numbers, link counts and update sequence numbers of a record, and the product of boundary values of every header field with and without attributes; the neighbours stay right",
        256 + 7 * 4,
        move |i, c| {
            let g = Geo::std();
            let mut v = Vol::new(g, 8);
            for n in 1..8 {
                let r = rec_for(&v, n);
                v.put(n, &r);
            }
            let mut d = Disk::new(Arc::new(v.img.clone()));
            let ntfs = must(Ntfs::new(&mut d), "headers", "mount")?;
            let mut cases: Vec<Rec> = vec![];
            if i < 256 {
                for lo in 0..256u32 {
                    let x = ((i as u32) << 8 | lo) as u16;
                    for k in 0..4 {
                        let mut r = rec_for(&v, 6);
                        match k {
                            0 => r.flags = x,
                            1 => r.seq = x,
                            2 => r.links = x,
                            _ => r.usn = x,
                        }
                        cases.push(r);
                    }
                }
            } else {
                let flags = [0u16, 1, 2, 3, 4, 8, 0xFFFF][(i - 256) % 7];
                let seq = [0u16, 1, 0x7FFF, 0xFFFF][(i - 256) / 7];
                for links in [0u16, 1, 2, 0xFFFF] {
                    for base in [0, fref(0, 1), fref(6, 1), fref(6, seq), fref(5, 5), fref(7, 0), u64::MAX] {
                        for next_inst in [0u16, 1, 4, 0xFFFF] {
                            for lsn in [0, 1, 1 << 63, u64::MAX] {
                                for attrs in 0..3 {
                                    for usn in [0u16, 1, 0xFFFF] {
                                        let mut r = v.rec();
                                        r.flags = flags;
                                        r.seq = seq;
                                        r.links = links;
                                        r.base = base;
                                        r.next_inst = next_inst;
                                        r.lsn = lsn;
                                        r.usn = usn;
                                        if attrs > 0 {
                                            r = r.attr(Attr::res(ty::DATA, "", 3, &payload(6)[..if attrs == 1 { 0 } else { 600 }]));
                                        }
                                        cases.push(r);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            for r in cases {
                let key = format!("flags{:x} seq{:x} links{:x} base{:x} inst{:x} lsn{:x} usn{:x} attrs{}", r.flags, r.seq, r.links, r.base, r.next_inst, r.lsn, r.usn, r.attrs.len());
                c.exec();
                c.step();
                c.state(&key);
                d.patch = vec![(v.rec_addr(6), r.build())];
                let f = must(ntfs.file(&mut d, 6), &key, "file(6)")?;
                let p = r.plain();
                ensure_eq!(f.file_record_number(), 6, &key, "file_record_number");
                ensure_eq!(f.position().value().map(|p| p.get()), Some(v.rec_addr(6)), &key, "position");
                ensure_eq!(f.sequence_number(), r.seq, &key, "sequence_number");
                ensure_eq!(f.hard_link_count(), r.links, &key, "hard_link_count");
                ensure_eq!(f.flags(), NtfsFileFlags::from_bits_truncate(r.flags), &key, "flags");
                ensure_eq!(f.is_directory(), r.flags & 2 != 0, &key, "is_directory");
                ensure_eq!(f.data_size(), u32::from_le_bytes(p[24..28].try_into().unwrap()), &key, "data_size");
                ensure_eq!(f.allocated_size(), g.rs, &key, "allocated_size");
                ensure_eq!(f.attributes_raw().count(), r.attrs.len(), &key, "number of attributes");
                if let Some(a) = r.attrs.first() {
                    let want = match &a.val {
                        Val::Res(x) => x.clone(),
                        _ => unreachable!(),
                    };
                    let a = must(must_some(f.attributes_raw().next(), &key, "attribute")?, &key, "attribute")?;
                    match must(a.value(&mut d), &key, "value")? {
                        NtfsAttributeValue::Resident(x) => ensure!(x.data() == want, &key, "content: {}", diff(x.data(), &want)),
                        _ => return fail(&key, "resident value expected"),
                    }
                }
            }
            check_record(c, &v, &ntfs, &mut d, 5, "headers")?;
            check_record(c, &v, &ntfs, &mut d, 7, "headers")
        },
    ));
    v.push(Phase::new(
        "large tables",
        "tables whose runs reach to 4 TiB and beyond: the records around every power of two of the record number and of the byte offset, near and far on disk",
        6 * 3,
        move |i, c| {
            let g = [Geo::std(), Geo::new(512, 4096, 1024), Geo::new(512, 512, 512), Geo::new(4096, 4096, 4096), Geo::new(512, 65536, 1024), Geo::new(512, 2 << 20, 4096)][i % 6];
            let (cs, rs) = (g.cs as u64, g.rs as u64);
            // the highest byte offset of the table
            let top = [33u32, 42, 52][i / 6];
            let size = 1u64 << top;
            let first = (16384 / cs).max(4);
            let near = (8 * rs).div_ceil(cs).max(2);
            let rest = size / cs - near;
            let half = rest / 2 / near * near;
            // a small first run, then two huge ones, the second placed before the first on disk
            let runs = vec![run(near, first), run(half, first + near + (rest - half) + 100), run(rest - half, first + near + 50)];
            let mut v = Vol::with_mft(g, runs, size - rs * 2);
            let records = size / rs - 2;
            let mut want: Vec<u64> = vec![1, 2, 7, 8, near * cs / rs, (near + half) * cs / rs];
            for b in 3..63 {
                want.extend([1u64 << b, 1 << b.min(62), (1u64 << b) / rs, (1u64 << b) / cs]);
            }
            want.extend([records - 1, records - 2]);
            let mut want: Vec<u64> = want.iter().flat_map(|x| [x.saturating_sub(1), *x, x + 1]).filter(|x| *x > 0 && *x < records).collect();
            want.sort();
            want.dedup();
            for n in &want {
                let r = rec_for(&v, *n);
                v.put(*n, &r);
            }
            let past = [records, records + 1];
            for n in past {
                let r = rec_for(&v, n);
                v.put(n, &r);
            }
            let key = format!("top{} cs{} rs{}", top, cs, rs);
            let mut d = Disk::new(Arc::new(v.img.clone()));
            let ntfs = must(Ntfs::new(&mut d), &key, "mount")?;
            for n in want.iter().chain(want.iter().rev()) {
                c.exec();
                c.state(&(i, n));
                check_record(c, &v, &ntfs, &mut d, *n, &format!("{} n{}", key, n))?;
            }
            for n in past.into_iter().chain(out_of_range(&v, 1).into_iter().filter(|n| *n >= records)) {
                c.step();
                ensure!(ntfs.file(&mut d, n).is_err(), format!("{} n{}", key, n), "record {} of a table of {} records gave a file", n, records);
            }
            // an unformatted record is refused
            let mut free = want[want.len() / 2] + 7;
            while want.contains(&free) {
                free += 1;
            }
            ensure!(ntfs.file(&mut d, free).is_err(), format!("{} n{}", key, free), "the unformatted record {} gave a file", free);
            Ok(())
        },
    ));
    v.push(Phase::new("references", "file references with every sequence number and boundary record numbers; to_file follows the low 48 bits", 256, move |i, c| {
        let mut v = Vol::new(Geo::std(), 16);
        for n in 1..16 {
            let r = rec_for(&v, n);
            v.put(n, &r);
        }
        // record 7 gets a file name attribute whose parent reference is varied
        let base = v.rec().attr(Attr::res(ty::NAME, "", 0, &FName::new(0, "x", 0).encode()));
        v.put(7, &base);
        let off = v.rec_addr(7) + base.offsets()[0] as u64 + 24;
        let img = Arc::new(v.img.clone());
        let mut d = Disk::new(img);
        let ntfs = must(Ntfs::new(&mut d), "ref", "mount")?;
        let recs: Vec<u64> = vec![0, 1, 5, 7, 15, 16, 255, 256, 65535, 65536, 0x0001_0000_0000, 0x8000_0000_0000, 0xFFFF_FFFF_FFFF, 0x0102_0304_0506];
        for lo in 0..256u64 {
            let seq = (i as u64) << 8 | lo;
            for &rn in &recs {
                if rn != 5 && rn != 0x0102_0304_0506 && lo % 64 != 3 && !t.thorough() {
                    continue;
                }
                d.patch = vec![(off, fref(rn, seq as u16).to_le_bytes().to_vec())];
                c.exec();
                c.step();
                c.state(&(rn, seq));
                let f = must(ntfs.file(&mut d, 7), "ref", "file 7")?;
                let a = must(must_some(f.attributes_raw().next(), "ref", "attr")?, "ref", "attr")?;
                let nm = must(a.structured_value::<_, NtfsFileName>(&mut d), "ref", "name")?;
                let r = nm.parent_directory_reference();
                let key = format!("ref{:x}.{:x}", rn, seq);
                ensure_eq!(r.file_record_number(), rn, &key, "record number of reference {:#x}", fref(rn, seq as u16));
                ensure_eq!(r.sequence_number() as u64, seq, &key, "sequence number of reference");
                match r.to_file(&ntfs, &mut d) {
                    Ok(f2) => {
                        ensure!(rn < 16, &key, "reference to record {} resolved", rn);
                        ensure_eq!(f2.file_record_number(), rn, &key, "record number of the referenced file");
                        ensure_eq!(f2.position().value().map(|x| x.get()), Some(v.rec_addr(rn)), &key, "position of the referenced file");
                    }
                    Err(e) => ensure!(rn >= 16, &key, "reference to record {} failed: {:?}", rn, e),
                }
            }
        }
        Ok(())
    }));
    v.push(Phase::new("root-and-order", "every ordered pair of record requests on one handle (no request influences another)", 8, move |a, c| {
        let mut v = Vol::new(Geo::std(), 8);
        for n in 1..8 {
            let r = rec_for(&v, n);
            v.put(n, &r);
        }
        let mut d = Disk::new(Arc::new(v.img.clone()));
        let ntfs = must(Ntfs::new(&mut d), "order", "mount")?;
        for b in 0..8u64 {
            for pos in [0u64, 1, 4096, 1 << 60] {
                for n in [a as u64, b, a as u64] {
                    d.pos = pos;
                    c.exec();
                    c.state(&(a, b, pos));
                    check_record(c, &v, &ntfs, &mut d, n, "order")?;
                }
            }
        }
        let r = must(ntfs.root_directory(&mut d), "root", "root_directory")?;
        ensure_eq!(r.file_record_number(), 5, "root", "root directory record");
        let mut value = must(must(must_some(r.attributes_raw().next(), "root", "a")?, "root", "a")?.value(&mut d), "root", "v")?;
        let mut b = vec![0; 4];
        must(value.read_exact(&mut d, &mut b), "root", "read")?;
        ensure_eq!(b, payload(5)[..4].to_vec(), "root", "root directory content");
        Ok(())
    }));
    (v, Opts { assumptions: vec!["of an MFT whose own run list needs an attribute list, the records behind the first piece may be refused (the library documents that it does not follow it)".into()], ..Opts::default() })
}
