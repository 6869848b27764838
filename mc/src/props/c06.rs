//! C06: the reported data runs are exactly the encoded ones, for every byte string tried.
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::Ntfs;
use std::sync::Arc;

/// What one encoded run means: (allocated size, start or None for sparse), or the list is malformed here.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum D {
    Run(u64, Option<u64>),
    Bad,
}
/// Independent decoder over wide integers.
fn model(b: &[u8], cs: u64) -> Vec<D> {
    let mut out = vec![];
    let mut i = 0usize;
    let mut lcn: i128 = 0;
    while i < b.len() {
        let h = b[i];
        if h == 0 {
            break;
        }
        let (ln, on) = ((h & 15) as usize, (h >> 4) as usize);
        if ln == 0 || ln > 8 || on > 8 || i + 1 + ln + on > b.len() {
            out.push(D::Bad);
            return out;
        }
        let mut count: i128 = 0;
        for k in 0..ln {
            count |= (b[i + 1 + k] as i128) << (8 * k);
        }
        let size = count * cs as i128;
        if count == 0 || size > u64::MAX as i128 {
            out.push(D::Bad);
            return out;
        }
        if on == 0 {
            out.push(D::Run(size as u64, None));
        } else {
            let mut off: i128 = 0;
            for k in 0..on {
                off |= (b[i + 1 + ln + k] as i128) << (8 * k);
            }
            if b[i + ln + on] & 0x80 != 0 {
                off -= 1 << (8 * on);
            }
            let l = lcn + off;
            let start = l * cs as i128;
            if l < 0 || start + size > u64::MAX as i128 {
                out.push(D::Bad);
                return out;
            }
            lcn = l;
            out.push(D::Run(size as u64, Some(start as u64)));
        }
        i += 1 + ln + on;
    }
    out
}

struct Bed {
    disk: Disk,
    ntfs: Ntfs,
    attr: u64,
    cs: u64,
    #[allow(dead_code)]
    rec: u64,
}
const BODY: usize = 120;
fn bed(cs: u32, data_size: u64) -> Bed {
    let mut v = Vol::new(Geo::new(512, cs, 1024), 8);
    let mut a = Attr::non(ty::DATA, "", 0, &[run(1, 9)], cs as u64, data_size);
    if let Val::Non { runs, .. } = &mut a.val {
        *runs = vec![0; BODY];
    }
    let r = v.rec().attr(a);
    v.put(6, &r);
    let attr = v.rec_addr(6) + r.offsets()[0] as u64;
    let rec = v.rec_addr(6);
    let mut disk = Disk::new(v.done());
    let ntfs = Ntfs::new(&mut disk).expect("harness: mount");
    Bed { disk, ntfs, attr, cs: cs as u64, rec }
}
/// Decodes `b` (as the complete run area of the attribute) and compares with the model.
fn check(bed: &mut Bed, b: &[u8], c: &mut Ctx, key: &str) -> R {
    assert!(b.len() <= BODY);
    c.exec();
    let len = 64 + b.len() as u32;
    bed.disk.patch.clear();
    bed.disk.patch.push((bed.attr + 4, len.to_le_bytes().to_vec()));
    bed.disk.patch.push((bed.attr + 64, b.to_vec()));
    let key = || if key.is_empty() { format!("cs{} {}", bed.cs, hexs(b)) } else { key.to_string() };
    let f = match bed.ntfs.file(&mut bed.disk, 6) {
        Ok(f) => f,
        Err(e) => return fail(key(), format!("file: {:?}", e)),
    };
    compare(&f, &mut bed.disk, bed.cs, b, c, &key)
}
fn compare(f: &ntfs::NtfsFile, disk: &mut Disk, cs: u64, b: &[u8], c: &mut Ctx, key: &dyn Fn() -> String) -> R {
    let a = match f.attributes_raw().next() {
        Some(Ok(a)) => a,
        x => return fail(key(), format!("attribute: {:?}", x.map(|x| x.is_ok()))),
    };
    let want = model(b, cs);
    c.outcome(&want);
    c.steps(want.len() as u64 + 1);
    let v = match a.value(disk) {
        Ok(NtfsAttributeValue::NonResident(v)) => v,
        Ok(_) => return fail(key(), "not a non-resident value"),
        Err(e) => {
            ensure!(want.first() == Some(&D::Bad), key(), "value refused ({:?}), runs {} decode to {:?}", e, hexs(b), want);
            return Ok(());
        }
    };
    // an undecodable first run may also be reported by the iterator only
    let mut it = v.data_runs();
    for (i, w) in want.iter().enumerate() {
        match (it.next(), w) {
            (Some(Err(_)), D::Bad) => return Ok(()),
            (Some(Ok(r)), D::Run(size, start)) => {
                ensure_eq!(r.allocated_size(), *size, key(), "size of run {} of {}", i, hexs(b));
                let p = r.data_position().value().map(|x| x.get());
                ensure_eq!(p, start.filter(|s| *s != 0), key(), "position of run {} of {}", i, hexs(b));
            }
            (g, w) => return fail(key(), format!("run {} of {}: got {:?}, expected {:?}", i, hexs(b), g, w)),
        }
    }
    match it.next() {
        None => {}
        Some(g) => return fail(key(), format!("after the end of {}: got {:?}", hexs(b), g)),
    }
    ensure!(it.next().is_none(), key(), "iterator resumes after its end for {}", hexs(b));
    Ok(())
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut v = vec![];
    v.push(Phase::new(
        "all-short-strings",
        "every run area of 0, 1, 2 and 3 bytes (16 843 009 strings), 512-byte clusters",
        256,
        |h, c| {
            let mut bed = bed(512, 512);
            if h == 0 {
                check(&mut bed, &[], c, "")?;
            }
            let h = h as u8;
            c.state(&h);
            check(&mut bed, &[h], c, "")?;
            for a in 0..=255u8 {
                c.state(&(h, a));
                check(&mut bed, &[h, a], c, "")?;
                for b in 0..=255u8 {
                    check(&mut bed, &[h, a, b], c, "")?;
                    c.state(&(h, a, b));
                }
            }
            Ok(())
        },
    ));
    if t.thorough() {
        v.push(Phase::new("all-4-byte-strings", "every run area of 4 bytes with a decodable header (one-, two- or three-byte integers; 2 097 152 x n strings)", 4096, |i, c| {
            let heads = [0x11u8, 0x21, 0x12, 0x31, 0x13, 0x01, 0x02, 0x03, 0x22, 0x41, 0x14, 0x10, 0x20, 0x91, 0x19, 0xF1];
            let h = heads[i / 256];
            let a = (i % 256) as u8;
            let mut bed = bed(4096, 512);
            c.state(&i);
            for b in 0..=255u8 {
                for d in 0..=255u8 {
                    check(&mut bed, &[h, a, b, d], c, "")?;
                }
            }
            Ok(())
        }));
    }
    // every pair of integer widths x boundary values x what comes before x cluster size
    v.push(Phase::new(
        "widths-and-boundaries",
        "every length width 0..15 x offset width 0..15 x boundary values of both x preceding runs x cluster sizes 512..2 MiB, complete and truncated by one byte",
        256,
        move |h, c| {
            let (ln, on) = (h & 15, h >> 4);
            let bounds = |w: usize, signed: bool| -> Vec<Vec<u8>> {
                let mut vals: Vec<u128> = vec![0, 1, 2, 0x7f, 0x80, 0x81, 0xff];
                for k in 1..=w.min(8) {
                    let p = 1u128 << (8 * k);
                    vals.extend([p / 2 - 1, p / 2, p / 2 + 1, p - 1, p - 2, p, p + 1]);
                }
                for s in [9u32, 12, 16, 21] {
                    vals.extend([(1u128 << (64 - s)) - 1, 1 << (64 - s), (1u128 << (64 - s)) + 1, (1u128 << (63 - s)) - 1, 1 << (63 - s)]);
                }
                if signed {
                    let neg: Vec<u128> = [1i128, 2, 5, 6, 100, 101, 128, 129, 0x8000, 0x7fff_ffff, 0x8000_0000, 1 << 40, 1 << 52, 1 << 55, 1 << 62, (1 << 63) - 1, 1 << 63].iter().map(|x| (-x) as u128).collect();
                    vals.extend(neg);
                }
                let mut out: Vec<Vec<u8>> = vals.iter().map(|x| x.to_le_bytes()[..w].to_vec()).collect();
                out.sort();
                out.dedup();
                out
            };
            let pre: Vec<Vec<u8>> = vec![
                vec![],
                vec![0x11, 1, 100],
                vec![0x11, 1, 5],
                vec![0x01, 3],
                vec![0x21, 1, 0xff, 0x7f],
                vec![0x81, 1, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 0],
                vec![0x81, 1, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x07, 0, 0],
                // close to the largest cluster number of 2 MiB clusters
                vec![0x61, 1, 0xfd, 0xff, 0xff, 0xff, 0xff, 0x07],
                vec![0x11, 1, 100, 0x01, 1],
            ];
            for cs in [512u32, 4096, 65536, 2 << 20] {
                let mut bed = bed(cs, 512);
                let (ls, os) = (bounds(ln, false), bounds(on, true));
                for p in &pre {
                    for l in &ls {
                        for o in &os {
                            let mut b = p.clone();
                            b.push(h as u8);
                            b.extend(l);
                            b.extend(o);
                            c.state(&(cs, &b));
                            check(&mut bed, &b, c, "")?;
                            if p.len() <= 3 {
                                let n = b.len();
                                check(&mut bed, &b[..n - 1], c, "")?;
                                b.extend([0, 0x11, 1, 1]);
                                check(&mut bed, &b, c, "")?;
                                let n = b.len() - 4;
                                b.truncate(n);
                                b.extend([0x11, 7, 0xfb, 0]);
                                check(&mut bed, &b, c, "")?;
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    // sequences of runs
    let alphabet: Vec<Vec<u8>> = vec![
        vec![0x11, 1, 0x10],
        vec![0x11, 2, 0xF8],       // -8
        vec![0x11, 3, 0x00],       // offset 0
        vec![0x01, 4],             // sparse
        vec![0x02, 5, 1],          // sparse, wide
        vec![0x21, 0x80, 0x00, 0x01],
        vec![0x21, 0xFF, 0x00, 0xFF],
        vec![0x31, 1, 0xff, 0xff, 0xff], // -1, redundant bytes
        vec![0x44, 1, 0, 0, 0, 0, 0, 0, 1],
        vec![0x12, 0, 1, 0x7f],
        vec![0x88, 1, 0, 0, 0, 0, 0, 0, 0, 0x20, 0, 0, 0, 0, 0, 0, 0],
        vec![0x11, 0, 1],          // bad: zero count
        vec![0x11, 1, 0x80],       // -128: below zero unless far enough
        vec![0x00],                // end
    ];
    let depth = t.pick(5usize, 6);
    let alphabet = Arc::new(alphabet);
    let n = alphabet.len() * alphabet.len();
    v.push(Phase::new("run-sequences", format!("every sequence of {} runs out of 14 encodings (relative, backward, sparse, zero offset, redundant widths, end marker, malformed), 3 cluster sizes", depth), n, move |i, c| {
        let (x, y) = (i / alphabet.len(), i % alphabet.len());
        let mut beds: Vec<Bed> = [512u32, 4096, 2 << 20].iter().map(|cs| bed(*cs, 512)).collect();
        let mut idx = vec![x, y];
        idx.resize(depth, 0);
        loop {
            let mut b = vec![];
            for k in &idx {
                b.extend(&alphabet[*k]);
            }
            c.state(&idx);
            c.sample(|| format!("runs {}", hexs(&b)));
            for bd in &mut beds {
                check(bd, &b, c, "")?;
            }
            let mut k = depth;
            loop {
                if k == 2 {
                    return Ok(());
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < alphabet.len() {
                    break;
                }
                idx[k] = 0;
            }
        }
    }));
    // long lists, in large records
    let most = t.pick(1300usize, 5000);
    v.push(Phase::new("many runs", format!("every number of runs from 1 to {} in records of 4096 or 32768 bytes, 4 kinds of lists, one of them changed or cut off at its end", most), most, move |i, c| {
        let n = i + 1;
        for kind in 0..4u64 {
            let rs: Vec<Run> = (0..n as u64)
                .map(|k| match kind {
                    0 => run(1, 1000 + k * 2),
                    1 => if k % 3 == 1 { hole(1 + k % 300) } else { run(1 + k % 200, 100_000 - k * 7) },
                    2 => run(300, 5 + crate::engine::mix(k) % 3_000_000),
                    _ => hole(1),
                })
                .collect();
            let b = encode_runs(&rs);
            let mut bytes = vec![b.clone()];
            if i % 8 == 0 {
                // the end marker is missing, or the last run is
                bytes.push(b[..b.len() - 1].to_vec());
                bytes.push(b[..b.len() - 2].to_vec());
            }
            for mut b in bytes {
                b.resize(b.len().next_multiple_of(8), 0);
                let rs = if b.len() < 3700 { 4096 } else { 32768 };
                let mut v = Vol::new(Geo { ss: 512, cs: 512, rs, clusters: 1 << 40 }, 8);
                let mut a = Attr::non(ty::DATA, "", 0, &[run(1, 9)], 512, 512);
                if let Val::Non { runs, .. } = &mut a.val {
                    *runs = b.clone();
                }
                v.put(6, &v.rec().attr(a));
                let mut d = Disk::new(v.done());
                let ntfs = Ntfs::new(&mut d).expect("harness: mount");
                c.state(&(n, kind, b.len()));
                c.exec();
                let f = ntfs.file(&mut d, 6).map_err(|e| V { key: "many".into(), msg: format!("{:?}", e) })?;
                compare(&f, &mut d, 512, &b, c, &|| "many".to_string())?;
            }
        }
        Ok(())
    }));
    (v, Opts::default())
}
