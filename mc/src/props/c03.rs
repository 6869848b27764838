//! C03: torn multi-sector records are refused, complete ones are delivered byte for byte.
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::NtfsIndexAllocation;
use ntfs::types::Vcn;
use ntfs::{Ntfs, NtfsError};
use std::sync::Arc;

const REC: u64 = 6;

/// One record under test: how to build its versions, and how to read it back through the library.
struct Bed {
    index: bool,
    size: usize,
    usa: usize,
    addr: u64,
    disk: Disk,
    ntfs: Ntfs,
}

fn pat(version: usize, i: usize) -> u8 {
    (mix((version as u64) << 32 | i as u64) as u8) | 1
}

impl Bed {
    fn new(index: bool, ss: u16, size: usize, usa: usize) -> Bed {
        let (cs, rs) = if index {
            (ss as u32, 1024.max(ss as u32))
        } else if [1024, 2048, 4096].contains(&size) {
            (ss as u32, size as u32)
        } else {
            assert!(size % ss as usize == 0);
            (ss as u32, size as u32)
        };
        let mut g = Geo::new(ss, cs, rs);
        g.clusters = g.clusters.max(16 * rs as u64 / cs as u64 + 1024);
        let mut v = Vol::new(g, 8);
        let addr;
        if index {
            let cl = (size as u64).div_ceil(v.cs());
            let l = v.alloc(cl);
            let r = v.rec().attr(Attr::non(ty::ALLOC, "$I30", 0, &[run(cl, l)], cs as u64, size as u64));
            v.put(REC, &r);
            addr = l * cs as u64;
        } else {
            addr = v.rec_addr(REC);
        }
        v.img.write(addr, &vec![0u8; size]);
        let mut disk = Disk::new(v.done());
        let ntfs = Ntfs::new(&mut disk).expect("harness: mount");
        assert!(index || ntfs.file_record_size() as usize == size);
        Bed { index, size, usa, addr, disk, ntfs }
    }
    fn blocks(&self) -> usize {
        self.size / 512
    }
    /// The record as the driver wants to see it; every byte behind the headers depends on the version.
    fn plain(&self, version: usize) -> Vec<u8> {
        if !self.index {
            let mut r = Rec::new(self.size);
            r.usa_ofs = self.usa;
            r.seq = 100 + version as u16;
            r.end_marker = false;
            let room = self.size - r.first_attr() - 24;
            let body: Vec<u8> = (0..room).map(|i| pat(version, i)).collect();
            let mut b = vec![0u8; self.size];
            // built by hand, because the attribute ends exactly at the end of the record
            let head = {
                let mut h = r.clone();
                h.size = self.size;
                h.plain()
            };
            b.copy_from_slice(&head);
            let fa = r.first_attr();
            w32(&mut b, 24, self.size as u32);
            w32(&mut b, fa, ty::DATA);
            w32(&mut b, fa + 4, (24 + room) as u32);
            b[fa + 8..fa + 16].fill(0);
            w32(&mut b, fa + 16, room as u32);
            w16(&mut b, fa + 20, 24);
            w16(&mut b, fa + 22, 0);
            b[fa + 24..].copy_from_slice(&body);
            b
        } else {
            let start = align8(self.usa + 2 * (self.blocks() + 1)).max(64);
            let mut es: Vec<u8> = vec![];
            let mut k = 0usize;
            loop {
                let left = self.size - start - es.len();
                if left < 24 + 16 + 66 + 2 {
                    // closing entry, padded so that its subnode ends with the record
                    let mut e = Entry { fref: 0, key: None, sub: Some(0x0101_0101_0101_0101 * (version as u64 + 2)), pad: 0 };
                    e.pad = left - 24;
                    es.extend(e.encode());
                    break;
                }
                let mut n = ((left - 24 - 16 - 66) / 2).min(215);
                while (16 + 66 + 2 * n) % 8 != 0 {
                    n -= 1;
                }
                let name: Vec<u16> = (0..n).map(|i| pat(version, k * 1000 + i) as u16 | (pat(version + 7, k * 1000 + i) as u16) << 8).collect();
                let f = FName::u(fref(5, version as u16), &name, 1);
                es.extend(Entry { fref: fref(k as u64 + 20, version as u16), key: Some(f.encode()), sub: None, pad: 0 }.encode());
                k += 1;
            }
            let mut b = vec![0u8; self.size];
            b[0..4].copy_from_slice(b"INDX");
            w32(&mut b, 24, (start - 24) as u32);
            w32(&mut b, 28, (self.size - 24) as u32);
            w32(&mut b, 32, (self.size - 24) as u32);
            b[36] = 1;
            b[start..].copy_from_slice(&es);
            b
        }
    }
    fn protected(&self, version: usize, usn: u16) -> Vec<u8> {
        let mut b = self.plain(version);
        protect(&mut b, self.usa, usn);
        b
    }
    /// Reads the record through the library; on success everything that can be observed of it.
    fn read(&mut self) -> Result<Vec<u8>, NtfsError> {
        let f = self.ntfs.file(&mut self.disk, REC)?;
        let mut out = vec![];
        if !self.index {
            out.extend(f.sequence_number().to_le_bytes());
            let a = f.attributes_raw().next().expect("attribute")?;
            match a.value(&mut self.disk)? {
                NtfsAttributeValue::Resident(v) => out.extend(v.data()),
                _ => panic!("resident value expected"),
            }
        } else {
            let a = f.attributes_raw().next().expect("attribute")?;
            let al = a.structured_value::<_, NtfsIndexAllocation>(&mut self.disk)?;
            let r = al.record_from_vcn(&mut self.disk, self.size as u32, Vcn::from(0));
            let r2 = al.records(self.size as u32).next(&mut self.disk).expect("a record");
            // both ways of getting at the record must agree on whether it is intact
            assert_eq!(r.is_ok(), r2.is_ok(), "record_from_vcn and records disagree");
            let r = r?;
            let _ = r2?;
            let mut it = r.entries::<NtfsFileNameIndex>()?;
            while let Some(e) = it.next() {
                let e = e?;
                if let Some(k) = e.key() {
                    let k = k?;
                    out.extend(e.file_reference().sequence_number().to_le_bytes());
                    out.extend(k.name().0);
                    out.extend(k.parent_directory_reference().sequence_number().to_le_bytes());
                    out.extend(k.modification_time().nt_timestamp().to_le_bytes());
                    out.extend(k.allocated_size().to_le_bytes());
                    out.extend(k.data_size().to_le_bytes());
                }
                if let Some(s) = e.subnode_vcn() {
                    out.extend(s?.value().to_le_bytes());
                }
            }
        }
        Ok(out)
    }
    /// What `read` must deliver for this (plain) record.
    fn expect(&self, p: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        if !self.index {
            let fa = u16::from_le_bytes([p[20], p[21]]) as usize;
            out.extend(&p[16..18]);
            out.extend(&p[fa + 24..]);
        } else {
            let mut o = 24 + u32::from_le_bytes(p[24..28].try_into().unwrap()) as usize;
            loop {
                let len = u16::from_le_bytes([p[o + 8], p[o + 9]]) as usize;
                let kl = u16::from_le_bytes([p[o + 10], p[o + 11]]) as usize;
                let fl = p[o + 12];
                if fl & 2 == 0 {
                    let k = &p[o + 16..o + 16 + kl];
                    out.extend(&p[o + 6..o + 8]);
                    out.extend(&k[66..]);
                    out.extend(&k[6..8]);
                    out.extend(&k[16..24]);
                    out.extend(&k[40..48]);
                    out.extend(&k[48..56]);
                }
                if fl & 1 != 0 {
                    out.extend(&p[o + len - 8..o + len]);
                }
                if fl & 2 != 0 {
                    break;
                }
                o += len;
            }
        }
        out
    }
    fn set(&mut self, b: Vec<u8>) {
        self.disk.patch = vec![(self.addr, b)];
    }
    fn name(&self) -> String {
        format!("{} size{} usa{}", if self.index { "INDX" } else { "FILE" }, self.size, self.usa)
    }
    /// Checks one on-disk byte image of the record. `want`: the plain record if it is intact.
    fn check(&mut self, raw: Vec<u8>, want: Option<&[u8]>, c: &mut Ctx, what: &dyn Fn() -> String) -> R {
        c.exec();
        c.step();
        self.set(raw);
        let got = self.read();
        c.outcome(&got.is_ok());
        match (got, want) {
            (Ok(g), Some(w)) => {
                let w = self.expect(w);
                ensure!(g == w, what(), "{} {}: accepted with wrong content: {}", self.name(), what(), diff(&g, &w));
            }
            (Err(_), None) => {}
            (Ok(_), None) => return fail(what(), format!("{} {}: a torn record was accepted", self.name(), what())),
            (Err(e), Some(_)) => return fail(what(), format!("{} {}: an intact record was refused: {:?}", self.name(), what(), e)),
        }
        Ok(())
    }
}

/// (index?, sector size, record size)
fn kinds(max: usize) -> Vec<(bool, u16, usize)> {
    let mut v = vec![];
    for ss in [512u16, 1024, 2048, 4096] {
        for n in 1..=max {
            let s = n * 512;
            v.push((true, ss, s));
            if [2, 4, 8].contains(&n) || s % ss as usize == 0 {
                v.push((false, ss, s));
            }
        }
    }
    v
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut v = vec![];
    let ks = Arc::new(kinds(8));
    let n = ks.len();
    let k2 = ks.clone();
    let three = t.pick(6, 8);
    v.push(Phase::new(
        "torn-by-versions",
        format!("file and index records of 512..4096 bytes, sector sizes 512..4096: every mix of blocks from two versions, and from three versions up to {} blocks", three),
        n,
        move |i, c| {
            let (ix, ss, size) = k2[i];
            let mut b = Bed::new(ix, ss, size, if ix { 40 } else { 48 });
            let nb = b.blocks();
            let vers = if nb <= three { 3 } else { 2 };
            let usns = [0x1111u16, 0x2222, 0x1112];
            let raw: Vec<Vec<u8>> = (0..3).map(|k| b.protected(k, usns[k])).collect();
            let plain: Vec<Vec<u8>> = (0..3).map(|k| b.plain(k)).collect();
            let mut idx = vec![0usize; nb];
            loop {
                let mut r = vec![];
                for (k, x) in idx.iter().enumerate() {
                    r.extend(&raw[*x][k * 512..(k + 1) * 512]);
                }
                let whole = idx.iter().all(|x| *x == idx[0]);
                c.state(&(i, &idx));
                c.sample(|| format!("{} blocks from versions {:?}", b.name(), idx));
                let id = idx.clone();
                let pl = plain[idx[0]].clone();
                b.check(r, if whole { Some(&pl) } else { None }, c, &|| format!("ss{} blocks{:?}", ss, id))?;
                let mut k = 0;
                while k < nb {
                    idx[k] += 1;
                    if idx[k] < vers {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == nb {
                    break;
                }
            }
            Ok(())
        },
    ));
    // big records: every subset up to 12 (16) blocks, every single block and every prefix beyond that
    let mut big: Vec<(bool, u16, usize)> = vec![];
    for nb in 9..=t.pick(12usize, 16) {
        big.push((true, 512, nb * 512));
        big.push((false, 512, nb * 512));
    }
    for nb in [16usize, 17, 32, 63, 64, 96, 127] {
        big.push((false, 512, nb * 512));
        big.push((true, 512, nb * 512));
    }
    big.push((true, 4096, 65536));
    big.push((true, 4096, 128 * 512));
    let subset_max = t.pick(12usize, 16);
    let n = big.len();
    v.push(Phase::new("torn-large-records", format!("records of 9..128 blocks: every subset of old blocks up to {} blocks, every pair, prefix and suffix of old blocks above", subset_max), n, move |i, c| {
        let (ix, ss, size) = big[i];
        let mut b = Bed::new(ix, ss, size, if ix { 40 } else { 48 });
        let nb = b.blocks();
        let raw = [b.protected(0, 7), b.protected(1, 8)];
        let plain = b.plain(0);
        let mut sets: Vec<Vec<usize>> = vec![];
        if nb <= subset_max {
            for m in 0..1usize << nb {
                sets.push((0..nb).filter(|k| m >> k & 1 == 1).collect());
            }
        } else {
            sets.push(vec![]);
            for a in 0..nb {
                sets.push(vec![a]);
                sets.push((0..a).collect());
                sets.push((a + 1..nb).collect());
                for d in 0..a {
                    sets.push(vec![d, a]);
                }
            }
        }
        for s in sets {
            if s.len() == nb {
                continue;
            }
            let mut r = raw[0].clone();
            for k in &s {
                r[k * 512..(k + 1) * 512].copy_from_slice(&raw[1][k * 512..(k + 1) * 512]);
            }
            c.state(&(i, &s));
            b.check(r, if s.is_empty() { Some(&plain) } else { None }, c, &|| format!("old blocks {:?}", s))?;
        }
        Ok(())
    }));
    // every trailer value
    let cases: Vec<(bool, u16, usize, usize)> = [(false, 512u16, 1024usize), (false, 4096, 4096), (true, 512, 4096), (true, 4096, 512), (false, 512, 512)]
        .iter()
        .flat_map(|(ix, ss, s)| (0..s / 512).map(move |b| (*ix, *ss, *s, b)))
        .collect();
    let n = cases.len();
    v.push(Phase::new("every-trailer-value", "each block's trailer takes all 65536 values, for 3 update sequence numbers: accepted exactly for the record's number", n, move |i, c| {
        let (ix, ss, size, blk) = cases[i];
        let mut b = Bed::new(ix, ss, size, if ix { 40 } else { 48 });
        let plain = b.plain(0);
        for usn in [0u16, 0xFFFF, 0x0100 + blk as u16] {
            let raw = b.protected(0, usn);
            let o = (blk + 1) * 512 - 2;
            for x in 0..=0xFFFFu16 {
                if !t.thorough() && usn != 0 && x & 0xff != usn & 0xff && x >> 8 != usn >> 8 && x.count_ones() > 2 {
                    continue;
                }
                let mut r = raw.clone();
                w16(&mut r, o, x);
                c.state(&(i, usn, x));
                b.check(r, if x == usn { Some(&plain) } else { None }, c, &|| format!("block {} trailer {:#x} usn {:#x}", blk, x, usn))?;
            }
        }
        Ok(())
    }));
    // every update sequence number on disk against fixed trailers; the saved originals take every value too
    v.push(Phase::new("every-usn-and-original", "all 65536 update sequence numbers, and all 65536 values of a saved original, intact and with one old block", 512, move |i, c| {
        let (ix, hi) = (i >= 256, (i % 256) as u16);
        let mut b = Bed::new(ix, 512, if ix { 4096 } else { 1024 }, if ix { 40 } else { 48 });
        let plain = b.plain(0);
        for lo in 0..256u16 {
            let x = hi << 8 | lo;
            let raw = b.protected(0, x);
            c.state(&(i, x));
            b.check(raw.clone(), Some(&plain), c, &|| format!("usn {:#x}", x))?;
            let mut r = raw;
            let k = (x as usize) % b.blocks();
            w16(&mut r, (k + 1) * 512 - 2, x.wrapping_add(1 << (lo % 16)));
            b.check(r, None, c, &|| format!("usn {:#x} block {} differs", x, k))?;
            // original bytes of a block: x, number fixed
            for k in 0..b.blocks() {
                let o = (k + 1) * 512 - 2;
                if b.index && k + 1 == b.blocks() && (x >> 8) & 0x80 != 0 {
                    continue; // top byte of a subnode number
                }
                let mut p = plain.clone();
                w16(&mut p, o, x);
                let mut r = p.clone();
                protect(&mut r, b.usa, 0x3131);
                b.check(r, Some(&p), c, &|| format!("original {:#x} in block {}", x, k))?;
            }
        }
        Ok(())
    }));
    // every place of the update sequence array, every count
    let ks3 = Arc::new([(false, 512usize), (false, 1024), (false, 4096), (true, 512), (true, 1024), (true, 4096), (true, 8192), (false, 3072)]);
    v.push(Phase::new("array-place-and-count", "every even place of the update sequence array behind the header within the first block; every count 0..n+3 and boundary counts: blocks not covered stay as they are, an array beyond the record is refused", 8, move |i, c| {
        let (ix, size) = ks3[i];
        let nb = size / 512;
        let lo = if ix { 40 } else { 48 };
        let hi = 510 - 2 * (nb + 1) - if ix { 140 } else { 40 };
        for usa in (lo..=hi).step_by(2) {
            let mut b = Bed::new(ix, 512, size, usa);
            let plain = b.plain(0);
            let raw = b.protected(0, 0x6789);
            let old = b.protected(1, 0x678A);
            c.state(&(i, usa));
            b.check(raw.clone(), Some(&plain), c, &|| format!("usa {}", usa))?;
            for k in 0..nb {
                let mut r = raw.clone();
                r[k * 512..(k + 1) * 512].copy_from_slice(&old[k * 512..(k + 1) * 512]);
                if nb > 1 {
                    b.check(r, None, c, &|| format!("usa {} old block {}", usa, k))?;
                }
                let mut r = raw.clone();
                r[(k + 1) * 512 - 1] ^= 0x10;
                b.check(r, None, c, &|| format!("usa {} trailer of block {} changed", usa, k))?;
                let mut r = raw.clone();
                r[(k + 1) * 512 - 2] ^= 0x01;
                b.check(r, None, c, &|| format!("usa {} trailer of block {} changed", usa, k))?;
            }
            for count in [0usize, nb + 2, nb + 3, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xffff] {
                if count != 0 && count <= nb + 1 {
                    continue;
                }
                let mut r = raw.clone();
                w16(&mut r, 6, count as u16);
                b.check(r, None, c, &|| format!("usa {} count {}", usa, count))?;
            }
            for count in 1..=nb {
                // only the first count-1 blocks are covered
                let mut r = raw.clone();
                w16(&mut r, 6, count as u16);
                let mut want = plain.clone();
                for k in count - 1..nb {
                    w16(&mut want, (k + 1) * 512 - 2, 0x6789);
                }
                w16(&mut want, 6, count as u16);
                if count == 1 {
                    continue; // nothing is covered: accepted or refused, both keep the guarantee
                }
                b.check(r.clone(), Some(&want), c, &|| format!("usa {} count {}", usa, count))?;
                for k in 0..count - 1 {
                    let mut r = r.clone();
                    r[(k + 1) * 512 - 2] ^= 0x80;
                    b.check(r, None, c, &|| format!("usa {} count {} block {} changed", usa, count, k))?;
                }
            }
        }
        ensure_eq!(nb, size / 512, "size", "blocks");
        Ok(())
    }));
    (v, Opts::default())
}
