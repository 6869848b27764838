//! Malformed volumes: exhaustive small changes to volumes that hold one of everything, and the whole
//! library driven over each of them. C13 looks for panics, C14 for work and memory without bound.
use crate::disk::Disk;
use crate::dump::{self, Out};
use crate::engine::*;
use crate::images::{self, Part, Rich};
use crate::img::*;
use crate::util::hexs;
use ntfs::Ntfs;
use std::sync::Arc;

#[derive(Clone, Copy)]
pub struct Lim {
    pub key: &'static str,
    pub deep: bool,
    /// reader calls per library call
    pub call_ops: u64,
    /// items per iteration
    pub iter: usize,
    /// largest single allocation, unless the boot sector allows for more
    pub alloc: u64,
}
pub struct Bench {
    pub rich: Rich,
    pub ntfs: Ntfs,
}
pub fn bench(rich: Rich) -> Bench {
    let mut d = Disk::new(rich.img.clone());
    let mut ntfs = Ntfs::new(&mut d).expect("harness: mount");
    ntfs.read_upcase_table(&mut d).expect("harness: uppercase table");
    Bench { ntfs, rich }
}
pub fn benches() -> Vec<Bench> {
    images::geos().into_iter().flat_map(images::all).chain(crate::real::rich()).map(bench).collect()
}

pub fn attack(b: &Bench, lim: Lim, patch: Vec<(u64, Vec<u8>)>, recs: &[u64], mount: bool, ctx: &mut Ctx, what: impl Fn() -> String) -> R {
    let mut d = Disk::new(b.rich.img.clone());
    d.patch = patch;
    let mut o = Out::new();
    o.names = b.rich.names.clone();
    o.deep = lim.deep;
    o.call_ops = lim.call_ops;
    o.max_iter = lim.iter;
    let desc = |d: &Disk| format!("{} volume, {}, changed bytes {}", b.rich.name, what(), d.patch.iter().map(|(a, p)| format!("{:#x}: {}", a, hexs(p))).collect::<Vec<_>>().join(", "));
    let dd = d.clone();
    alloc_cap(if mount { 0 } else { lim.alloc });
    guarded(
        || desc(&dd),
        || {
            let _ = if mount {
                dump::all(recs, &mut d, &mut o)
            } else {
                let r = if recs.contains(&3) { dump::volume(&b.ntfs, &mut d, &mut o) } else { Ok(()) };
                r.and_then(|_| dump::records(&b.ntfs, recs, &mut d, &mut o))
            };
        },
    )
    .map_err(|mut v| {
        v.msg = format!("{} ({})", v.msg, o.last);
        v
    })?;
    if let Some(l) = o.endless {
        return fail(format!("{}-endless", lim.key), format!("{}: {} does not end", desc(&dd), l));
    }
    ctx.steps(o.count);
    ctx.outcome(&o.hash);
    ctx.exec();
    Ok(())
}

/// Values worth trying for a field of that width.
pub fn values(orig: u64, w: usize, level: usize) -> Vec<u64> {
    let m = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    let mut v: Vec<u64> = vec![0, 1, m, m >> 1, (m >> 1) + 1, orig.wrapping_add(8), orig.wrapping_sub(8)];
    if level >= 1 {
        v.extend([2, 7, 8, 16, 24, 0x20, 0xFF, 512, 1024, orig.wrapping_add(1), orig.wrapping_sub(1), m - 1, m - 7, m - 15]);
    }
    if level >= 2 {
        v.extend([3, 4, 5, 6, 15, 17, 23, 25, 31, 33, 40, 48, 56, 63, 64, 65, 72, 127, 128, 255, 256, 510, 511, 513, 1000, 1016, 1023, 1025, 2048, 4095, 4096, 65535, 65536]);
        v.extend([orig.wrapping_mul(2), orig / 2, orig ^ 1, orig ^ 2, m.wrapping_sub(23), m.wrapping_sub(511), m.wrapping_sub(1023), m / 3, m >> 4, m >> 8, 1 << (8 * w - 2)]);
        v.extend((0..8 * w as u32).map(|k| 1u64 << k));
        v.extend((0..8 * w as u32).map(|k| orig ^ 1u64 << k));
    }
    let mut v: Vec<u64> = v.into_iter().map(|x| x & m).filter(|x| *x != orig).collect();
    v.sort();
    v.dedup();
    v
}
fn get(r: &Rich, a: u64, w: usize) -> u64 {
    let mut x = [0; 8];
    x[..w].copy_from_slice(&r.img.get(a, w));
    u64::from_le_bytes(x)
}
fn put(v: u64, w: usize) -> Vec<u8> {
    v.to_le_bytes()[..w].to_vec()
}

pub fn phases(t: Tier, lim: Lim) -> Vec<Phase> {
    let b = Arc::new(benches());
    let mut out = vec![];
    let nb = b.len();

    // the unchanged volumes, to be sure that they are worth changing
    let bb = b.clone();
    out.push(Phase::new("unchanged", "the unchanged volumes", nb, move |i, ctx| {
        ctx.sample(|| format!("{} {:?}", bb[i].rich.name, bb[i].rich.recs));
        attack(&bb[i], lim, vec![], &bb[i].rich.recs, true, ctx, || "unchanged".into())
    }));

    // every byte
    let parts: Arc<Vec<(usize, Part)>> = Arc::new(b.iter().enumerate().flat_map(|(i, b)| b.rich.parts.iter().map(move |p| (i, p.clone()))).collect());
    let mut items = vec![];
    for (k, (_, p)) in parts.iter().enumerate() {
        for o in (0..p.len).step_by(16) {
            items.push((k, o));
        }
    }
    let (bb, pp, it) = (b.clone(), parts.clone(), items.clone());
    let every = t.thorough();
    out.push(Phase::new(
        "bytes",
        format!("every byte of {} stored structures x {} values", parts.len(), if every { "255 other" } else { "19 other" }),
        items.len(),
        move |i, ctx| {
            let (k, o) = it[i];
            let (bi, p) = &pp[k];
            let b = &bb[*bi];
            for x in o..(o + 16).min(p.len) {
                let orig = b.rich.img.get(p.addr + x as u64, 1)[0];
                let vals: Vec<u8> = if every {
                    (0..=255).collect()
                } else {
                    let mut v = vec![0, 1, 2, 3, 4, 7, 8, 0x10, 0x20, 0x7F, 0x80, 0xF0, 0xFE, 0xFF, orig.wrapping_add(1), orig.wrapping_sub(1), orig ^ 0x80, orig.wrapping_add(8), orig.wrapping_sub(8)];
                    v.sort();
                    v.dedup();
                    v
                };
                for v in vals {
                    if v == orig {
                        continue;
                    }
                    ctx.state(&(k, x, v));
                    attack(b, lim, vec![(p.addr + x as u64, vec![v])], &p.recs, p.mount, ctx, || format!("{} byte {}", p.name, x))?;
                }
            }
            Ok(())
        },
    ));

    // every field
    let mut items = vec![];
    for (k, (_, p)) in parts.iter().enumerate() {
        for f in 0..p.fields.len() {
            items.push((k, f));
        }
    }
    let (bb, pp, it) = (b.clone(), parts.clone(), items.clone());
    let names = "every known field x every power of two, boundary and flipped bit";
    out.push(Phase::new("fields", format!("{} fields: {}", items.len(), names), items.len(), move |i, ctx| {
        let (k, f) = it[i];
        let (bi, p) = &pp[k];
        let (o, w) = p.fields[f];
        let a = p.addr + o as u64;
        let b = &bb[*bi];
        for v in values(get(&b.rich, a, w), w, 2) {
            ctx.state(&(k, f, v));
            attack(b, lim, vec![(a, put(v, w))], &p.recs, p.mount, ctx, || format!("{} field at {}", p.name, o))?;
        }
        Ok(())
    }));

    // every pair of fields that lie close to each other
    let (bb, pp, it) = (b.clone(), parts.clone(), items.clone());
    let near = t.pick(9, 1000);
    let level = t.pick(0, 0);
    let per = t.pick(4, 1);
    out.push(Phase::new(
        "field pairs",
        format!("every pair of known fields of a structure{} x 7 x 7 values", if near < 1000 { " with at most 8 fields between" } else { "" }),
        items.len(),
        move |i, ctx| {
            let (k, f) = it[i];
            let (bi, p) = &pp[k];
            let b = &bb[*bi];
            let (o, w) = p.fields[f];
            let a = p.addr + o as u64;
            let v1 = values(get(&b.rich, a, w), w, level);
            for (j, (o2, w2)) in p.fields.iter().enumerate().skip(f + 1).take(near) {
                // quick: the other geometries' pairs in turn
                if per > 1 && bi / 3 > 0 && (f + j) % per != 0 {
                    continue;
                }
                let a2 = p.addr + *o2 as u64;
                if a2 < a + w as u64 && a < a2 + *w2 as u64 {
                    continue;
                }
                for v in &v1 {
                    for u in values(get(&b.rich, a2, *w2), *w2, level) {
                        attack(b, lim, vec![(a, put(*v, w)), (a2, put(u, *w2))], &p.recs, p.mount, ctx, || format!("{} fields at {} and {}", p.name, o, o2))?;
                    }
                }
                ctx.state(&(k, f, j));
            }
            Ok(())
        },
    ));

    // structures in the place of others
    let (bb, pp) = (b.clone(), parts.clone());
    out.push(Phase::new("swapped structures", "every stored structure copied over every other one, whole and from every 8th byte on", parts.len() * 2, move |i, ctx| {
        let (bi, p) = &pp[i / 2];
        let b = &bb[*bi];
        for q in b.rich.parts.iter() {
            if q.addr == p.addr {
                continue;
            }
            let n = if p.in_rec > 0 && q.in_rec > 0 { p.in_rec.min(q.in_rec) } else { p.len.min(q.len) };
            let src = b.rich.img.get(q.addr, n);
            ctx.state(&(i, q.addr));
            if i % 2 == 0 {
                attack(b, lim, vec![(p.addr, src)], &[&p.recs[..], &q.recs[..]].concat(), p.mount || q.mount, ctx, || format!("{} replaced by {}", p.name, q.name))?;
            } else {
                for o in (8..n).step_by(8) {
                    attack(b, lim, vec![(p.addr + o as u64, src[o..].to_vec())], &p.recs, p.mount, ctx, || format!("{} continues as {} from byte {}", p.name, q.name, o))?;
                    if o < 200 {
                        attack(b, lim, vec![(p.addr, src[..o].to_vec())], &p.recs, p.mount, ctx, || format!("{} starts as {} up to byte {}", p.name, q.name, o))?;
                    }
                }
            }
        }
        Ok(())
    }));

    // values of every kind, length and pattern
    let types = [ty::STD, ty::LIST, ty::NAME, ty::OBJID, ty::VOLNAME, ty::VOLINFO, ty::ROOT, ty::ALLOC, ty::DATA, ty::BITMAP, 0x50u32, 0xC0, 0xE0, 0x100, 0x55, 0];
    let pats: usize = 9;
    let most = t.pick(104usize, 300);
    let bb = b.clone();
    out.push(Phase::new(
        "values",
        format!("{} attribute types x every value length up to {} x {} patterns, resident or not", types.len(), most, pats),
        types.len() * pats,
        move |i, ctx| {
            let ty = types[i / pats];
            let b = &bb[0];
            let g = images::geos()[0];
            let mut vol = Vol::new(g, 24);
            let base = vol.rec_addr(6);
            let l = 200u64;
            let _ = &mut vol;
            for n in 0..=most {
                let v: Vec<u8> = (0..n)
                    .map(|k| match i % pats {
                        0 => 0,
                        1 => 0xFF,
                        2 => 1,
                        3 => (k as u8).wrapping_mul(37),
                        4 => [16, 0, 0, 0][k % 4],
                        5 => [n as u8, 0, 0, 0][k % 4],
                        6 => [0x20, 0, 2, 0, 0, 0, 0, 0][k % 8],
                        7 => [0, 0, 0, 0x80][k % 4],
                        _ => [ty as u8, 0, 0, 0, 32, 0, 0, 0][k % 8],
                    })
                    .collect();
                for non in [false, true] {
                    for name in ["", "$I30"] {
                        let r = vol.rec().dir().attr(Attr::res(ty::STD, "", 0, &std_info(1)));
                        let r = if non { r.attr(Attr::non(ty, name, 1, &[run(1, l), hole(1)], g.cs as u64, n as u64)) } else { r.attr(Attr::res(ty, name, 1, &v)) };
                        let r = r.attr(Attr::res(ty::ROOT, "$I30", 3, &index_root(&v, 1024, true, g.cs)));
                        ctx.state(&(i, n, non, name));
                        attack(b, lim, vec![(base, r.build()), (l * 512, v.clone())], &[6], false, ctx, || format!("attribute {:x} of {} bytes", ty, n))?;
                    }
                }
            }
            Ok(())
        },
    ));

    // index entries and attribute list entries of every shape
    let bb = b.clone();
    let lens: Vec<u16> = [0u16, 1, 8, 15, 16, 17, 23, 24, 25, 31, 32, 40, 81, 82, 83, 84, 88, 89, 90, 96, 104, 112, 120, 511, 512, 992, 0x7FFF, 0x8000, 0xFFF8, 0xFFFF].to_vec();
    let nl = lens.len();
    out.push(Phase::new("index entries", format!("an index entry of {} lengths x {} key lengths x every flag x position in root and record x node sizes", nl, nl), nl * nl, move |i, ctx| {
        let b = &bb[6 % bb.len()];
        let b = bb.iter().find(|x| x.rich.name == "dirs").unwrap_or(b);
        let g = images::geos()[0];
        let vol = Vol::new(g, 40);
        let (el, kl) = (lens[i / nl], lens[i % nl]);
        for flags in [0u16, 1, 2, 3, 4, 0xFFFF] {
            for second in [false, true] {
                for end in [0u32, 1, 2] {
                    let first = Entry { fref: fref(30, 1), key: Some(FName::new(fref(5, 1), "bb", 1).encode()), sub: None, pad: 0 }.encode();
                    let mut e = if second { first.clone() } else { vec![] };
                    let s = e.len();
                    e.extend(&first);
                    w16(&mut e, s + 8, el);
                    w16(&mut e, s + 10, kl);
                    w16(&mut e, s + 12, flags);
                    e.extend([0u8; 24]);
                    let mut root = index_root(&e, 1024, true, g.cs);
                    let sz = match end {
                        0 => 16 + e.len() as u32,
                        1 => 16 + s as u32 + el as u32,
                        _ => 16 + s as u32 + 17,
                    };
                    w32(&mut root, 20, sz);
                    let r = vol.rec().dir().attr(Attr::res(ty::ROOT, "$I30", 1, &root));
                    let irec = {
                        let mut x = index_record_plain(1024, 0, &e, true);
                        let st = indx_entries_start(1024) as u32;
                        w32(&mut x, 28, st - 24 + sz - 16);
                        protect(&mut x, 40, 5);
                        x
                    };
                    let al = b.rich.parts.iter().find(|p| p.name == "index record").map(|p| p.addr).unwrap();
                    ctx.state(&(el, kl, flags, second, end));
                    attack(b, lim, vec![(vol.rec_addr(5), r.build()), (al, irec)], &[5, 16], false, ctx, || format!("index entry of length {}, key {}, flags {:x}", el, kl, flags))?;
                }
            }
        }
        Ok(())
    }));
    let bb = b.clone();
    let lens: Vec<u16> = [0u16, 1, 6, 8, 24, 25, 26, 27, 28, 30, 31, 32, 33, 34, 40, 48, 64, 255, 256, 1000, 0x7FFF, 0x8000, 0xFFFF].to_vec();
    let nl = lens.len();
    out.push(Phase::new("list entries", format!("an attribute list entry of {} lengths x 12 name lengths x 8 name offsets x 6 lowest VCNs x 5 references, resident or not", nl), nl * 12, move |i, ctx| {
        let b = bb.iter().find(|x| x.rich.name == "lists").unwrap();
        let g = images::geos()[0];
        let vol = Vol::new(g, 40);
        let el = lens[i / 12];
        let nlen = [0u8, 1, 2, 3, 4, 7, 8, 64, 127, 128, 254, 255][i % 12];
        for noff in [0u8, 1, 24, 26, 27, 32, 128, 255] {
            for lo in [0i64, 1, 3, -1, i64::MAX, i64::MIN] {
                for rf in [12u64, 13, 14, 1 << 47, 0xFFFF_FFFF_FFFF] {
                    let mut l = list_entry(ty::STD, &[], 0, 12, 0);
                    let s = l.len();
                    l.extend(list_entry(ty::DATA, &u16s("s"), lo as u64, rf, 1));
                    w16(&mut l, s + 4, el);
                    l[s + 6] = nlen;
                    l[s + 7] = noff;
                    l.extend(list_entry(ty::DATA, &[], 0, 13, 1));
                    let l0 = 200u64;
                    let non = nlen % 2 == 1;
                    let r = vol.rec().attr(Attr::res(ty::STD, "", 0, &std_info(1)));
                    let r = if non { r.attr(Attr::non(ty::LIST, "", 1, &[run(1, l0)], g.cs as u64, l.len() as u64)) } else { r.attr(Attr::res(ty::LIST, "", 1, &l)) };
                    ctx.state(&(el, nlen, noff, lo, rf));
                    attack(b, lim, vec![(vol.rec_addr(12), r.build()), (l0 * 512, l)], &[12], false, ctx, || format!("list entry of length {}, name {}@{}, VCN {}, record {:x}", el, nlen, noff, lo, rf))?;
                }
            }
        }
        Ok(())
    }));
    // attributes that end together with their record
    let bb = b.clone();
    let lens = [24usize, 32, 40, 64, 72, 88, 128, 255, 256, 264, 504, 512, 520, 640, 896];
    let kinds = [ty::DATA, ty::NAME, ty::LIST, ty::ROOT, ty::STD];
    let nl = lens.len();
    let all_pairs = t.thorough();
    out.push(Phase::new(
        "last attributes",
        format!("{} lengths of an attribute that ends with its record x {} types x resident or not x used size x 12 offsets x 14 lengths of its name and of its value", nl, kinds.len()),
        nl * kinds.len() * 2,
        move |i, ctx| {
            let b = &bb[0];
            let g = images::geos()[0];
            let vol = Vol::new(g, 40);
            let (non, k, len) = (i % 2 == 1, kinds[i / 2 % kinds.len()], lens[i / 2 / kinds.len()]);
            let n = g.rs as usize;
            let empty = vol.rec().dir();
            let fa = empty.first_attr();
            let at = n - len;
            let l = len as i64;
            let offs: Vec<i64> = vec![0, 1, 16, 24, 64, l / 2, l - 16, l - 2, l - 1, l, l + 1, 0xFFFF];
            for used in [n, n - 8, at + 8] {
                for &off in &offs {
                    let room = l - off;
                    let lengths = [0, 1, 2, 8, room - 8, room - 1, room, room + 1, room + 2, l - 1, l, l + 1, n as i64, n as i64 * 2];
                    for (j, &m) in lengths.iter().enumerate() {
                        for what in 0..2 {
                            // the length of a name is given in characters and has a byte, the one of a value four bytes
                            let m = if what == 0 { m / 2 } else { m };
                            if m < 0 || what == 0 && m > 255 || !all_pairs && used != n && j % 2 == 0 {
                                continue;
                            }
                            let mut r = empty.plain();
                            r.resize(n + 64, 0);
                            w32(&mut r, fa, ty::OBJID);
                            w32(&mut r, fa + 4, (at - fa) as u32);
                            w32(&mut r, fa + 16, 16);
                            w16(&mut r, fa + 20, 24);
                            r[at..].fill(0);
                            w32(&mut r, at, k);
                            w32(&mut r, at + 4, len as u32);
                            r[at + 8] = non as u8;
                            if what == 0 {
                                r[at + 9] = m as u8;
                                w16(&mut r, at + 10, off as u16);
                                w16(&mut r, at + 20, 24);
                            } else if non {
                                w16(&mut r, at + 32, off as u16);
                                if len >= 56 {
                                    w64(&mut r, at + 48, m as u64);
                                }
                            } else {
                                w32(&mut r, at + 16, m as u32);
                                w16(&mut r, at + 20, off as u16);
                            }
                            w32(&mut r, 24, used as u32);
                            r.truncate(n);
                            protect(&mut r, empty.usa_ofs, empty.usn);
                            ctx.state(&(i, used, off, m, what));
                            attack(b, lim, vec![(vol.rec_addr(6), r)], &[6], false, ctx, || {
                                format!("last attribute of type {:x}, {} bytes, with a {} of {} at {}", k, len, if what == 0 { "name" } else { "value" }, m, off)
                            })?;
                        }
                    }
                }
            }
            Ok(())
        },
    ));

    // sizes and offsets of a header that only fit together
    let bb = b.clone();
    let mut items: Vec<(usize, u64, usize, Vec<u64>, Vec<(usize, usize)>, &'static str)> = vec![];
    for (k, (bi, p)) in parts.iter().enumerate() {
        let has = |o: usize, w: usize| p.fields.contains(&(o, w));
        if p.in_rec == 0 || *bi >= b.len() || p.mount {
            continue;
        }
        let n = p.in_rec as u64;
        if has(24, 4) && has(28, 4) && has(32, 4) && !has(20, 2) {
            items.push((k, n - 24, 24, p.recs.clone(), vec![(24, 4), (28, 4), (32, 4)], "node header"));
            items.push((k, n, 40, p.recs.clone(), vec![(4, 2), (6, 2)], "update sequence array"));
        } else if has(20, 2) && has(24, 4) && has(28, 4) {
            items.push((k, n, 48, p.recs.clone(), vec![(20, 2), (24, 4), (28, 4)], "record header"));
            items.push((k, n, 48, p.recs.clone(), vec![(4, 2), (6, 2)], "update sequence array"));
        }
    }
    let mut seen = std::collections::HashSet::new();
    let items: Vec<_> = items
        .into_iter()
        .flat_map(|x| {
            let full = seen.insert((x.1, x.5));
            (0..near_sizes(x.1, 0, 4).len() + 8).map(move |j| (x.clone(), full, j))
        })
        .collect();
    let pp = parts.clone();
    let often = t.pick(32, 1);
    out.push(Phase::new("sizes together", "offset, used and allocated size of every record and index node, and place and length of every update sequence array: every combination of values around the record's limits", items.len(), move |i, ctx| {
        let ((k, limit, head, recs, fields, what), full, j) = &items[i];
        let (bi, p) = &pp[*k];
        let b = &bb[*bi];
        let vals: Vec<Vec<u64>> = fields.iter().map(|(o, w)| near_sizes(*limit, get(&b.rich, p.addr + *o as u64, *w), *w)).collect();
        let Some(x) = vals[0].get(*j) else { return Ok(()) };
        let (o, w) = fields[0];
        let mut count = *j;
        for y in &vals[1] {
            for z in vals.get(2).unwrap_or(&vec![0]) {
                let mut patch = vec![(p.addr + o as u64, put(*x, w)), (p.addr + fields[1].0 as u64, put(*y, fields[1].1))];
                if let Some((o, w)) = fields.get(2) {
                    // the first structure of each kind, the others in turn
                    count += 1;
                    if !*full && count % often != 0 {
                        continue;
                    }
                    patch.push((p.addr + *o as u64, put(*z, *w)));
                }
                ctx.state(&(i, y, z));
                attack(b, lim, patch, recs, false, ctx, || format!("{} {} of {} after {} bytes: {:x} {:x} {:x}", p.name, what, limit, head, x, y, z))?;
            }
        }
        Ok(())
    }));
    out
}
/// Values around the limit of a size and around the present one.
fn near_sizes(limit: u64, orig: u64, w: usize) -> Vec<u64> {
    let m = (1u64 << (8 * w)) - 1;
    let mut v = vec![0, 1, 8, 16, 24, 40, 56, m, m - 15, m - 23, m - 39, m / 2, orig, orig + 8, orig.wrapping_sub(8), orig + 1, orig.wrapping_sub(1)];
    v.extend([limit / 2, limit - 40, limit - 24, limit - 17, limit - 16, limit - 15, limit - 8, limit - 2, limit - 1, limit, limit + 1, limit + 2, limit + 8, limit + 16, limit + 23, limit + 24, limit + 25, limit + 40]);
    let mut v: Vec<u64> = v.into_iter().map(|x| x & m).collect();
    v.sort();
    v.dedup();
    v
}
