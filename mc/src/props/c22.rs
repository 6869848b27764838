//! C22: what the library says does not depend on stored bytes that mean nothing to a reader.
use crate::disk::Disk;
use crate::dump::{self, Item, Out};
use crate::engine::*;
use crate::ensure;
use crate::hostile::{bench, values, Bench};
use crate::images::{self, Part, Rich};
use crate::img::*;
use crate::real::{u16a, u32a, unfix};
use std::sync::Arc;

/// A stretch of meaningless bytes, or of bits of a byte.
#[derive(Clone, Debug)]
struct Gap {
    what: &'static str,
    /// where on the volume, byte by byte
    at: Vec<u64>,
    /// the bits that mean nothing
    mask: u8,
}
struct Site {
    bench: usize,
    name: &'static str,
    recs: Vec<u64>,
    mount: bool,
    gaps: Vec<Gap>,
    /// what the unchanged volume gives
    expect: u64,
}

/// Collects stretches of a structure whose bytes have the given addresses.
struct Gaps<'a> {
    at: &'a [Option<u64>],
    protected: bool,
    out: Vec<Gap>,
}
impl Gaps<'_> {
    fn add(&mut self, what: &'static str, from: usize, to: usize) {
        self.bits(what, from, to, 0xFF)
    }
    fn bits(&mut self, what: &'static str, from: usize, to: usize, mask: u8) {
        let mut cur = vec![];
        for o in from..to.min(self.at.len()) {
            match self.at[o] {
                Some(a) if !(self.protected && o % 512 >= 510) => cur.push(a),
                _ => {
                    if !cur.is_empty() {
                        self.out.push(Gap { what, at: std::mem::take(&mut cur), mask });
                    }
                }
            }
        }
        if !cur.is_empty() {
            self.out.push(Gap { what, at: cur, mask });
        }
    }
    fn list(&mut self, base: usize, d: &[u8]) {
        let mut p = 0;
        while p + 26 <= d.len() {
            let l = u16a(d, p + 4).max(26);
            let name = 26 + 2 * d[p + 6] as usize;
            self.add("padding behind an attribute list entry's name", base + p + name, base + p + l);
            p += l;
        }
    }
    /// The entries of an index node; `base`: of the node header.
    fn node(&mut self, base: usize, d: &[u8], files: bool) {
        self.bits("reserved bits of the node flags", base + 12, base + 13, 0xFE);
        self.add("reserved bytes of the node header", base + 13, base + 16);
        let (mut p, end) = (u32a(d, base) as usize + base, u32a(d, base + 4) as usize + base);
        while p + 16 <= end {
            let (l, k, f) = (u16a(d, p + 8), u16a(d, p + 10), d[p + 12]);
            self.bits("reserved bits of the entry flags", p + 12, p + 13, 0xFC);
            self.add("reserved bytes of an entry", p + 13, p + 16);
            let mut used = if f & 2 != 0 { 16 } else { 16 + k };
            if !files && f & 2 == 0 {
                // between key and data
                self.add("padding behind a key", p + 16 + k, p + u16a(d, p));
                used = u16a(d, p) + u16a(d, p + 2);
            }
            self.add("padding behind an entry's content", p + used, p + l - if f & 1 != 0 { 8 } else { 0 });
            p += l;
            if f & 2 != 0 || l == 0 {
                break;
            }
        }
    }
    fn file_record(&mut self, d: &[u8]) {
        self.add("log sequence number", 8, 16);
        let usa = u16a(d, 4);
        self.bits("flags of the record that the library does not know", 22, 23, 0xFC);
        self.add("flags of the record that the library does not know", 23, 24);
        self.add("next attribute's number and padding", 40, 44.min(usa));
        let first = u16a(d, 20);
        self.add("between the update sequence array and the first attribute", usa + 2 * u16a(d, 6), first);
        let mut p = first;
        while p + 4 <= d.len() && u32a(d, p) != 0xFFFF_FFFF {
            let (t, l) = (u32a(d, p), u32a(d, p + 4) as usize);
            let hdr = match (d[p + 8], u16a(d, p + 12) & 0x8001) {
                (0, _) => 24,
                (_, f) if f != 0 && d[p + 16..p + 24] == [0; 8] => 72,
                _ => 64,
            };
            let name_end = if d[p + 9] == 0 {
                hdr
            } else {
                self.add("between an attribute's header and name", p + hdr, p + u16a(d, p + 10));
                u16a(d, p + 10) + 2 * d[p + 9] as usize
            };
            if d[p + 8] == 0 {
                let (n, o) = (u32a(d, p + 16) as usize, u16a(d, p + 20));
                self.add("indexed flag and reserved byte of a resident attribute", p + 22, p + 24);
                self.add("padding behind an attribute's header or name", p + name_end, p + o);
                self.add("padding behind a resident value", p + o + n, p + l);
                let v = p + o;
                match t {
                    ty::LIST => self.list(v, &d[v..v + n]),
                    ty::VOLINFO => self.add("reserved bytes of the volume information", v, v + 8),
                    ty::ROOT => {
                        self.add("reserved bytes of the index root", v + 13, v + 16);
                        let files = u32a(d, v) == ty::NAME;
                        self.node(v + 16, d, files);
                    }
                    _ => (),
                }
            } else {
                let o = u16a(d, p + 32);
                self.add("reserved bytes of a non-resident attribute", p + 35, p + 40);
                self.add("padding behind an attribute's header or name", p + name_end, p + o);
                let mut q = p + o;
                while q < p + l && d[q] != 0 {
                    q += 1 + (d[q] & 15) as usize + (d[q] >> 4) as usize;
                }
                self.add("behind the end of the data runs", q + 1, p + l);
            }
            p += l;
        }
        // the end marker's four bytes, which the used size need not include in full
        self.add("behind the end marker", p + 4, d.len());
    }
    fn index_record(&mut self, d: &[u8]) {
        self.add("log sequence number", 8, 16);
        let usa = u16a(d, 4);
        self.add("between the update sequence array and the first entry", usa + 2 * u16a(d, 6), 24 + u32a(d, 24) as usize);
        let e = 24 + u32a(d, 24) as usize;
        // a directory's entry names its own key's length
        let k = u16a(d, e + 10);
        let files = d[e + 12] & 2 != 0 || k >= 66 && k >= 66 + 2 * d[e + 16 + 64] as usize;
        self.node(24, d, files);
        self.add("behind the used part of an index record", 24 + u32a(d, 28) as usize, d.len());
    }
    fn boot(&mut self, len: usize) {
        self.add("reserved bytes of the boot sector", 14, 21);
        self.add("media descriptor and disk geometry", 21, 36);
        self.add("drive number and reserved bytes", 36, 40);
        self.add("mirror's cluster", 56, 64);
        self.add("reserved bytes of the boot sector", 65, 68);
        self.add("reserved bytes of the boot sector", 69, 72);
        self.add("checksum", 80, 84);
        self.add("boot code", 84, 510.min(len.max(84)));
    }
}

/// A volume with spare room wherever the format allows for it.
fn roomy(g: Geo) -> Rich {
    let mut v = Vol::new(g, 24);
    let mut parts = vec![];
    let rs = g.rs as usize;
    let mut put = |v: &mut Vol, n: u64, r: &Rec, of: u64| {
        v.put(n, r);
        parts.push(Part { name: "roomy record", addr: v.rec_addr(n), len: rs, recs: vec![of], fields: vec![], in_rec: rs, mount: false });
    };
    v.put_upcase(&upcase_table());
    let cs = v.cs();
    let wide = |mut a: Attr, pad: usize, gap: usize| {
        a.pad = pad;
        a.gap = gap;
        a
    };
    let bytes = |n: usize, k: u8| -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(k) | 1).collect() };
    let a = v.alloc(12);
    let runs = [run(2, a), hole(3), run(1, a + 5), run(2, a + 7)];
    let size = 8 * cs - 77;
    v.write_stream(&runs, 0, &bytes(size as usize, 3));
    let r6 = v
        .rec()
        .attr(wide(Attr::res(ty::STD, "", 0, &std_info(6)[..48]), 24, 0))
        .attr(wide(Attr::res(ty::NAME, "", 1, &FName::new(fref(5, 5), "file", 1).encode()), 16, 0))
        .attr(wide(Attr::non(ty::DATA, "", 2, &runs, cs, size).with_init(7 * cs), 40, 0))
        .attr(wide(Attr::res(ty::DATA, "st", 3, &bytes(61, 9)), 16, 8))
        .attr(wide(Attr::non(ty::DATA, "u", 4, &runs[2..], cs, 3 * cs), 24, 16));
    put(&mut v, 6, &r6, 6);
    // an attribute list
    let long = |ty, name: &str, lo, rec, inst, more: usize| {
        let mut e = list_entry(ty, &u16s(name), lo, rec, inst);
        e.resize(e.len() + more, 0);
        let n = e.len() as u16;
        w16(&mut e, 4, n);
        e
    };
    let list = [
        long(ty::STD, "", 0, 7, 0, 8),
        long(ty::DATA, "", 0, 8, 0, 32),
        long(ty::DATA, "", 2, 9, 0, 24),
        long(ty::DATA, "name", 0, 8, 1, 16),
    ]
    .concat();
    let r7 = v.rec().attr(wide(Attr::res(ty::STD, "", 0, &std_info(7)), 8, 0)).attr(wide(Attr::res(ty::LIST, "", 1, &list), 32, 0));
    put(&mut v, 7, &r7, 7);
    let mut first = Attr::extent(ty::DATA, "", 0, 0, &runs[..1], cs, 5 * cs - 9);
    if let Val::Non { alloc, .. } = &mut first.val {
        *alloc = 5 * cs;
    }
    let mut r8 = v.rec().attr(wide(first, 16, 0)).attr(wide(Attr::res(ty::DATA, "name", 1, &bytes(30, 5)), 8, 8));
    r8.base = fref(7, 1);
    put(&mut v, 8, &r8, 7);
    let mut r9 = v.rec().attr(wide(Attr::extent(ty::DATA, "", 0, 2, &[run(1, a + 3), run(2, a + 9)], cs, 5 * cs - 9), 56, 0));
    r9.base = fref(7, 1);
    put(&mut v, 9, &r9, 7);
    // a directory
    let irs = 1024usize;
    let e = |s: &str, n: u64, sub: Option<u64>, pad: usize| Entry { fref: fref(n, 1), key: Some(FName::new(fref(5, 1), s, 1).encode()), sub, pad };
    let last = |sub: Option<u64>, pad: usize| Entry { fref: 0, key: None, sub, pad };
    let c = v.alloc((irs as u64).div_ceil(cs));
    let iruns = [run((irs as u64).div_ceil(cs), c)];
    let root = encode_entries(&[e("k", 6, Some(0), 24), last(None, 16)]);
    v.write_stream(&iruns, 0, &index_record(irs, 0, &encode_entries(&[e("b", 6, None, 8), e("dd", 7, None, 40), last(None, 24)]), false, 3));
    let r16 = v
        .rec()
        .dir()
        .attr(Attr::res(ty::STD, "", 0, &std_info(16)))
        .attr(wide(Attr::res(ty::ROOT, "$I30", 1, &index_root(&root, irs as u32, true, cs as u32)), 24, 8))
        .attr(wide(Attr::non(ty::ALLOC, "$I30", 2, &iruns, cs, irs as u64), 32, 8))
        .attr(wide(Attr::res(ty::BITMAP, "$I30", 3, &[1, 0, 0, 0, 0, 0, 0, 0]), 8, 0));
    put(&mut v, 16, &r16, 16);
    parts.push(Part { name: "roomy index record", addr: c * cs, len: irs, recs: vec![16], fields: vec![], in_rec: irs, mount: false });
    Rich { name: "roomy", img: Arc::new(v.img), recs: vec![6, 7, 16], parts, names: ["b", "DD", "k", "x", ""].map(String::from).to_vec() }
}

/// The parts that make up records, put together.
fn sites(bi: usize, b: &Bench) -> Vec<Site> {
    let img = &b.rich.img;
    let cs = b.ntfs.cluster_size() as u64;
    let mut out = vec![];
    let ps: &[Part] = &b.rich.parts;
    let mut i = 0;
    while i < ps.len() {
        let p = &ps[i];
        let mut recs = p.recs.clone();
        // pieces of a record lie one behind the other in the list, its last one may go on to the end of its sector
        let sig = img.get(p.addr, 4);
        let mut at: Vec<Option<u64>> = vec![];
        let mut j = i;
        if p.in_rec == 0 {
            at.extend((0..p.len as u64).map(|k| Some(p.addr + k)));
            j += 1;
        } else if sig == b"FILE" {
            at.extend((0..p.in_rec as u64).map(|k| Some(p.addr + k)));
            j += 1;
        } else {
            while j < ps.len() && ps[j].in_rec == p.in_rec && (j == i || img.get(ps[j].addr, 4) != b"INDX" && img.get(ps[j].addr, 4) != b"FILE") {
                let to = ps[j].len.next_multiple_of(512).min(p.in_rec - at.len());
                at.extend((0..to as u64).map(|k| Some(ps[j].addr + k)));
                j += 1;
            }
        }
        let full = at.len();
        let d: Vec<u8> = at.iter().map(|a| img.get(a.unwrap(), 1)[0]).collect();
        let mut g = Gaps { at: &at, protected: p.in_rec > 0, out: vec![] };
        if p.addr == 0 {
            g.boot(full);
            recs = b.rich.recs.clone();
        } else if sig == b"FILE" {
            g.file_record(&unfix(&d).expect("harness: record"));
        } else if sig == b"INDX" {
            // a record of which the last pieces hold nothing is not complete
            let mut whole = d.clone();
            let n = u16a(&d, 6);
            for s in 1..n.min(full / 512 + 1) {
                let o = u16a(&d, 4) + 2 * s;
                whole[512 * s - 2] = d[o];
                whole[512 * s - 1] = d[o + 1];
            }
            g.index_record(&whole);
        } else if p.name == "outside attribute list" {
            g.list(0, &d);
        }
        let mut gaps = g.out;
        // what is left of the cluster behind a value
        if p.in_rec == 0 && p.addr != 0 {
            let end = p.addr + p.len as u64;
            gaps.push(Gap { what: "behind the end of a value", at: (end..end.next_multiple_of(cs)).collect(), mask: 0xFF });
        }
        gaps.retain(|g| !g.at.is_empty());
        let mut s = Site { bench: bi, name: p.name, recs, mount: p.mount, gaps, expect: 0 };
        s.expect = tell(b, &s, vec![], false).0;
        out.push(s);
        i = j;
    }
    out
}

fn tell(b: &Bench, s: &Site, patch: Vec<(u64, Vec<u8>)>, keep: bool) -> (u64, Vec<Item>) {
    let mut d = Disk::new(b.rich.img.clone());
    d.patch = patch;
    let mut o = if keep { Out::kept() } else { Out::new() };
    o.names = b.rich.names.clone();
    o.meaning = true;
    let _ = if s.mount {
        dump::all(&s.recs, &mut d, &mut o)
    } else {
        let r = if s.recs.contains(&3) { dump::volume(&b.ntfs, &mut d, &mut o) } else { Ok(()) };
        r.and_then(|_| dump::records(&b.ntfs, &s.recs, &mut d, &mut o))
    };
    (o.hash, o.items)
}

fn check(b: &Bench, s: &Site, patch: Vec<(u64, Vec<u8>)>, ctx: &mut Ctx, what: impl Fn() -> String) -> R {
    let (h, _) = guarded(|| format!("{} volume, {}: {}", b.rich.name, s.name, what()), || tell(b, s, patch.clone(), false))?;
    if h != s.expect {
        let (_, was) = tell(b, s, vec![], true);
        let (_, is) = tell(b, s, patch.clone(), true);
        let k = was.iter().zip(&is).position(|(x, y)| x != y).unwrap_or(was.len().min(is.len()));
        let short = |x: Option<&Item>| format!("{:?}", x).chars().take(300).collect::<String>();
        return fail(
            "c22-meaning",
            format!("{} volume, {} (records {:?}): {} changes item {} from {} to {}", b.rich.name, s.name, s.recs, what(), k, short(was.get(k)), short(is.get(k))),
        );
    }
    ctx.step();
    ctx.outcome(&(s.bench, s.expect));
    ctx.exec();
    Ok(())
}

/// Contents that look like something.
fn pattern(k: usize, i: usize) -> u8 {
    match k {
        0 => 0,
        1 => 0xFF,
        2 => 1,
        3 => 0x80,
        4 => b"FILE"[i % 4],
        5 => b"INDX"[i % 4],
        // attribute headers
        6 => [0x80, 0, 0, 0, 0x18, 0, 0, 0][i % 8],
        7 => [0x30, 0, 0, 0, 0x20, 0, 0, 0, 1, 0, 0x40, 0, 0, 0, 0, 0][i % 16],
        8 => [0xFF, 0xFF, 0xFF, 0xFF, 0, 0, 0, 0][i % 8],
        // index entries
        9 => [5, 0, 0, 0, 0, 0, 5, 0, 0x10, 0, 0, 0, 2, 0, 0, 0][i % 16],
        10 => [0, 0, 0, 0, 0, 0, 0, 0, 0x18, 0, 0, 0, 3, 0, 0, 0][i % 16],
        // data runs
        11 => [0x11, 1, 1][i % 3],
        12 => [0x31, 1, 1, 0, 0x80][i % 5],
        13 => i as u8,
        14 => 0x7F,
        _ => (i as u8).wrapping_mul(37) | 1,
    }
}
const PATTERNS: usize = 16;

fn mixed(b: &Bench, g: &Gap, i: usize, v: u8) -> (u64, Vec<u8>) {
    let old = b.rich.img.get(g.at[i], 1)[0];
    (g.at[i], vec![old & !g.mask | v & g.mask])
}
/// Neighbouring bytes as one change.
fn merged(mut p: Vec<(u64, Vec<u8>)>) -> Vec<(u64, Vec<u8>)> {
    p.sort();
    let mut out: Vec<(u64, Vec<u8>)> = vec![];
    for (a, x) in p {
        match out.last_mut() {
            Some((b, y)) if *b + y.len() as u64 == a => y.extend(x),
            _ => out.push((a, x)),
        }
    }
    out
}

/// What is tried with record sizes and record numbers that are not those of the volume.
const PROBES: [&str; 2] = ["record", "record_from_vcn"];

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let b: Arc<Vec<Bench>> = Arc::new(images::geos().into_iter().flat_map(|g| images::all(g).into_iter().chain([roomy(g)])).chain(crate::real::rich()).map(bench).collect());
    let s: Arc<Vec<Site>> = Arc::new(b.iter().enumerate().flat_map(|(i, x)| sites(i, x)).collect());
    let mut ph = vec![];
    let total: usize = s.iter().flat_map(|s| &s.gaps).map(|g| g.at.len()).sum();
    let whats: std::collections::BTreeSet<_> = s.iter().flat_map(|s| &s.gaps).map(|g| g.what).collect();

    // room alone does no harm
    let bb = b.clone();
    let rooms: Vec<usize> = (0..b.len()).filter(|i| b[*i].rich.name == "roomy").collect();
    ph.push(Phase::new("room", "a volume with spare room behind every header, name, value, list of runs and entry, for 3 geometries: nothing is an error", rooms.len(), move |i, ctx| {
        let b = &bb[rooms[i]];
        for &n in &b.rich.recs {
            let w = Site { bench: rooms[i], name: "whole volume", recs: vec![n], mount: false, gaps: vec![], expect: 0 };
            let (h, items) = tell(b, &w, vec![], true);
            let e = items.iter().find(|x| matches!(x, Item::E(l, _) if !PROBES.contains(l) && (n == 16 || *l != "index")));
            ensure!(e.is_none(), "c22-room", "record {} of the volume with spare room: {:?}", n, e);
            ctx.state(&(i, n));
            ctx.outcome(&h);
            ctx.steps(items.len() as u64);
            ctx.exec();
        }
        Ok(())
    }));

    let items: Vec<(usize, usize, usize)> = s.iter().enumerate().flat_map(|(k, s)| s.gaps.iter().enumerate().flat_map(move |(g, x)| (0..x.at.len()).step_by(8).map(move |o| (k, g, o)))).collect();
    let (bb, ss, it) = (b.clone(), s.clone(), items.clone());
    let every = t.thorough();
    ph.push(Phase::new(
        "bytes",
        format!("each of {} bytes of {} kinds ({}) in {} structures x {} values", total, whats.len(), whats.into_iter().collect::<Vec<_>>().join(", "), s.len(), if every { "255 (the first 64 of a stretch; the others x 10)" } else { "10 (the first 64 of a stretch; the others x 4)" }),
        items.len(),
        move |i, ctx| {
            let (k, g, o) = it[i];
            let (s, b) = (&ss[k], &bb[ss[k].bench]);
            let gap = &s.gaps[g];
            for j in o..(o + 8).min(gap.at.len()) {
                let old = b.rich.img.get(gap.at[j], 1)[0];
                let mut vals: Vec<u8> = if every && j < 64 {
                    (0..=255).collect()
                } else if every || j < 64 {
                    (0..8).map(|x| old ^ 1 << x).chain([0, 0xFF]).collect()
                } else {
                    vec![0, 1, 0xFF, old ^ 0x80]
                };
                for v in &mut vals {
                    *v = old & !gap.mask | *v & gap.mask;
                }
                vals.sort();
                vals.dedup();
                for v in vals {
                    if v != old {
                        ctx.state(&(k, g, j, v));
                        check(b, s, vec![(gap.at[j], vec![v])], ctx, || format!("{}, byte {}: {:#x} in the place of {:#x}", gap.what, j, v, old))?;
                    }
                }
            }
            Ok(())
        },
    ));

    let (bb, ss, it) = (b.clone(), s.clone(), items.clone());
    ph.push(Phase::new("fields", format!("every 2, 4 and 8 bytes of them that may be a field x {}", if every { "boundaries, powers of two and flipped bits (the first 64 bytes of a stretch; the others x 20)" } else { "20 boundary values (the first 64 bytes of a stretch; the others x 7)" }), items.len(), move |i, ctx| {
        let (k, g, o) = it[i];
        let (s, b) = (&ss[k], &bb[ss[k].bench]);
        let gap = &s.gaps[g];
        if gap.mask != 0xFF {
            return Ok(());
        }
        for w in [2usize, 4, 8] {
            for j in o..(o + 8).min(gap.at.len()) {
                if j + w > gap.at.len() || gap.at[j] % w as u64 != 0 && gap.at.len() > w || gap.at[j + w - 1] != gap.at[j] + w as u64 - 1 {
                    continue;
                }
                let mut x = [0; 8];
                x[..w].copy_from_slice(&b.rich.img.get(gap.at[j], w));
                for v in values(u64::from_le_bytes(x), w, if every && j < 64 { 2 } else if every || j < 64 { 1 } else { 0 }) {
                    ctx.state(&(k, g, j, w, v));
                    check(b, s, vec![(gap.at[j], v.to_le_bytes()[..w].to_vec())], ctx, || format!("{}, bytes {}..{}: {:#x}", gap.what, j, j + w, v))?;
                }
            }
        }
        Ok(())
    }));

    let (bb, ss) = (b.clone(), s.clone());
    ph.push(Phase::new("fills", format!("each stretch, all of a structure and all of a structure from each on x {} patterns x 8 shifts", PATTERNS), s.len() * PATTERNS, move |i, ctx| {
        let (k, p) = (i / PATTERNS, i % PATTERNS);
        let (s, b) = (&ss[k], &bb[ss[k].bench]);
        let n = s.gaps.len();
        for shift in 0..8 {
            for from in 0..n {
                for to in [from + 1, n] {
                    let patch = merged(s.gaps[from..to].iter().flat_map(|g| (0..g.at.len()).map(move |j| mixed(b, g, j, pattern(p, j + shift)))).collect());
                    ctx.state(&(k, p, shift, from, to));
                    check(b, s, patch, ctx, || format!("{} and {} further ones filled with pattern {} from {} on", s.gaps[from].what, to - from - 1, p, shift))?;
                }
            }
        }
        Ok(())
    }));

    // whole volumes
    let (bb, ss) = (b.clone(), s.clone());
    let nb = b.len();
    let per: Vec<u64> = b
        .iter()
        .map(|x| {
            let s = Site { bench: 0, name: "whole volume", recs: x.rich.recs.clone(), mount: true, gaps: vec![], expect: 0 };
            tell(x, &s, vec![], false).0
        })
        .collect();
    ph.push(Phase::new("volumes", format!("all such bytes of a volume and of each two of its structures x {} patterns", PATTERNS), nb * PATTERNS, move |i, ctx| {
        let (k, p) = (i / PATTERNS, i % PATTERNS);
        let b = &bb[k];
        let w = Site { bench: k, name: "whole volume", recs: b.rich.recs.clone(), mount: true, gaps: vec![], expect: per[k] };
        let mine: Vec<&Site> = ss.iter().filter(|s| s.bench == k).collect();
        let of = |l: &[&Site]| merged(l.iter().flat_map(|s| &s.gaps).flat_map(|g| (0..g.at.len()).map(move |j| mixed(b, g, j, pattern(p, j)))).collect());
        check(b, &w, of(&mine), ctx, || format!("everything filled with pattern {}", p))?;
        for x in 0..mine.len() {
            for y in 0..x {
                ctx.state(&(k, p, x, y));
                check(b, &w, of(&[mine[x], mine[y]]), ctx, || format!("{} and {} filled with pattern {}", mine[x].name, mine[y].name, p))?;
            }
        }
        Ok(())
    }));
    (ph, Opts::default())
}
