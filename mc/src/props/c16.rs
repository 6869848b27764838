//! C16: reported positions are true byte positions on the volume.
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::lay::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use binrw::io::{Seek, SeekFrom};
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::types::{Lcn, NtfsPosition};
use ntfs::attribute_value::{NtfsAttributeValue, NtfsDataRun};
use ntfs::{Ntfs, NtfsReadSeek};
use std::sync::Arc;

fn pos(p: NtfsPosition) -> Option<u64> {
    p.value().map(|p| p.get())
}

/// Compares positions inside multi-sector records.
struct Check {
    /// a position that is only right for the first piece of a record in several pieces
    pieces: Option<V>,
    n: u64,
}
impl Check {
    fn new() -> Check {
        Check { pieces: None, n: 0 }
    }
    /// `naive`: the record's start plus the offset within the record
    fn at(&mut self, what: impl Fn() -> String, got: NtfsPosition, want: u64, naive: u64) -> R {
        self.n += 1;
        let g = pos(got);
        if g == Some(want) {
            return Ok(());
        }
        let msg = format!("{}: reported position {:x?}, but it lies at {:#x}", what(), g, want);
        if g == Some(naive) && naive != want {
            self.pieces.get_or_insert(V { key: "pieces".into(), msg });
            return Ok(());
        }
        fail("c16-position", msg)
    }
    fn done(self, ctx: &mut Ctx) -> R {
        ctx.steps(self.n);
        match self.pieces {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
}

// ------------------------------------------------------------------ values

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Read(usize),
    Start(u64),
    Cur(i64),
    End(i64),
}
/// Positions that may be reported for that stream position.
fn allowed(b: &Bed, p: u64) -> (Vec<Option<u64>>, bool) {
    match &b.content {
        Content::Res(d) => {
            let a = b.res_addr.expect("harness: address") + p;
            match p.cmp(&(d.len() as u64)) {
                std::cmp::Ordering::Less => (vec![Some(a)], true),
                std::cmp::Ordering::Equal => (vec![Some(a), None], false),
                _ => (vec![None], true),
            }
        }
        Content::Non { runs, cs, size, init, .. } => {
            let total = runs_clusters(runs) * cs;
            // the first byte of the volume is no position
            let a = addr_of(runs, *cs, p).filter(|a| *a != 0);
            if p >= total {
                let end = runs.last().and_then(|r| r.lcn.map(|l| (l + r.len) * cs));
                return (if p == total && end.is_some() { vec![end, None] } else { vec![None] }, p > total);
            }
            if p >= *size || p >= *init {
                // the end of the byte before is fine as well
                let e = p.checked_sub(1).and_then(|q| addr_of(runs, *cs, q)).map(|a| a + 1);
                return (vec![a, e, None], a.is_none());
            }
            (vec![a], true)
        }
    }
}
fn seek_to(op: Op, p: u64, len: u64) -> SeekFrom {
    let _ = (p, len);
    match op {
        Op::Start(n) => SeekFrom::Start(n),
        Op::Cur(n) => SeekFrom::Current(n),
        Op::End(n) => SeekFrom::End(n),
        Op::Read(_) => unreachable!(),
    }
}
/// Applies every sequence of operations to the value, comparing the position after each.
fn value(lay: &Lay, b: &Bed, attached: bool, depth: usize, ctx: &mut Ctx) -> R {
    let mut d = b.disk();
    let len = b.content.len();
    let bounds = b.content.bounds();
    let mut pts: Vec<u64> = bounds.iter().flat_map(|x| [x.saturating_sub(1), *x, x + 1]).collect();
    pts.push(len + 700);
    pts.sort();
    pts.dedup();
    let r = b.with_attr(&mut d, |a, d| -> R {
        let v0 = must(a.value(d), "c16-value", &lay.desc())?;
        let compare = |got: NtfsPosition, p: u64, log: &[Op]| -> R {
            let (ok, _) = allowed(b, p);
            let g = pos(got);
            ensure!(ok.contains(&g), "c16-value", "{}: after {:?} at stream position {} the position {:x?} is reported instead of {:x?}", lay.desc(), log, p, g, ok);
            Ok(())
        };
        compare(v0.data_position(), 0, &[])?;
        let mut stack: Vec<(NtfsAttributeValue, Vec<Op>)> = vec![(v0, vec![])];
        while let Some((v, log)) = stack.pop() {
            let p = v.stream_position();
            let mut ops: Vec<Op> = vec![];
            if log.is_empty() {
                ops.extend(pts.iter().map(|x| Op::Start(*x)));
            } else {
                ops.extend(bounds.iter().map(|x| Op::Start(*x)));
            }
            ops.extend([Op::Cur(0), Op::Cur(1), Op::Cur(-1), Op::End(0), Op::End(-1), Op::End(2)]);
            for x in &bounds {
                let n = x.wrapping_sub(p);
                if *x > p && n < 1 << 20 {
                    ops.extend([Op::Read(n as usize), Op::Read(n as usize + 1), Op::Cur(n as i64)]);
                }
                if *x < p && p - x < 1 << 40 {
                    ops.push(Op::Cur(-((p - x) as i64)));
                }
            }
            ops.extend([Op::Read(0), Op::Read(1), Op::Read(3)]);
            ops.dedup();
            for op in ops {
                let mut v = v.clone();
                let mut log = log.clone();
                log.push(op);
                ctx.step();
                // the same through a value attached to the reader
                if attached {
                    let mut w = v.clone().attach(d);
                    let r = match op {
                        Op::Read(n) => binrw::io::Read::read(&mut w, &mut vec![0u8; n]).map(|_| ()),
                        _ => w.seek(seek_to(op, p, len)).map(|_| ()),
                    };
                    let _ = r;
                    let got = w.data_position();
                    let v = w.detach();
                    compare(got, v.stream_position(), &log)?;
                    compare(v.data_position(), v.stream_position(), &log)?;
                } else {
                    match op {
                        Op::Read(n) => {
                            let mut buf = vec![0u8; n];
                            let got = must(v.read(d, &mut buf), "c16-read", &lay.desc())?;
                            ctx.outcome(&(p, got, n));
                        }
                        _ => {
                            let _ = v.seek(d, seek_to(op, p, len));
                        }
                    }
                    compare(v.data_position(), v.stream_position(), &log)?;
                    // also the concrete kind of value
                    match &v {
                        NtfsAttributeValue::Resident(x) => compare(x.data_position(), v.stream_position(), &log)?,
                        NtfsAttributeValue::NonResident(x) => {
                            compare(x.data_position(), v.stream_position(), &log)?;
                            compare(x.clone().attach(d).data_position(), v.stream_position(), &log)?;
                        }
                        NtfsAttributeValue::AttributeListNonResident(x) => compare(x.data_position(), v.stream_position(), &log)?,
                    }
                }
                ctx.state(&(lay, &v.stream_position(), pos(v.data_position())));
                if log.len() < depth {
                    stack.push((v, log));
                }
            }
            ctx.exec();
        }
        Ok(())
    });
    must(r, "c16-open", &lay.desc())?
}
impl std::hash::Hash for Lay {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.desc().hash(h)
    }
}

/// The positions of the data runs and within them, and of their encoding.
fn runs(lay: &Lay, b: &Bed, ctx: &mut Ctx) -> R {
    let Content::Non { runs, cs, .. } = &b.content else { return Ok(()) };
    let mut d = b.disk();
    let desc = lay.desc();
    let r = b.with_attr(&mut d, |a, d| -> R {
        let v = must(a.value(d), "c16-value", &desc)?;
        let NtfsAttributeValue::NonResident(v) = v else { return Ok(()) };
        let mut it = v.data_runs();
        let enc = encode_runs(runs);
        let mut o = 0usize;
        let img = |p: u64, n: usize| d.img.get(p, n);
        // where the run list lies: behind the attribute's header and name
        let at = pos(a.position()).unwrap();
        let hdr = img(at, 64);
        let list = at + u16::from_le_bytes([hdr[32], hdr[33]]) as u64;
        let mut checks: Vec<(NtfsDataRun, &Run)> = vec![];
        for (i, r) in runs.iter().enumerate() {
            ensure_eq!(pos(it.position()), Some(list + o as u64), "c16-run-list", "{}: position of the encoding of run {}", desc, i);
            // the last two bytes of every sector are kept elsewhere
            if (list + o as u64) % 512 < 510 {
                ensure_eq!(img(list + o as u64, 1), enc[o..o + 1].to_vec(), "c16-run-list", "{}: encoding of run {} at its position", desc, i);
            }
            let x = must(must_some(it.next(), "c16-run", &desc)?, "c16-run", &desc)?;
            o += 1 + (enc[o] & 15) as usize + (enc[o] >> 4) as usize;
            checks.push((x, r));
            ctx.steps(2);
        }
        for (x, r) in checks {
            let n = r.len * cs;
            let want = |p: u64| -> Vec<Option<u64>> {
                match r.lcn {
                    None => vec![None],
                    Some(l) if p < n => vec![Some(l * cs + p).filter(|a| *a != 0)],
                    Some(l) if p == n => vec![Some(l * cs + n), None],
                    _ => vec![None],
                }
            };
            ensure!(want(0).contains(&pos(x.data_position())), "c16-run", "{}: position {:?} of a run", desc, x.data_position());
            for p in [0, 1, n / 2, n - 1, n, n + 1] {
                let mut y = x.clone();
                must(y.seek(d, SeekFrom::Start(p)), "c16-run", &desc)?;
                ensure!(want(p).contains(&pos(y.data_position())), "c16-run", "{}: position {:?} of byte {} of a run of {}", desc, y.data_position(), p, n);
                if p < n {
                    let mut buf = vec![0u8; 9];
                    let got = must(y.read(d, &mut buf), "c16-run", &desc)? as u64;
                    ensure!(want(p + got).contains(&pos(y.data_position())), "c16-run", "{}: position {:?} after reading {} bytes from byte {} of a run of {}", desc, y.data_position(), got, p, n);
                }
                ctx.steps(2);
            }
        }
        ctx.exec();
        Ok(())
    });
    must(r, "c16-open", &desc)?
}

// ------------------------------------------------------------------ file records

/// Ways to lay out the table of file records.
fn tables(g: Geo, n: u64, pieces: bool) -> Vec<Vec<Run>> {
    let cs = g.cs as u64;
    let (total, first) = ((n * g.rs as u64).div_ceil(cs), (16384 / cs).max(4));
    let per = (g.rs as u64).div_ceil(cs);
    let cut = |k: u64, back: bool| -> Vec<Run> {
        let cnt = total.div_ceil(k);
        (0..cnt)
            .map(|i| {
                let l = k.min(total - i * k);
                let s = if back { cnt - 1 - i } else { i };
                run(l, first + s * (k + 1))
            })
            .collect()
    };
    let mut out = vec![];
    if !pieces {
        out.push(vec![run(total, first)]);
        for back in [false, true] {
            for m in [1, 2, 5] {
                out.push(cut(per * m, back));
            }
        }
    } else {
        for k in 1..=7 {
            if (k * cs) % g.rs as u64 != 0 {
                out.push(cut(k, false));
                out.push(cut(k, true));
            }
        }
    }
    // the first record is read before its runs are known
    out.retain(|t: &Vec<Run>| t[0].len * cs >= g.rs as u64);
    out
}
struct Files {
    vol: Vol,
    ntfs: Ntfs,
    img: Arc<crate::disk::Img>,
    recs: Vec<(u64, Rec)>,
}
fn list_of(n: usize) -> Vec<u8> {
    let mut list = vec![];
    list.extend(list_entry(ty::STD, &[], 0, 20, 0));
    for i in 0..n {
        // long names too: entries of more than 255 bytes
        let len = if n > 4 { i * 47 % 256 } else { [0, 1, 130, 3][i % 4] };
        let name: Vec<u16> = (0..len as u16).map(|j| 0x61 + j % 26).collect();
        list.extend(list_entry(ty::NAME, &name, 0, 21, i as u16));
    }
    list.extend(list_entry(ty::DATA, &[], 0, 21, 50));
    list.extend(list_entry(ty::DATA, &u16s("stream"), 0, 21, 51));
    list
}
fn files(g: Geo, table: Vec<Run>) -> Files {
    let mut vol = Vol::with_mft(g, table, 40 * g.rs as u64);
    let cs = vol.cs();
    vol.next += 3;
    let long = g.rs > 2000;
    let mut recs = vec![];
    let std = |i: u64| Attr::res(ty::STD, "", 0, &std_info(i));
    // all kinds of attributes
    let l = vol.alloc(8);
    let es = encode_entries(&[
        Entry { fref: fref(30, 1), key: Some(FName::new(fref(16, 1), "aa", 1).encode()), sub: None, pad: 0 },
        Entry { fref: fref(31, 1), key: Some(FName::new(fref(16, 1), "b", 1).encode()), sub: None, pad: 11 },
        Entry { fref: 0, key: None, sub: None, pad: 0 },
    ]);
    let mut r = vol.rec().dir().attr(std(16));
    r = r.attr(Attr::res(ty::ROOT, "$I30", 1, &index_root(&es, 4096, false, cs as u32)));
    r = r.attr(Attr::res(ty::DATA, "", 2, &data_bytes(if long { 1700 } else { 130 })));
    r = r.attr(Attr::non(ty::DATA, "named", 3, &[run(1, l), hole(2), run(2, l + 2), run(1, l + 6)], cs, 5 * cs + 1));
    r = r.attr(Attr::res(ty::DATA, "other", 4, &data_bytes(if long { 600 } else { 33 })));
    recs.push((16, r));
    // a single big value
    let mut r = vol.rec().attr(std(17)).attr(Attr::res(ty::DATA, "", 7, &data_bytes(g.rs as usize - 250)));
    r.usa_ofs = 44;
    recs.push((17, r));
    // many runs
    let rs: Vec<Run> = (0..if long { 300 } else { 80 }).map(|i| if i % 7 == 3 { hole(1 + i) } else { run(1 + i % 3, l + 20 + mix(i) % 4000) }).collect();
    recs.push((18, vol.rec().attr(std(18)).attr(Attr::non(ty::DATA, "", 3, &rs, cs, 900))));
    // lists
    for (i, non) in [(19u64, false), (20, true)] {
        let list = list_of(if non { 60 } else { 4 });
        let c = (list.len() as u64).div_ceil(cs);
        let l = vol.alloc(2 * c + 2);
        // backwards, one cluster at a time
        let rs: Vec<Run> = (0..c).map(|k| run(1, l + 2 * (c - k))).collect();
        let a = if non { Attr::non(ty::LIST, "", 1, &rs, cs, list.len() as u64) } else { Attr::res(ty::LIST, "", 1, &list) };
        if non {
            vol.write_stream(&rs, 0, &list);
        }
        recs.push((i, vol.rec().attr(std(i)).attr(a)));
    }
    let mut r = vol.rec();
    r.base = fref(19, 1);
    for i in 0..if long { 8 } else { 4 } {
        r = r.attr(Attr::res(ty::NAME, "", i, &FName::new(fref(5, 5), &"n".repeat(i as usize + 1), 1).encode()));
    }
    r = r.attr(Attr::res(ty::DATA, "", 50, &data_bytes(60)));
    r = r.attr(Attr::res(ty::DATA, "stream", 51, &data_bytes(20)));
    recs.push((21, r));
    for (n, r) in &recs {
        vol.put(*n, r);
    }
    let img = vol.clone().done();
    let ntfs = Ntfs::new(&mut Disk::new(img.clone())).expect("harness: mount");
    Files { vol, ntfs, img, recs }
}
fn file(f: &Files, rec: u64, ctx: &mut Ctx) -> R {
    let mut c = Check::new();
    let mut d = Disk::new(f.img.clone());
    let (vol, cs, rs) = (&f.vol, f.vol.cs(), f.vol.g.rs as u64);
    let start = vol.rec_addr(rec);
    // where byte o of record n lies
    let real = |n: u64, o: usize| addr_of(&vol.mft_runs, cs, n * rs + o as u64).expect("harness: record");
    let naive = |n: u64, o: usize| vol.rec_addr(n) + o as u64;
    let desc = format!("record {} of {:?} in a table of runs {:?}", rec, vol.g, &vol.mft_runs[..vol.mft_runs.len().min(6)]);
    let h = must(f.ntfs.file(&mut d, rec), "c16-file", &desc)?;
    ensure_eq!(pos(h.position()), Some(start), "c16-file", "{}: position of the file record", desc);
    let stored = &f.recs.iter().find(|r| r.0 == rec).unwrap().1;
    let offs = stored.offsets();
    let mut k = 0;
    for a in h.attributes_raw() {
        let a = must(a, "c16-attribute", &desc)?;
        let (sa, o) = (&stored.attrs[k], offs[k]);
        let what = |s: &str| format!("{}: {} of attribute {} ({:#x})", desc, s, k, sa.ty);
        c.at(|| what("header"), a.position(), real(rec, o), naive(rec, o))?;
        let vo = o + sa.value_offset();
        match &sa.val {
            Val::Res(bytes) => {
                let n = bytes.len();
                for p in (0..=n + 2).filter(|p| n < 200 || p % 61 == 0 || p % 512 < 3 || *p + 3 > n) {
                    let mut v = must(a.value(&mut d), "c16-value", &desc)?;
                    must(v.seek(&mut d, SeekFrom::Start(p as u64)), "c16-value", &desc)?;
                    let got = v.data_position();
                    if p < n {
                        c.at(|| what(&format!("value byte {}", p)), got, real(rec, vo + p), naive(rec, vo + p))?;
                        let mut one = [0u8; 1];
                        must(v.read(&mut d, &mut one), "c16-value", &desc)?;
                        if p + 1 < n {
                            c.at(|| what(&format!("value byte {} after reading", p + 1)), v.data_position(), real(rec, vo + p + 1), naive(rec, vo + p + 1))?;
                        }
                    } else if p > n {
                        ensure_eq!(pos(got), None, "c16-beyond", "{}", what("position beyond the value"));
                    }
                }
            }
            Val::Non { runs, .. } => {
                if let NtfsAttributeValue::NonResident(v) = must(a.value(&mut d), "c16-value", &desc)? {
                    let mut it = v.data_runs();
                    let mut e = 0;
                    while runs.get(e).is_some_and(|h| *h != 0) {
                        c.at(|| what(&format!("run list byte {}", e)), it.position(), real(rec, vo + e), naive(rec, vo + e))?;
                        must(must_some(it.next(), "c16-run", &desc)?, "c16-run", &desc)?;
                        e += 1 + (runs[e] & 15) as usize + (runs[e] >> 4) as usize;
                    }
                }
            }
        }
        if sa.ty == ty::ROOT {
            let root: NtfsIndexRoot = must(a.resident_structured_value(), "c16-root", &desc)?;
            let root2: NtfsIndexRoot = must(a.structured_value(&mut d), "c16-root", &desc)?;
            c.at(|| what("index root"), root.position(), real(rec, vo), naive(rec, vo))?;
            c.at(|| what("index root"), root2.position(), real(rec, vo), naive(rec, vo))?;
            for r in [root, root2] {
                let mut o = vo + 32;
                for e in must(r.entries::<NtfsFileNameIndex>(), "c16-root", &desc)? {
                    let e = must(e, "c16-root", &desc)?;
                    c.at(|| what("index root entry"), e.position(), real(rec, o), naive(rec, o))?;
                    o += e.index_entry_length() as usize;
                }
            }
            let ix = must(h.directory_index(&mut d), "c16-root", &desc)?;
            let mut it = ix.entries();
            let mut o = vo + 32;
            while let Some(e) = it.next(&mut d) {
                let e = must(e, "c16-root", &desc)?;
                c.at(|| what("index entry"), e.position(), real(rec, o), naive(rec, o))?;
                o += e.index_entry_length() as usize;
            }
        }
        if sa.ty == ty::LIST {
            let l: NtfsAttributeList = must(a.structured_value(&mut d), "c16-list", &desc)?;
            let list = list_of(if rec == 20 { 60 } else { 4 });
            let runs: Vec<Run> = match &sa.val {
                Val::Non { .. } => {
                    let n = (list.len() as u64).div_ceil(cs);
                    // as laid out in `files`
                    let NtfsAttributeValue::NonResident(v) = must(a.value(&mut d), "c16-list", &desc)? else { return fail("c16-list", "not non-resident") };
                    let rs: Vec<Run> = v.data_runs().map(|r| r.map(|r| run(r.allocated_size() / cs, pos(r.data_position()).unwrap_or(0) / cs))).collect::<Result<_, _>>().map_err(|e| V { key: "c16-list".into(), msg: format!("{:?}", e) })?;
                    ensure_eq!(runs_clusters(&rs), n, "c16-list", "{}: clusters of the list", desc);
                    rs
                }
                _ => vec![],
            };
            let at = |o: usize| match runs.is_empty() {
                true => (real(rec, vo + o), naive(rec, vo + o)),
                false => {
                    let a = addr_of(&runs, cs, o as u64).expect("harness: list");
                    (a, a)
                }
            };
            let (w, n) = at(0);
            c.at(|| what("list"), l.position(), w, n)?;
            let mut it = l.entries();
            let mut o = 0;
            while let Some(e) = it.next(&mut d) {
                let e = must(e, "c16-list", &desc)?;
                let (w, n) = at(o);
                c.at(|| what(&format!("list entry at {}", o)), e.position(), w, n)?;
                o += e.list_entry_length() as usize;
            }
            ensure_eq!(o, list.len(), "c16-list", "{}: end of the list", desc);
            // the attributes of the extension record
            let ext = &f.recs.iter().find(|r| r.0 == 21).unwrap().1;
            let eo = ext.offsets();
            let mut it = h.attributes();
            while let Some(i) = it.next(&mut d) {
                let Ok(i) = i else { continue };
                let Ok(a) = i.to_attribute() else { continue };
                if let Some(j) = ext.attrs.iter().position(|x| x.ty == a.ty().map_or(0, |t| t as u32) && x.inst == a.instance() && x.ty != ty::STD) {
                    c.at(|| what(&format!("attribute {} of the extension record", j)), a.position(), real(21, eo[j]), naive(21, eo[j]))?;
                    let v = must(a.value(&mut d), "c16-value", &desc)?;
                    let vo = eo[j] + ext.attrs[j].value_offset();
                    c.at(|| what(&format!("value of attribute {} of the extension record", j)), v.data_position(), real(21, vo), naive(21, vo))?;
                }
            }
        }
        k += 1;
    }
    ensure_eq!(k, stored.attrs.len(), "c16-attribute", "{}: attributes", desc);
    ctx.state(&(rec, f.vol.g, &f.vol.mft_runs));
    ctx.outcome(&c.n);
    ctx.exec();
    c.done(ctx)
}

// ------------------------------------------------------------------ index records

/// One way to store three index records under a root.
fn index(g: Geo, irs: u64, per: usize, rs: &[Run], ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(g, 40);
    let cs = vol.cs();
    vol.put_upcase(&upcase_table());
    // 50 more: entries of more than 255 bytes outside the root
    let (per, long) = (per % 50, per >= 50);
    let name = |i: usize| format!("{}{}", b"0123456789ABCDEFGHIJKLMNOP"[i] as char, if long && i % (per + 1) != per { "-".repeat([87, 254, 100, 200][i % 4]) } else { "-".repeat(i % 4 * 3) });
    let key = |i: usize, sub: Option<u64>| Entry { fref: fref(100 + i as u64, 1), key: Some(FName::new(fref(16, 1), &name(i), 1).encode()), sub, pad: [0, 8, 3][i % 3] };
    let unit = if irs < cs { 512 } else { cs };
    // order of the records on disk: 2 1 0
    let vcn = |j: usize| (2 - j as u64) * irs / unit;
    let mut n = 0;
    let mut nodes: Vec<Vec<Entry>> = vec![];
    let mut root = vec![];
    for j in 0..3 {
        let mut es = vec![];
        for _ in 0..per {
            es.push(key(n, None));
            n += 1;
        }
        es.push(Entry { fref: 0, key: None, sub: None, pad: 0 });
        nodes.push(es);
        if j < 2 {
            root.push(key(n, Some(vcn(j))));
            n += 1;
        } else {
            root.push(Entry { fref: 0, key: None, sub: Some(vcn(j)), pad: 0 });
        }
    }
    let re = encode_entries(&root);
    let rec = vol.rec().dir().attr(Attr::res(ty::STD, "", 0, &std_info(16))).attr(Attr::res(ty::ROOT, "$I30", 1, &index_root(&re, irs as u32, true, cs as u32))).attr(Attr::non(ty::ALLOC, "$I30", 2, rs, cs, 3 * irs));
    vol.put(16, &rec);
    for (j, es) in nodes.iter().enumerate() {
        let b = index_record(irs as usize, vcn(j), &encode_entries(es), false, 0x77);
        vol.write_stream(rs, (2 - j as u64) * irs, &b);
    }
    // where each entry is
    let mut places: Vec<(Option<String>, u64, u64)> = vec![];
    let root_at = vol.rec_addr(16) + (rec.offsets()[1] + rec.attrs[1].value_offset() + 32) as u64;
    let mut at_root = root_at;
    let mut n = 0;
    for j in 0..3 {
        let s = (2 - j as u64) * irs;
        let first = addr_of(rs, cs, s).expect("harness: index record");
        let mut o = indx_entries_start(irs as usize) as u64;
        for e in &nodes[j] {
            places.push((e.key.as_ref().map(|_| name(n)), addr_of(rs, cs, s + o).expect("harness: entry"), first + o));
            if e.key.is_some() {
                n += 1;
            }
            o += e.encode().len() as u64;
        }
        places.push((root[j].key.as_ref().map(|_| name(n)), at_root, at_root));
        if root[j].key.is_some() {
            n += 1;
        }
        at_root += root[j].encode().len() as u64;
    }
    let desc = format!("{:?} index records of {} bytes with {} entries in runs {:?}", g, irs, per, rs);
    ctx.sample(|| desc.clone());
    let mut d = Disk::new(vol.done());
    let mut ntfs = Ntfs::new(&mut d).expect("harness: mount");
    ntfs.read_upcase_table(&mut d).expect("harness: upcase");
    let f = must(ntfs.file(&mut d, 16), "c16-index", &desc)?;
    let ix = must(f.directory_index(&mut d), "c16-index", &desc)?;
    let mut c = Check::new();
    let mut it = ix.entries();
    let keyed: Vec<_> = places.iter().filter(|p| p.0.is_some()).collect();
    let mut k = 0;
    while let Some(e) = it.next(&mut d) {
        let e = must(e, "c16-index", &desc)?;
        let Some(key) = e.key() else { continue };
        let key = must(key, "c16-index", &desc)?;
        let nm = key.name().to_string_lossy();
        let p = must_some(keyed.iter().find(|p| p.0.as_deref() == Some(&nm)), "c16-index", &format!("{}: entry {}", desc, nm))?;
        c.at(|| format!("{}: entry {} when iterating", desc, nm), e.position(), p.1, p.2)?;
        k += 1;
    }
    ensure_eq!(k, keyed.len(), "c16-index", "{}: number of entries", desc);
    let mut finder = ix.finder();
    for p in &keyed {
        let nm = p.0.as_deref().unwrap();
        let e = must(must_some(NtfsFileNameIndex::find(&mut finder, &ntfs, &mut d, nm), "c16-find", &format!("{}: {}", desc, nm))?, "c16-find", &desc)?;
        c.at(|| format!("{}: entry {} when looking it up", desc, nm), e.position(), p.1, p.2)?;
    }
    // record by record
    let mut at = f.attributes();
    while let Some(i) = at.next(&mut d) {
        let i = must(i, "c16-index", &desc)?;
        let a = must(i.to_attribute(), "c16-index", &desc)?;
        if a.ty().map_or(0, |t| t as u32) != ty::ALLOC {
            continue;
        }
        let al: NtfsIndexAllocation = must(a.structured_value(&mut d), "c16-index", &desc)?;
        for j in 0..3usize {
            let r = must(al.record_from_vcn(&mut d, irs as u32, ntfs::types::Vcn::from(vcn(j) as i64)), "c16-index", &desc)?;
            let mut s = (per + 2) * j;
            for e in must(r.entries::<NtfsFileNameIndex>(), "c16-index", &desc)? {
                let e = must(e, "c16-index", &desc)?;
                c.at(|| format!("{}: entry {} of index record {}", desc, s, j), e.position(), places[s].1, places[s].2)?;
                s += 1;
            }
        }
        let mut it = al.records(irs as u32);
        let mut j = 3;
        while let Some(r) = it.next(&mut d) {
            let r = must(r, "c16-index", &desc)?;
            j -= 1;
            let mut s = (per + 2) * j;
            for e in must(r.entries::<NtfsFileNameIndex>(), "c16-index", &desc)? {
                let e = must(e, "c16-index", &desc)?;
                c.at(|| format!("{}: entry {} of index record {} (iterating)", desc, s, j), e.position(), places[s].1, places[s].2)?;
                s += 1;
            }
        }
    }
    ctx.state(&(g, irs, per, rs));
    ctx.outcome(&(c.n, rs));
    ctx.exec();
    c.done(ctx)
}
/// Run lists for three index records, every run of a whole number of records or not.
fn allocs(g: Geo, irs: u64, pieces: bool) -> Vec<Vec<Run>> {
    let cs = g.cs as u64;
    let total = (3 * irs).div_ceil(cs);
    let base = (2 << 20) / cs;
    let mut out = vec![];
    for comp in compositions(total, 6) {
        if comp.len() > 1 && comp.iter().any(|x| *x > 9) && comp.len() > 4 {
            continue;
        }
        // does a run end inside a record?
        let mut o = 0;
        let mut inside = false;
        for l in &comp[..comp.len() - 1] {
            o += l * cs;
            inside |= o % irs != 0;
        }
        if inside != pieces {
            continue;
        }
        for order in 0..3u64 {
            let n = comp.len() as u64;
            out.push(
                comp.iter()
                    .enumerate()
                    .map(|(i, l)| {
                        let i = i as u64;
                        let slot = match order {
                            0 => i,
                            1 => n - 1 - i,
                            _ => (i * 2) % n + if n % 2 == 0 && i >= n / 2 { 1 } else { 0 },
                        };
                        run(*l, base + slot * (total + 3))
                    })
                    .collect(),
            );
        }
    }
    out
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut out = vec![];
    use super::c04;
    let mut vals = |name: &'static str, lays: Vec<Lay>, depth: usize| {
        let n = lays.len();
        out.push(Phase::new(name, format!("{} layouts, every sequence of up to {} reads and seeks between positions where something changes, detached and attached", n, depth), n, move |i, ctx| {
            let lay = &lays[i];
            ctx.sample(|| lay.desc());
            let b = lay.build();
            value(lay, &b, false, depth, ctx)?;
            value(lay, &b, true, depth.min(2), ctx)?;
            runs(lay, &b, ctx)
        }));
    };
    vals("values", c04::plain(c04::geo(512), t.pick(2, 3), &[1, 2]), 3);
    vals("values, 3 runs", c04::plain(c04::geo(512), 3, &[1]), t.pick(2, 3));
    vals("values, large clusters", [4096u32, 65536].iter().flat_map(|c| c04::plain(c04::geo(*c), 2, &[1])).collect(), 2);
    vals("values spread over records", c04::spread(c04::geo(512), 3, t.pick(true, false)), 2);
    vals("values of many runs", c04::long(c04::geo(512), 24), 2);
    vals("huge values", c04::huge(), 2);
    vals("resident values", c04::resident(c04::geo(512)), 3);

    let geos = [Geo::new(512, 512, 1024), Geo::new(512, 1024, 1024), Geo::new(512, 4096, 1024), Geo::new(4096, 4096, 4096), Geo::new(512, 512, 4096), Geo::new(512, 1024, 4096), Geo::new(512, 65536, 1024)];
    for pieces in [false, true] {
        let f: Vec<Files> = geos.iter().flat_map(|g| tables(*g, 40, pieces).into_iter().map(|t| files(*g, t))).collect();
        let n = f.len();
        out.push(Phase::new(
            if pieces { "file records in pieces" } else { "file records" },
            format!("{} tables of file records{}: records, attributes, value bytes, run lists, list entries, root entries", n, if pieces { " whose runs end inside records" } else { "" }),
            n,
            move |i, ctx| {
                let r = *ctx.pick(&[16u64, 17, 18, 19, 20]);
                file(&f[i], r, ctx)
            },
        ));
        let mut items = vec![];
        for g in [Geo::new(512, 512, 1024), Geo::new(512, 1024, 1024), Geo::new(512, 2048, 1024), Geo::new(512, 4096, 1024), Geo::new(4096, 65536, 4096)] {
            for irs in [512u64, 1024, 2048, 4096, 8192] {
                if irs < g.ss as u64 {
                    continue;
                }
                for a in allocs(g, irs, pieces) {
                    for per in [1usize, 3] {
                        items.push((g, irs, per, a.clone()));
                    }
                    if irs >= 2048 {
                        items.push((g, irs, 8, a.clone()));
                        items.push((g, irs, 52, a.clone()));
                    }
                    if irs >= 8192 {
                        items.push((g, irs, 58, a.clone()));
                    }
                }
            }
        }
        // all run lists are too many for the small clusters in the quick tier
        if !t.thorough() {
            let k = items.len().div_ceil(60_000);
            items = items.into_iter().step_by(k).collect();
        }
        let n = items.len();
        out.push(Phase::new(
            if pieces { "index records in pieces" } else { "index records" },
            format!("{} ways to store three index records{}: entries when iterating, looking up and reading record by record", n, if pieces { " with runs that end inside records" } else { "" }),
            n,
            move |i, ctx| {
                let (g, irs, per, a) = &items[i];
                if indx_entries_start(*irs as usize) + per % 50 * if *per >= 50 { 608 } else { 112 } + 16 > *irs as usize {
                    return Ok(());
                }
                index(*g, *irs, *per, a, ctx)
            },
        ));
    }

    // cluster numbers
    out.push(Phase::new("cluster numbers", "cluster numbers around all powers of two x 13 cluster sizes; the table of file records", 13, |i, ctx| {
        let cs = 512u32 << i;
        let g = Geo { ss: 512, cs, rs: 4096.max(if cs > 4096 { 1024 } else { 1024 }).min(4096), clusters: (64 << 20) / cs as u64 };
        let vol = Vol::new(g, 20);
        let at = vol.mft_runs[0].lcn.unwrap() * cs as u64;
        let mut d = Disk::new(vol.done());
        let ntfs = Ntfs::new(&mut d).expect("harness: mount");
        ensure_eq!(pos(ntfs.mft_position()), Some(at), "c16-mft", "cluster size {}", cs);
        for b in 0..64 {
            for e in -2i64..=2 {
                let x = (1u64 << b).wrapping_add(e as u64);
                let want = x.checked_mul(cs as u64);
                let got = Lcn::from(x).position(&ntfs);
                let ok = match (&got, want) {
                    (Ok(p), Some(w)) => p.value().map_or(0, |p| p.get()) == w,
                    (Err(_), None) => true,
                    _ => false,
                };
                ensure!(ok, "c16-lcn", "cluster {} of {} bytes: {:?}, expected {:?}", x, cs, got, want);
                ctx.step();
                ctx.state(&(cs, x));
            }
        }
        Ok(())
    }));
    (out, Opts::default())
}
