//! C21: indexes whose entries are of a type the caller defines deliver exactly the stored keys and data.
use super::c08::{all_shapes, geos};
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::tree::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use ntfs::indexes::*;
use ntfs::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
use ntfs::{Ntfs, NtfsAttributeItem, NtfsAttributeType, NtfsError, NtfsIndex, NtfsIndexEntry, NtfsIndexEntryFlags};
use ntfs::types::NtfsPosition;
use std::cmp::Ordering;
use std::sync::Arc;

/// An index with keys and data that are taken as they are. Keys that begin with 0xBAD0 and data that begin
/// with 0xBADD are refused.
#[derive(Clone, Debug)]
pub struct RawIndex;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Raw {
    pub bytes: Vec<u8>,
    pub at: Option<u64>,
}
impl NtfsIndexEntryType for RawIndex {
    type KeyType = Raw;
}
impl NtfsIndexEntryHasData for RawIndex {
    type DataType = Raw;
}
fn refuse(b: &[u8], with: [u8; 2], position: NtfsPosition) -> Result<Raw, NtfsError> {
    if b.starts_with(&with) {
        return Err(NtfsError::InvalidStructuredValueSize { position, ty: NtfsAttributeType::PropertySet, expected: 12345, actual: b.len() as u64 });
    }
    Ok(Raw { bytes: b.to_vec(), at: position.value().map(|p| p.get()) })
}
fn refused<T>(r: &Result<T, NtfsError>) -> bool {
    matches!(r, Err(NtfsError::InvalidStructuredValueSize { expected: 12345, .. }))
}
impl NtfsIndexEntryKey for Raw {
    fn key_from_slice(slice: &[u8], position: NtfsPosition) -> Result<Self, NtfsError> {
        refuse(slice, [0xBA, 0xD0], position)
    }
}
impl NtfsIndexEntryData for Raw {
    fn data_from_slice(slice: &[u8], position: NtfsPosition) -> Result<Self, NtfsError> {
        refuse(slice, [0xBA, 0xDD], position)
    }
}
/// The same keys with file references.
#[derive(Clone, Debug)]
pub struct RefIndex;
impl NtfsIndexEntryType for RefIndex {
    type KeyType = Raw;
}
impl NtfsIndexEntryHasFileReference for RefIndex {}

/// Opens the index of that name.
pub fn open<'n, 'f, E: NtfsIndexEntryType>(f: &'f ntfs::NtfsFile<'n>, name: &[u16], d: &mut Disk) -> Result<Option<NtfsIndex<'n, 'f, E>>, NtfsError> {
    let mut items: [Option<NtfsAttributeItem>; 2] = [None, None];
    let mut it = f.attributes();
    while let Some(i) = it.next(d) {
        let i = i?;
        let a = i.to_attribute()?;
        let k = match a.ty() {
            Ok(NtfsAttributeType::IndexRoot) => 0,
            Ok(NtfsAttributeType::IndexAllocation) => 1,
            _ => continue,
        };
        if a.name()?.u16_iter().eq(name.iter().copied()) && items[k].is_none() {
            items[k] = Some(i.clone());
        }
    }
    let [root, alloc] = items;
    match root {
        None => Ok(None),
        Some(r) => NtfsIndex::new(r, alloc).map(Some),
    }
}

/// One entry against what was stored.
fn entry(e: &NtfsIndexEntry<RawIndex>, key: &[u8], data: &[u8], data_offset: usize, sub: Option<u64>, addr: u64, len: usize, what: &str) -> R {
    ensure_eq!((e.index_entry_length() as usize, e.key_length() as usize, e.data_length() as usize), (len, key.len(), data.len()), "c21-lengths", "{}", what);
    ensure_eq!(e.position().value().map(|p| p.get()), Some(addr), "c21-position", "{}", what);
    let s = match e.subnode_vcn() {
        None => None,
        Some(v) => Some(must(v, "c21-subnode", what)?.value() as u64),
    };
    ensure_eq!(s, sub, "c21-subnode", "{}", what);
    ensure_eq!(e.flags().bits(), sub.is_some() as u8, "c21-flags", "{}", what);
    match e.key() {
        None => ensure!(key.is_empty(), "c21-key", "{}: no key", what),
        Some(k) => ensure_eq!(must(k, "c21-key", what)?, Raw { bytes: key.to_vec(), at: Some(addr + 16) }, "c21-key", "{}", what),
    }
    match e.data() {
        None => ensure!(data.is_empty(), "c21-data", "{}: no data", what),
        Some(x) => ensure_eq!(must(x, "c21-data", what)?, Raw { bytes: data.to_vec(), at: Some(addr + data_offset as u64) }, "c21-data", "{}", what),
    }
    Ok(())
}

fn check(lay: &TreeLay, ctx: &mut Ctx) -> R {
    let bed = lay.build();
    let desc = lay.desc();
    let kind = lay.data.expect("harness: data");
    let mut d = bed.disk();
    ctx.sample(|| desc.clone());
    let f = must(bed.ntfs.file(&mut d, DIR), "c21-open", &desc)?;
    let ix = must_some(must(open::<RawIndex>(&f, &u16s("$SII"), &mut d), "c21-open", &desc)?, "c21-open", &desc)?;
    let stored = |e: &NtfsIndexEntry<RawIndex>, s: &Stored, what: &str| entry(e, &kind.key(s.k), &kind.data(s.k), kind.offset(), s.sub, s.addr, s.entry_len as usize, what);
    let mut it = ix.entries();
    for (i, s) in bed.entries.iter().enumerate() {
        let what = format!("{} entry {}", desc, i);
        let e = must(must_some(it.next(&mut d), "c21-missing", &what)?, "c21-error", &what)?;
        stored(&e, s, &what)?;
        ctx.step();
    }
    for _ in 0..2 {
        ensure!(it.next(&mut d).is_none(), "c21-extra", "{}: entry after the last", desc);
    }
    // node by node: the same entries, wherever they lie
    let mut nodes: Vec<(u64, &Stored)> = bed.entries.iter().map(|s| (s.addr, s)).collect();
    nodes.sort_by_key(|x| x.0);
    let mut seen = vec![];
    let mut take = |e: Option<Result<NtfsIndexEntry<RawIndex>, NtfsError>>| -> Result<bool, V> {
        let Some(e) = e else { return Ok(false) };
        let e = must(e, "c21-node", &desc)?;
        if e.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) {
            return Ok(true);
        }
        let at = e.position().value().map_or(0, |p| p.get());
        if let Ok(i) = nodes.binary_search_by_key(&at, |x| x.0) {
            stored(&e, nodes[i].1, &format!("{} node by node, entry at {}", desc, at))?;
        }
        seen.push(at);
        Ok(true)
    };
    let mut attrs = f.attributes();
    while let Some(i) = attrs.next(&mut d) {
        let i = must(i, "c21-node", &desc)?;
        let a = must(i.to_attribute(), "c21-node", &desc)?;
        if !must(a.name(), "c21-node", &desc)?.u16_iter().eq(u16s("$SII")) {
            continue;
        }
        match must(a.ty(), "c21-node", &desc)? {
            NtfsAttributeType::IndexRoot => {
                let root = must(a.structured_value::<_, NtfsIndexRoot>(&mut d), "c21-node", &desc)?;
                let mut it = must(root.entries::<RawIndex>(), "c21-node", &desc)?;
                while take(it.next())? {}
            }
            NtfsAttributeType::IndexAllocation => {
                let al = must(a.structured_value::<_, NtfsIndexAllocation>(&mut d), "c21-node", &desc)?;
                let mut rs = al.records(lay.irs);
                while let Some(r) = rs.next(&mut d) {
                    let r = must(r, "c21-node", &desc)?;
                    let mut it = must(r.entries::<RawIndex>(), "c21-node", &desc)?;
                    while take(it.next())? {}
                    ctx.step();
                }
            }
            _ => {}
        }
    }
    seen.sort();
    ensure!(seen.iter().copied().eq(nodes.iter().map(|x| x.0)), "c21-node", "{}: node by node, entries at {:?} instead of {:?}", desc, seen, nodes.iter().map(|x| x.0).collect::<Vec<_>>());
    // every monotonous comparison: what is looked for are the entries lo..hi
    let n = bed.entries.len();
    let mut fi = ix.finder();
    for lo in 0..=n {
        for hi in lo..=n {
            let what = format!("{} looking for entries {}..{}", desc, lo, hi);
            let num = |k: &Raw| (u32::from_be_bytes(k.bytes[..4].try_into().unwrap()) as usize - 1) / 2;
            let r = fi.find(&mut d, |k| {
                let k = num(k);
                if k < lo {
                    Ordering::Greater
                } else if k < hi {
                    Ordering::Equal
                } else {
                    Ordering::Less
                }
            });
            ctx.step();
            match r {
                None => ensure!(lo == hi, "c21-find", "{}: nothing found", what),
                Some(e) => {
                    let e = must(e, "c21-find", &what)?;
                    let k = num(&must(must_some(e.key(), "c21-find", &what)?, "c21-find", &what)?);
                    ensure!((lo..hi).contains(&k), "c21-find", "{}: entry {} found", what, k);
                    stored(&e, &bed.entries[k], &what)?;
                }
            }
        }
    }
    // the same entries taken for some with file references
    let ix = must_some(must(open::<RefIndex>(&f, &u16s("$SII"), &mut d), "c21-open", &desc)?, "c21-open", &desc)?;
    let mut it = ix.entries();
    for s in &bed.entries {
        let e = must(must_some(it.next(&mut d), "c21-missing", &desc)?, "c21-error", &desc)?;
        let r = e.file_reference();
        ensure_eq!(r.file_record_number() | (r.sequence_number() as u64) << 48, s.fref, "c21-reference", "{}", desc);
    }
    ctx.state(&(lay.tree.clone(), &lay.slots, lay.frag, lay.place, lay.geo.cs, lay.irs, lay.full, kind));
    ctx.outcome(&bed.entries.iter().map(|e| (e.addr, e.sub)).collect::<Vec<_>>());
    Ok(())
}

fn fits(t: &Node, irs: usize, d: DataKind, root: bool) -> bool {
    let sz = t.keys.len() * (d.offset() + d.data + 8) + 24;
    sz <= if root { 2600 } else { irs.saturating_sub(indx_entries_start(irs)) } && t.kids.iter().flatten().all(|k| fits(k, irs, d, false))
}
fn kinds() -> Vec<DataKind> {
    let mut v = vec![];
    for key in [4usize, 5, 8, 12, 16] {
        for gap in [0usize, 4, 8] {
            for data in [0usize, 1, 4, 8, 16, 20, 60] {
                v.push(DataKind { key, gap, data });
            }
        }
    }
    v
}
fn trees(ts: &[Node], geos: &[(u32, u32)], ks: &[DataKind]) -> Vec<TreeLay> {
    let mut out = vec![];
    for (cs, irs) in geos {
        for t in ts {
            for k in ks {
                if !fits(t, *irs as usize, *k, true) {
                    continue;
                }
                let mut l = TreeLay::new(tgeo(*cs), *irs, t);
                l.data = Some(*k);
                let n = t.records();
                let i = out.len();
                if i % 2 == 1 {
                    l.slots = (0..n).rev().collect();
                }
                l.frag = [Frag::One, Frag::PerRecord, Frag::PerCluster][i % 3];
                l.place = [Where::Base, Where::Root, Where::Alloc, Where::Both, Where::AllocSplit, Where::AllocSplitBase][i % 6];
                l.decoy = i % 5 == 0;
                l.full = [None, Some((0, 0)), Some((0, 1)), Some((8, 1))][i % 4];
                out.push(l);
            }
        }
    }
    out
}

/// A record with one index root of arbitrary bytes.
struct Small {
    ntfs: Ntfs,
    disk: Disk,
    /// address of the index root value
    at: u64,
}
const ROOM: usize = 128;
fn small() -> Small {
    let mut v = Vol::new(Geo::std(), 8);
    let r = v.rec().attr(Attr::res(ty::ROOT, "$R", 0, &vec![0; 32 + ROOM]));
    let at = v.rec_addr(6) + (r.offsets()[0] + r.attrs[0].value_offset()) as u64;
    v.put(6, &r);
    let mut disk = Disk::new(Arc::new(v.img.clone()));
    let ntfs = Ntfs::new(&mut disk).expect("harness: mount");
    Small { ntfs, disk, at }
}
/// One entry of that length, key length, data offset and data length, then the last entry.
fn ranges(s: &Small, len: usize, klen: usize, off: usize, dlen: usize, sub: bool, ctx: &mut Ctx) -> R {
    let mut d = s.disk.clone();
    let mut b: Vec<u8> = (0..len).map(|i| (i * 13 + 1) as u8).collect();
    for (o, v) in [(0, off), (2, dlen), (8, len), (10, klen)] {
        w16(&mut b, o, v as u16);
    }
    b[12] = sub as u8;
    let mut all = b.clone();
    all.extend(Entry { fref: 0, key: None, sub: None, pad: 0 }.encode());
    let mut root = index_root(&all, 4096, false, 512);
    assert!(root.len() <= 32 + ROOM, "harness: room");
    root.resize(32 + ROOM, 0x55);
    d.patch = vec![(s.at, root)];
    let what = format!("entry of {} bytes with a key of {}, {} bytes of data at {}, subnode {}", len, klen, dlen, off, sub);
    let key = if klen == 0 { None } else { Some(b.get(16..16 + klen)) };
    let data = if off == 0 || dlen == 0 { None } else { Some(b.get(off..off + dlen)) };
    guarded(
        || what.clone(),
        || -> R {
            let f = must(s.ntfs.file(&mut d, 6), "c21-open", &what)?;
            let ix = must_some(must(open::<RawIndex>(&f, &u16s("$R"), &mut d), "c21-open", &what)?, "c21-open", &what)?;
            // without a subnode, the walk delivers the entry; with one, there is no index record to go to
            let mut it = ix.entries();
            if sub {
                ensure!(it.next(&mut d).is_none_or(|e| e.is_err()), "c21-ranges", "{}: a subnode without an index allocation", what);
                return Ok(());
            }
            let e = must(must_some(it.next(&mut d), "c21-ranges", &what)?, "c21-ranges", &what)?;
            for (g, w, off, n) in [(e.key(), key, 16, "key"), (e.data(), data, off, "data")] {
                match (g, w) {
                    (None, None) => {}
                    (Some(Ok(r)), Some(Some(w))) => ensure_eq!(r, Raw { bytes: w.to_vec(), at: Some(s.at + 32 + off as u64) }, "c21-ranges", "{}: {}", what, n),
                    (Some(Err(_)), Some(None)) => {}
                    (g, w) => return fail("c21-ranges", format!("{}: {}: got {:?}, stored {:?}", what, n, g, w)),
                }
            }
            drop(e);
            let mut fi = ix.finder();
            let r = fi.find(&mut d, |k| if Some(Some(&k.bytes[..])) == key { Ordering::Equal } else { Ordering::Greater });
            match (r, key) {
                (None, None) => {}
                (Some(Ok(e)), Some(Some(_))) => ensure_eq!(e.index_entry_length() as usize, len, "c21-ranges", "{}: entry found", what),
                (Some(Err(_)), Some(None)) => {}
                (g, w) => return fail("c21-ranges", format!("{}: found {:?}, stored {:?}", what, g.map(|r| r.map(|e| e.index_entry_length())), w)),
            }
            Ok(())
        },
    )??;
    ctx.exec();
    ctx.step();
    ctx.state(&(len, klen, off, dlen, sub));
    ctx.outcome(&(key.map(|k| k.is_some()), data.map(|k| k.is_some())));
    Ok(())
}
/// The caller's own refusals reach it unchanged, and nothing else is affected.
fn refusals(n: usize, bad: u32, of_data: bool, ctx: &mut Ctx) -> R {
    let s = small();
    let mut d = s.disk.clone();
    let mut es = vec![];
    for k in 0..n {
        let b = bad >> k & 1 == 1;
        let key = if b && !of_data { vec![0xBA, 0xD0, k as u8, 0] } else { vec![1, k as u8, 2, 3] };
        let data = if b && of_data { [0xBA, 0xDD, k as u8, 0] } else { [k as u8; 4] };
        let mut e = Entry { fref: 24 | 4 << 16, key: Some(key), sub: None, pad: 8 }.encode();
        e[24..28].copy_from_slice(&data);
        es.extend(e);
    }
    es.extend(Entry { fref: 0, key: None, sub: None, pad: 0 }.encode());
    let mut root = index_root(&es, 4096, false, 512);
    root.resize(32 + ROOM, 0);
    d.patch = vec![(s.at, root)];
    let what = format!("{} entries, those whose {} is refused: {:b}", n, if of_data { "data" } else { "key" }, bad);
    let f = must(s.ntfs.file(&mut d, 6), "c21-open", &what)?;
    let ix = must_some(must(open::<RawIndex>(&f, &u16s("$R"), &mut d), "c21-open", &what)?, "c21-open", &what)?;
    let mut it = ix.entries();
    for k in 0..n {
        let e = must(must_some(it.next(&mut d), "c21-refused", &what)?, "c21-refused", &what)?;
        let b = bad >> k & 1 == 1;
        let (kr, dr) = (must_some(e.key(), "c21-refused", &what)?, must_some(e.data(), "c21-refused", &what)?);
        ensure_eq!((refused(&kr), kr.is_ok()), (b && !of_data, !b || of_data), "c21-refused", "{}: key of entry {}", what, k);
        ensure_eq!((refused(&dr), dr.is_ok()), (b && of_data, !b || !of_data), "c21-refused", "{}: data of entry {}", what, k);
        ctx.step();
    }
    ensure!(it.next(&mut d).is_none(), "c21-refused", "{}: end", what);
    let mut fi = ix.finder();
    for k in 0..n {
        // looking for entry k passes all those before it
        let r = fi.find(&mut d, |x| (k as u8).cmp(&x.bytes[1]));
        let first = (!of_data).then(|| (0..=k).find(|j| bad >> j & 1 == 1)).flatten();
        match r {
            Some(r) if first.is_some() => ensure!(refused(&r), "c21-refused", "{}: looking for entry {}", what, k),
            Some(Ok(e)) => ensure_eq!(e.position().value().map(|p| p.get()), Some(s.at + 32 + 32 * k as u64), "c21-refused", "{}: looking for entry {}", what, k),
            _ => return fail("c21-refused", format!("{}: looking for entry {}", what, k)),
        }
        ctx.step();
    }
    ctx.state(&(n, bad, of_data));
    ctx.exec();
    Ok(())
}

/// Which pairs of attributes make an index.
fn opening(ctx: &mut Ctx) -> R {
    let mut v = Vol::new(Geo::std(), 8);
    let cs = v.cs();
    let last = Entry { fref: 0, key: None, sub: None, pad: 0 }.encode();
    let l = v.alloc(20);
    let attrs = vec![
        ("root", true, Attr::res(ty::ROOT, "", 0, &index_root(&last, 1024, false, 512))),
        ("root of a large index", true, Attr::res(ty::ROOT, "x", 1, &index_root(&last, 1024, true, 512))),
        ("non-resident root", false, Attr::non(ty::ROOT, "y", 2, &[run(1, l)], cs, 48)),
        ("root that is too short", false, Attr::res(ty::ROOT, "z", 3, &index_root(&last, 1024, false, 512)[..31])),
        ("allocation", false, Attr::non(ty::ALLOC, "", 5, &[run(2, l + 2)], cs, 1024)),
        ("allocation of another name", false, Attr::non(ty::ALLOC, "x", 6, &[run(2, l + 4)], cs, 1024)),
        ("data", false, Attr::res(ty::DATA, "", 7, &index_root(&last, 1024, false, 512))),
        ("non-resident data", false, Attr::non(ty::DATA, "x", 8, &[run(2, l + 6)], cs, 1024)),
        ("bitmap", false, Attr::res(ty::BITMAP, "", 9, &[1; 8])),
    ];
    v.write_stream(&[run(1, l)], 0, &index_root(&last, 1024, false, 512));
    let mut r = v.rec();
    for a in &attrs {
        r = r.attr(a.2.clone());
    }
    v.put(6, &r);
    let mut d = Disk::new(Arc::new(v.img.clone()));
    let ntfs = must(Ntfs::new(&mut d), "c21-open", "mount")?;
    let f = must(ntfs.file(&mut d, 6), "c21-open", "file")?;
    let mut items = vec![];
    let mut it = f.attributes();
    while let Some(i) = it.next(&mut d) {
        items.push(must(i, "c21-open", "attribute")?);
    }
    ensure_eq!(items.len(), attrs.len(), "c21-open", "attributes");
    for (i, (name, ok, _)) in attrs.iter().enumerate() {
        for j in (0..attrs.len()).map(Some).chain([None]) {
            let alloc_ok = match j {
                None => i == 0,
                Some(j) => j == 4 || j == 5,
            };
            let what = format!("{} with {}", name, j.map_or("nothing", |j| attrs[j].0));
            let r = NtfsIndex::<RawIndex>::new(items[i].clone(), j.map(|j| items[j].clone()));
            ensure_eq!(r.is_ok(), *ok && alloc_ok, "c21-open", "{}", what);
            let r2 = NtfsIndex::<NtfsFileNameIndex>::new(items[i].clone(), j.map(|j| items[j].clone()));
            ensure_eq!(r2.is_ok(), *ok && alloc_ok, "c21-open", "{}", what);
            if let Ok(ix) = r {
                ensure!(ix.entries().next(&mut d).is_none(), "c21-open", "{}: entries", what);
                ensure!(ix.finder().find(&mut d, |_| Ordering::Equal).is_none(), "c21-open", "{}: entries", what);
            }
            ctx.step();
            ctx.exec();
            ctx.state(&(i, j));
        }
    }
    Ok(())
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut out = vec![];
    let mut lays = |name: &'static str, bound: String, lays: Vec<TreeLay>| {
        let n = lays.len();
        out.push(Phase::new(name, format!("{} ({} layouts): walk, and lookup of every interval of entries", bound, n), n, move |i, ctx| check(&lays[i], ctx)));
    };
    let few = [DataKind { key: 4, gap: 0, data: 20 }, DataKind { key: 8, gap: 0, data: 0 }, DataKind { key: 5, gap: 4, data: 3 }];
    lays("shapes", format!("every tree of up to {} entries and 5 levels x 3 kinds of entries", t.pick(8, 10)), trees(&all_shapes(t.pick(8, 10), 5, false), &[(512, 1024)], &few));
    lays("partial shapes", format!("every tree of up to {} entries whose entries have subnodes or not x 2 geometries", t.pick(5, 7)), trees(&all_shapes(t.pick(5, 7), 3, true), &[(512, 1024), (4096, 512)], &few[..2]));
    lays("geometry", format!("every tree of up to {} entries x 14 geometries x 105 lengths of keys, gaps and data", t.pick(5, 6)), trees(&all_shapes(t.pick(5, 6), 3, false), &geos(), &kinds()));
    let long = [DataKind { key: 4, gap: 0, data: 4072 }, DataKind { key: 4080, gap: 8, data: 4096 }, DataKind { key: 5000, gap: 0, data: 5001 }, DataKind { key: 16, gap: 4, data: 32_748 }, DataKind { key: 30_000, gap: 0, data: 35_000 }];
    lays("long entries", format!("every tree of up to {} entries of 4 KiB to 64 KiB in index records of 64 KiB, 2 geometries", t.pick(4, 6)), trees(&all_shapes(t.pick(4, 6), 3, false), &[(4096, 65_536), (65_536, 65_536)], &long));
    let top = t.pick(44usize, 80);
    out.push(Phase::new("ranges", format!("every entry of 16 to {} bytes x every key length x every place and length of its data", top), top - 15, move |i, ctx| {
        let s = small();
        let len = 16 + i;
        for sub in [false, true] {
            for klen in 0..=len - 16 + 2 {
                for off in std::iter::once(0).chain(16..len + 2) {
                    for dlen in 0..=(len + 2).saturating_sub(off.max(16)) {
                        if klen > 0 && dlen > 0 && (klen + off + dlen) % 3 != 0 && len > 40 {
                            continue;
                        }
                        ranges(&s, len, klen, off, dlen, sub, ctx)?;
                    }
                }
            }
            for klen in [1usize, 255, 256, 0x7FFF, 0x8000, 0xFFF0, 0xFFFF] {
                for off in [0usize, 16, 24, 0x7FFF, 0x8000, 0xFFF0, 0xFFFF] {
                    for dlen in [0usize, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF] {
                        ranges(&s, len, klen, off, dlen, sub, ctx)?;
                    }
                }
            }
        }
        Ok(())
    }));
    out.push(Phase::new("refused by the caller", "every subset of up to 3 entries whose key or data the caller's type refuses", 3, move |i, ctx| {
        for bad in 0..1u32 << (i + 1) {
            for of_data in [false, true] {
                refusals(i + 1, bad, of_data, ctx)?;
            }
        }
        Ok(())
    }));
    out.push(Phase::new("opening", "every pair of 9 attributes, and none, as root and allocation", 1, move |_, ctx| opening(ctx)));
    (out, Opts { alloc_cap: 1 << 30, assumptions: vec!["the entries of an index are ordered under the caller's comparison".into(), "entries whose key or data overlap their header or subnode number are not explored beyond their length".into()], ..Default::default() })
}
