//! C08: a directory walk yields every entry of the B-tree once and in order.
use crate::engine::*;
use crate::img::*;
use crate::tree::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
use ntfs::{NtfsAttributeType, NtfsIndex, NtfsIndexEntry, NtfsIndexEntryFlags, NtfsIndexNodeEntries};
use std::sync::Arc;

pub fn compare(e: &NtfsIndexEntry<NtfsFileNameIndex>, s: &Stored, desc: &str) -> R {
    ensure_eq!(e.file_reference().file_record_number(), s.fref & 0xffff_ffff_ffff, "c08-fref", "{} {:?}", desc, s);
    ensure_eq!(e.file_reference().sequence_number(), (s.fref >> 48) as u16, "c08-fref", "{} {:?}", desc, s);
    ensure_eq!(e.flags().bits(), s.flags, "c08-flags", "{} {:?}", desc, s);
    ensure_eq!(e.index_entry_length(), s.entry_len, "c08-length", "{} {:?}", desc, s);
    ensure_eq!(e.key_length(), s.key_len, "c08-length", "{} {:?}", desc, s);
    match (e.subnode_vcn(), s.sub) {
        (None, None) => {}
        (Some(Ok(v)), Some(w)) if v.value() == w as i64 => {}
        (g, w) => return fail("c08-subnode", format!("{} {:?}: subnode {:?}, expected {:?}", desc, s, g, w)),
    }
    let k = must_some(e.key(), "c08-key", desc)?;
    let k = must(k, "c08-key", desc)?;
    let name: Vec<u16> = k.name().u16_iter().collect();
    ensure_eq!(name, s.fname.name, "c08-key", "{} name", desc);
    ensure_eq!(k.parent_directory_reference().file_record_number(), s.fname.parent & 0xffff_ffff_ffff, "c08-key", "{} parent", desc);
    ensure_eq!(k.data_size(), s.fname.size, "c08-key", "{} size", desc);
    ensure_eq!(k.creation_time().nt_timestamp(), s.fname.times[0], "c08-key", "{} time", desc);
    Ok(())
}

/// Opens the directory of a bed and hands its index to `f`.
pub fn with_index<X>(bed: &TreeBed, disk: &mut crate::disk::Disk, f: impl FnOnce(&NtfsIndex<NtfsFileNameIndex>, &mut crate::disk::Disk) -> X) -> Result<X, ntfs::NtfsError> {
    let dir = bed.ntfs.file(disk, DIR)?;
    let index = dir.directory_index(disk)?;
    Ok(f(&index, disk))
}

fn check(lay: &TreeLay, ctx: &mut Ctx) -> R {
    let bed = lay.build();
    let desc = lay.desc();
    let mut disk = bed.disk();
    ctx.sample(|| desc.clone());
    let mut steps = 0u64;
    let r = with_index(&bed, &mut disk, |index, disk| -> R {
        let mut it = index.entries();
        for (i, s) in bed.entries.iter().enumerate() {
            let e = must_some(it.next(disk), "c08-missing", &format!("{} entry {}", desc, i))?;
            let e = must(e, "c08-error", &format!("{} entry {}", desc, i))?;
            steps += 1;
            compare(&e, s, &desc)?;
        }
        for _ in 0..2 {
            if let Some(e) = it.next(disk) {
                return fail("c08-extra", format!("{}: entry after the last: {:?}", desc, e.map(|e| e.key().map(|k| k.map(|k| k.name().to_string_lossy())))));
            }
        }
        Ok(())
    });
    let r = r.map(|x| x.and_then(|_| nodes(lay, &bed, &mut disk, &desc)));
    ctx.steps(steps + 2 + bed.vcns.len() as u64);
    ctx.state(&(lay.tree.clone(), &lay.slots, lay.frag, lay.place, lay.geo.cs, lay.irs, lay.full, lay.own.as_ref().map(|o| fp(&format!("{:?}", o)))));
    ctx.outcome(&bed.entries.iter().map(|e| (e.addr, e.sub)).collect::<Vec<_>>());
    match r {
        Ok(r) => r,
        Err(e) => fail("c08-open", format!("{}: {:?}", desc, e)),
    }
}

/// The nodes one by one: the root value's own entries, and the records of the allocation.
fn nodes(lay: &TreeLay, bed: &TreeBed, disk: &mut crate::disk::Disk, desc: &str) -> R {
    let dir = must(bed.ntfs.file(disk, DIR), "c08-open", desc)?;
    let mut it = dir.attributes();
    let (mut roots, mut allocs) = (0, 0);
    while let Some(item) = it.next(disk) {
        let item = must(item, "c08-attribute", desc)?;
        let attr = must(item.to_attribute(), "c08-attribute", desc)?;
        if must(attr.name(), "c08-attribute", desc)?.to_string_lossy() != "$I30" {
            continue;
        }
        let ty = must(attr.ty(), "c08-attribute", desc)?;
        if ty == NtfsAttributeType::IndexRoot {
            roots += 1;
            let root = must(attr.structured_value::<_, NtfsIndexRoot>(disk), "c08-root", desc)?;
            ensure_eq!(root.index_record_size(), lay.irs, "c08-root", "{} record size", desc);
            let want: Vec<&Stored> = bed.entries.iter().filter(|s| s.slot.is_none()).collect();
            node_entries(must(root.entries::<NtfsFileNameIndex>(), "c08-root", desc)?, &want, desc)?;
        }
        if ty == NtfsAttributeType::IndexAllocation {
            allocs += 1;
            let ia = must(attr.structured_value::<_, NtfsIndexAllocation>(disk), "c08-allocation", desc)?;
            // records of unused slots are only there if they fit
            if matches!(lay.frag, Frag::Far | Frag::Far32) || lay.irs < 1024 && lay.slots.len() != bed.vcns.len() {
                continue;
            }
            let mut recs = ia.records(lay.irs);
            let mut n = 0;
            while let Some(r) = recs.next(disk) {
                let r = must(r, "c08-record", &format!("{} record {}", desc, n))?;
                ensure!(n < bed.vcns.len(), "c08-record", "{}: too many records", desc);
                ensure_eq!(r.vcn().value(), bed.vcns[n] as i64, "c08-record", "{} record {}", desc, n);
                if lay.slots.contains(&n) {
                    let want: Vec<&Stored> = bed.entries.iter().filter(|s| s.slot == Some(n)).collect();
                    node_entries(must(r.entries::<NtfsFileNameIndex>(), "c08-record", desc)?, &want, &format!("{} record {}", desc, n))?;
                }
                n += 1;
            }
            ensure_eq!(n, bed.vcns.len(), "c08-record", "{} number of records", desc);
        }
    }
    ensure!(roots == 1 && allocs == (!bed.runs.is_empty()) as usize, "c08-attribute", "{}: {} index roots and {} allocations", desc, roots, allocs);
    Ok(())
}
/// The entries of one node in stored order, the last one without a key.
fn node_entries(it: NtfsIndexNodeEntries<NtfsFileNameIndex>, want: &[&Stored], desc: &str) -> R {
    let mut n = 0;
    for e in it {
        let e = must(e, "c08-node", desc)?;
        if n < want.len() {
            compare(&e, want[n], desc)?;
        } else {
            ensure!(n == want.len(), "c08-node", "{}: entries after the last one", desc);
            ensure!(e.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) && e.key().is_none(), "c08-node", "{}: last entry {:?}", desc, e);
        }
        n += 1;
    }
    ensure_eq!(n, want.len() + 1, "c08-node", "{} number of entries in the node", desc);
    Ok(())
}

/// Damage to one index record; the walk must deliver a prefix of the entries and then an error.
#[derive(Clone, Copy, Debug)]
pub enum Damage {
    Vcn(i64),
    Signature,
    /// the parent points elsewhere
    Pointer(i64),
    /// the record's sizes
    Grow,
}
pub const DAMAGES: [Damage; 8] = [
    Damage::Vcn(1),
    Damage::Vcn(-1),
    Damage::Vcn(1 << 32),
    Damage::Signature,
    Damage::Pointer(i64::MAX),
    Damage::Pointer(-1),
    Damage::Pointer(1 << 40),
    Damage::Grow,
];

/// Applies the damage to the record in `slot`; None if it does not apply.
pub fn damaged(lay: &TreeLay, bed: &TreeBed, slot: usize, d: Damage) -> Option<crate::disk::Img> {
    let mut img = (*bed.img).clone();
    let a = bed.slot_addr(slot);
    let vcn = bed.vcns[slot];
    let put = |img: &mut crate::disk::Img, off: u64, b: &[u8]| img.write(a + off, b);
    match d {
        Damage::Vcn(x) => put(&mut img, 16, &(vcn as i64).wrapping_add(x).to_le_bytes()),
        Damage::Signature => put(&mut img, 0, b"BAAD"),
        Damage::Grow => {
            // claims to have more bytes in use than allocated
            put(&mut img, 28, &(lay.irs - 24 + 8).to_le_bytes());
        }
        Damage::Pointer(x) => {
            // find the parent's entry: 8 bytes at the end of the entry; search for the entries' pointers
            let p = parent_pointer(lay, bed, slot)?;
            if lay.frag == Frag::PerCluster {
                return None;
            }
            img.write(p, &x.to_le_bytes());
        }
    }
    Some(img)
}
/// Address of the pointer to the record in that slot.
fn parent_pointer(lay: &TreeLay, bed: &TreeBed, slot: usize) -> Option<u64> {
    // entries with keys know their pointer; last entries are found behind them
    let vcn = bed.vcns[slot];
    if let Some(s) = bed.entries.iter().find(|s| s.sub == Some(vcn)) {
        return Some(s.addr + s.entry_len as u64 - 8);
    }
    // it is a last entry: scan the nodes for it
    let mut regions: Vec<(u64, u64)> = vec![(bed.root_addr + 32, 4096)];
    for s in 0..bed.vcns.len() {
        regions.push((bed.slot_addr(s) + indx_entries_start(lay.irs as usize) as u64, lay.irs as u64));
    }
    for (at, len) in regions {
        let b = bed.img.get(at, len as usize);
        let mut o = 0usize;
        while o + 16 <= b.len() {
            let l = u16::from_le_bytes([b[o + 8], b[o + 9]]) as usize;
            if l < 16 || o + l > b.len() {
                break;
            }
            let last = b[o + 12] & 2 != 0;
            if last {
                if b[o + 12] & 1 != 0 && b[o + l - 8..o + l] == vcn.to_le_bytes() {
                    return Some(at + (o + l - 8) as u64);
                }
                break;
            }
            o += l;
        }
    }
    None
}

fn check_damage(lay: &TreeLay, ctx: &mut Ctx) -> R {
    let bed = lay.build();
    for slot in lay.slots.iter().copied() {
        for d in DAMAGES {
            let Some(img) = damaged(lay, &bed, slot, d) else { continue };
            let desc = format!("{} record in slot {} damaged: {:?}", lay.desc(), slot, d);
            let mut disk = crate::disk::Disk::new(Arc::new(img));
            ctx.exec();
            let r = with_index(&bed, &mut disk, |index, disk| -> R {
                let mut it = index.entries();
                let mut n = 0;
                loop {
                    match it.next(disk) {
                        None => return fail("c08-damage", format!("{}: no error, {} entries delivered", desc, n)),
                        Some(Err(_)) => break,
                        Some(Ok(e)) => {
                            ensure!(n < bed.entries.len(), "c08-damage", "{}: more entries than stored", desc);
                            compare(&e, &bed.entries[n], &desc)?;
                            n += 1;
                        }
                    }
                }
                Ok(())
            });
            ctx.step();
            if let Ok(r) = r {
                r?;
            }
        }
    }
    // an entry pointing to a node that belongs elsewhere
    for a in lay.slots.iter().copied() {
        for b in lay.slots.iter().copied() {
            let Some(p) = parent_pointer(lay, &bed, a) else { continue };
            if a == b {
                continue;
            }
            let mut img = (*bed.img).clone();
            img.write(p, &bed.vcns[b].to_le_bytes());
            let desc = format!("{} pointer to slot {} replaced by {}", lay.desc(), a, b);
            let mut disk = crate::disk::Disk::new(Arc::new(img));
            ctx.exec();
            let r = with_index(&bed, &mut disk, |index, disk| -> R {
                let mut it = index.entries();
                let mut seen = 0;
                loop {
                    ensure!(seen <= 4 * bed.entries.len() + 8, "c08-endless", "{}: iteration does not end", desc);
                    match it.next(disk) {
                        // the subtree of `a` is gone and that of `b` has two parents (or itself as a descendant),
                        // unless `b` was only reachable through `a`
                        None => {
                            ensure!(below(&lay.tree, lay, a, b), "c08-shared", "{}: a node with two parents was iterated twice", desc);
                            return Ok(());
                        }
                        Some(Err(_)) => return Ok(()),
                        Some(Ok(_)) => seen += 1,
                    }
                }
            });
            ctx.step();
            if let Ok(r) = r {
                r?;
            }
        }
    }
    Ok(())
}
/// Whether the record in slot b is below the one in slot a.
fn below(t: &Node, lay: &TreeLay, a: usize, b: usize) -> bool {
    // same preorder numbering as the builder
    fn rec(n: &Node, lay: &TreeLay, next: &mut usize, inside: bool, a: usize, b: usize, hit: &mut bool) {
        for i in 0..=n.keys.len() {
            if let Some(Some(k)) = n.kids.get(i) {
                let s = lay.slots[*next];
                *next += 1;
                if inside && s == b {
                    *hit = true;
                }
                rec(k, lay, next, inside || s == a, a, b, hit);
            }
        }
    }
    let mut hit = false;
    rec(t, lay, &mut 0, false, a, b, &mut hit);
    hit
}

pub fn geos() -> Vec<(u32, u32)> {
    vec![(512, 512), (512, 1024), (512, 2048), (512, 4096), (1024, 1024), (1024, 4096), (2048, 1024), (4096, 4096), (4096, 1024), (4096, 512), (4096, 2048), (65536, 4096), (65536, 1024), (2 << 20, 4096)]
}
/// Index record sizes that hold the entries of every node of the tree.
pub fn fits(t: &Node, irs: u32) -> bool {
    let names = names(t.size());
    fn node(n: &Node, names: &[Vec<u16>], irs: usize, root: bool) -> bool {
        let sz: usize = n.keys.iter().map(|k| align8(16 + 66 + 2 * names[*k].len()) + 8 + 8).sum::<usize>() + 24;
        (root || indx_entries_start(irs) + sz <= irs) && n.kids.iter().flatten().all(|k| node(k, names, irs, false))
    }
    node(t, &names, irs as usize, true)
}
pub fn layouts_geo(trees: &[Node], max_perm: usize) -> Vec<TreeLay> {
    let mut out = vec![];
    for (cs, irs) in geos() {
        for tr in trees {
            if !fits(tr, irs) {
                continue;
            }
            let n = tr.records();
            let mut orders: Vec<Vec<usize>> = if n <= max_perm { permutations(n) } else { vec![(0..n).collect(), (0..n).rev().collect(), (0..n).map(|i| (i + n / 2) % n).collect()] };
            // with unused records in between
            orders.push((0..n).map(|i| 2 * i + 1).collect());
            orders.push((0..n).map(|i| 3 * (n - 1 - i) + 2).collect());
            orders.dedup();
            for o in orders {
                for f in [Frag::One, Frag::PerRecord, Frag::PerCluster, Frag::Far, Frag::Far32] {
                    // the image's page table keeps file records and run lists small
                    if matches!(f, Frag::Far | Frag::Far32) && (n > 3 || o.iter().any(|x| *x > 5)) {
                        continue;
                    }
                    if n == 0 && f != Frag::One {
                        continue;
                    }
                    let mut l = TreeLay::new(tgeo(cs), irs, tr);
                    l.slots = o.clone();
                    l.frag = f;
                    out.push(l);
                }
            }
        }
    }
    out
}
pub fn layouts_place(trees: &[Node]) -> Vec<TreeLay> {
    let mut out = vec![];
    for (cs, irs) in [(512, 1024), (4096, 4096), (4096, 1024)] {
        for tr in trees {
            if !fits(tr, irs) {
                continue;
            }
            for place in [Where::Base, Where::Root, Where::Alloc, Where::Both, Where::AllocSplit, Where::AllocSplitBase] {
                for decoy in [false, true] {
                    for ln in [false, true] {
                        for frag in [Frag::PerRecord, Frag::PerCluster] {
                            for stale in [false, true] {
                                if stale && tr.records() > 0 || ln && place == Where::Base {
                                    continue;
                                }
                                let mut l = TreeLay::new(tgeo(cs), irs, tr);
                                l.place = place;
                                l.decoy = decoy;
                                l.list_nonres = ln;
                                l.frag = frag;
                                l.stale_alloc = stale;
                                l.pad = if decoy { 8 } else if ln || stale { 5 } else { 0 };
                                out.push(l);
                            }
                        }
                    }
                }
            }
        }
    }
    out
}
/// Index records filled up, or almost.
pub fn layouts_full(trees: &[Node]) -> Vec<TreeLay> {
    let mut out = vec![];
    for (cs, irs) in [(512u32, 512u32), (512, 1024), (4096, 4096), (4096, 1024), (512, 4096), (4096, 512)] {
        for tr in trees.iter().filter(|t| t.records() > 0 && fits(t, irs)) {
            for gap in [0usize, 1, 2, 7, 8, 15, 16, 17, 24, 32] {
                for from in 0..3 {
                    let mut l = TreeLay::new(tgeo(cs), irs, tr);
                    l.full = Some((gap, from));
                    l.frag = [Frag::One, Frag::PerRecord, Frag::PerCluster][(gap + from) % 3];
                    out.push(l);
                }
            }
        }
    }
    out
}
/// Names of every kind, in the order of a directory.
pub fn kinds_of_names() -> Vec<Vec<u16>> {
    let t = upcase_table();
    let mut v: Vec<Vec<u16>> = ["\\s", "s\\", "q.", "q ", "q", ".", "..", " ", " x", "a:b", "$MFT", "$mft ", "*?", "\u{FEFF}b", "/", "con", "a\tb", "\u{7f}", "\u{1}", "ǅ", "ı", "i", "İ", "ß", "ſ", "s", "\u{FFFF}", "\u{E000}", "\u{D7FF}", "\u{10FFFF}", "A~1.TXT", "\u{0}", "a\u{0}", "e\u{301}", "é"]
        .iter()
        .map(|s| u16s(s))
        .collect();
    for (c, n) in [('x' as u16, 255), ('y' as u16, 254), ('é' as u16, 127), ('é' as u16, 128), ('é' as u16, 200), (0x4E00, 85), (0x4E00, 86), (0x4E00, 255), (0xFF5E, 129)] {
        v.push(vec![c; n]);
    }
    v.push(u16s(&"\u{10400}".repeat(127)));
    v.push(u16s(&"\u{10401}".repeat(64)));
    v.sort_by_key(|s| up(&t, s));
    v.dedup_by_key(|s| up(&t, s));
    v
}
/// Every pair of such names in every namespace.
pub fn layouts_names() -> Vec<TreeLay> {
    let names = kinds_of_names();
    let sh: Vec<Node> = shapes(2, 2, false).into_iter().filter(|t| t.records() < 3).collect();
    let mut out = vec![];
    for i in 0..names.len() {
        for j in i + 1..names.len() {
            for ns in 0..4u8 {
                for t in &sh {
                    let mut l = TreeLay::new(tgeo(512), 4096, t);
                    let f = |n: usize, ns: u8| {
                        let mut f = FName::u(fref(5, 5), &names[n], ns);
                        f.attrs = [0x20, 0x1000_0000, 0x406, 0][(n + ns as usize) % 4];
                        f
                    };
                    l.own = Some(Arc::new(vec![f(i, ns), f(j, (ns + 1 + (i + j) as u8 % 4) % 4)]));
                    out.push(l);
                }
            }
        }
    }
    out
}
/// All shapes up to n keys.
pub fn all_shapes(n: usize, depth: usize, partial: bool) -> Vec<Node> {
    (0..=n).flat_map(|k| shapes(k, depth, partial)).collect()
}
/// A directory with many entries: `fan` keys per node and `levels` levels.
pub fn big(fan: usize, levels: usize) -> Node {
    fn rec(fan: usize, l: usize, next: &mut usize) -> Node {
        let mut n = Node { keys: vec![], kids: vec![] };
        for i in 0..=fan {
            if l > 1 {
                n.kids.push(Some(rec(fan, l - 1, next)));
            }
            if i < fan {
                n.keys.push(*next);
                *next += 1;
            }
        }
        n
    }
    rec(fan, levels, &mut 0)
}
pub fn bigs() -> Vec<TreeLay> {
    let mut out = vec![];
    for (cs, irs, fan, lv) in [(512u32, 4096u32, 30usize, 2usize), (4096, 4096, 6, 4), (4096, 1024, 5, 4), (512, 512, 1, 7), (65536, 4096, 20, 2)] {
        let mut t = big(fan, lv);
        // the root node is inside a file record and holds a few entries only
        if fan > 8 {
            t.keys.truncate(8);
            t.kids.truncate(9);
        }
        t.number_from_zero();
        if !fits(&t, irs) {
            continue;
        }
        let mut l = TreeLay::new(tgeo(cs), irs, &t);
        let n = t.records();
        l.slots = (0..n).map(|i| (i * 7 + 3) % n).collect();
        if (0..n).any(|i| !l.slots.contains(&i)) {
            l.slots = (0..n).rev().collect();
        }
        l.frag = if n > 100 { Frag::One } else { Frag::PerRecord };
        out.push(l);
    }
    out
}

/// Chains of nodes: one below the other, before or behind the only entry, or between two.
pub fn chain(levels: usize, way: usize) -> Node {
    let mut n = Node { keys: vec![0], kids: vec![None, None] };
    for l in 1..levels {
        n = match (way, l % 2) {
            (0, _) | (2, 0) => Node { keys: vec![0], kids: vec![Some(n), None] },
            (1, _) | (2, _) => Node { keys: vec![0], kids: vec![None, Some(n)] },
            // no entry of their own, only the end entry
            (3, 1) => Node { keys: vec![], kids: vec![Some(n)] },
            _ => Node { keys: vec![0, 0], kids: vec![None, Some(n), None] },
        };
    }
    n.number_from_zero();
    n
}
pub fn chains(max: usize) -> Vec<TreeLay> {
    let mut out = vec![];
    for levels in 2..=max {
        for way in 0..5 {
            for (cs, irs) in [(512u32, 1024u32), (4096, 1024)] {
                let t = chain(levels, way);
                let n = t.records();
                out.push(TreeLay { slots: (0..n).map(|i| if levels % 2 == 0 { i } else { n - 1 - i }).collect(), ..TreeLay::new(tgeo(cs), irs, &t) });
            }
        }
    }
    out
}
/// Index records of 8 to 117 KiB (there is no room for a longer update sequence array in the first block), filled with short or the longest names.
pub fn wide() -> Vec<TreeLay> {
    let mut out = vec![];
    for (cs, irs) in [8192u32, 16384, 32768, 65536].into_iter().flat_map(|i| [512u32, 4096, 65536].map(|c| (c, i))).chain([(512u32, 119808u32)]) {
        for len in [7usize, 60, 255] {
            let room = irs as usize - indx_entries_start(irs as usize) - 16;
            let most = room / align8(16 + 66 + 2 * len);
            let leaf = |n: usize| Node { keys: vec![0; n], kids: vec![None; n + 1] };
            // an inner node with subnodes under its first, its last and its end entry
            let mut inner = leaf((room - 24) / align8(16 + 66 + 2 * len));
            let k = inner.keys.len();
            for i in [0, k - 1, k] {
                inner.kids[i] = Some(leaf(1 + i % 3));
            }
            for (shape, full) in [(vec![leaf(most)], None), (vec![leaf(most)], Some((0, 0))), (vec![leaf(most / 2), leaf(most)], None), (vec![leaf(1), leaf(3)], Some((0, 1))), (vec![inner], None)] {
                // an entry is 64 KiB long at most
                if full.is_some() && irs > 65536 {
                    continue;
                }
                let mut t = Node { keys: vec![0; shape.len() - 1], kids: shape.into_iter().map(Some).collect() };
                t.number_from_zero();
                let n = t.records();
                let mut l = TreeLay { slots: (0..n).rev().collect(), full, ..TreeLay::new(tgeo(cs), irs, &t) };
                l.own = Some(Arc::new((0..t.size()).map(|i| FName::new(fref(5, 5), &format!("{:06}{}", i, "w".repeat(len - 6)), (i % 4) as u8)).collect()));
                if irs % 4096 == 0 && out.len() % 3 == 0 {
                    l.frag = Frag::PerCluster;
                }
                out.push(l);
            }
        }
    }
    out
}
fn phase(name: &'static str, bound: String, lays: Vec<TreeLay>, f: fn(&TreeLay, &mut Ctx) -> R) -> Phase {
    let n = lays.len();
    Phase::new(name, format!("{} ({} layouts)", bound, n), n, move |i, ctx| f(&lays[i], ctx))
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let (n, d) = t.pick((9, 5), (10, 6));
    let one = |trees: Vec<Node>| -> Vec<TreeLay> {
        trees.into_iter().filter(|t| fits(t, 1024)).map(|x| TreeLay::new(tgeo(512), 1024, &x)).collect()
    };
    let one_block = |trees: Vec<Node>| -> Vec<TreeLay> {
        trees.into_iter().filter(|t| fits(t, 1024)).map(|x| TreeLay { slots: (0..x.records()).rev().collect(), ..TreeLay::new(tgeo(4096), 1024, &x) }).collect()
    };
    let pn = t.pick(5, 6);
    let small = all_shapes(t.pick(6, 7), 3, false);
    let place: Vec<Node> = all_shapes(t.pick(6, 7), 3, false);
    let dmg: Vec<TreeLay> = [(512u32, 1024u32), (4096, 4096), (4096, 1024)]
        .iter()
        .flat_map(|(cs, irs)| all_shapes(t.pick(6, 7), 3, false).into_iter().filter(|x| x.records() > 0 && fits(x, *irs)).map(|x| TreeLay::new(tgeo(*cs), *irs, &x)).collect::<Vec<_>>())
        .collect();
    (
        vec![
            phase("shapes", format!("every tree of up to {} entries and {} levels", n, d), one(all_shapes(n, d, false)), check),
            phase("shapes-512-unit", format!("every tree of up to {} entries and 3 levels, records smaller than a cluster", t.pick(8, 9)), one_block(all_shapes(t.pick(8, 9), 3, false)), check),
            phase("shapes-partial", format!("every tree of up to {} entries and 3 levels whose entries have subnodes or not independently, empty nodes included", pn), one(all_shapes(pn, 3, true)), check),
            phase("geometry", "every tree of up to 6 (thorough: 7) entries x 14 cluster/index record sizes x record numberings (all permutations, with unused records) x 4 fragmentations (one with holes of 5 GiB between the records)".into(), layouts_geo(&small, t.pick(5, 6)), check),
            phase("placement", "root and allocation in the base record or others, split allocation, attribute list resident or not, other indexes in the same file".into(), layouts_place(&place), check),
            phase("big", "directories of up to 2400 entries and 7 levels".into(), bigs(), check),
            phase("full", "index records filled to the last byte or but 1..32 bytes, by the last entry or one of the two before, 6 geometries".into(), layouts_full(&all_shapes(t.pick(4, 5), 3, true)), check),
            phase("kinds of names", "every pair of names of 45 kinds (blanks, dots, separators, control characters, case pairs, surrogates, up to 255 units) x namespaces x trees of 2 entries".into(), layouts_names(), check),
            phase("deep", format!("chains of 2 to {} nodes, each below the entry, behind it, alternating, with no entry, between two", t.pick(70, 300)), chains(t.pick(70, 300)), check),
            phase("units", "directories of 278 names of one UTF-16 unit or a surrogate pair, every unit in one of them".into(), super::c09::layouts_units().into_iter().map(|l| l.0).collect(), check),
            phase("wide", "index records of 8 to 117 KiB filled with up to 1225 names of 7, 60 or 255 units, with subnodes under some, or with one entry that fills the record".into(), wide(), check),
            phase("damage", "each index record in turn damaged, each pointer replaced by each other".into(), dmg, check_damage),
        ],
        Opts { alloc_cap: 1 << 30, assumptions: vec!["after an error the iterator is not used any further".into()], ..Default::default() },
    )
}
