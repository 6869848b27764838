//! C09: looking up a name finds it exactly when it is in the directory.
use super::c08::*;
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::tree::*;
use crate::{ensure, ensure_eq};
use ntfs::indexes::NtfsFileNameIndex;
use std::sync::{Arc, OnceLock};

/// Names to look up: everything in the pool of stored names in several spellings, and neighbours that
/// are not stored.
fn queries() -> &'static Vec<String> {
    static Q: OnceLock<Vec<String>> = OnceLock::new();
    Q.get_or_init(|| {
        let mut q: Vec<String> = vec![];
        for n in names(21) {
            if let Ok(s) = String::from_utf16(&n) {
                q.push(s.clone());
                q.push(s.to_lowercase());
                q.push(s.to_uppercase());
                q.push(format!("{}!", s));
                q.push(format!("{}a", s));
                let mut c: Vec<char> = s.chars().collect();
                c.pop();
                q.push(c.into_iter().collect());
            }
        }
        for s in ["", "\0", " ", "a", "ab", "b", "q", "Q", "\u{2200}", "\u{2200}\u{2200}", "zz", "ZZ", "~x", "!X", "é", "café", "CAFÉ", "\u{178}", "\u{FFFF}", "\u{10FFFF}", "\u{10400}", "\u{10428}x", "\u{10401}X", "F000001", "f000004", "F000005x", "n\0N", "k!1", "K~1"] {
            q.push(s.into());
        }
        q.push("x".repeat(60));
        q.push("X".repeat(60));
        q.push("x".repeat(61));
        q.push("x".repeat(255));
        q.push("x".repeat(300));
        q.sort();
        q.dedup();
        q
    })
}
fn table() -> &'static Vec<u16> {
    static T: OnceLock<Vec<u16>> = OnceLock::new();
    T.get_or_init(upcase_table)
}
/// The stored entry a query must find.
fn expect<'a>(bed: &'a TreeBed, q: &str) -> Option<&'a Stored> {
    let k = up(table(), &u16s(q));
    bed.entries.iter().find(|s| up(table(), &s.fname.name) == k)
}

fn check(lay: &TreeLay, ctx: &mut Ctx) -> R {
    check_q(lay, ctx, queries().iter().map(|s| s.as_str()).collect())
}
fn check_q(lay: &TreeLay, ctx: &mut Ctx, qs: Vec<&str>) -> R {
    let bed = lay.build();
    let desc = lay.desc();
    let mut disk = bed.disk();
    ctx.sample(|| format!("{} x {} names", desc, qs.len()));
    let mut found = 0u64;
    let r = with_index(&bed, &mut disk, |index, disk| -> R {
        let mut finder = index.finder();
        for q in &qs {
            let d = || format!("{} looking for {:?}", desc, q);
            match (NtfsFileNameIndex::find(&mut finder, bed.ntfs, disk, q), expect(&bed, q)) {
                (None, None) => {}
                (Some(Ok(e)), Some(s)) => {
                    found += 1;
                    compare(&e, s, &d()).map_err(|v| V { key: "c09-entry".into(), msg: v.msg })?;
                }
                (g, w) => {
                    let g = g.map(|r| r.map(|e| e.key().map(|k| k.map(|k| k.name().to_string_lossy()))));
                    return fail("c09-result", format!("{}: got {:?}, expected {:?}", d(), g, w.map(|s| String::from_utf16_lossy(&s.fname.name))));
                }
            }
        }
        Ok(())
    });
    ctx.steps(qs.len() as u64);
    ctx.state(&(lay.tree.clone(), &lay.slots, lay.frag, lay.place, lay.geo.cs, lay.irs, lay.full, lay.own.as_ref().map(|o| o.iter().map(|f| (f.name.clone(), f.ns)).collect::<Vec<_>>())));
    ctx.outcome(&(found, lay.tree.clone()));
    match r {
        Ok(r) => r,
        Err(e) => fail("c09-open", format!("{}: {:?}", desc, e)),
    }
}

/// Names of every kind, in the given and the other case, with something more and something less.
fn check_names(lay: &TreeLay, ctx: &mut Ctx) -> R {
    static Q: OnceLock<Vec<String>> = OnceLock::new();
    let q = Q.get_or_init(|| {
        let mut q: Vec<String> = vec!["".into()];
        for n in kinds_of_names() {
            let Ok(s) = String::from_utf16(&n) else { continue };
            q.extend([s.to_lowercase(), s.to_uppercase(), format!("{} ", s), format!("{}.", s), format!("\\{}", s), s.trim().to_string(), s.trim_matches('.').to_string()]);
            let mut c: Vec<char> = s.chars().collect();
            c.pop();
            q.push(c.into_iter().collect());
            q.push(s);
        }
        q.sort();
        q.dedup();
        q
    });
    check_q(lay, ctx, q.iter().map(|s| s.as_str()).collect())
}

/// Every UTF-16 unit and some surrogate pairs as names: one name per class of equal names, in order,
/// with the other spellings of it.
fn units() -> &'static Vec<(Vec<u16>, Vec<Vec<u16>>)> {
    static U: OnceLock<Vec<(Vec<u16>, Vec<Vec<u16>>)>> = OnceLock::new();
    U.get_or_init(|| {
        let mut by: std::collections::BTreeMap<Vec<u16>, Vec<Vec<u16>>> = Default::default();
        let pairs = (0xD800..0xDC00u16).flat_map(|h| [vec![h, 0xDC00], vec![h, 0xDFFF]]);
        for n in (0..=0xFFFFu16).map(|u| vec![u]).chain(pairs) {
            by.entry(up(table(), &n)).or_default().push(n);
        }
        by.into_iter().enumerate().map(|(i, (_, v))| (v[i % v.len()].clone(), v)).collect()
    })
}
/// A directory of as many names of units as fit, from every part of the range.
pub fn layouts_units() -> Vec<(TreeLay, usize)> {
    let mut t = big(30, 2);
    t.keys.truncate(8);
    t.kids.truncate(9);
    t.number_from_zero();
    let n = t.size();
    let mut out = vec![];
    let mut at = 0;
    while at < units().len() {
        let s = at.min(units().len() - n);
        let mut l = TreeLay::new(tgeo(512), 4096, &t);
        l.own = Some(Arc::new(units()[s..s + n].iter().map(|x| FName::u(fref(5, 5), &x.0, (s % 4) as u8)).collect()));
        out.push((l, s));
        at += n;
    }
    out
}
fn check_units(lay: &TreeLay, s: usize, ctx: &mut Ctx) -> R {
    let n = lay.tree.size();
    let mut q: Vec<String> = vec!["".into()];
    for x in &units()[s.saturating_sub(20)..(s + n + 20).min(units().len())] {
        for y in &x.1 {
            if let Ok(y) = String::from_utf16(y) {
                q.push(format!("{}!", y));
                q.push(y);
            }
        }
    }
    check_q(lay, ctx, q.iter().map(|s| s.as_str()).collect())
}

/// Every name stored plus its direct neighbours.
fn check_big(lay: &TreeLay, ctx: &mut Ctx) -> R {
    let n = lay.tree.size();
    let mut qs: Vec<String> = vec![];
    for nm in lay.own.as_ref().map_or_else(|| names(n), |o| o.iter().map(|f| f.name.clone()).collect()) {
        let Ok(s) = String::from_utf16(&nm) else { continue };
        qs.push(s.to_lowercase());
        qs.push(format!("{}x", s));
        let mut c: Vec<char> = s.chars().collect();
        c.pop();
        qs.push(c.into_iter().collect());
    }
    check_q(lay, ctx, qs.iter().map(|s| s.as_str()).collect())
}

/// The same finder used for every sequence of lookups.
fn check_seq(lay: &TreeLay, depth: usize, ctx: &mut Ctx) -> R {
    let bed = lay.build();
    let desc = lay.desc();
    let mut disk = bed.disk();
    let mut qs: Vec<String> = bed.entries.iter().map(|s| String::from_utf16_lossy(&s.fname.name)).collect();
    qs.retain(|q| !q.contains('\u{FFFD}'));
    qs.extend(["".to_string(), "b".to_string(), "\u{10FFFF}".to_string(), "aB".to_string()]);
    let n = qs.len();
    let r = with_index(&bed, &mut disk, |index, disk| -> R {
        for code in 0..n.pow(depth as u32) {
            let mut finder = index.finder();
            let mut c = code;
            ctx.exec();
            for _ in 0..depth {
                let q = &qs[c % n];
                c /= n;
                ctx.step();
                let g = NtfsFileNameIndex::find(&mut finder, bed.ntfs, disk, q);
                match (g, expect(&bed, q)) {
                    (None, None) => {}
                    (Some(Ok(e)), Some(s)) => compare(&e, s, &desc)?,
                    (g, w) => return fail("c09-sequence", format!("{} lookup sequence {} at {:?}: got {:?}, expected {:?}", desc, code, q, g.map(|x| x.map(|e| e.position())), w)),
                }
            }
        }
        Ok(())
    });
    ctx.state(&(lay.tree.clone(), lay.irs));
    match r {
        Ok(r) => r,
        Err(e) => fail("c09-open", format!("{}: {:?}", desc, e)),
    }
}

/// Slots of the records a lookup passes through.
fn path(lay: &TreeLay, bed: &TreeBed, q: &str) -> Vec<usize> {
    let k = up(table(), &u16s(q));
    let (mut node, mut out) = (&lay.tree, vec![]);
    // preorder number of each node
    fn count(n: &Node) -> usize {
        n.records()
    }
    let mut next = 0usize; // number of the first record below `node`
    loop {
        let mut at = next;
        let mut i = 0;
        loop {
            let below = node.kids.get(i).and_then(|k| k.as_ref());
            if i == node.keys.len() {
                break;
            }
            let ek = up(table(), &bed.entries[node.keys[i]].fname.name);
            if ek == k {
                return out;
            }
            if k < ek {
                break;
            }
            at += below.map_or(0, |b| 1 + count(b));
            i += 1;
        }
        match node.kids.get(i).and_then(|k| k.as_ref()) {
            None => return out,
            Some(b) => {
                out.push(lay.slots[at]);
                next = at + 1;
                node = b;
            }
        }
    }
}
/// With one record damaged, lookups that need it fail and all others are right.
fn check_damage(lay: &TreeLay, ctx: &mut Ctx) -> R {
    let bed = lay.build();
    for slot in lay.slots.iter().copied() {
        for d in DAMAGES {
            let Some(img) = damaged(lay, &bed, slot, d) else { continue };
            let desc = format!("{} record in slot {} damaged: {:?}", lay.desc(), slot, d);
            let mut disk = Disk::new(Arc::new(img));
            ctx.exec();
            let _ = with_index(&bed, &mut disk, |index, disk| -> R {
                let mut finder = index.finder();
                for q in queries() {
                    ctx.step();
                    let needs = path(lay, &bed, q).contains(&slot);
                    let g = NtfsFileNameIndex::find(&mut finder, bed.ntfs, disk, q);
                    match (g, expect(&bed, q), needs) {
                        (Some(Err(_)), _, true) => {}
                        (None, None, false) => {}
                        (Some(Ok(e)), Some(s), false) => {
                            // the entry itself may be the one whose pointer was damaged
                            ensure_eq!(e.position().value().map(|p| p.get()), Some(s.addr), "c09-damage", "{} {:?}", desc, q)
                        }
                        (g, w, n) => {
                            return fail("c09-damage", format!("{} looking for {:?}: got {:?}, stored {:?}, damaged record needed: {}", desc, q, g.map(|x| x.map(|e| e.position())), w.is_some(), n))
                        }
                    }
                }
                Ok(())
            })
            .map(|r| r)
            .unwrap_or(Ok(()))?;
        }
    }
    ensure!(true, "", "");
    Ok(())
}

fn phase(name: &'static str, bound: String, lays: Vec<TreeLay>, f: impl Fn(&TreeLay, &mut Ctx) -> R + Send + Sync + 'static) -> Phase {
    let n = lays.len();
    Phase::new(name, format!("{} ({} layouts)", bound, n), n, move |i, ctx| f(&lays[i], ctx))
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let one = |trees: Vec<Node>, cs: u32| -> Vec<TreeLay> {
        trees
            .into_iter()
            .filter(|t| fits(t, 1024))
            .map(|x| TreeLay { slots: (0..x.records()).rev().collect(), ..TreeLay::new(tgeo(cs), 1024, &x) })
            .collect()
    };
    let nq = queries().len();
    let n = t.pick(9, 10);
    let dmg: Vec<TreeLay> = [(512u32, 1024u32), (4096, 4096), (4096, 1024)]
        .iter()
        .flat_map(|(cs, irs)| all_shapes(t.pick(5, 7), 3, false).into_iter().filter(|x| x.records() > 0 && fits(x, *irs)).map(|x| TreeLay::new(tgeo(*cs), *irs, &x)).collect::<Vec<_>>())
        .collect();
    let d = t.pick(3, 5);
    (
        vec![
            phase("shapes", format!("every tree of up to {} entries and 4 levels x {} names", n, nq), one(all_shapes(n, 4, false), 512), check),
            phase("shapes-512-unit", format!("every tree of up to {} entries and 3 levels, records smaller than a cluster, x {} names", n - 1, nq), one(all_shapes(n - 1, 3, false), 4096), check),
            phase("shapes-partial", format!("trees of up to {} entries whose entries have subnodes or not independently", t.pick(5, 6)), one(all_shapes(t.pick(5, 6), 3, true), 512), check),
            phase("geometry", format!("every tree of up to {} entries x 14 cluster/index record sizes x numberings x fragmentations", t.pick(5, 6)), layouts_geo(&all_shapes(t.pick(5, 6), 3, false), t.pick(4, 5)), check),
            phase("placement", "root and allocation in the base record or others, split allocation, other indexes in the same file".into(), layouts_place(&all_shapes(t.pick(5, 6), 3, false)), check),
            phase("big", "every stored name and its neighbours in directories of up to 2400 entries and 7 levels".into(), bigs(), check_big),
            phase("deep", format!("chains of 2 to {} nodes x every stored name and its neighbours", t.pick(70, 300)), chains(t.pick(70, 300)), check_big),
            phase("wide", "index records of 8 to 117 KiB filled with up to 1225 names of 7, 60 or 255 units x every stored name and its neighbours".into(), wide(), check_big),
            phase("kinds of names", "every pair of names of 45 kinds (blanks, dots, separators, control characters, case pairs, surrogates, up to 255 units and 765 bytes) x namespaces x trees of 2 entries, looked up as they are, in other case and with more and less".into(), layouts_names(), check_names),
            {
                let l = layouts_units();
                Phase::new("units", format!("directories of {} names of one UTF-16 unit or a surrogate pair, {} of them for every unit, looked up in every spelling and with one more unit", l[0].0.tree.size(), l.len()), l.len(), move |i, ctx| check_units(&l[i].0, l[i].1, ctx))
            },
            phase("sequences", format!("all sequences of {} lookups with one finder, every tree of up to {} entries", d, t.pick(5, 6)), one(all_shapes(t.pick(5, 6), 3, false), 512), move |l, c| check_seq(l, d, c)),
            phase("full", format!("index records filled to the last byte or but 1..32 bytes x {} names", nq), layouts_full(&all_shapes(t.pick(3, 4), 3, true)), check),
            phase("damage", format!("each index record in turn damaged x {} names", nq), dmg, check_damage),
        ],
        Opts { alloc_cap: 1 << 30, assumptions: vec!["the stored names of a directory are unique and sorted under the volume's case mapping".into()], ..Default::default() },
    )
}
