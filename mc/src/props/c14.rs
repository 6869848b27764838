//! C14: every operation ends within bounded work and memory, even on hostile volumes.
use crate::disk::Disk;
use crate::engine::*;
use crate::ensure;
use crate::hostile::*;
use crate::images;
use crate::img::*;
use ntfs::indexes::NtfsFileNameIndex;
use std::sync::Arc;

const LIM: Lim = Lim { key: "c14", deep: true, call_ops: 10_000, iter: 700, alloc: 40 << 20 };

/// Index records that reference each other in any way: no walk yields an entry more often than it is stored.
fn graph(b: &Bench, lim: Lim, g: &Geo, subs: &[[Option<u64>; 2]], ctx: &mut Ctx) -> R {
    let n = subs.len() - 1;
    let vol = Vol::new(*g, 40);
    let l = 260u64;
    let mut patch = vec![];
    let e = |k: usize, s: Option<u64>| Entry { fref: fref(30, 1), key: Some(FName::new(fref(5, 1), ["m", "a", "g", "p", "w", "z"][k], 1).encode()), sub: s, pad: 0 };
    let node = |k: usize| encode_entries(&[e(k, subs[k][0]), Entry { fref: 0, key: None, sub: subs[k][1], pad: 0 }]);
    let r = vol
        .rec()
        .dir()
        .attr(Attr::res(ty::STD, "", 0, &std_info(16)))
        .attr(Attr::res(ty::ROOT, "$I30", 1, &index_root(&node(0), 512, true, 512)))
        .attr(Attr::non(ty::ALLOC, "$I30", 2, &[run(n as u64, l)], 512, 512 * n as u64));
    patch.push((vol.rec_addr(16), r.build()));
    for k in 1..=n {
        patch.push(((l + k as u64 - 1) * 512, index_record(512, k as u64 - 1, &node(k), true, 7)));
    }
    let mut d = Disk::new(b.rich.img.clone());
    d.patch = patch;
    let what = || format!("index nodes referencing {:?} (root first)", subs);
    ctx.sample(what);
    let dd = d.clone();
    let _ = dd;
    guarded(what, || -> R {
        if lim.alloc > 0 {
            alloc_cap(lim.alloc);
        }
        d.budget = lim.call_ops / 100;
        let f = b.ntfs.file(&mut d, 16).expect("harness: directory");
        let ix = f.directory_index(&mut d).expect("harness: index");
        let mut it = ix.entries();
        let mut items = 0;
        loop {
            d.budget = d.ops + lim.call_ops / 100;
            match it.next(&mut d) {
                None => break,
                Some(Ok(_)) => items += 1,
                Some(Err(_)) => {}
            }
            ctx.step();
            if lim.key != "c14" && items > 1000 {
                break;
            }
            ensure!(lim.key != "c14" || items <= n + 1 && d.ops < 2000, "walk", "{}: the walk yields more entries than there are, or does not end", what());
        }
        for q in ["a", "h", "n", "x", "zz", ""] {
            let mut fi = ix.finder();
            d.budget = d.ops + lim.call_ops / 50;
            let r = NtfsFileNameIndex::find(&mut fi, &b.ntfs, &mut d, q);
            ctx.outcome(&(items, r.map(|r| r.is_ok())));
            ctx.step();
        }
        Ok(())
    })??;
    ctx.state(&subs.to_vec());
    ctx.exec();
    Ok(())
}

/// Structures made to be walked for ever, or to ask for memory without end.
pub fn endless(t: Tier, lim: Lim) -> Vec<Phase> {
    let mut out = vec![];
    let b: Arc<Vec<Bench>> = Arc::new(images::all(images::geos()[0]).into_iter().map(bench).collect());
    let g = images::geos()[0];

    // every graph of index nodes
    for (n, both) in [(1usize, true), (2, true), (3, true), (t.pick(4, 5), false)] {
        let bb = b.clone();
        let m = n + 2; // none, each record, one beyond
        let free = if both { 2 * (n + 1) } else { n + 2 };
        let name = ["1 index record", "2 index records", "3 index records", "index record chains"][if both { n - 1 } else { 3 }];
        let total = m.pow(free as u32);
        let per = total.div_ceil(m * m);
        let name: &'static str = name;
        out.push(Phase::new(
            name,
            format!("all {} ways in which the entries of a root and {} records reference records{}", total, n, if both { "" } else { " (records: first entry only)" }),
            m * m,
            move |i, ctx| {
                for k in i * per..((i + 1) * per).min(total) {
                    let c = |j: usize| {
                        let x = k / m.pow(j as u32) % m;
                        if x == 0 { None } else { Some(x as u64 - 1) }
                    };
                    let subs: Vec<[Option<u64>; 2]> = (0..=n).map(|j| if both { [c(2 * j), c(2 * j + 1)] } else if j == 0 { [c(0), c(1)] } else { [c(j + 1), None] }).collect();
                    graph(&bb[2], lim, &g, &subs, ctx)?;
                }
                Ok(())
            },
        ));
    }

    // attribute lists that reference lists, themselves, or the same attribute again and again
    let bb = b.clone();
    let menu: Vec<(u32, u64, u64, u16)> = vec![
        (ty::STD, 12, 0, 0),
        (ty::LIST, 12, 0, 1),
        (ty::LIST, 13, 0, 1),
        (ty::DATA, 12, 0, 2),
        (ty::DATA, 13, 0, 2),
        (ty::DATA, 13, 1, 2),
        (ty::DATA, 0, 0, 2),
        (ty::DATA, 5, 0, 9),
        (ty::NAME, 1 << 30, 0, 0),
    ];
    let k = t.pick(3u32, 4);
    let nm = menu.len();
    out.push(Phase::new("list graphs", format!("every sequence of up to {} list entries of {} kinds in a base record's list and in its extension record's list, resident or not, repeated up to 40 times", k, nm), nm * nm, move |i, ctx| {
        let vol = Vol::new(g, 40);
        for n in 1..=k {
            for rest in 0..nm.pow(n - 1) {
                if n == 1 && i >= nm {
                    continue;
                }
                if n >= 2 && rest % nm != i / nm {
                    continue;
                }
                let seq: Vec<usize> = std::iter::once(i % nm).chain((0..n - 1).map(|j| rest / nm.pow(j) % nm)).collect();
                for reps in [1usize, 40] {
                    for (non, non2) in [(false, false), (true, false), (true, true)] {
                        let mut list = vec![];
                        for _ in 0..reps {
                            for s in &seq {
                                let (ty, r, lo, inst) = menu[*s];
                                list.extend(list_entry(ty, &[], lo, r, inst));
                            }
                        }
                        let cl = (list.len() as u64).div_ceil(512);
                        if !non && list.len() > 600 {
                            continue;
                        }
                        let l = 300u64;
                        let la = |non: bool| if non { Attr::non(ty::LIST, "", 1, &[run(cl, l)], 512, list.len() as u64) } else { Attr::res(ty::LIST, "", 1, &list) };
                        let mk = |la: Attr| vol.rec().attr(Attr::res(ty::STD, "", 0, &std_info(1))).attr(la).attr(Attr::non(ty::DATA, "", 2, &[run(1, 290), hole(1)], 512, 1000));
                        if !non2 && list.len() > 600 && !non {
                            continue;
                        }
                        let r12 = mk(la(non));
                        let mut patch = vec![(vol.rec_addr(12), r12.build()), (l * 512, list.clone())];
                        if non2 || list.len() <= 600 {
                            patch.push((vol.rec_addr(13), mk(la(non2)).build()));
                        }
                        ctx.state(&(&seq, reps, non, non2));
                        ctx.sample(|| format!("list entries {:?} x {}", seq, reps));
                        attack(&bb[1], lim, patch, &[12], false, ctx, || format!("list entries {:?} x {} {} {}", seq, reps, non, non2))?;
                    }
                }
            }
        }
        Ok(())
    }));

    // sizes without clusters behind them
    let bb = b.clone();
    let sizes: Vec<u64> = vec![0, 1, 511, 512, 513, 131071, 131072, 131073, 1 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 512, 1 << 40, 1 << 52, 1 << 61, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, u64::MAX - 511, u64::MAX - 1, u64::MAX];
    let ns = sizes.len();
    let kinds = [ty::STD, ty::LIST, ty::NAME, ty::OBJID, ty::VOLNAME, ty::VOLINFO, ty::ROOT, ty::ALLOC, ty::DATA];
    let runs: Vec<Vec<u8>> = vec![
        vec![0],
        vec![],
        encode_runs(&[run(1, 300)]),
        encode_runs(&[hole(1)]),
        encode_runs(&[hole(1 << 50)]),
        encode_runs(&[hole(1 << 54)]),
        encode_runs(&[run(1 << 40, 300)]),
        encode_runs(&[run(1 << 40, 1)]),
        encode_runs(&vec![run(1, 300); 60]),
        encode_runs(&[vec![run(1, 12)], vec![hole(1 << 30); 60]].concat()),
        encode_runs(&[run(1, 300), hole(1 << 40), run(1, 301)]),
        vec![0x18, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F, 1, 0],
        vec![0x08, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x00, 8, 1, 0, 0, 0, 0, 0, 0, 0],
    ];
    let nr = runs.len();
    out.push(Phase::new("sizes", format!("{} attribute kinds x {} run lists x {} data sizes x 4 initialized sizes x 4 index record sizes, and as the table of file records", kinds.len(), nr, ns), kinds.len() * nr, move |i, ctx| {
        let vol = Vol::new(g, 40);
        let ty = kinds[i / nr];
        let rl = &runs[i % nr];
        for size in &sizes {
            for init in [0, 1, *size, u64::MAX] {
                for irs in [512u32, 4096, 1 << 25, u32::MAX & !511] {
                    if ty != ty::ALLOC && irs != 512 {
                        continue;
                    }
                    let a = Attr { ty, name: if ty == ty::ALLOC { u16s("$I30") } else { vec![] }, inst: 1, flags: 0, gap: 0, val: Val::Non { runs: rl.clone(), lo: 0, hi: 0, alloc: *size, size: *size, init }, pad: 0 };
                    let es = encode_entries(&[Entry { fref: 0, key: None, sub: Some(0), pad: 0 }]);
                    let r = vol.rec().dir().attr(Attr::res(ty::STD, "", 0, &std_info(16))).attr(Attr::res(ty::ROOT, "$I30", 5, &index_root(&es, irs, true, 512))).attr(a.clone());
                    ctx.state(&(i, size, init, irs));
                    attack(&bb[2], lim, vec![(vol.rec_addr(16), r.build())], &[16], false, ctx, || format!("attribute {:x} of size {} initialized {} index record size {}", ty, size, init, irs))?;
                    if ty == ty::DATA {
                        // the table itself, and the uppercase table
                        let r = vol.rec().attr(a);
                        for n in [0u64, 10] {
                            attack(&bb[2], lim, vec![(vol.rec_addr(n), r.build())], &[0, 16, 1 << 20, 1 << 40, u64::MAX], true, ctx, || format!("record {} with data of size {} initialized {}", n, size, init))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }));

    out
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut out = endless(t, LIM);
    out.extend(crate::hostile::phases(t, LIM));
    (out, Opts { alloc_cap: 300 << 20, watchdog_cpu_s: 15.0, ..Default::default() })
}
