//! C17: live handles never influence each other nor depend on the reader's position.
use crate::disk::*;
use crate::dump::{self, Out};
use crate::engine::*;
use crate::hostile::{bench, Bench};
use crate::images;

use crate::{ensure, ensure_eq};
use binrw::io::{Read, Seek, SeekFrom};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::{NtfsAttribute, NtfsAttributeItem, NtfsError, NtfsFile, NtfsIndex, NtfsReadSeek};
use std::fmt::Debug;
use std::sync::Arc;

type B = Vec<u8>;
/// One step of a handle: what it delivers, or nothing more.
type Step<'a> = Box<dyn FnMut(&mut Disk) -> Option<B> + 'a>;
type Make<'a> = Box<dyn Fn() -> Step<'a> + 'a>;

/// Where the reader is moved before a call.
const MOVES: [fn(u64, &mut Disk); 8] = [
    |_, _| {},
    |_, d| d.pos = 0,
    |_, d| d.pos = d.end,
    |_, d| d.pos = u64::MAX,
    |n, d| d.pos = mix(n) % d.end,
    |_, d| d.pos = d.pos.wrapping_add(1),
    |_, d| d.pos = d.pos.saturating_sub(512),
    |n, d| d.pos = if n % 2 == 0 { d.end / 2 } else { d.pos },
];

fn b<T: Debug>(x: T) -> B {
    format!("{:?}", x).into_bytes()
}
fn err(e: &NtfsError) -> B {
    // where an error is does not matter
    match e {
        NtfsError::Io(e) => b(("io", e.kind())),
        _ => b"error".to_vec(),
    }
}
fn at(p: ntfs::types::NtfsPosition) -> u64 {
    p.value().map_or(0, |p| p.get())
}
fn attr(a: &NtfsAttribute) -> B {
    b((at(a.position()), a.ty().map(|t| t as u32).ok(), a.value_length(), a.instance(), a.name().map(|n| n.to_string_lossy()).ok()))
}
fn read(v: &mut NtfsAttributeValue, d: &mut Disk, n: usize) -> B {
    let mut buf = vec![0; n];
    match v.read(d, &mut buf) {
        Ok(k) => {
            buf.truncate(k);
            buf.extend(b((v.stream_position(), at(v.data_position()))));
            buf
        }
        Err(e) => err(&e),
    }
}
/// A little of everything a value can do.
fn value_step(v: &mut NtfsAttributeValue, k: usize, n: usize, d: &mut Disk) -> B {
    match k % 5 {
        3 => match v.seek(d, SeekFrom::Current(-(n as i64) / 3)) {
            Ok(p) => b((p, at(v.data_position()))),
            Err(e) => err(&e),
        },
        4 => match v.seek(d, if n % 2 == 0 { SeekFrom::End(-(3 * n as i64)) } else { SeekFrom::Start(n as u64 / 2) }) {
            Ok(p) => b((p, at(v.data_position()))),
            Err(e) => err(&e),
        },
        _ => read(v, d, n),
    }
}

/// What stays open during a history.
struct World<'a> {
    b: &'a Bench,
    files: Vec<NtfsFile<'a>>,
}
impl<'a> World<'a> {
    fn new(b: &'a Bench) -> World<'a> {
        let mut d = Disk::new(b.rich.img.clone());
        let files = b.rich.recs.iter().filter_map(|r| b.ntfs.file(&mut d, *r).ok()).collect();
        World { b, files }
    }
}
struct Open<'w> {
    items: Vec<NtfsAttributeItem<'w, 'w>>,
    indexes: Vec<NtfsIndex<'w, 'w, NtfsFileNameIndex>>,
}
impl<'w> Open<'w> {
    fn new(w: &'w World<'w>) -> Open<'w> {
        let mut d = Disk::new(w.b.rich.img.clone());
        let mut items = vec![];
        let mut indexes = vec![];
        for f in &w.files {
            let mut it = f.attributes();
            while let Some(i) = it.next(&mut d) {
                items.extend(i.ok());
            }
            indexes.extend(f.directory_index(&mut d).ok());
        }
        Open { items, indexes }
    }
}
/// All handles.
fn handles<'x>(w: &'x World<'x>, o: &'x Open<'x>) -> Vec<(String, Make<'x>)> {
    let mut out: Vec<(String, Make<'x>)> = vec![];
    for (i, item) in o.items.iter().enumerate() {
        let Ok(a) = item.to_attribute() else { continue };
        let t = a.ty().map_or(0, |t| t as u32);
        // values
        if t == 0x80 || t == 0xA0 || i % 4 == 1 {
            let sizes: &[usize] = if a.is_resident() { &[11] } else { &[700, 1100] };
            for n in sizes {
                let n = *n;
                out.push((
                    format!("value of attribute {} ({:#x}), {} bytes at a time", i, t, n),
                    Box::new(move || {
                        let mut v: Option<NtfsAttributeValue> = None;
                        let mut k = 0;
                        Box::new(move |d| {
                            k += 1;
                            match &mut v {
                                None => match item.to_attribute().unwrap().value(d) {
                                    Ok(x) => {
                                        let r = b((x.len(), at(x.data_position())));
                                        v = Some(x);
                                        Some(r)
                                    }
                                    Err(e) => Some(err(&e)),
                                },
                                Some(v) => Some(value_step(v, k, n, d)),
                            }
                        })
                    }),
                ));
            }
            // attached to the reader for each step
            out.push((
                format!("value of attribute {} ({:#x}), attached each time", i, t),
                Box::new(move || {
                    let mut v: Option<NtfsAttributeValue> = None;
                    let mut k = 0;
                    Box::new(move |d| {
                        k += 1;
                        let x = match v.take() {
                            Some(x) => x,
                            None => match item.to_attribute().unwrap().value(d) {
                                Ok(x) => x,
                                Err(e) => return Some(err(&e)),
                            },
                        };
                        let mut x = x.attach(d);
                        let mut buf = vec![0; 600];
                        let r = if k % 3 == 2 { x.seek(SeekFrom::Current(-77)).map(|p| b(p)) } else { x.read(&mut buf).map(|n| buf[..n].to_vec()) };
                        let r = r.unwrap_or_else(|e| b(e.kind()));
                        let r = [r, b((x.stream_position().ok(), at(x.data_position())))].concat();
                        v = Some(x.detach());
                        Some(r)
                    })
                }),
            ));
        }
        if t == 0xA0 {
            for irs in [1024u32, 4096] {
                out.push((
                    format!("index records of {} bytes of attribute {}", irs, i),
                    Box::new(move || {
                        let mut v: Option<Option<NtfsIndexRecords>> = None;
                        Box::new(move |d| {
                            let v = v.get_or_insert_with(|| item.to_attribute().unwrap().structured_value::<_, NtfsIndexAllocation>(d).ok().map(|v| v.records(irs)));
                            v.as_mut()?.next(d).map(|r| match r {
                                Ok(r) => b((r.vcn().value(), r.has_subnodes(), r.index_data_size(), r.entries::<NtfsFileNameIndex>().map(|e| e.map(|e| e.map(|e| at(e.position())).unwrap_or(1)).collect::<Vec<_>>()).unwrap_or_default())),
                                Err(e) => err(&e),
                            })
                        })
                    }),
                ));
            }
            out.push((
                format!("single index records of attribute {}", i),
                Box::new(move || {
                    let mut k = 0i64;
                    Box::new(move |d| {
                        k += 1;
                        match item.to_attribute().unwrap().structured_value::<_, NtfsIndexAllocation>(d) {
                            Ok(v) => Some(match v.record_from_vcn(d, 1024, ntfs::types::Vcn::from(k * 5 % 7)) {
                                Ok(r) => b((r.vcn().value(), r.index_data_size())),
                                Err(e) => err(&e),
                            }),
                            Err(e) => Some(err(&e)),
                        }
                    })
                }),
            ));
        }
    }
    for (i, f) in w.files.iter().enumerate() {
        out.push((
            format!("attributes of record {}", f.file_record_number()),
            Box::new(move || {
                let mut it = f.attributes();
                Box::new(move |d| {
                    it.next(d).map(|x| match x {
                        Ok(x) => match x.to_attribute() {
                            Ok(a) => attr(&a),
                            Err(e) => err(&e),
                        },
                        Err(e) => err(&e),
                    })
                })
            }),
        ));
        out.push((
            format!("attributes of record {}, attached", f.file_record_number()),
            Box::new(move || {
                let mut it = Some(f.attributes());
                Box::new(move |d| {
                    let mut a = it.take()?.attach(d);
                    let r = a.next().map(|x| match x {
                        Ok(x) => match x.to_attribute() {
                            Ok(a) => attr(&a),
                            Err(e) => err(&e),
                        },
                        Err(e) => err(&e),
                    });
                    it = Some(a.detach());
                    r
                })
            }),
        ));
        out.push((
            format!("names and data of record {}", f.file_record_number()),
            Box::new(move || {
                let mut k = 0;
                Box::new(move |d| {
                    k += 1;
                    match k % 4 {
                        0 => f.name(d, None, None).map(|n| n.map_or_else(|e| err(&e), |n| b(n.name().to_string_lossy()))).or(Some(vec![])),
                        1 => f.name(d, Some(NtfsFileNamespace::Win32), None).map(|n| n.map_or_else(|e| err(&e), |n| b(n.name().to_string_lossy()))).or(Some(vec![])),
                        n => f.data(d, if n == 2 { "" } else { "S2" }).map(|n| n.map_or_else(|e| err(&e), |n| n.to_attribute().map_or_else(|e| err(&e), |a| attr(&a)))).or(Some(vec![])),
                    }
                })
            }),
        ));
        if let Some(a) = f.attributes_raw().flatten().find(|a| a.ty().is_ok_and(|t| t as u32 == 0x20)) {
            let inst = a.instance();
            out.push((
                format!("attribute list of record {}", f.file_record_number()),
                Box::new(move || {
                    let mut it: Option<NtfsAttributeListEntries> = None;
                    Box::new(move |d| {
                        if it.is_none() {
                            let a = f.attributes_raw().flatten().find(|a| a.instance() == inst && a.ty().is_ok_and(|t| t as u32 == 0x20)).unwrap();
                            match a.structured_value::<_, NtfsAttributeList>(d) {
                                Ok(l) => it = Some(l.entries()),
                                Err(e) => return Some(err(&e)),
                            }
                        }
                        it.as_mut().unwrap().next(d).map(|e| match e {
                            Ok(e) => b((at(e.position()), e.instance(), e.base_file_reference().file_record_number(), e.lowest_vcn().value())),
                            Err(e) => err(&e),
                        })
                    })
                }),
            ));
        }
        if i == 0 {
            let (n, recs) = (&w.b.ntfs, &w.b.rich.recs);
            out.push((
                "opening files".into(),
                Box::new(move || {
                    let mut k = 0;
                    Box::new(move |d| {
                        k += 1;
                        Some(match n.file(d, recs[k % recs.len()]) {
                            Ok(f) => b((f.file_record_number(), f.data_size(), at(f.position()), f.attributes_raw().count())),
                            Err(e) => err(&e),
                        })
                    })
                }),
            ));
            out.push((
                "volume information".into(),
                Box::new(move || {
                    let mut k = 0;
                    Box::new(move |d| {
                        k += 1;
                        Some(match k % 3 {
                            0 => n.volume_info(d).map_or_else(|e| err(&e), |v| b((v.major_version(), v.flags()))),
                            1 => n.volume_name(d).map_or(vec![], |v| v.map_or_else(|e| err(&e), |v| b(v.name().to_string_lossy()))),
                            _ => n.root_directory(d).map_or_else(|e| err(&e), |f| b((f.file_record_number(), at(f.position())))),
                        })
                    })
                }),
            ));
        }
    }
    for (i, ix) in o.indexes.iter().enumerate() {
        out.push((
            format!("entries of directory {}", i),
            Box::new(move || {
                let mut it = ix.entries();
                Box::new(move |d| {
                    it.next(d).map(|e| match e {
                        Ok(e) => b((at(e.position()), e.file_reference().file_record_number(), e.key().map(|k| k.map_or(String::new(), |k| k.name().to_string_lossy())))),
                        Err(e) => err(&e),
                    })
                })
            }),
        ));
        let (n, mut names) = (&w.b.ntfs, w.b.rich.names.clone());
        names.extend(["m", "s", "p", "g"].map(String::from));
        out.push((
            format!("lookups in directory {}", i),
            Box::new(move || {
                let mut f = ix.finder();
                let names = names.clone();
                let mut k = 0;
                Box::new(move |d| {
                    k += 3;
                    Some(match NtfsFileNameIndex::find(&mut f, n, d, &names[k % names.len()]) {
                        None => vec![],
                        Some(Ok(e)) => b((at(e.position()), e.to_file(n, d).map_or(0, |f| f.file_record_number()))),
                        Some(Err(e)) => err(&e),
                    })
                })
            }),
        ));
    }
    out
}

/// Every interleaving of the given handles.
fn interleave(bn: &Bench, who: &[usize], depth: usize, moves: usize, ctx: &mut Ctx) -> R {
    let w = World::new(bn);
    let o = Open::new(&w);
    let hs = handles(&w, &o);
    // alone, with a reader of its own
    let alone: Vec<Vec<Option<B>>> = who
        .iter()
        .map(|h| {
            let mut d = Disk::new(bn.rich.img.clone());
            let mut s = hs[*h].1();
            (0..depth).map(|_| s(&mut d)).collect()
        })
        .collect();
    ctx.sample(|| format!("{} volume: {}", bn.rich.name, who.iter().map(|h| hs[*h].0.clone()).collect::<Vec<_>>().join(" | ")));
    let m = ctx.choose(moves);
    // all schedules, depth first
    let n = who.len();
    let mut sched = vec![0usize; n * depth];
    fn next(s: &mut [usize], n: usize, depth: usize) -> bool {
        // next permutation of the multiset
        let _ = (n, depth);
        let Some(i) = (0..s.len() - 1).rev().find(|i| s[*i] < s[i + 1]) else { return false };
        let j = (0..s.len()).rev().find(|j| s[*j] > s[i]).unwrap();
        s.swap(i, j);
        s[i + 1..].reverse();
        true
    }
    for (i, x) in sched.iter_mut().enumerate() {
        *x = i / depth;
    }
    loop {
        let mut d = Disk::new(bn.rich.img.clone());
        let mut live: Vec<Step> = who.iter().map(|h| hs[*h].1()).collect();
        let mut k = vec![0usize; n];
        for (i, x) in sched.iter().enumerate() {
            MOVES[m](i as u64, &mut d);
            let got = live[*x](&mut d);
            if got != alone[*x][k[*x]] {
                let show = |x: &Option<B>| x.as_ref().map(|b| String::from_utf8_lossy(b).chars().take(120).collect::<String>());
                return fail(
                    "c17-interleaving",
                    format!("{} volume, {} with steps {:?}, reader moved ({}): step {} delivers {:?} instead of {:?}", bn.rich.name, who.iter().map(|h| hs[*h].0.clone()).collect::<Vec<_>>().join(" | "), sched, m, i, show(&got), show(&alone[*x][k[*x]])),
                );
            }
            k[*x] += 1;
            ctx.step();
        }
        ctx.exec();
        if !next(&mut sched, n, depth) {
            break;
        }
    }
    ctx.state(&(bn.rich.name, bn.ntfs.cluster_size(), who, m));
    ctx.outcome(&alone);
    Ok(())
}

/// A clone made after any number of steps goes on on its own.
fn clones<H: Clone>(what: &str, img: &Arc<Img>, h0: H, step: &dyn Fn(&mut H, &mut Disk, usize) -> Option<B>, n: usize, ctx: &mut Ctx) -> R {
    let mut d = Disk::new(img.clone());
    let mut h = h0.clone();
    let all: Vec<Option<B>> = (0..n + 6).map(|k| step(&mut h, &mut d, k)).collect();
    for k in 0..=n {
        for first in 1..=4usize {
            // every schedule of so many steps of the original, and of the clone
            for s in 0..1u32 << 6 {
                if s.count_ones() as usize != first {
                    continue;
                }
                for m in [0, 4] {
                    let mut d = Disk::new(img.clone());
                    let mut h = h0.clone();
                    for i in 0..k {
                        step(&mut h, &mut d, i);
                    }
                    let mut two = [h.clone(), h];
                    let mut pos = [k, k];
                    for i in 0..6 {
                        let x = (s >> i & 1) as usize;
                        MOVES[m](i as u64, &mut d);
                        let got = step(&mut two[x], &mut d, pos[x]);
                        ensure!(got == all[pos[x]], "c17-clone", "{}: cloned after {} steps, steps {:06b} (1 = original), step {} delivers {:?} instead of {:?}", what, k, s, i, got.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()), all[pos[x]].as_ref().map(|b| String::from_utf8_lossy(b).into_owned()));
                        pos[x] += 1;
                        ctx.step();
                    }
                    ctx.exec();
                }
            }
        }
        ctx.state(&(what, k));
    }
    ctx.outcome(&all);
    Ok(())
}
fn all_clones(bn: &Bench, ctx: &mut Ctx) -> R {
    let w = World::new(bn);
    let o = Open::new(&w);
    let img = &bn.rich.img;
    let mut d = Disk::new(img.clone());
    for (i, item) in o.items.iter().enumerate() {
        let what = |s: &str| format!("{} volume ({}), attribute {}: {}", bn.rich.name, bn.ntfs.cluster_size(), i, s);
        let Ok(a) = item.to_attribute() else { continue };
        if let Ok(v) = a.value(&mut d) {
            for n in [300usize, 1024] {
                clones(&what("value"), img, v.clone(), &|v, d, k| Some(value_step(v, k, n, d)), 5, ctx)?;
            }
            match &v {
                NtfsAttributeValue::NonResident(x) => {
                    clones(&what("data runs"), img, x.data_runs(), &|r, _, _| r.next().map(|r| r.map_or_else(|e| err(&e), |r| b((at(r.data_position()), r.allocated_size())))), 4, ctx)?;
                    if let Some(Ok(r)) = x.data_runs().next() {
                        clones(
                            &what("data run"),
                            img,
                            r,
                            &|r, d, k| {
                                let mut buf = vec![0; 100 + k];
                                Some(match r.read(d, &mut buf) {
                                    Ok(n) => [&buf[..n], &b(at(r.data_position()))].concat(),
                                    Err(e) => err(&e),
                                })
                            },
                            3,
                            ctx,
                        )?;
                    }
                }
                _ => {}
            }
        }
        if let Ok(v) = a.structured_value::<_, NtfsIndexAllocation>(&mut d) {
            clones(&what("index records"), img, v.records(1024), &|r, d, _| r.next(d).map(|r| r.map_or_else(|e| err(&e), |r| b((r.vcn().value(), r.index_data_size())))), 4, ctx)?;
        }
    }
    for f in &w.files {
        let what = |s: &str| format!("{} volume ({}), record {}: {}", bn.rich.name, bn.ntfs.cluster_size(), f.file_record_number(), s);
        clones(&what("attributes"), img, f.attributes(), &|r, d, _| r.next(d).map(|r| r.and_then(|r| r.to_attribute().map(|a| attr(&a))).unwrap_or_else(|e| err(&e))), 8, ctx)?;
        clones(&what("raw attributes"), img, f.attributes_raw(), &|r, _, _| r.next().map(|r| r.map_or_else(|e| err(&e), |r| attr(&r))), 4, ctx)?;
        if let Some(a) = f.attributes_raw().flatten().find(|a| a.ty().is_ok_and(|t| t as u32 == 0x20)) {
            if let Ok(l) = a.structured_value::<_, NtfsAttributeList>(&mut d) {
                clones(&what("attribute list"), img, l.entries(), &|r, d, _| r.next(d).map(|r| r.map_or_else(|e| err(&e), |r| b((at(r.position()), r.instance())))), 7, ctx)?;
            }
        }
    }
    for (i, ix) in o.indexes.iter().enumerate() {
        let what = |s: &str| format!("{} volume ({}), directory {}: {}", bn.rich.name, bn.ntfs.cluster_size(), i, s);
        clones(&what("entries"), img, ix.entries(), &|r, d, _| r.next(d).map(|r| r.map_or_else(|e| err(&e), |r| b((at(r.position()), r.file_reference().file_record_number())))), 13, ctx)?;
        let e = ix.clone();
        clones(&what("index"), img, e, &|r, d, k| r.finder().find(d, |_| if k % 2 == 0 { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }).map(|e| e.map_or_else(|e| err(&e), |e| b(at(e.position())))), 2, ctx)?;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Part {
    Mount,
    Volume,
    Rec(u64),
}
fn parts(b: &Bench) -> Vec<Part> {
    [Part::Mount, Part::Volume].into_iter().chain(b.rich.recs.iter().map(|r| Part::Rec(*r))).collect()
}
fn act(b: &Bench, p: Part, d: &mut Disk, o: &mut Out) {
    let _ = match p {
        Part::Mount => dump::mount(d, o).map(|_| ()),
        Part::Volume => dump::volume(&b.ntfs, d, o),
        Part::Rec(r) => dump::file(&b.ntfs, r, d, o),
    };
}
fn out(b: &Bench) -> Out {
    let mut o = Out::new();
    o.names = b.rich.names.clone();
    o.deep = true;
    o
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut ph = vec![];
    let benches: Arc<Vec<Bench>> = Arc::new(images::geos().into_iter().flat_map(images::all).chain(crate::real::rich()).map(bench).collect());
    {
        let b = benches.clone();
        let its: Vec<(usize, Part)> = benches.iter().enumerate().flat_map(|(i, b)| parts(b).into_iter().map(move |p| (i, p))).collect();
        ph.push(Phase::new("reader position", format!("everything the library does with 10 volumes x {} ways to move the reader before every call", MOVES.len()), its.len(), move |i, ctx| {
            let b = &b[its[i].0];
            let p = its[i].1;
            let run = |pos: u64, m: usize| {
                let mut d = Disk::new(b.rich.img.clone());
                d.pos = pos;
                let mut o = out(b);
                o.scramble = Some(MOVES[m]);
                act(b, p, &mut d, &mut o);
                o
            };
            let want = run(0, 0);
            for m in 0..MOVES.len() {
                for pos in [0, 1, 511, 512, 4096, b.rich.img.size - 1, b.rich.img.size, 1 << 40, u64::MAX] {
                    let got = run(pos, m);
                    ensure_eq!((got.hash, got.count), (want.hash, want.count), "c17-position", "{} volume ({}), {:?}, reader at {:#x}, moved before every call ({})", b.rich.name, b.ntfs.cluster_size(), p, pos, m);
                    ctx.steps(got.calls);
                    ctx.state(&(i, m, pos));
                    ctx.exec();
                }
            }
            Ok(())
        }));
    }
    {
        let b = benches.clone();
        let its: Vec<(usize, Part)> = benches.iter().enumerate().flat_map(|(i, b)| parts(b).into_iter().map(move |p| (i, p))).collect();
        ph.push(Phase::new("what was read before", "every part of 10 volumes after every sequence of two other parts, over one reader", its.len(), move |i, ctx| {
            let b = &b[its[i].0];
            let p = its[i].1;
            let mut want = out(b);
            act(b, p, &mut Disk::new(b.rich.img.clone()), &mut want);
            for x in parts(b) {
                for y in parts(b) {
                    let mut d = Disk::new(b.rich.img.clone());
                    act(b, x, &mut d, &mut out(b));
                    act(b, y, &mut d, &mut out(b));
                    let mut got = out(b);
                    act(b, p, &mut d, &mut got);
                    ensure_eq!((got.hash, got.count), (want.hash, want.count), "c17-before", "{} volume ({}), {:?} after {:?} and {:?}", b.rich.name, b.ntfs.cluster_size(), p, x, y);
                    ctx.steps(3);
                    ctx.state(&(i, x, y));
                    ctx.exec();
                }
            }
            Ok(())
        }));
    }
    {
        let b = benches.clone();
        ph.push(Phase::new("clones", "every kind of handle of 10 volumes, cloned after every number of steps, every schedule of 6 steps of both", benches.len(), move |i, ctx| all_clones(&b[i], ctx)));
    }
    for (name, n, depth) in [("two handles", 2usize, t.pick(4usize, 6)), ("three handles", 3, t.pick(2, 3))] {
        let b = benches.clone();
        let mut its: Vec<(usize, Vec<usize>)> = vec![];
        for (i, b) in benches.iter().enumerate() {
            let w = World::new(b);
            let o = Open::new(&w);
            let h = handles(&w, &o).len();
            for x in 0..h {
                for y in x..h {
                    if n == 2 {
                        its.push((i, vec![x, y]));
                    } else {
                        for z in y..h {
                            // all triples of the first geometry
                            if i < 3 {
                                its.push((i, vec![x, y, z]));
                            }
                        }
                    }
                }
            }
        }
        let items = its.len();
        // the other ways to move it are covered with fewer steps
        let moves = if n == 3 && t.thorough() { 3 } else { MOVES.len() };
        ph.push(Phase::new(name, format!("{} groups of handles, every interleaving of {} steps each, {} ways to move the reader", items, depth, moves), items, move |i, ctx| interleave(&b[its[i].0], &its[i].1, depth, moves, ctx)));
    }
    (ph, Opts::default())
}
