//! What is done with the library in both of its builds, case by case, each reduced to a fingerprint.
//! Uses nothing but the library and binrw::io.
#![allow(dead_code)]
use crate::disk::*;
use crate::dump::{self, Out};
use crate::hash::{fp, mix};
use crate::images::{self, Rich};
use crate::img::*;
use crate::lay::*;
use crate::tree;
use binrw::io::{ErrorKind, SeekFrom};
use nt_string::u16strle::U16StrLe;
use ntfs::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub struct Sink {
    pub hashes: Vec<u64>,
    /// describe that case only
    pub tell: Option<usize>,
    pub told: String,
}
impl Sink {
    pub fn new() -> Sink {
        Sink { hashes: vec![], tell: None, told: String::new() }
    }
    fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> u64) {
        if let Some(t) = self.tell {
            if t == self.hashes.len() {
                let h = catch_unwind(AssertUnwindSafe(f)).unwrap_or(0xDEAD);
                self.told = format!("{} ({:x})", desc(), h);
            }
            self.hashes.push(0);
            return;
        }
        // a panic is the same in both builds
        self.hashes.push(catch_unwind(AssertUnwindSafe(f)).unwrap_or(0xDEAD));
    }
}
pub struct Set {
    pub name: &'static str,
    pub bound: String,
    pub items: usize,
    pub run: Box<dyn Fn(usize, &mut Sink) + Send + Sync>,
}

struct Bench {
    rich: Rich,
    ntfs: Ntfs,
}
fn benches() -> Vec<Bench> {
    images::geos()
        .into_iter()
        .flat_map(images::all)
        .chain(crate::real::rich())
        .map(|rich| {
            let mut d = Disk::new(rich.img.clone());
            let mut ntfs = Ntfs::new(&mut d).expect("harness: mount");
            ntfs.read_upcase_table(&mut d).expect("harness: uppercase table");
            Bench { rich, ntfs }
        })
        .collect()
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    Mount,
    Volume,
    Rec(u64),
}
fn acts(b: &Bench) -> Vec<Act> {
    [Act::Mount, Act::Volume].into_iter().chain(b.rich.recs.iter().map(|r| Act::Rec(*r))).collect()
}
fn act(b: &Bench, a: Act, d: &mut Disk) -> u64 {
    let mut o = Out::new();
    o.names = b.rich.names.clone();
    o.deep = true;
    o.max_iter = 700;
    let _ = match a {
        Act::Mount => dump::mount(d, &mut o).and_then(|n| n.map_or(Ok(()), |n| dump::volume(&n, d, &mut o))),
        Act::Volume => dump::volume(&b.ntfs, d, &mut o),
        Act::Rec(r) => dump::file(&b.ntfs, r, d, &mut o),
    };
    o.hash ^ mix(o.count) ^ o.endless.map_or(0, |e| e.len() as u64)
}

pub fn sets(thorough: bool) -> Vec<Set> {
    let mut out: Vec<Set> = vec![];
    let mut add = |name: &'static str, bound: String, items: usize, run: Box<dyn Fn(usize, &mut Sink) + Send + Sync>| out.push(Set { name, bound, items, run });
    let bs = Arc::new(benches());
    let acted: Vec<(usize, Act)> = bs.iter().enumerate().flat_map(|(i, b)| acts(b).into_iter().map(move |a| (i, a))).collect();

    {
        let (bs, acted) = (bs.clone(), acted.clone());
        add(
            "everything",
            "everything the library does with 10 volumes, under 40 ways of answering reads".into(),
            acted.len(),
            Box::new(move |i, s| {
                let (b, a) = (&bs[acted[i].0], acted[i].1);
                let mut st = vec![Style::Full, Style::Intr];
                for n in [1u64, 2, 3, 5, 7, 8, 16, 64, 100, 300, 511, 512, 513, 1000, 1024, 4095, 4096, 5000, 65536] {
                    st.push(Style::Max(n));
                    st.push(Style::Block(n));
                }
                for x in st {
                    s.case(
                        || format!("{} volume, {:?}, reads {:?}", b.rich.name, a, x),
                        || {
                            let mut d = Disk::new(b.rich.img.clone());
                            d.style = x;
                            act(b, a, &mut d)
                        },
                    );
                }
            }),
        );
    }
    {
        let (bs, acted) = (bs.clone(), acted.clone());
        let kinds = [ErrorKind::PermissionDenied, ErrorKind::NotFound, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::Other, ErrorKind::TimedOut];
        let step = if thorough { 1 } else { 3 };
        add(
            "bad sectors and truncation",
            "every part of the volume that is read being unreadable or beyond the end of the image".into(),
            acted.len(),
            Box::new(move |i, s| {
                let (b, a) = (&bs[acted[i].0], acted[i].1);
                let mut d = Disk::new(b.rich.img.clone());
                d.trace = Some(vec![]);
                act(b, a, &mut d);
                // how the reads are split up is up to the build
                let mut at: Vec<u64> = d.trace.unwrap().iter().filter(|t| t.0 && t.1 < b.rich.img.size).flat_map(|t| (t.1 / 128..=(t.1 + t.2.min(8192) as u64) / 128).map(|x| x * 128)).collect();
                at.sort();
                at.dedup();
                for (k, x) in at.iter().enumerate() {
                    if k % step != i % step {
                        continue;
                    }
                    let kind = kinds[k / step % kinds.len()];
                    for (n, bad) in [(1u64, true), (128, true), (512, true), (0, false), (5, false)] {
                        s.case(
                            || format!("{} volume, {:?}, {} {:#x} {} {:?}", b.rich.name, a, if bad { "bad from" } else { "end at" }, x, n, kind),
                            || {
                                let mut d = Disk::new(b.rich.img.clone());
                                d.kind = kind;
                                if bad {
                                    d.bad = Some((*x, x + n));
                                } else {
                                    d.end = (x + n).min(b.rich.img.size);
                                }
                                act(b, a, &mut d)
                            },
                        );
                    }
                }
            }),
        );
    }
    {
        // every byte of every structure
        let bs2 = bs.clone();
        let parts: Vec<(usize, usize)> = bs.iter().enumerate().flat_map(|(i, b)| (0..b.rich.parts.len()).map(move |p| (i, p))).collect();
        add(
            "damaged bytes",
            format!("every byte of every structure of 10 volumes replaced by {} others, every known field by {} values", if thorough { 255 } else { 9 }, if thorough { 60 } else { 20 }),
            parts.len(),
            Box::new(move |i, s| {
                let b = &bs2[parts[i].0];
                let p = &b.rich.parts[parts[i].1];
                let mut patch = |at: u64, v: Vec<u8>| {
                    let case = || format!("{} volume, {} with {:x?} at {:#x}", b.rich.name, p.name, v, at);
                    let go = || {
                        let mut h = 0;
                        let mut d = Disk::new(b.rich.img.clone());
                        d.patch = vec![(at, v.clone())];
                        if p.mount {
                            h = act(b, Act::Mount, &mut d);
                        }
                        if p.recs.contains(&3) {
                            h = mix(h ^ act(b, Act::Volume, &mut d));
                        }
                        for r in &p.recs {
                            h = mix(h ^ act(b, Act::Rec(*r), &mut d));
                        }
                        h
                    };
                    s.case(case, go);
                };
                for o in 0..p.len {
                    let at = p.addr + o as u64;
                    let was = b.rich.img.get(at, 1)[0];
                    let vals: Vec<u8> = if thorough { (0..=255).collect() } else { vec![0, 1, 8, 0x7F, 0x80, 0xFF, was ^ 1, was ^ 0x10, was.wrapping_add(8)] };
                    for v in vals {
                        patch(at, vec![v]);
                    }
                }
                for (o, w) in &p.fields {
                    let at = p.addr + *o as u64;
                    let mut x = [0u8; 8];
                    x[..*w].copy_from_slice(&b.rich.img.get(at, *w));
                    let was = u64::from_le_bytes(x);
                    let m = if *w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
                    let mut vals = vec![0, 1, m, m >> 1, (m >> 1) + 1, was.wrapping_add(8), was.wrapping_sub(8), was.wrapping_add(1), was.wrapping_sub(1), 16, 24, 255, 256, 512, 1024, 4096, 65535, 65536, m - 7, m - 15];
                    if thorough {
                        vals.extend((0..8 * *w as u32).map(|k| 1u64 << k));
                        vals.extend((0..8 * *w as u32).map(|k| was ^ 1u64 << k));
                    }
                    for v in vals {
                        patch(at, (v & m).to_le_bytes()[..*w].to_vec());
                    }
                }
            }),
        );
    }
    {
        // values
        let g = Geo { ss: 512, cs: 512, rs: 1024, clusters: 1 << 20 };
        let first = (1 << 20) / 512 + 64;
        let mut lays = vec![];
        for rs in run_lists(if thorough { 3 } else { 2 }, &[1, 2], first, 4) {
            let total = runs_clusters(&rs) * 512;
            for size in sizes(total, 512) {
                for init in inits(size, 512) {
                    lays.push(Lay { geo: g, kind: Kind::Non { runs: rs.clone(), size, init, place: Place::default() } });
                    if rs.len() > 1 && size > 0 {
                        let mut ext = vec![1; rs.len()];
                        for (in_base, list_nonres) in [(0, false), (1, true)] {
                            lays.push(Lay { geo: g, kind: Kind::Non { runs: rs.clone(), size, init, place: Place { ext: ext.clone(), in_base, list_nonres, decoy: false } } });
                        }
                        ext.clear();
                    }
                }
            }
        }
        for len in [0usize, 1, 7, 8, 100, 400] {
            lays.push(Lay { geo: g, kind: Kind::Res { len, place: Place::default() } });
        }
        let n = lays.len();
        add(
            "values",
            format!("{} value layouts, every pair of reads and seeks between positions where something changes", n),
            n,
            Box::new(move |i, s| {
                let b = lays[i].build();
                let mut d = b.disk();
                let len = b.content.len();
                let mut ops: Vec<(u8, i64)> = vec![(0, 0), (0, 1), (0, 700), (3, 5), (3, 600), (1, -3), (1, 1), (1, i64::MIN), (1, i64::MAX), (2, 0), (2, -1), (2, 7), (2, i64::MIN)];
                for x in b.content.bounds() {
                    ops.extend([(4, x as i64), (4, x as i64 + 1), (0, x as i64)]);
                }
                ops.extend([(4, -1), (4, len as i64 / 2)]);
                for x in &ops {
                    for y in &ops {
                        s.case(
                            || format!("{}: {:?} {:?}", lays[i].desc(), x, y),
                            || {
                                let r = b.with_attr(&mut d, |a, d| -> Result<u64, NtfsError> {
                                    let mut h = 0;
                                    let mut v = a.value(d)?;
                                    for (k, n) in [x, y, &(0, 333)] {
                                        let r = match k {
                                            0 | 3 => {
                                                let mut buf = vec![0; (*n as usize).min(5000)];
                                                let r = if *k == 0 { v.read(d, &mut buf) } else { v.read_exact(d, &mut buf).map(|_| 0) };
                                                h = mix(h ^ fp(&buf));
                                                r.map(|n| n as u64)
                                            }
                                            1 => v.seek(d, SeekFrom::Current(*n)),
                                            2 => v.seek(d, SeekFrom::End(*n)),
                                            _ => v.seek(d, SeekFrom::Start(*n as u64)),
                                        };
                                        h = mix(h ^ result(r) ^ v.stream_position() ^ v.data_position().value().map_or(0, |p| p.get()) << 1);
                                    }
                                    Ok(h)
                                });
                                result(r.and_then(|r| r))
                            },
                        );
                    }
                }
            }),
        );
    }
    {
        // directories
        let mut shapes = vec![];
        for n in 0..=(if thorough { 6 } else { 5 }) {
            shapes.extend(tree::shapes(n, 3, false));
        }
        let n = shapes.len();
        add(
            "directories",
            format!("{} directory trees: all entries, and lookups of all names in several spellings", n),
            n,
            Box::new(move |i, s| {
                for (cs, irs) in [(512u32, 1024u32), (4096, 1024), (1024, 4096)] {
                    let l = tree::TreeLay::new(tree::tgeo(cs), irs, &shapes[i]);
                    let b = l.build();
                    s.case(
                        || l.desc(),
                        || {
                            let mut o = Out::new();
                            o.deep = true;
                            o.names = b.entries.iter().map(|e| String::from_utf16_lossy(&e.fname.name)).flat_map(|n| [n.to_lowercase(), n.to_uppercase(), format!("{}0", n), n]).collect();
                            let _ = dump::file(b.ntfs, tree::DIR, &mut b.disk(), &mut o);
                            o.hash
                        },
                    );
                }
            }),
        );
    }
    {
        // names
        let bs = bs.clone();
        add(
            "names",
            "every 16-bit unit compared with 12 others, as strings and as stored names".into(),
            256,
            Box::new(move |i, s| {
                let n = &bs[0].ntfs;
                for lo in 0..256u32 {
                    let u = (i as u32) << 8 | lo;
                    s.case(
                        || format!("unit {:#x}", u),
                        || {
                            let mut h = 0;
                            for v in [0u16, 0x41, 0x61, 0x7A, 0xE9, 0xFF, 0x178, 0x3B1, 0xD7FF, 0xD800, 0xDFFF, 0xFFFF] {
                                for x in [vec![u as u16], vec![v, u as u16], vec![u as u16, v]] {
                                    let (a, b): (Vec<u8>, Vec<u8>) = (x.iter().flat_map(|c| c.to_le_bytes()).collect(), [v, v].iter().flat_map(|c| c.to_le_bytes()).collect());
                                    let (a, b) = (U16StrLe(&a), U16StrLe(&b));
                                    h = mix(h ^ a.upcase_cmp(n, &b) as i8 as u64);
                                    if let Ok(t) = String::from_utf16(&x) {
                                        h = mix(h ^ t.as_str().upcase_cmp(n, &b) as i8 as u64);
                                        h = mix(h ^ b.upcase_cmp(n, &t.as_str()) as i8 as u64);
                                    }
                                    h = mix(h ^ fp(&a.to_string_lossy()) ^ a.to_string().is_ok() as u64);
                                }
                            }
                            h
                        },
                    );
                }
            }),
        );
    }
    add(
        "times",
        "timestamps around all powers of two and every day of 4,000 years in both directions".into(),
        400,
        Box::new(|i, s| {
            let per = 365 * 10;
            for k in 0..per {
                let t = ((i * per + k) as u64).wrapping_mul(864_000_000_000) + k as u64;
                s.case(|| format!("timestamp {}", t), || time(t));
            }
            for b in 0..64 {
                let t = (1u64 << b).wrapping_add(i as u64).wrapping_sub(200);
                s.case(|| format!("timestamp {}", t), || time(t));
            }
        }),
    );
    out
}
fn time(t: u64) -> u64 {
    let x = NtfsTime::from(t);
    let d = ::time::OffsetDateTime::from(x);
    let back = NtfsTime::try_from(d);
    let later = NtfsTime::try_from(d + ::time::Duration::nanoseconds(150));
    fp(&(x.nt_timestamp(), d.unix_timestamp_nanos(), back.map(|b| b.nt_timestamp()).ok(), later.map(|b| b.nt_timestamp()).ok()))
}
fn result(r: Result<u64, NtfsError>) -> u64 {
    match r {
        Ok(n) => mix(n ^ 0x0C),
        Err(NtfsError::Io(e)) => fp(&format!("{:?}", e.kind())),
        Err(e) => fp(&format!("{} {:?}", e, e)),
    }
}
