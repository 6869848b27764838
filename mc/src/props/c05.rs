//! C05: reader faults never produce wrong data, only less data or an error.
use crate::disk::*;
use crate::dump::{self, Item, Out};
use crate::engine::*;
use crate::hostile::{bench, Bench};
use crate::images;
use crate::lay::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use binrw::io::{ErrorKind, SeekFrom};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::{Ntfs, NtfsError, NtfsFile, NtfsReadSeek};
use std::sync::Arc;

const FAULTS: [Fault; 4] = [Fault::Err, Fault::Interrupted, Fault::Short1, Fault::ShortHalf];

// ------------------------------------------------------------------ everything the library says

fn out(b: &Bench) -> Out {
    let mut o = Out::kept();
    o.names = b.rich.names.clone();
    o.deep = true;
    o.stop = Some(ErrorKind::PermissionDenied);
    o
}
fn short(i: Option<&Item>) -> String {
    let mut s = format!("{:?}", i);
    s.truncate(300);
    s
}
/// `got` is everything, or up to the first difference and then an error of that kind.
fn compare(want: &[Item], got: &[Item], kind: ErrorKind, desc: impl Fn() -> String) -> Result<bool, V> {
    let Some(i) = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) else { return Ok(true) };
    let mut i = i;
    if let (Some(Item::B(l, w)), Some(Item::B(m, g))) = (want.get(i), got.get(i)) {
        if *l == "bytes" && l == m && g.len() < w.len() && g[..] == w[..g.len()] {
            i += 1;
        }
    }
    match got.get(i) {
        Some(Item::E(_, Some(k))) if *k == kind => Ok(false),
        _ => Err(V {
            key: "c05-wrong".into(),
            msg: format!("{}: item {}: {} instead of {} (previous {})", desc(), i, short(got.get(i)), short(want.get(i)), short(i.checked_sub(1).and_then(|j| want.get(j)))),
        }),
    }
}
/// What to do with a volume.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Part {
    Mount,
    Volume,
    Rec(u64),
}
fn act(b: &Bench, p: Part, d: &mut Disk, o: &mut Out) {
    let _ = match p {
        Part::Mount => dump::mount(d, o).map(|_| ()),
        Part::Volume => dump::volume(&b.ntfs, d, o),
        Part::Rec(r) => dump::file(&b.ntfs, r, d, o),
    };
}
fn parts(b: &Bench) -> Vec<Part> {
    [Part::Mount, Part::Volume].into_iter().chain(b.rich.recs.iter().map(|r| Part::Rec(*r))).collect()
}
fn reference(b: &Bench, p: Part) -> (Out, Disk) {
    let mut d = Disk::new(b.rich.img.clone());
    d.trace = Some(vec![]);
    let mut o = out(b);
    act(b, p, &mut d, &mut o);
    assert!(!d.hit_end, "harness: image too short");
    (o, d)
}
fn one(b: &Bench, p: Part, want: &Out, d: &mut Disk, ctx: &mut Ctx, kind: ErrorKind, again: bool, what: impl Fn() -> String) -> R {
    let desc = || format!("{} volume ({:?}), {:?}, {}", b.rich.name, b.ntfs.cluster_size(), p, what());
    let mut o = out(b);
    guarded(desc, || act(b, p, d, &mut o))?;
    let same = compare(&want.items, &o.items, kind, desc)?;
    ctx.steps(d.ops);
    ctx.outcome(&o.hash);
    ctx.exec();
    if !same && again {
        // nothing of it is left over
        let mut d = Disk::new(b.rich.img.clone());
        let mut o = out(b);
        o.keep = false;
        guarded(desc, || act(b, p, &mut d, &mut o))?;
        ensure_eq!(o.hash, want.hash, "c05-after", "{}: the same once more without faults", desc());
    }
    Ok(())
}
/// Every reader call of one part going wrong, `k`-th of `of` shares.
fn faults(b: &Bench, p: Part, k: usize, of: usize, step: u64, ctx: &mut Ctx) -> R {
    let (want, d0) = reference(b, p);
    ensure_eq!(want.items.iter().filter(|i| matches!(i, Item::E(_, Some(x)) if *x == ErrorKind::PermissionDenied)).count(), 0, "c05-harness", "errors without faults");
    ctx.sample(|| format!("{} volume, {:?}: {} reader calls, {} items", b.rich.name, p, d0.ops, want.items.len()));
    let mut i = k as u64 * step;
    while i < d0.ops {
        for f in FAULTS {
            let mut d = Disk::new(b.rich.img.clone());
            d.faults = vec![(i, f)];
            ctx.state(&(b.rich.name, b.ntfs.cluster_size(), p, i, f));
            one(b, p, &want, &mut d, ctx, ErrorKind::PermissionDenied, f == Fault::Err && i % 4 == 0, || format!("reader call {} {:?}", i, f))?;
            if f != Fault::Err && !d.faulted {
                // nothing to shorten
                continue;
            }
        }
        let mut d = Disk::new(b.rich.img.clone());
        d.dead = i;
        one(b, p, &want, &mut d, ctx, ErrorKind::PermissionDenied, false, || format!("reader fails from call {}", i))?;
        i += of as u64 * step;
    }
    Ok(())
}
/// The image ends early.
fn truncated(b: &Bench, p: Part, k: usize, of: usize, ctx: &mut Ctx, thin: usize) -> R {
    let (want, d0) = reference(b, p);
    let mut ends: Vec<u64> = vec![];
    for (read, a, n) in d0.trace.as_ref().unwrap() {
        if *read && *n > 0 {
            let n = *n as u64;
            ends.extend([*a, a + 1, a + n / 2, a + n - 1, a + n]);
            ends.extend((*a..a + n.min(4096)).step_by(thin));
        }
    }
    ends.sort();
    ends.dedup();
    for e in ends.into_iter().skip(k).step_by(of) {
        if e > b.rich.img.size {
            continue;
        }
        let mut d = Disk::new(b.rich.img.clone());
        d.end = e;
        ctx.state(&(b.rich.name, b.ntfs.cluster_size(), p, e));
        one(b, p, &want, &mut d, ctx, ErrorKind::UnexpectedEof, false, || format!("image of {} bytes", e))?;
    }
    Ok(())
}
fn styles(t: Tier) -> Vec<Style> {
    let mut v = vec![Style::Intr];
    for n in [1u64, 2, 3, 5, 7, 8, 13, 16, 64, 100, 511, 512, 513, 1000, 1024, 4095, 4096] {
        v.push(Style::Max(n));
        v.push(Style::Block(n));
    }
    if t.thorough() {
        for n in 17..300 {
            v.push(Style::Max(n));
            v.push(Style::Block(n));
        }
    }
    v
}
fn kinds() -> Vec<ErrorKind> {
    use ErrorKind::*;
    vec![NotFound, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Other, UnexpectedEof, Unsupported, OutOfMemory]
}

// ------------------------------------------------------------------ iterators that go on

type Keys = Vec<Result<Vec<u8>, NtfsError>>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum It {
    Attributes,
    Attached,
    Entries,
    List,
    Records,
    Runs,
}
const ITS: [It; 6] = [It::Attributes, It::Attached, It::Entries, It::List, It::Records, It::Runs];
const MOST: usize = 3000;

fn iterate(f: &NtfsFile, it: It, d: &mut Disk, from: u64, set: impl Fn(&mut Disk)) -> Keys {
    let mut out: Keys = vec![];
    let key = |a: &ntfs::NtfsAttribute| {
        let mut k = a.position().value().map_or(0, |p| p.get()).to_le_bytes().to_vec();
        k.extend(a.value_length().to_le_bytes());
        k.extend(a.instance().to_le_bytes());
        k
    };
    let _ = from;
    match it {
        It::Attributes => {
            let mut i = f.attributes();
            set(d);
            while let Some(x) = i.next(d) {
                out.push(x.and_then(|x| x.to_attribute().map(|a| key(&a))));
                if out.len() > MOST {
                    break;
                }
            }
        }
        It::Attached => {
            set(d);
            let i = f.attributes().attach(d);
            for x in i {
                out.push(x.and_then(|x| x.to_attribute().map(|a| key(&a))));
                if out.len() > MOST {
                    break;
                }
            }
        }
        It::Entries => {
            let Ok(ix) = f.directory_index(d) else { return out };
            set(d);
            let mut i = ix.entries();
            while let Some(x) = i.next(d) {
                out.push(x.map(|e| {
                    let mut k = e.position().value().map_or(0, |p| p.get()).to_le_bytes().to_vec();
                    k.extend(e.file_reference().file_record_number().to_le_bytes());
                    k
                }));
                if out.len() > MOST {
                    break;
                }
            }
        }
        It::List => {
            let Some(Ok(a)) = f.attributes_raw().find(|a| a.as_ref().is_ok_and(|a| a.ty().is_ok_and(|t| t as u32 == 0x20))) else { return out };
            let Ok(l) = a.structured_value::<_, NtfsAttributeList>(d) else { return out };
            set(d);
            let mut i = l.entries();
            while let Some(x) = i.next(d) {
                out.push(x.map(|e| {
                    let mut k = e.position().value().map_or(0, |p| p.get()).to_le_bytes().to_vec();
                    k.extend(e.base_file_reference().file_record_number().to_le_bytes());
                    k
                }));
                if out.len() > MOST {
                    break;
                }
            }
        }
        It::Records => {
            let Some(a) = find_attr(f, 0xA0, d) else { return out };
            let Ok(a) = a.to_attribute() else { return out };
            let Ok(v) = a.structured_value::<_, NtfsIndexAllocation>(d) else { return out };
            set(d);
            let mut i = v.records(from as u32);
            while let Some(x) = i.next(d) {
                out.push(x.map(|r| r.vcn().value().to_le_bytes().to_vec()));
                if out.len() > MOST {
                    break;
                }
            }
        }
        It::Runs => {
            // the value itself, in small pieces
            let Some(a) = find_attr(f, 0x80, d) else { return out };
            let Ok(a) = a.to_attribute() else { return out };
            let Ok(mut v) = a.value(d) else { return out };
            set(d);
            let mut failed = 0;
            loop {
                let mut b = vec![0u8; 701];
                let p = v.stream_position();
                match v.read(d, &mut b) {
                    Ok(0) => break,
                    Ok(n) => out.extend(b[..n].iter().enumerate().map(|(i, x)| {
                        let mut k = (p + i as u64).to_le_bytes().to_vec();
                        k.push(*x);
                        Ok(k)
                    })),
                    Err(e) => {
                        failed += 1;
                        // just try again
                        if failed > 4 {
                            break;
                        }
                        if !matches!(&e, NtfsError::Io(e) if e.kind() == ErrorKind::Interrupted) {
                            out.push(Err(e));
                        }
                    }
                }
                if out.len() > 40_000 {
                    break;
                }
            }
        }
    }
    out
}
fn find_attr<'n, 'f>(f: &'f NtfsFile<'n>, t: u32, d: &mut Disk) -> Option<ntfs::NtfsAttributeItem<'n, 'f>> {
    let mut i = f.attributes();
    while let Some(x) = i.next(d) {
        let Ok(x) = x else { continue };
        if x.to_attribute().is_ok_and(|a| a.ty().is_ok_and(|x| x as u32 == t)) {
            return Some(x);
        }
    }
    None
}
fn iterator(b: &Bench, rec: u64, it: It, ctx: &mut Ctx) -> R {
    let mut d = Disk::new(b.rich.img.clone());
    let Ok(f) = b.ntfs.file(&mut d, rec) else { return Ok(()) };
    let irs = f.directory_index(&mut d).ok().map_or(4096, |_| {
        let mut s = 4096;
        for a in f.attributes_raw().flatten() {
            if let Ok(r) = a.resident_structured_value::<NtfsIndexRoot>() {
                s = r.index_record_size();
            }
        }
        s as u64
    });
    let start = std::cell::Cell::new(0);
    let want = iterate(&f, it, &mut d, irs, |d| start.set(d.ops));
    let errs = want.iter().filter(|x| x.is_err()).count();
    if want.is_empty() {
        return Ok(());
    }
    let n = d.ops - start.get();
    let good: Vec<&Vec<u8>> = want.iter().filter_map(|x| x.as_ref().ok()).collect();
    ctx.sample(|| format!("{} volume, record {}, {:?}: {} items in {} reader calls", b.rich.name, rec, it, want.len(), n));
    for i in 0..n {
        for f2 in FAULTS {
            for second in [None, Some(0), Some(3)] {
                if second.is_some() && f2 != Fault::Err {
                    continue;
                }
                let mut d = Disk::new(b.rich.img.clone());
                let desc = || format!("{} volume, record {}, {:?}, reader call {} {:?}, then call {:?} more", b.rich.name, rec, it, i, f2, second);
                let got = guarded(desc, || {
                    iterate(&f, it, &mut d, irs, |d| {
                        d.faults = vec![(d.ops + i, f2)];
                        if let Some(s) = second {
                            d.faults.push((d.ops + i + 1 + s, f2));
                        }
                    })
                })?;
                ctx.state(&(b.rich.name, b.ntfs.cluster_size(), rec, it, i, f2, second));
                let ge = got.iter().filter(|x| x.is_err()).count();
                let gg: Vec<&Vec<u8>> = got.iter().filter_map(|x| x.as_ref().ok()).collect();
                for e in got.iter().filter_map(|x| x.as_ref().err()) {
                    let k = matches!(e, NtfsError::Io(e) if e.kind() == ErrorKind::PermissionDenied);
                    ensure!(k || errs > 0, "c05-kind", "{}: error {:?}", desc(), e);
                }
                if ge <= errs || it == It::Runs {
                    ensure!(gg == good, "c05-lost", "{}: {} of {} items without an error", desc(), gg.len(), good.len());
                } else {
                    ensure!(f2 == Fault::Err, "c05-retry", "{}: an error instead of a retry", desc());
                    // nothing invented, repeated or reordered
                    let mut j = 0;
                    for x in &gg {
                        while j < good.len() && good[j] != *x {
                            j += 1;
                        }
                        ensure!(j < good.len(), "c05-made-up", "{}: item {:?}, {} items of {}", desc(), x, gg.len(), good.len());
                        j += 1;
                    }
                }
                ctx.steps(n);
                ctx.outcome(&(gg.len(), ge));
                ctx.exec();
            }
        }
    }
    Ok(())
}

/// Looking up names: right or an I/O error; the finder stays usable.
fn finder(b: &Bench, rec: u64, ctx: &mut Ctx) -> R {
    let mut d = Disk::new(b.rich.img.clone());
    let Ok(f) = b.ntfs.file(&mut d, rec) else { return Ok(()) };
    let Ok(ix) = f.directory_index(&mut d) else { return Ok(()) };
    let mut names = b.rich.names.clone();
    let mut it = ix.entries();
    while let Some(e) = it.next(&mut d) {
        let Ok(e) = e else { continue };
        if let Some(Ok(k)) = e.key() {
            names.push(k.name().to_string_lossy());
        }
    }
    names.push("zzz".into());
    names.push("".into());
    names.sort();
    names.dedup();
    for name in &names {
        let look = |fi: &mut ntfs::NtfsIndexFinder<NtfsFileNameIndex>, d: &mut Disk| -> Option<Result<u64, NtfsError>> {
            NtfsFileNameIndex::find(fi, &b.ntfs, d, name).map(|r| r.map(|e| e.position().value().map_or(0, |p| p.get())))
        };
        let mut fi = ix.finder();
        let start = d.ops;
        let want = look(&mut fi, &mut d);
        if matches!(want, Some(Err(_))) {
            continue;
        }
        let want = want.map(|r| r.unwrap());
        let n = d.ops - start;
        for i in 0..n {
            for f2 in FAULTS {
                let mut d = Disk::new(b.rich.img.clone());
                d.faults = vec![(i, f2)];
                let mut fi = ix.finder();
                let desc = || format!("{} volume, record {}, looking up {:?}, reader call {} {:?}", b.rich.name, rec, name, i, f2);
                match guarded(desc, || look(&mut fi, &mut d))? {
                    Some(Err(e)) => ensure!(f2 == Fault::Err && matches!(&e, NtfsError::Io(e) if e.kind() == d.kind), "c05-find", "{}: {:?}", desc(), e),
                    x => {
                        let x = x.map(|r| r.unwrap());
                        // a failed look ahead is not missed
                        ensure!(x == want, "c05-find", "{}: entry at {:?} instead of {:?}", desc(), x, want);
                    }
                }
                d.faults.clear();
                let x = look(&mut fi, &mut d);
                ensure!(matches!((&x, &want), (None, None)) || matches!((&x, want), (Some(Ok(p)), Some(w)) if *p == w), "c05-find-again", "{}: then {:?} instead of {:?}", desc(), x, want);
                ctx.steps(n);
                ctx.state(&(b.rich.name, b.ntfs.cluster_size(), rec, name, i, f2));
                ctx.exec();
            }
        }
    }
    Ok(())
}

/// Reading the table of uppercase characters: all or nothing.
fn upcase(b: &Bench, ctx: &mut Ctx) -> R {
    use ntfs::UpcaseOrd;
    let mut d = Disk::new(b.rich.img.clone());
    let fresh = Ntfs::new(&mut d).expect("harness: mount");
    drop(fresh);
    let mut d = Disk::new(b.rich.img.clone());
    let mut n = Ntfs::new(&mut d).expect("harness: mount");
    let s = d.ops;
    n.read_upcase_table(&mut d).expect("harness: uppercase table");
    let total = d.ops - s;
    let same = |m: &Ntfs| -> bool {
        (0..=0xFFFFu16).step_by(7).chain(0..300).filter_map(|c| char::from_u32(c as u32)).all(|c| {
            ["a", "Z", "\u{e9}", "\u{178}"].iter().all(|y| {
                let x = c.to_string();
                let y: Vec<u8> = y.encode_utf16().flat_map(|c| c.to_le_bytes()).collect();
                let y = nt_string::u16strle::U16StrLe(&y);
                x.as_str().upcase_cmp(m, &y) == x.as_str().upcase_cmp(&n, &y)
            })
        })
    };
    for i in 0..total {
        for f in FAULTS {
            for before in [false, true] {
                let desc = || format!("{} volume, table of uppercase characters{}, reader call {} {:?}", b.rich.name, if before { " read before" } else { "" }, i, f);
                let mut d = Disk::new(b.rich.img.clone());
                let mut m = Ntfs::new(&mut d).expect("harness: mount");
                if before {
                    m.read_upcase_table(&mut d).expect("harness: uppercase table");
                }
                d.faults = vec![(d.ops + i, f)];
                let r = guarded(desc, || m.read_upcase_table(&mut d))?;
                match &r {
                    Ok(()) => ensure!(f != Fault::Err, "c05-upcase", "{}: no error", desc()),
                    Err(e) => ensure!(f == Fault::Err && matches!(e, NtfsError::Io(e) if e.kind() == d.kind), "c05-upcase", "{}: {:?}", desc(), e),
                }
                if r.is_err() {
                    if before {
                        ensure!(same(&m), "c05-upcase", "{}: table read before is lost", desc());
                    }
                    must(m.read_upcase_table(&mut d), "c05-upcase", &desc())?;
                }
                ensure!(same(&m), "c05-upcase", "{}: another table", desc());
                ctx.steps(d.ops);
                ctx.state(&(b.rich.name, b.ntfs.cluster_size(), i, f, before));
                ctx.exec();
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ values

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Read(usize),
    Exact(usize),
    Seek(SeekFrom2),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum SeekFrom2 {
    Start(u64),
    Cur(i64),
    End(i64),
}
impl SeekFrom2 {
    fn get(self) -> SeekFrom {
        match self {
            SeekFrom2::Start(n) => SeekFrom::Start(n),
            SeekFrom2::Cur(n) => SeekFrom::Current(n),
            SeekFrom2::End(n) => SeekFrom::End(n),
        }
    }
}
enum Got {
    Bytes(Vec<u8>),
    At(u64),
    Io(ErrorKind),
    Other(String),
}
fn apply<V: NtfsReadSeek>(v: &mut V, d: &mut Disk, op: Op) -> Got {
    let e = |e: NtfsError| match e {
        NtfsError::Io(e) => Got::Io(e.kind()),
        e => Got::Other(format!("{:?}", e)),
    };
    match op {
        Op::Read(n) => {
            let mut b = vec![0xA5; n];
            match v.read(d, &mut b) {
                Ok(n) => {
                    b.truncate(n);
                    Got::Bytes(b)
                }
                Err(x) => e(x),
            }
        }
        Op::Exact(n) => {
            let mut b = vec![0xA5; n];
            match v.read_exact(d, &mut b) {
                Ok(()) => Got::Bytes(b),
                Err(x) => e(x),
            }
        }
        Op::Seek(s) => match v.seek(d, s.get()) {
            Ok(p) => Got::At(p),
            Err(x) => e(x),
        },
    }
}
/// The same through the standard traits.
fn apply_std(v: NtfsAttributeValue<'_, '_>, d: &mut Disk, op: Op) -> (Got, u64) {
    use binrw::io::{Read, Seek};
    let e = |e: binrw::io::Error| Got::Io(e.kind());
    let mut a = v.attach(d);
    let g = match op {
        Op::Read(n) => {
            let mut b = vec![0xA5; n];
            match a.read(&mut b) {
                Ok(n) => {
                    b.truncate(n);
                    Got::Bytes(b)
                }
                Err(x) => e(x),
            }
        }
        Op::Exact(n) => {
            let mut b = vec![0xA5; n];
            match Read::read_exact(&mut a, &mut b) {
                Ok(()) => Got::Bytes(b),
                Err(x) => e(x),
            }
        }
        Op::Seek(s) => match Seek::seek(&mut a, s.get()) {
            Ok(p) => Got::At(p),
            Err(x) => e(x),
        },
    };
    (g, a.stream_position().unwrap_or(u64::MAX))
}
fn value(lay: &Lay, rich: bool, share: usize, of: usize, ctx: &mut Ctx) -> R {
    let b = lay.build();
    let mut d = b.disk();
    let len = b.content.len();
    let bounds = b.content.bounds();
    let mut pts: Vec<u64> = bounds.iter().flat_map(|x| [x.saturating_sub(1), *x, x + rich as u64]).collect();
    pts.sort();
    pts.dedup();
    let img = b.img.clone();
    let r = b.with_attr(&mut d, |a, d| -> R {
        let v0 = must(a.value(d), "c05-value", &lay.desc())?;
        for p in pts.iter().skip(share).step_by(of) {
            for reading in [false, true] {
                // reached by seeking or by reading
                let mut v = v0.clone();
                if reading {
                    if *p > len || *p > 100_000 || *p == 0 {
                        continue;
                    }
                    must(v.read_exact(d, &mut vec![0; *p as usize]), "c05-value", &lay.desc())?;
                } else {
                    must(v.seek(d, SeekFrom::Start(*p)), "c05-value", &lay.desc())?;
                }
                let mut ops = vec![Op::Seek(SeekFrom2::Cur(1)), Op::Seek(SeekFrom2::Cur(-1)), Op::Seek(SeekFrom2::End(0)), Op::Read(1), Op::Read(1300), Op::Exact(1), Op::Exact(600)];
                for x in &bounds {
                    ops.push(Op::Seek(SeekFrom2::Start(*x)));
                    if *x > *p && x - p < 100_000 {
                        ops.push(Op::Read((x - p) as usize));
                        ops.push(Op::Read((x - p) as usize + 1));
                        ops.push(Op::Exact((x - p) as usize));
                        ops.push(Op::Seek(SeekFrom2::Cur((x - p) as i64)));
                    }
                }
                ops.sort_by_key(|o| format!("{:?}", o));
                ops.dedup();
                for op in ops {
                    values_op(lay, &b, &v, *p, op, &img, ctx)?;
                }
            }
        }
        Ok(())
    });
    must(r, "c05-open", &lay.desc())?
}
fn values_op(lay: &Lay, b: &Bed, v: &NtfsAttributeValue, p: u64, op: Op, img: &Arc<Img>, ctx: &mut Ctx) -> R {
    let mut d = Disk::new(img.clone());
    let mut w = v.clone();
    let want = apply(&mut w, &mut d, op);
    let n = d.ops;
    let end = w.stream_position();
    let at0 = v.data_position();
    let check = |g: &Got, f: Option<Fault>, pos: u64, desc: &dyn Fn() -> String| -> R {
        match (g, &want) {
            (Got::Bytes(x), Got::Bytes(y)) => {
                ensure!(x.len() <= y.len() && x[..] == y[..x.len()], "c05-bytes", "{}: {}", desc(), diff(x, &y[..x.len().min(y.len())]));
                ensure!(!x.is_empty() || y.is_empty(), "c05-end", "{}: end of the value instead of {} bytes", desc(), y.len());
                ensure!(matches!(op, Op::Read(_)) || x.len() == y.len(), "c05-exact", "{}: {} bytes", desc(), x.len());
                ensure_eq!(pos, p + x.len() as u64, "c05-position", "{}: stream position", desc());
            }
            (Got::At(x), Got::At(y)) => {
                ensure!(x == y && pos == *y, "c05-seek", "{}: at {} and {}, expected {}", desc(), x, pos, y);
            }
            (Got::Io(k), Got::Io(l)) if k == l => {}
            (Got::Other(x), Got::Other(y)) if x == y => {}
            (Got::Io(ErrorKind::PermissionDenied), _) if f == Some(Fault::Err) => {
                if !matches!(op, Op::Exact(_)) {
                    ensure_eq!(pos, p, "c05-position", "{}: stream position after the error", desc());
                }
            }
            (Got::Io(ErrorKind::Interrupted), _) if f == Some(Fault::Interrupted) && matches!(op, Op::Read(_)) => {
                ensure_eq!(pos, p, "c05-position", "{}: stream position after the interruption", desc());
            }
            (g, _) => {
                let g = match g {
                    Got::Bytes(b) => format!("{} bytes", b.len()),
                    Got::At(p) => format!("position {}", p),
                    Got::Io(k) => format!("{:?}", k),
                    Got::Other(s) => s.clone(),
                };
                return fail("c05-result", format!("{}: {}", desc(), g));
            }
        }
        Ok(())
    };
    for i in 0..n {
        for f in FAULTS {
            let mut d = Disk::new(img.clone());
            d.faults = vec![(i, f)];
            let mut x = v.clone();
            let desc = || format!("{}: {:?} at {}, reader call {} {:?}", lay.desc(), op, p, i, f);
            let g = guarded(desc, || apply(&mut x, &mut d, op))?;
            if !d.faulted {
                continue;
            }
            check(&g, Some(f), x.stream_position(), &desc)?;
            ctx.state(&(fp(&lay.desc()), p, op, i, f));
            let (g2, pos) = apply_std(v.clone(), &mut { let mut d = Disk::new(img.clone()); d.faults = vec![(i, f)]; d }, op);
            // the standard traits retry an exact read
            if !matches!((&g, &g2), (Got::Other(_), _)) {
                check(&g2, Some(f), pos, &|| format!("{} (attached)", desc()))?;
            }
            let failed = matches!(g, Got::Io(ErrorKind::PermissionDenied | ErrorKind::Interrupted));
            if failed && !matches!(op, Op::Exact(_)) {
                ensure_eq!(x.data_position(), at0, "c05-data-position", "{}: position after the error", desc());
                // try again, which may fail as well
                for j in (0..n).map(Some).chain([None]) {
                    let mut y = x.clone();
                    let mut d = Disk::new(img.clone());
                    d.faults = j.map(|j| (j, Fault::Err)).into_iter().collect();
                    let desc = || format!("{}, once more, reader call {:?} fails", desc(), j);
                    let g = guarded(desc, || apply(&mut y, &mut d, op))?;
                    check(&g, j.map(|_| Fault::Err), y.stream_position(), &desc)?;
                    if j.is_none() {
                        ensure!(!matches!(g, Got::Io(_)) || matches!(want, Got::Io(_)), "c05-again", "{}: fails again", desc());
                    }
                    if j.is_none_or(|j| j % 3 == 0) {
                        follow(b, &mut y, img, &desc, ctx)?;
                    }
                }
            }
            follow(b, &mut x, img, &desc, ctx)?;
            ctx.exec();
        }
    }
    let _ = end;
    Ok(())
}
/// From here on, everything is right.
fn follow(b: &Bed, v: &mut NtfsAttributeValue, img: &Arc<Img>, desc: &dyn Fn() -> String, ctx: &mut Ctx) -> R {
    let mut d = Disk::new(img.clone());
    let p = v.stream_position();
    let mut buf = vec![0u8; 1100];
    let mut n = 0;
    while n < buf.len() {
        let k = must(v.read(&mut d, &mut buf[n..]), "c05-follow", &desc())?;
        if k == 0 {
            break;
        }
        n += k;
    }
    let want = b.content.get(p, 1100);
    ensure!(buf[..n] == want[..], "c05-follow", "{}: then at {}: {}", desc(), p, diff(&buf[..n], &want));
    ctx.steps(d.ops);
    Ok(())
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    use super::c04;
    let mut ph = vec![];
    let benches: Arc<Vec<Bench>> = Arc::new(images::geos().into_iter().flat_map(images::all).chain(crate::real::rich()).map(bench).collect());
    let shares = 6usize;
    let items: Vec<(usize, Part, usize)> = benches.iter().enumerate().flat_map(|(i, b)| parts(b).into_iter().flat_map(move |p| (0..shares).map(move |k| (i, p, k)))).collect();
    let items = Arc::new(items);
    let step = 1;
    {
        let (b, it) = (benches.clone(), items.clone());
        ph.push(Phase::new("reader calls", "every reader call of everything the library does with 10 volumes: error, interruption, 1 byte, half of the bytes, and an error from there on", it.len(), move |i, ctx| {
            let (n, p, k) = it[i];
            faults(&b[n], p, k, shares, step, ctx)
        }));
    }
    {
        let (b, it) = (benches.clone(), items.clone());
        let thin = t.pick(24, 1);
        ph.push(Phase::new("truncation", "the image ending before, in and after everything that is read", it.len(), move |i, ctx| {
            let (n, p, k) = it[i];
            truncated(&b[n], p, k, shares, ctx, thin)
        }));
    }
    {
        let b = benches.clone();
        let st = styles(t);
        let its: Vec<(usize, Part)> = benches.iter().enumerate().flat_map(|(i, b)| parts(b).into_iter().map(move |p| (i, p))).collect();
        ph.push(Phase::new("short reads", format!("{} ways of answering with fewer bytes or interruptions throughout", st.len()), its.len(), move |i, ctx| {
            let (n, p) = its[i];
            let (want, _) = reference(&b[n], p);
            for s in &st {
                let mut d = Disk::new(b[n].rich.img.clone());
                d.style = *s;
                ctx.state(&(n, p, s));
                one(&b[n], p, &want, &mut d, ctx, ErrorKind::NotConnected, false, || format!("{:?}", s))?;
            }
            Ok(())
        }));
    }
    {
        let (b, it) = (benches.clone(), items.clone());
        let step = t.pick(9, 1);
        ph.push(Phase::new("reader calls with short reads", "an error at every reader call while reads are short or interrupted throughout", it.len(), move |i, ctx| {
            let (n, p, k) = it[i];
            let (want, _) = reference(&b[n], p);
            for s in [Style::Max(37), Style::Block(100), Style::Intr, Style::Max(513)] {
                let mut d = Disk::new(b[n].rich.img.clone());
                d.style = s;
                let mut o = out(&b[n]);
                act(&b[n], p, &mut d, &mut o);
                let ops = d.ops;
                let mut i = k as u64 * step;
                while i < ops {
                    let mut d = Disk::new(b[n].rich.img.clone());
                    d.style = s;
                    d.faults = vec![(i, Fault::Err)];
                    ctx.state(&(n, p, s, i));
                    one(&b[n], p, &want, &mut d, ctx, ErrorKind::PermissionDenied, false, || format!("{:?}, reader call {} fails", s, i))?;
                    i += shares as u64 * step;
                }
            }
            Ok(())
        }));
    }
    {
        let b = benches.clone();
        let its: Vec<(usize, Part, ErrorKind)> = benches.iter().enumerate().filter(|(i, _)| *i < 3).flat_map(|(i, b)| parts(b).into_iter().flat_map(move |p| kinds().into_iter().map(move |k| (i, p, k)))).collect();
        let step = t.pick(5, 1);
        ph.push(Phase::new("kinds of errors", format!("{} kinds of errors", kinds().len()), its.len(), move |i, ctx| {
            let (n, p, kind) = its[i];
            let (want, d0) = reference(&b[n], p);
            let mut c = fp(&(p, n)) % 7;
            while c < d0.ops {
                let mut d = Disk::new(b[n].rich.img.clone());
                d.faults = vec![(c, Fault::Err)];
                d.kind = kind;
                ctx.state(&(n, p, format!("{:?}", kind), c));
                one(&b[n], p, &want, &mut d, ctx, kind, false, || format!("reader call {} fails: {:?}", c, kind))?;
                c += step;
            }
            Ok(())
        }));
    }
    {
        let b = benches.clone();
        let its: Vec<(usize, u64)> = benches.iter().enumerate().flat_map(|(i, b)| b.rich.recs.iter().map(move |r| (i, *r))).collect();
        ph.push(Phase::new("iterators", "attributes, entries, list entries, index records and values, going on after one or two errors at every reader call", its.len(), move |i, ctx| {
            let it = *ctx.pick(&ITS);
            iterator(&b[its[i].0], its[i].1, it, ctx)
        }));
    }
    {
        let b = benches.clone();
        let its: Vec<(usize, u64)> = benches.iter().enumerate().flat_map(|(i, b)| b.rich.recs.iter().map(move |r| (i, *r))).collect();
        ph.push(Phase::new("lookups", "every name of every directory, every reader call", its.len(), move |i, ctx| finder(&b[its[i].0], its[i].1, ctx)));
    }
    {
        let b = benches.clone();
        ph.push(Phase::new("uppercase table", "every reader call while reading the table, first and again", b.len(), move |i, ctx| upcase(&b[i], ctx)));
    }
    let mut vals = |name: &'static str, lays: Vec<Lay>, rich: bool| {
        let n = lays.len();
        let of = if n < 100 { 8 } else { 1 };
        ph.push(Phase::new(name, format!("{} layouts x positions x reads and seeks x every reader call x faults, then a second fault", n), n * of, move |i, ctx| value(&lays[i / of], rich, i % of, of, ctx)));
    };
    let thin = |v: Vec<Lay>, k: usize| -> Vec<Lay> { v.into_iter().step_by(k).collect() };
    vals("values", c04::plain(c04::geo(512), t.pick(2, 3), &[1, 2]), true);
    vals("values spread over records", thin(c04::spread(c04::geo(512), t.pick(2, 3), true), t.pick(2, 1)), false);
    vals("values of many runs", thin(c04::long(c04::geo(512), t.pick(9, 16)), t.pick(3, 1)), false);
    (ph, Opts::default())
}
