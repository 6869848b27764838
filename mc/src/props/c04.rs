//! C04: a value behaves like an in-memory file with the value's content.
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::lay::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use ntfs::attribute_value::*;
use ntfs::{NtfsError, NtfsReadSeek};
use std::collections::HashSet;
use std::fmt::Debug;
use binrw::io::{Read, Seek, SeekFrom};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Read(usize),
    Exact(usize),
    Seek(SeekOp),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SeekOp {
    S(u64),
    C(i64),
    E(i64),
}
impl SeekOp {
    fn std(self) -> SeekFrom {
        match self {
            SeekOp::S(n) => SeekFrom::Start(n),
            SeekOp::C(n) => SeekFrom::Current(n),
            SeekOp::E(n) => SeekFrom::End(n),
        }
    }
}

/// The operations tried from position `pos`.
fn ops(bounds: &[u64], len: u64, cs: u64, pos: u64, full: bool, cap: u64) -> Vec<Op> {
    let mut v = vec![];
    let mut reads: Vec<u64> = vec![0, 1];
    let mut ahead = bounds.iter().filter(|b| **b > pos).map(|b| b - pos);
    for _ in 0..3 {
        if let Some(d) = ahead.next() {
            reads.push(d.saturating_sub(1));
            reads.push(d);
            reads.push(d + 1);
        }
    }
    let rest = len.saturating_sub(pos);
    reads.extend([rest, rest + 7]);
    reads.sort();
    reads.dedup();
    v.extend(reads.iter().map(|n| Op::Read((*n).min(cap) as usize)));
    if full {
        for n in [1, rest, rest + 1] {
            v.push(Op::Exact(n.min(cap) as usize));
        }
    }
    let mut st: Vec<u64> = vec![];
    for b in bounds {
        st.extend([b.saturating_sub(1), *b, b.saturating_add(1)]);
    }
    st.push(len + cs);
    if full {
        st.extend([i64::MAX as u64, 1 << 63, u64::MAX]);
    }
    st.sort();
    st.dedup();
    v.extend(st.iter().map(|n| Op::Seek(SeekOp::S(*n))));
    let mut c: Vec<i64> = vec![0, 1, -1, cs as i64, -(cs as i64)];
    let mut e: Vec<i64> = vec![0, -1];
    if full {
        c.extend([i64::MIN, i64::MAX]);
        if let Ok(p) = i64::try_from(pos) {
            c.extend([-p, (-p).wrapping_sub(1)]);
        }
        if let Some(d) = bounds.iter().find(|b| **b > pos) {
            c.push((d - pos) as i64);
        }
        let l = len as i64;
        e.extend([1, -l, -l - 1, -(l / 2), i64::MIN, i64::MAX]);
    }
    c.sort();
    c.dedup();
    e.sort();
    e.dedup();
    v.extend(c.iter().map(|n| Op::Seek(SeekOp::C(*n))));
    v.extend(e.iter().map(|n| Op::Seek(SeekOp::E(*n))));
    v
}

/// Where a file of that length would be after the seek; None: refused.
fn seek_model(op: SeekOp, pos: u64, len: u64) -> Option<u64> {
    match op {
        SeekOp::S(n) => Some(n),
        SeekOp::C(n) => pos.checked_add_signed(n),
        SeekOp::E(n) => len.checked_add_signed(n),
    }
}

/// One way of driving a value.
pub trait Drive: Clone + Debug {
    fn read(&mut self, d: &mut Disk, b: &mut [u8]) -> Result<usize, String>;
    fn exact(&mut self, d: &mut Disk, b: &mut [u8]) -> Result<(), String>;
    fn seek(&mut self, d: &mut Disk, p: SeekFrom) -> Result<u64, String>;
    fn pos(&self) -> u64;
    /// What `len` and `is_empty` return.
    fn size(&self) -> (u64, bool);
}
/// Length as the value itself tells it.
pub trait Size {
    fn size(&self) -> (u64, bool);
}
macro_rules! size {
    ($($t:ty),*) => {$(
        impl<'n, 'f> Size for $t {
            fn size(&self) -> (u64, bool) {
                (self.len(), self.is_empty())
            }
        }
    )*};
}
size!(NtfsAttributeValue<'n, 'f>, NtfsNonResidentAttributeValue<'n, 'f>, NtfsAttributeListNonResidentAttributeValue<'n, 'f>, NtfsResidentAttributeValue<'f>);
impl Size for NtfsDataRun {
    fn size(&self) -> (u64, bool) {
        (self.allocated_size(), self.allocated_size() == 0)
    }
}
fn es(e: NtfsError) -> String {
    format!("{:?}", e)
}
#[derive(Clone, Debug)]
struct Direct<T>(T);
impl<T: NtfsReadSeek + Size + Clone + Debug> Drive for Direct<T> {
    fn read(&mut self, d: &mut Disk, b: &mut [u8]) -> Result<usize, String> {
        self.0.read(d, b).map_err(es)
    }
    fn exact(&mut self, d: &mut Disk, b: &mut [u8]) -> Result<(), String> {
        self.0.read_exact(d, b).map_err(es)
    }
    fn seek(&mut self, d: &mut Disk, p: SeekFrom) -> Result<u64, String> {
        self.0.seek(d, p).map_err(es)
    }
    fn pos(&self) -> u64 {
        self.0.stream_position()
    }
    fn size(&self) -> (u64, bool) {
        self.0.size()
    }
}
/// Attached for every single operation, detached afterwards; reads through the standard traits.
#[derive(Clone, Debug)]
struct Attached<'n, 'f>(Option<NtfsAttributeValue<'n, 'f>>);
#[derive(Clone, Debug)]
struct AttachedNon<'n, 'f>(Option<NtfsNonResidentAttributeValue<'n, 'f>>);
macro_rules! attached {
    ($t:ident) => {
        impl<'n, 'f> Drive for $t<'n, 'f> {
            fn read(&mut self, d: &mut Disk, b: &mut [u8]) -> Result<usize, String> {
                let mut a = self.0.take().unwrap().attach(d);
                let r = Read::read(&mut a, b);
                self.0 = Some(a.detach());
                r.map_err(|e| e.to_string())
            }
            fn exact(&mut self, d: &mut Disk, b: &mut [u8]) -> Result<(), String> {
                let mut a = self.0.take().unwrap().attach(d);
                let r = Read::read_exact(&mut a, b);
                self.0 = Some(a.detach());
                r.map_err(|e| e.to_string())
            }
            fn seek(&mut self, d: &mut Disk, p: SeekFrom) -> Result<u64, String> {
                let mut a = self.0.take().unwrap().attach(d);
                let r = Seek::seek(&mut a, p);
                let size = (a.len(), a.is_empty());
                let v = a.detach();
                assert_eq!(size, v.size(), "attached and detached length");
                self.0 = Some(v);
                r.map_err(|e| e.to_string())
            }
            fn pos(&self) -> u64 {
                self.0.as_ref().unwrap().stream_position()
            }
            fn size(&self) -> (u64, bool) {
                self.0.as_ref().unwrap().size()
            }
        }
    };
}
attached!(Attached);
attached!(AttachedNon);

struct Run1<'a> {
    content: &'a Content,
    bounds: Vec<u64>,
    cs: u64,
    desc: &'a str,
    full: bool,
    cap: u64,
    buf: Vec<u8>,
    whole: Option<Vec<u8>>,
}

impl<'a> Run1<'a> {
    fn new(content: &'a Content, cs: u64, desc: &'a str, full: bool) -> Self {
        let whole = if content.len() <= 1 << 20 { Some(content.get(0, content.len() as usize)) } else { None };
        Run1 { content, bounds: content.bounds(), cs, desc, full, cap: if content.len() > 64 << 20 { 100_000 } else { 3 << 20 }, buf: vec![], whole }
    }
    fn expect(&self, pos: u64, n: usize) -> std::borrow::Cow<'_, [u8]> {
        match &self.whole {
            Some(w) => {
                let p = (pos.min(w.len() as u64)) as usize;
                std::borrow::Cow::Borrowed(&w[p..(p + n).min(w.len())])
            }
            None => std::borrow::Cow::Owned(self.content.get(pos, n)),
        }
    }
    /// Applies one operation and compares; returns the new position, or None if the branch ends.
    fn apply<T: Drive>(&mut self, op: Op, v: &mut T, pos: u64, disk: &mut Disk, trail: &[Op]) -> Result<Option<u64>, V> {
        let len = self.content.len();
        let tell = |w: &Self| format!("{} after {:?} {:?} at {}", w.desc, trail, op, pos);
        match op {
            Op::Read(n) => {
                let mut buf = std::mem::take(&mut self.buf);
                buf.clear();
                buf.resize(n + 1, 0xA5);
                let r = v.read(disk, &mut buf[..n]);
                let want = self.expect(pos, n);
                match r {
                    Ok(got) => {
                        ensure!(got == want.len(), "c04-count", "{}: read returned {} bytes, expected {}", tell(self), got, want.len());
                        ensure!(buf[..got] == want[..], "c04-bytes", "{}: {}", tell(self), diff(&buf[..got], &want));
                        ensure!(buf[got..].iter().all(|x| *x == 0xA5), "c04-overwrite", "{}: bytes beyond the returned count were changed", tell(self));
                        ensure!(v.pos() == pos + got as u64, "c04-pos", "{}: position {} after reading {} bytes", tell(self), v.pos(), got);
                        self.buf = buf;
                        Ok(Some(pos + got as u64))
                    }
                    Err(e) => Err(V { key: "c04-read-error".into(), msg: format!("{}: read failed: {}", tell(self), e) }),
                }
            }
            Op::Exact(n) => {
                let mut buf = vec![0xA5u8; n];
                let r = v.exact(disk, &mut buf);
                let want = self.expect(pos, n);
                if want.len() == n {
                    if let Err(e) = r {
                        return Err(V { key: "c04-exact-error".into(), msg: format!("{}: {}", tell(self), e) });
                    }
                    ensure!(buf[..] == want[..], "c04-bytes", "{}: {}", tell(self), diff(&buf, &want));
                    ensure!(v.pos() == pos + n as u64, "c04-pos", "{}: position {}", tell(self), v.pos());
                    Ok(Some(pos + n as u64))
                } else {
                    ensure!(r.is_err(), "c04-exact-short", "{}: read_exact succeeded beyond the end", tell(self));
                    // where a failed exact read leaves the position is open; it must be consistent though
                    let p = v.pos();
                    ensure!(p >= pos && p <= pos.max(len), "c04-exact-pos", "{}: position {} after failed exact read", tell(self), p);
                    let mut b = [0u8; 16];
                    let n = match v.read(disk, &mut b) {
                        Ok(n) => n,
                        Err(e) => return Err(V { key: "c04-read-error".into(), msg: format!("{}: read after failed exact read: {}", tell(self), e) }),
                    };
                    ensure!(b[..n] == self.expect(p, 16)[..], "c04-bytes", "{}: bytes after failed exact read", tell(self));
                    Ok(None)
                }
            }
            Op::Seek(s) => match (v.seek(disk, s.std()), seek_model(s, pos, len)) {
                (Ok(p), Some(q)) => {
                    ensure_eq!(p, q, "c04-seek", "{}", tell(self));
                    ensure_eq!(v.pos(), q, "c04-pos", "{}", tell(self));
                    Ok(Some(q))
                }
                (Err(_), None) => {
                    ensure_eq!(v.pos(), pos, "c04-rejected-seek-pos", "{}", tell(self));
                    Ok(Some(pos))
                }
                (r, q) => Err(V { key: "c04-seek-result".into(), msg: format!("{}: got {:?}, expected {:?}", tell(self), r, q) }),
            },
        }
    }
    /// No operation changes the length.
    fn size<T: Drive>(&self, v: &T, op: Op, pos: u64) -> R {
        let len = self.content.len();
        ensure_eq!(v.size(), (len, len == 0), "c04-length", "{} len and is_empty after {:?} at {}", self.desc, op, pos);
        Ok(())
    }
    fn dfs<T: Drive>(&mut self, v: &T, pos: u64, depth: usize, disk: &mut Disk, ctx: &mut Ctx, trail: &mut Vec<Op>) -> R {
        beat();
        ctx.state(&(self.desc, pos));
        for op in ops(&self.bounds, self.content.len(), self.cs, pos, self.full, self.cap) {
            let mut w = v.clone();
            ctx.step();
            let p = self.apply(op, &mut w, pos, disk, trail)?;
            self.size(&w, op, pos)?;
            if let Some(p) = p {
                if depth > 1 {
                    trail.push(op);
                    self.dfs(&w, p, depth - 1, disk, ctx, trail)?;
                    trail.pop();
                }
            }
        }
        // the original is unaffected by what its clones did
        ensure_eq!(v.pos(), pos, "c04-clone", "{} after {:?}: position of the cloned-from value", self.desc, trail);
        Ok(())
    }
    /// Breadth-first closure over all states reachable with the operations, whatever their number.
    fn closure<T: Drive>(&mut self, v: &T, disk: &mut Disk, ctx: &mut Ctx, cap: usize) -> R {
        let mut seen: HashSet<u64> = HashSet::new();
        let mut queue = std::collections::VecDeque::new();
        seen.insert(fp(&format!("{:?}", v)));
        queue.push_back((v.clone(), 0u64));
        let limit = self.content.len() + 2 * self.cs;
        while let Some((v, pos)) = queue.pop_front() {
            beat();
            ctx.state(&(self.desc, pos, seen.len()));
            for op in ops(&self.bounds, self.content.len(), self.cs, pos, false, self.cap) {
                let mut w = v.clone();
                ctx.step();
                let p = self.apply(op, &mut w, pos, disk, &[])?;
                self.size(&w, op, pos)?;
                if let Some(p) = p {
                    if p <= limit && seen.len() < cap && seen.insert(fp(&(p, format!("{:?}", w)))) {
                        queue.push_back((w, p));
                    }
                }
            }
        }
        ctx.outcome(&(self.desc, seen.len()));
        Ok(())
    }
}

/// Which drivers to use for a layout.
#[derive(Clone, Copy)]
struct Plan {
    depth: usize,
    full: bool,
    attached: usize,
    closure: usize,
}

fn check(lay: &Lay, plan: Plan, ctx: &mut Ctx) -> R {
    let bed = lay.build();
    let desc = lay.desc();
    let mut disk = bed.disk();
    let cs = lay.geo.cs as u64;
    ctx.sample(|| desc.clone());
    let want_kind = match &lay.kind {
        Kind::Res { .. } => 0,
        Kind::Non { place, .. } if place.ext.len() > 1 || (!place.ext.is_empty() && place.in_base & 1 == 0) => 2,
        Kind::Non { .. } => 1,
    };
    let r = bed.with_attr(&mut disk, |attr, disk| -> R {
        ensure_eq!(attr.value_length(), bed.content.len(), "c04-length", "{} value_length", desc);
        let value = must(attr.value(disk), "c04-open", &desc)?;
        ensure_eq!(value.len(), bed.content.len(), "c04-length", "{} len", desc);
        ensure_eq!(value.is_empty(), bed.content.len() == 0, "c04-length", "{} is_empty", desc);
        ensure_eq!(value.stream_position(), 0, "c04-pos", "{} initial position", desc);
        let len = bed.content.len();
        let (l, e) = match &value {
            NtfsAttributeValue::Resident(v) => (v.len(), v.is_empty()),
            NtfsAttributeValue::NonResident(v) => {
                let a = v.clone().attach(&mut *disk);
                ensure_eq!((a.len(), a.is_empty()), (len, len == 0), "c04-length", "{} len and is_empty of the attached inner value", desc);
                (v.len(), v.is_empty())
            }
            NtfsAttributeValue::AttributeListNonResident(v) => (v.len(), v.is_empty()),
        };
        ensure_eq!((l, e), (len, len == 0), "c04-length", "{} len and is_empty of the inner value", desc);
        let a = value.clone().attach(&mut *disk);
        ensure_eq!((a.len(), a.is_empty()), (len, len == 0), "c04-length", "{} len and is_empty of the attached value", desc);
        let mut run = Run1::new(&bed.content, cs, &desc, plan.full);
        let mut t = vec![];
        if plan.closure > 0 {
            return run.closure(&Direct(value.clone()), disk, ctx, plan.closure);
        }
        run.dfs(&Direct(value.clone()), 0, plan.depth, disk, ctx, &mut t)?;
        if plan.attached > 0 {
            run.dfs(&Attached(Some(value.clone())), 0, plan.attached, disk, ctx, &mut t)?;
            match value.clone() {
                NtfsAttributeValue::Resident(v) => {
                    ensure!(want_kind == 0, "c04-kind", "{}: resident value", desc);
                    ensure!(v.data() == &bed.content.get(0, v.len() as usize)[..], "c04-bytes", "{}: data()", desc);
                    run.dfs(&Direct(v), 0, plan.attached, disk, ctx, &mut t)?;
                }
                NtfsAttributeValue::NonResident(v) => {
                    run.dfs(&Direct(v.clone()), 0, plan.attached, disk, ctx, &mut t)?;
                    run.dfs(&AttachedNon(Some(v)), 0, plan.attached, disk, ctx, &mut t)?;
                }
                NtfsAttributeValue::AttributeListNonResident(v) => {
                    run.dfs(&Direct(v), 0, plan.attached, disk, ctx, &mut t)?;
                }
            }
        }
        // a whole read in one go and byte by byte
        if bed.content.len() <= 8192 {
            let mut v = value.clone();
            let all = bed.content.get(0, bed.content.len() as usize);
            let mut got = vec![];
            let mut b = [0u8; 1];
            loop {
                let n = must(v.read(disk, &mut b), "c04-read-error", &desc)?;
                if n == 0 {
                    break;
                }
                ensure!(got.len() < all.len(), "c04-count", "{}: more bytes than the value has", desc);
                got.push(b[0]);
            }
            ensure!(got == all, "c04-bytes", "{} byte by byte: {}", desc, diff(&got, &all));
        }
        ctx.outcome(&bed.content.get(0, 4096));
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(e) => fail("c04-open", format!("{}: {:?}", desc, e)),
    }
}

/// A long value read across boundaries in every order.
fn check_many(vol: &Vol, lay: &crate::files::FileLay, n: usize, pairs: bool, ctx: &mut Ctx) -> R {
    let mut vol = vol.clone();
    let Some(_) = lay.build(&mut vol) else { return Ok(()) };
    let content = lay.attrs[1].content(&vol);
    let desc = || format!("{} pieces at {:?}", n, &lay.attrs[1].at[..lay.attrs[1].at.len().min(50)]);
    ctx.sample(&desc);
    let mut d = Disk::new(Arc::new(vol.img));
    let nt = must(ntfs::Ntfs::new(&mut d), "c04-open", "mount")?;
    let f = must(nt.file(&mut d, lay.recs[0]), "c04-open", &desc())?;
    let item = must(must_some(f.data(&mut d, ""), "c04-open", &desc())?, "c04-open", &desc())?;
    let a = must(item.to_attribute(), "c04-open", &desc())?;
    let v0 = must(a.value(&mut d), "c04-open", &desc())?;
    ensure_eq!(v0.len(), content.len() as u64, "c04-length", "{}", desc());
    let mut pts: Vec<usize> = [1, 2, n / 3, n / 2, n - 1, n].into_iter().collect();
    for k in 5..13 {
        pts.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    pts.retain(|p| *p > 0 && *p <= n);
    pts.sort();
    pts.dedup();
    let probe = |v: &mut NtfsAttributeValue, d: &mut Disk, s: SeekFrom, at: i64, ctx: &mut Ctx| -> R {
        ctx.step();
        ensure_eq!(must(v.seek(d, s), "c04-seek", &desc())?, at as u64, "c04-seek", "{} {:?}", desc(), s);
        // the rest of this cluster, then one more and a bit of the next
        for len in [512 - at as usize % 512, 515, 7] {
            let p = v.stream_position() as usize;
            let mut b = vec![0xA5; len];
            let k = must(v.read(d, &mut b), "c04-read", &desc())?;
            let want = &content[p.min(content.len())..(p + len).min(content.len())];
            ensure!(b[..k] == *want, "c04-bytes", "{} at {} after {:?}: {}", desc(), p, s, diff(&b[..k], want));
            ensure_eq!(v.stream_position() as usize, p + k, "c04-pos", "{} after {:?}", desc(), s);
        }
        Ok(())
    };
    for p in &pts {
        let at = *p as i64 * 512 - 2;
        let mut v = v0.clone();
        probe(&mut v, &mut d, SeekFrom::Start(at as u64), at, ctx)?;
        if pairs {
            for q in &pts {
                let to = *q as i64 * 512 - 2;
                let mut w = v.clone();
                let by = to - w.stream_position() as i64;
                probe(&mut w, &mut d, if q > p { SeekFrom::Current(by) } else { SeekFrom::End(to - content.len() as i64) }, to, ctx)?;
            }
        }
    }
    // and all of it in one go
    let mut v = v0.clone();
    let mut b = vec![0; content.len() + 9];
    let k = must(v.read(&mut d, &mut b), "c04-read", &desc())?;
    ensure!(b[..k] == content[..], "c04-bytes", "{}: {}", desc(), diff(&b[..k], &content));
    ctx.exec();
    Ok(())
}
fn check_run(lay: &Lay, depth: usize, ctx: &mut Ctx) -> R {
    let bed = lay.build();
    let desc = lay.desc();
    let mut disk = bed.disk();
    let cs = lay.geo.cs as u64;
    let (runs, Content::Non { img, .. }) = (match &lay.kind { Kind::Non { runs, .. } => runs.clone(), _ => unreachable!() }, &bed.content) else { unreachable!() };
    let r = bed.with_attr(&mut disk, |attr, disk| -> R {
        let value = must(attr.value(disk), "c04-open", &desc)?;
        let NtfsAttributeValue::NonResident(nv) = value else { return fail("c04-kind", format!("{}: not a plain non-resident value", desc)) };
        let mut n = 0;
        for (i, dr) in nv.data_runs().enumerate() {
            let dr = must(dr, "c04-run", &desc)?;
            ensure!(i < runs.len(), "c04-run", "{}: too many runs", desc);
            let size = runs[i].len * cs;
            ensure_eq!(dr.allocated_size(), size, "c04-run", "{} run {} size", desc, i);
            let c = Content::Non { img: img.clone(), runs: vec![runs[i]], cs, size, init: size };
            let d2 = format!("{} run {}", desc, i);
            Run1::new(&c, cs, &d2, true).dfs(&Direct(dr), 0, depth, disk, ctx, &mut vec![])?;
            n += 1;
        }
        ensure_eq!(n, runs.len(), "c04-run", "{} number of runs", desc);
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(e) => fail("c04-open", format!("{}: {:?}", desc, e)),
    }
}

pub fn geo(cs: u32) -> Geo {
    let ss = if cs == 4096 { 4096 } else { 512 };
    Geo { ss, cs, rs: 4096.min(if cs == 512 { 1024 } else { 4096 }), clusters: (256u64 << 20).div_ceil(cs as u64).max(600) }
}
fn non(g: Geo, runs: &[Run], size: u64, init: u64, place: Place) -> Lay {
    Lay { geo: g, kind: Kind::Non { runs: runs.to_vec(), size, init, place } }
}

/// Single-attribute layouts: every run list, size and initialized size.
pub fn plain(g: Geo, k: usize, lens: &[u64]) -> Vec<Lay> {
    let mut out = vec![];
    let cs = g.cs as u64;
    let first = (1 << 20) / cs + 64;
    for rs in run_lists(k, lens, first, 4) {
        let total = runs_clusters(&rs) * cs;
        for s in sizes(total, cs) {
            for i in inits(s, cs) {
                out.push(non(g, &rs, s, i, Place::default()));
            }
        }
    }
    // the volume's first cluster is data like any other
    out.push(non(g, &[run(1, 0)], cs, cs, Place::default()));
    out.push(non(g, &[run(1, first), run(2, 0), hole(1)], 4 * cs - 3, 4 * cs - 3, Place::default()));
    out
}
/// Layouts spread over several records.
pub fn spread(g: Geo, k: usize, thin: bool) -> Vec<Lay> {
    let mut out = vec![];
    let cs = g.cs as u64;
    let first = (1 << 20) / cs + 64;
    for rs in run_lists(k, if thin { &[1] } else { &[1, 2] }, first, 4) {
        if rs.is_empty() {
            continue;
        }
        let total = runs_clusters(&rs) * cs;
        for ext in compositions(rs.len() as u64, rs.len()) {
            let ext: Vec<usize> = ext.iter().map(|x| *x as usize).collect();
            for in_base in 0..(1u32 << ext.len()) {
                // one variant of size, list residency and decoys each, varied with the layout; all of them for small ones
                let szs = if rs.len() <= 2 { sizes(total, cs) } else { vec![total - 5] };
                for s in szs {
                    for (ln, dc) in [(false, true), (true, false)] {
                        for i in if rs.len() <= 1 { inits(s, cs) } else { vec![s, s / 2] } {
                            let place = Place { ext: ext.clone(), in_base, list_nonres: ln, decoy: dc };
                            out.push(non(g, &rs, s, i, place));
                        }
                    }
                }
            }
        }
    }
    out
}
pub fn resident(g: Geo) -> Vec<Lay> {
    let mut out = vec![];
    for len in [0usize, 1, 2, 7, 8, 9, 100, 400] {
        for (ext, in_base, ln) in [(vec![], 0, false), (vec![1usize], 0, false), (vec![1], 0, true), (vec![1], 1, false)] {
            out.push(Lay { geo: g, kind: Kind::Res { len, place: Place { ext, in_base, list_nonres: ln, decoy: false } } });
        }
    }
    out
}
/// Resident values of up to 112 KiB.
pub fn resident_large() -> Vec<Lay> {
    let mut out = vec![];
    for (cs, rs) in [(512u32, 4096u32), (4096, 16384), (512, 65024), (4096, 65536), (1024, 114688)] {
        let g = Geo { ss: 512, cs, rs, clusters: (16 << 20) / cs as u64 };
        for len in [255usize, 256, 257, 3500, 4095, 4097, 16000, 32767, 32768, 32769, 64000, 65535, 65536, 65537, 114000] {
            if len + 600 + rs as usize / 256 <= rs as usize {
                for (ext, in_base, ln) in [(vec![], 0, false), (vec![1usize], 0, false), (vec![1], 0, true)] {
                    out.push(Lay { geo: g, kind: Kind::Res { len, place: Place { ext, in_base, list_nonres: ln, decoy: false } } });
                }
            }
        }
    }
    out
}
/// Values whose runs hold less than their data size.
fn cut_short(g: Geo) -> Vec<Lay> {
    let cs = g.cs as u64;
    let mut out: Vec<Lay> = vec![];
    for l in spread(g, 3, true).into_iter().chain(plain(g, 2, &[1])) {
        if let Kind::Non { runs, place, .. } = l.kind {
            let total = runs_clusters(&runs) * cs;
            for size in [total + 1, total + cs + 7, total + (1 << 40)] {
                let n = non(g, &runs, size, size, place.clone());
                if !out.iter().any(|x| matches!(&x.kind, Kind::Non { runs: r, size: s, place: p, .. } if *r == runs && *s == size && *p == place)) {
                    out.push(n);
                }
            }
        }
    }
    out
}
/// Such a value gives its runs' bytes and then nothing, zeros or an error, but never the bytes of something else.
fn short_runs(lay: &Lay, depth: usize, ctx: &mut Ctx) -> R {
    let bed = lay.build();
    let Kind::Non { runs, size, .. } = &lay.kind else { unreachable!() };
    let (size, total) = (*size, runs_clusters(runs) * lay.geo.cs as u64);
    let mut ops: Vec<Op> = [1usize, 300, 5000].map(Op::Read).to_vec();
    let mut at = vec![0, total / 2, total.saturating_sub(1), total, total + 1, size - 1, size];
    at.dedup();
    ops.extend(at.into_iter().map(|p| Op::Seek(SeekOp::S(p))));
    let mut d = bed.disk();
    bed.with_attr(&mut d, |a, d| -> R {
        let Ok(start) = a.value(d) else { return fail("c04-open", format!("{}: the value does not open", lay.desc())) };
        let n = ops.len().pow(depth as u32);
        for mut k in 0..n {
            let mut seq = vec![];
            for _ in 0..depth {
                seq.push(ops[k % ops.len()]);
                k /= ops.len();
            }
            seq.extend([Op::Read(700), Op::Read(700), Op::Read(700)]);
            let mut v = start.clone();
            let mut pos = 0u64;
            for (j, op) in seq.iter().enumerate() {
                let tell = || format!("{}: after {:?}", lay.desc(), &seq[..=j]);
                match *op {
                    Op::Seek(SeekOp::S(p)) => match v.seek(d, SeekFrom::Start(p)) {
                        Ok(q) => {
                            ensure_eq!(q, p, "c04-cut-seek", "{}: position", tell());
                            pos = p;
                        }
                        Err(e) => ensure!(p > total, "c04-cut-seek", "{}: {:?}", tell(), e),
                    },
                    Op::Read(n) => {
                        let mut buf = vec![0xA5u8; n];
                        match v.read(d, &mut buf) {
                            Ok(r) => {
                                ensure!(r <= n && (r > 0 || pos >= total), "c04-cut-count", "{}: {} bytes at {}", tell(), r, pos);
                                let want = bed.content.get(pos, r);
                                ensure!(want.len() == r && want[..] == buf[..r], "c04-cut-bytes", "{}: wrong bytes at {}", tell(), pos);
                                pos += r as u64;
                            }
                            Err(e) => ensure!(pos >= total, "c04-cut-error", "{}: {:?}", tell(), e),
                        }
                    }
                    _ => unreachable!(),
                }
                ensure_eq!(v.stream_position(), pos, "c04-cut-position", "{}: position", tell());
                ctx.step();
            }
            ctx.state(&(&seq, pos));
            ctx.exec();
        }
        ctx.outcome(&(total, size));
        Ok(())
    })
    .unwrap_or_else(|e| fail("c04-open", format!("{}: {:?}", lay.desc(), e)))
}
/// Values and positions beyond 32 bits.
pub fn huge() -> Vec<Lay> {
    let mut out = vec![];
    for cs in [4096u32, 65536, 2 << 20] {
        let g = geo(cs);
        let c = cs as u64;
        let gib4 = (1u64 << 32) / c;
        let far = (1u64 << 44) / c;
        let lists: Vec<Vec<Run>> = vec![
            vec![run(gib4 + 3, gib4 * 2)],
            vec![hole(gib4 + 1), run(2, far), hole(gib4)],
            vec![run(1, 300), hole(gib4 - 1), run(gib4 + 1, far), run(2, 400)],
            vec![run(gib4, far), run(gib4 / 2, gib4), run(3, 500)],
            vec![hole(1 << 40 >> 9), run(1, 310)],
            vec![run((1 << 62) / c, 0), run(2, 310)],
        ];
        for rs in lists {
            let t = runs_clusters(&rs) * c;
            for (s, i) in [(t, t), (t - 1, t - 1), (t - c + 1, t - c), (t, (1 << 32) - 1), (t, 5)] {
                out.push(non(g, &rs, s, i.min(s), Place::default()));
            }
            if rs.len() > 1 {
                let ext = vec![1, rs.len() - 1];
                out.push(non(g, &rs, t - 9, t - 9, Place { ext: ext.clone(), in_base: 0, list_nonres: false, decoy: true }));
                out.push(non(g, &rs, t - 9, t - 9, Place { ext, in_base: 1, list_nonres: true, decoy: false }));
            }
        }
    }
    out
}
/// Many runs and many records.
pub fn long(g: Geo, n: u64) -> Vec<Lay> {
    let cs = g.cs as u64;
    let first = (1 << 20) / cs + 64;
    let rs: Vec<Run> = (0..n)
        .map(|i| match i % 5 {
            3 => hole(1 + i % 3),
            _ => run(1 + i % 2, first + (mix(i) % 1000) * 4),
        })
        .collect();
    let t = runs_clusters(&rs) * cs;
    let mut out = vec![non(g, &rs, t, t, Place::default()), non(g, &rs, t - 100, t / 2, Place::default())];
    for ext in [vec![n as usize / 4; 4], vec![1, 1, 1, n as usize - 3], vec![n as usize - 2, 1, 1], vec![n as usize]] {
        if ext.iter().sum::<usize>() == n as usize {
            for in_base in [0, 1, 2] {
                out.push(non(g, &rs, t - 1, t - 1, Place { ext: ext.clone(), in_base, list_nonres: in_base == 1, decoy: true }));
            }
        }
    }
    out
}

fn phase(name: &'static str, bound: String, lays: Vec<Lay>, plan: Plan) -> Phase {
    let lays = Arc::new(lays);
    let n = lays.len();
    Phase::new(name, format!("{} ({} layouts)", bound, n), n, move |i, ctx| check(&lays[i], plan, ctx))
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let g = geo(512);
    let d = |depth| Plan { depth, full: true, attached: 1, closure: 0 };
    let k = t.pick(3, 4);
    let mut v = vec![
        phase("large resident", "values of 255 to 114000 bytes in records of 4 to 112 KiB, all operation sequences of length 2".into(), resident_large(), Plan { depth: 2, full: true, attached: 1, closure: 0 }),
        phase("resident", format!("all operation sequences of length {}", t.pick(3, 4)), resident(g), Plan { depth: t.pick(3, 4), full: true, attached: 2, closure: 0 }),
        phase("plain", format!("run lists of up to {} runs of 1 or 2 clusters x sizes x initialized sizes, all sequences of 2 operations", k), plain(g, k, &[1, 2]), Plan { depth: 2, full: true, attached: 1, closure: 0 }),
        phase("plain-deep", format!("run lists of up to {} runs of 1 or 2 clusters, all sequences of 3 operations", t.pick(2, 3)), plain(g, t.pick(2, 3), &[1, 2]), Plan { depth: 3, full: true, attached: 2, closure: 0 }),
        phase("spread", format!("run lists of up to {} runs, every split into extents x base or extension record x attribute list resident or not, all sequences of 2 operations", t.pick(3, 4)), spread(g, t.pick(3, 4), true), Plan { depth: 2, full: true, attached: 1, closure: 0 }),
        phase("huge", format!("values and positions beyond 2^32 and up to 2^62, all sequences of {} operations", t.pick(2, 3)), huge(), d(t.pick(2, 3))),
        phase("long", format!("{} runs, all sequences of {} operations", 40, t.pick(1, 2)), long(g, 40), d(t.pick(1, 2))),
    ];
    for (nm, cs) in [("plain-4096", 4096u32), ("plain-65536", 65536), ("plain-2097152", 2 << 20)] {
        let (k, dp) = if cs > 65536 { (2, 1) } else { (t.pick(2, 3), 2) };
        let lays = plain(geo(cs), k, &[1]);
        v.push(phase(nm, format!("cluster size {}, up to {} runs, all sequences of {} operations", cs, k, dp), lays, d(dp)));
    }
    // every run list, with a size inside its last cluster and half of it initialized
    let thin = |l: &Lay| match &l.kind {
        Kind::Non { runs, size, init, place } => {
            let t = runs_clusters(runs) * 512;
            (*size + 1 == t || *size + 5 == t) && *init == size / 2 && (place.ext.is_empty() || place.decoy) || *size == t && runs.len() < 2
        }
        _ => true,
    };
    let small: Vec<Lay> = plain(g, t.pick(2, 3), &[1]).into_iter().chain(spread(g, t.pick(2, 3), true)).filter(|l| t.thorough() || thin(l)).chain(resident(g)).collect();
    v.push(phase("closure", "every reachable state, any number of operations (reads and seeks around every boundary and by one byte and one cluster)".into(), small, Plan { depth: 0, full: false, attached: 0, closure: 1 << 20 }));
    if t.thorough() {
        v.push(phase("plain-4-ops", "up to 2 runs of 1 cluster, all sequences of 4 operations".into(), plain(g, 2, &[1]), d(4)));
        v.push(phase("spread-3-ops", "up to 3 runs of 1 or 2 clusters over several records, all sequences of 3 operations".into(), spread(g, 3, false), d(3)));
    }
    let cut = cut_short(g);
    let dp = t.pick(3, 4);
    v.push(Phase::new("runs end early", format!("{} values whose runs hold less than the data size, alone or split over records with another split stream behind: every sequence of {} of 3 reads and 7 seeks, and three more reads", cut.len(), dp), cut.len(), move |i, ctx| short_runs(&cut[i], dp, ctx)));
    {
        use crate::files::*;
        let mut vol = Vol::new(MANY, MANY_RECORDS);
        vol.alloc(100);
        let b = Arc::new(vol);
        let counts: Vec<usize> = many_counts(t.thorough()).into_iter().filter(|n| *n > 20).collect();
        let most = *counts.last().unwrap();
        v.push(Phase::new("many", format!("values of {} numbers of pieces up to {} or of runs up to 700, in and outside the base record: every sequence of 2 seeks (up to 2100 pieces; 1 beyond) between boundaries around powers of two, each followed by reads over the boundary", counts.len(), most), counts.len() * 5, move |i, ctx| {
            let (n, way) = (counts[i / 5], i % 5);
            let lay = if way < 4 {
                many_pieces(n, way, ListForm::Non)
            } else if n <= 700 {
                let mut l = many_pieces(2, 0, ListForm::Non);
                let runs = (0..n).map(|i| if i % 7 == 3 { hole(1) } else { run(1, 6500 + (i * 7919 + 13) as u64 % 2400) }).collect();
                l.attrs[1] = LAttr::non(ty::DATA, "", vec![runs], n as u64 * 512 - 3);
                l
            } else {
                return Ok(());
            };
            ctx.state(&(n, way));
            check_many(&b, &lay, n, n <= t.pick(2100, 5000), ctx)
        }));
    }
    {
        use crate::files::*;
        let mut vol = Vol::new(MANY, MANY_RECORDS);
        vol.alloc(100);
        let b = Arc::new(vol);
        v.push(Phase::new("attribute flags", "values in 1 to 4 pieces or runs, some with holes, whose attribute has any set of one or two flags or all of them (but not the one for compression), in and outside the base record: sequences of 2 seeks between all piece boundaries, each followed by reads", 16 + 15 * 16 / 2 + 1, move |i, ctx| {
            let all: Vec<u16> = (0..16).flat_map(|a| (0..=a).map(move |b| 1u16 << a | 1 << b)).collect();
            let flags = all.get(i).copied().unwrap_or(0xFFFF) & !1;
            for n in 1..=4 {
                for way in 0..5 {
                    let mut lay = many_pieces(n, way % 4, ListForm::Res);
                    if way == 4 {
                        let runs = (0..n).map(|i| if i == 1 { hole(1) } else { run(1, 6500 + (i * 7919 + 13) as u64 % 2400) }).collect();
                        lay.attrs[1] = LAttr::non(ty::DATA, "", vec![runs], n as u64 * 512 - 3);
                        lay.attrs.truncate(2);
                        lay.list = ListForm::None;
                    }
                    lay.attrs[1].flags = flags;
                    ctx.state(&(flags, n, way));
                    check_many(&b, &lay, n, true, ctx)?;
                }
            }
            Ok(())
        }));
    }
    let lays = Arc::new(plain(g, 3, &[1, 2]).into_iter().filter(|l| matches!(&l.kind, Kind::Non { runs, size, init, .. } if size == init && *size == runs_clusters(runs) * 512)).collect::<Vec<_>>());
    let n = lays.len();
    let dp = t.pick(2, 3);
    v.push(Phase::new("data-runs", format!("each data run as a reader of its own, all sequences of {} operations ({} layouts)", dp, n), n, move |i, ctx| check_run(&lays[i], dp, ctx)));
    (
        v,
        Opts {
            alloc_cap: 1 << 30,
            assumptions: vec!["reads of more than 3 MiB are not issued".into(), "after a failed read_exact only consistency of the reported position is required".into()],
            ..Default::default()
        },
    )
}
