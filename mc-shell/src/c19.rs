//! C19: the sector reader delivers the bytes behind it, touching them in whole sectors only.
use crate::disk::filler;
use crate::engine::*;
use crate::sector_reader::SectorReader;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::rc::Rc;

/// The device behind the sector reader.
struct Dev {
    len: u64,
    pos: u64,
    sector: u64,
    /// whole sectors answered at most per read, 0: any number
    most: u64,
    /// positions above are refused
    max_seek: u64,
    /// call index -> kind of error
    faults: Vec<(u64, ErrorKind)>,
    calls: u64,
    bytes: u64,
    misaligned: Option<String>,
}
#[derive(Clone)]
struct Shared(Rc<RefCell<Dev>>);
impl Dev {
    fn call(&mut self) -> io::Result<()> {
        let c = self.calls;
        self.calls += 1;
        match self.faults.iter().find(|f| f.0 == c) {
            Some(f) => Err(io::Error::new(f.1, "fault")),
            None => Ok(()),
        }
    }
}
impl Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut d = self.0.borrow_mut();
        let s = d.sector;
        if d.pos < d.len && (d.pos % s != 0 || buf.len() as u64 % s != 0) {
            let m = format!("{} bytes are read at {} of a device of {} bytes in sectors of {}", buf.len(), d.pos, d.len, s);
            d.misaligned.get_or_insert(m);
        }
        d.call()?;
        let left = d.len.saturating_sub(d.pos);
        let mut n = left.min(buf.len() as u64);
        if d.most > 0 {
            n = n.min(d.most * s);
        }
        for i in 0..n {
            buf[i as usize] = filler(d.pos + i);
        }
        d.pos += n;
        d.bytes += n;
        Ok(n as usize)
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut d = self.0.borrow_mut();
        d.call()?;
        let n = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(n) => d.pos.checked_add_signed(n),
            SeekFrom::End(n) => d.len.checked_add_signed(n),
        };
        match n {
            Some(n) if n <= d.max_seek => {
                if n % d.sector != 0 {
                    let m = format!("a seek to {} of a device with sectors of {}", n, d.sector);
                    d.misaligned.get_or_insert(m);
                }
                d.pos = n;
                Ok(n)
            }
            _ => Err(io::Error::new(ErrorKind::InvalidInput, "position")),
        }
    }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Op {
    Read(usize),
    Start(u64),
    Cur(i64),
    End(i64),
}
#[derive(Clone, Copy, Debug)]
struct Cfg {
    sector: usize,
    len: u64,
    most: u64,
    max_seek: u64,
}
struct Bed {
    cfg: Cfg,
    dev: Shared,
    r: SectorReader<Shared>,
    /// where the caller is
    pos: u64,
}
impl Bed {
    fn new(cfg: Cfg) -> Bed {
        let dev = Shared(Rc::new(RefCell::new(Dev {
            len: cfg.len,
            pos: 0,
            sector: cfg.sector as u64,
            most: cfg.most,
            max_seek: cfg.max_seek,
            faults: vec![],
            calls: 0,
            bytes: 0,
            misaligned: None,
        })));
        let r = SectorReader::new(dev.clone(), cfg.sector).expect("power of two");
        Bed { cfg, dev, r, pos: 0 }
    }
    fn state(&self) -> (u64, u64) {
        (self.pos, self.dev.0.borrow().pos)
    }
    /// Executes an operation and compares it with the model. With a fault in the device, an error is right as well,
    /// if it has that kind and nothing has moved.
    fn op(&mut self, op: Op, fault: Option<ErrorKind>, ctx: &mut Ctx) -> R {
        ctx.step();
        let (cfg, at) = (self.cfg, self.pos);
        let what = || format!("{:?}, caller at {}, {:?}{}", cfg, at, op, fault.map_or(String::new(), |f| format!(", device fails with {:?}", f)));
        match op {
            Op::Read(n) => {
                let mut buf = vec![0xEE; n];
                let left = self.cfg.len.saturating_sub(self.pos);
                let most = left.min(n as u64) as usize;
                let before = self.dev.0.borrow().bytes;
                let dev_at = self.dev.0.borrow().pos;
                let s = self.cfg.sector as u64;
                let start = self.pos % s;
                // What the two listed findings come to: the bytes are taken from where the device happens to be,
                // and a sector more than needed has to be there, completely.
                let asked = (start + n as u64) / s * s + s;
                let elsewhere = dev_at != self.pos - start;
                let beyond = dev_at.checked_add(asked).is_none_or(|e| e > self.cfg.len);
                let r = guarded(what, || self.r.read(&mut buf))?;
                let moved = self.dev.0.borrow().bytes - before;
                if moved > 2 * (n as u64 + 2 * self.cfg.sector as u64) {
                    return fail("c19-work", format!("{}: {} bytes are read for that", what(), moved));
                }
                match r {
                    // listed findings
                    Ok(k) if elsewhere && k == n && !beyond && n > 0 && (0..n).all(|i| buf[i] == filler(dev_at + start + i as u64)) => {
                        if k > most || (0..n).any(|i| buf[i] != filler(self.pos + i as u64)) {
                            ctx.finding("consecutive", || format!("{}: the device is at {}, the bytes come from there", what(), dev_at))?;
                        }
                        self.pos += k as u64;
                        ctx.outcome(&("elsewhere", k));
                    }
                    Err(e) if beyond && e.kind() == ErrorKind::UnexpectedEof && fault != Some(ErrorKind::UnexpectedEof) => {
                        ctx.finding("tail", || format!("{}: the device is at {}, {} bytes are asked for", what(), dev_at, asked))?;
                        ctx.outcome("beyond");
                    }
                    Ok(k) => {
                        if k > most || (k == 0) != (most == 0) {
                            return fail("c19-count", format!("{}: {} bytes instead of {}", what(), k, most));
                        }
                        for i in 0..n {
                            if i < k && buf[i] != filler(self.pos + i as u64) {
                                return fail("c19-bytes", format!("{}: byte {} is {:#x} instead of {:#x}", what(), i, buf[i], filler(self.pos + i as u64)));
                            }
                        }
                        self.pos += k as u64;
                        ctx.outcome(&("read", k == n, k == 0));
                    }
                    Err(e) if fault == Some(e.kind()) => ctx.outcome(&("fault", e.kind().to_string())),
                    Err(e) => return fail("c19-error", format!("{}: {:?} ({} bytes are there)", what(), e, most)),
                }
            }
            Op::Start(_) | Op::Cur(_) | Op::End(_) => {
                let (p, want) = match op {
                    Op::Start(n) => (SeekFrom::Start(n), Some(n)),
                    Op::Cur(n) => (SeekFrom::Current(n), self.pos.checked_add_signed(n)),
                    Op::End(n) => (SeekFrom::End(n), self.cfg.len.checked_add_signed(n)),
                    _ => unreachable!(),
                };
                // The sector that holds the position has to be within reach of the device.
                let within = want.is_some_and(|w| w / self.cfg.sector as u64 * self.cfg.sector as u64 <= self.cfg.max_seek);
                let r = guarded(what, || self.r.seek(p))?;
                match r {
                    Ok(n) if Some(n) == want && within => {
                        self.pos = n;
                        ctx.outcome("seek");
                    }
                    Ok(n) => return fail("c19-seek", format!("{}: {} instead of {:?}", what(), n, want)),
                    Err(e) if fault == Some(e.kind()) => ctx.outcome(&("fault", e.kind().to_string())),
                    // documented not to be supported
                    Err(_) if matches!(op, Op::End(_)) => ctx.outcome("end"),
                    Err(_) if !within => ctx.outcome("refused"),
                    Err(e) => return fail("c19-seek", format!("{}: {:?}", what(), e)),
                }
            }
        }
        if let Some(m) = &self.dev.0.borrow().misaligned {
            return fail("c19-sectors", format!("{}: {}", what(), m));
        }
        Ok(())
    }
    fn arm(&mut self, at: u64, k: ErrorKind) {
        let mut d = self.dev.0.borrow_mut();
        let c = d.calls;
        d.faults = vec![(c + at, k)];
    }
    fn disarm(&mut self) -> bool {
        let mut d = self.dev.0.borrow_mut();
        let hit = d.faults.iter().any(|f| f.0 < d.calls);
        d.faults.clear();
        hit
    }
}

fn small(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    for sector in if t.thorough() { vec![1usize, 2, 4, 8, 16, 32] } else { vec![1usize, 2, 4, 8, 16] } {
        for sectors in 0..=t.pick(4u64, 6) {
            for extra in 0..sector as u64 {
                if extra > 1 && extra + 1 < sector as u64 && !t.thorough() {
                    continue;
                }
                for most in 0..=2 {
                    v.push(Cfg { sector, len: sectors * sector as u64 + extra, most, max_seek: u64::MAX });
                }
            }
        }
    }
    v
}
fn ops(c: &Cfg) -> Vec<Op> {
    let mut v: Vec<Op> = (0..=3 * c.sector + 1).map(Op::Read).collect();
    v.extend((0..=c.len + 1 + c.sector as u64).map(Op::Start));
    let m = (c.len + 2) as i64;
    v.extend((-m..=m).map(Op::Cur));
    v.extend([Op::Start(u64::MAX), Op::Cur(i64::MAX), Op::Cur(i64::MIN), Op::End(0), Op::End(-1), Op::End(1)]);
    v
}

/// Every reachable pair of positions (the caller's, the device's), and every operation in each.
fn closure(cfg: Cfg, faults: bool, ctx: &mut Ctx) -> R {
    let ops = ops(&cfg);
    let mut seen: HashMap<(u64, u64), Vec<Op>> = HashMap::new();
    let mut q = VecDeque::new();
    let b = Bed::new(cfg);
    seen.insert(b.state(), vec![]);
    q.push_back(b.state());
    let limit = cfg.len + 2 * cfg.sector as u64 + 2;
    while let Some(s) = q.pop_front() {
        ctx.state(&(s, cfg.sector, cfg.len, cfg.most));
        let path = seen[&s].clone();
        for &op in &ops {
            let again = |ctx: &mut Ctx| -> Result<Bed, V> {
                let mut b = Bed::new(cfg);
                for &o in &path {
                    b.op(o, None, ctx)?;
                }
                Ok(b)
            };
            let mut b = again(ctx)?;
            let before = b.dev.0.borrow().calls;
            b.op(op, None, ctx)?;
            let calls = b.dev.0.borrow().calls - before;
            ctx.exec();
            if b.pos <= limit && !seen.contains_key(&b.state()) {
                let mut p = path.clone();
                p.push(op);
                seen.insert(b.state(), p);
                q.push_back(b.state());
            }
            if !faults {
                continue;
            }
            for at in 0..calls {
                for k in [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::UnexpectedEof] {
                    let mut b = again(ctx)?;
                    let was = b.pos;
                    b.arm(at, k);
                    b.op(op, Some(k), ctx)?;
                    let hit = b.disarm();
                    assert!(hit, "harness: fault not reached");
                    ctx.exec();
                    // after an error nothing has moved; then the same again
                    b.op(Op::Cur(0), None, ctx)?;
                    let mut c = again(ctx)?;
                    c.arm(at, k);
                    c.op(op, Some(k), ctx)?;
                    c.disarm();
                    if c.pos == was {
                        c.op(op, None, ctx)?;
                    }
                    c.op(Op::Read(cfg.sector + 1), None, ctx)?;
                    c.op(Op::Read(1), None, ctx)?;
                }
            }
        }
    }
    Ok(())
}

fn big(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    for sector in [1usize, 512, 4096, 65536, 1 << 20] {
        for len in [0, 1, sector as u64 - 1, sector as u64, 3 * sector as u64, 5 * sector as u64 + 7, 1 << 32, (1 << 32) + 5, 1 << 62, u64::MAX] {
            for most in [0, 1] {
                if most == 1 && sector == 1 {
                    continue;
                }
                for max_seek in [u64::MAX, i64::MAX as u64] {
                    let reachable = len <= max_seek;
                    if reachable && (sector < (1 << 20) || most == 0 || t.thorough()) {
                        v.push(Cfg { sector, len, most, max_seek });
                    }
                }
            }
        }
    }
    v
}
fn big_ops(c: &Cfg) -> Vec<Op> {
    let s = c.sector as u64;
    let mut at = vec![0, 1, s - 1, s, s + 1, 2 * s, 3 * s - 1, 1 << 31, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - s, u64::MAX - 1, u64::MAX];
    for d in [0, 1, s - 1, s, s + 1] {
        at.push(c.len.saturating_sub(d));
        at.push(c.len.saturating_add(d));
    }
    at.sort();
    at.dedup();
    let mut v: Vec<Op> = at.iter().map(|&a| Op::Start(a)).collect();
    for d in [0, 1, s as i64 - 1, s as i64, s as i64 + 1, i64::MAX] {
        v.push(Op::Cur(d));
        v.push(Op::Cur(-d));
    }
    v.push(Op::Cur(i64::MIN));
    let mut n = vec![0, 1, c.sector - 1, c.sector, c.sector + 1, 2 * c.sector];
    if c.sector <= 4096 {
        n.extend([511, 512, 513, 8192, 8193]);
    }
    n.sort();
    n.dedup();
    v.extend(n.into_iter().map(Op::Read));
    v
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut ph = vec![];
    let cfgs = small(t);
    ph.push(Phase::new(
        "closure",
        format!("{} devices of up to {} sectors: every reachable pair of positions of caller and device, every read of up to 3 sectors and a byte and every seek in each", cfgs.len(), t.pick(5, 7)),
        cfgs.len(),
        move |i, ctx| closure(cfgs[i], false, ctx),
    ));
    let cfgs: Vec<Cfg> = small(Tier::Quick).into_iter().filter(|c| c.sector <= t.pick(8, 16) && c.len <= t.pick(18, 40)).collect();
    ph.push(Phase::new(
        "faults",
        format!("{} devices: every operation in every reachable state, each call to the device failing in 3 ways, followed by the same operation and two reads", cfgs.len()),
        cfgs.len(),
        move |i, ctx| closure(cfgs[i], true, ctx),
    ));
    let cfgs = big(t);
    let depth = t.pick(2, 3);
    ph.push(Phase::new(
        "large",
        format!("{} devices with sectors of up to 1 MiB and up to 2^64 bytes, every sequence of {} operations ({} for sectors above 4096) around boundaries and limits", cfgs.len(), depth, depth - 1),
        cfgs.len(),
        move |i, ctx| {
            let c = cfgs[i];
            let o = big_ops(&c);
            let mut b = Bed::new(c);
            let depth = if c.sector > 4096 { depth - 1 } else { depth };
            for _ in 0..depth {
                let op = o[ctx.choose(o.len())];
                b.op(op, None, ctx)?;
                ctx.state(&(b.state(), i));
            }
            b.op(Op::Read(3), None, ctx)?;
            ctx.exec();
            Ok(())
        },
    ));
    ph.push(Phase::new("sector sizes", "every sector size up to 65,536 and around every power of two", 64, move |i, ctx| {
        let mut v: Vec<usize> = (i * 1024..(i + 1) * 1024 + 1).collect();
        let p = 1usize << i;
        v.extend([p - 1, p, p.wrapping_add(1)]);
        for s in v {
            let dev = Bed::new(Cfg { sector: 1, len: 10, most: 0, max_seek: u64::MAX }).dev;
            let r = guarded(|| format!("sector size {}", s), || SectorReader::new(dev, s).is_ok())?;
            ctx.step();
            ctx.state(&s);
            ctx.outcome(&r);
            if r != (s.count_ones() == 1) {
                return fail("c19-size", format!("sector size {}: accepted: {}", s, r));
            }
        }
        ctx.exec();
        Ok(())
    }));
    (ph, Opts::default())
}
