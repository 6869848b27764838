//! Virtual disk: a sparse image whose unwritten bytes are a fixed non-zero function of their address,
//! and a reader over it whose every answer (data, short read, error, end) is decided by the harness.

#![allow(dead_code)]

use binrw::io::{self, Read, Seek, SeekFrom};
use std::collections::HashMap;
use std::sync::Arc;

pub const PAGE: usize = 4096;

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// Content of the never-written byte at address `a` (never zero).
pub fn filler(a: u64) -> u8 {
    let w = mix(a >> 3) | 0x0101_0101_0101_0101;
    (w >> ((a & 7) * 8)) as u8
}

/// Writes the filler of the given addresses.
fn fill(mut a: u64, mut buf: &mut [u8]) {
    while !buf.is_empty() && (a & 7 != 0 || buf.len() < 8) {
        buf[0] = filler(a);
        a += 1;
        buf = &mut buf[1..];
    }
    let mut it = buf.chunks_exact_mut(8);
    for c in &mut it {
        c.copy_from_slice(&(mix(a >> 3) | 0x0101_0101_0101_0101).to_le_bytes());
        a += 8;
    }
    for (k, x) in it.into_remainder().iter_mut().enumerate() {
        *x = filler(a + k as u64);
    }
}

#[derive(Clone, Default)]
pub struct Img {
    near: Vec<Option<Arc<[u8; PAGE]>>>,
    far: HashMap<u64, Arc<[u8; PAGE]>>,
    pub size: u64,
}
const NEAR: u64 = 1 << 15;

impl Img {
    pub fn new(size: u64) -> Self {
        Img { near: vec![], far: HashMap::new(), size }
    }
    #[inline]
    fn page(&self, p: u64) -> Option<&Arc<[u8; PAGE]>> {
        if p < NEAR {
            self.near.get(p as usize).and_then(|x| x.as_ref())
        } else {
            self.far.get(&p)
        }
    }
    fn page_mut(&mut self, p: u64) -> &mut Arc<[u8; PAGE]> {
        let fresh = || {
            let mut b = [0u8; PAGE];
            for (k, x) in b.iter_mut().enumerate() {
                *x = filler(p * PAGE as u64 + k as u64);
            }
            Arc::new(b)
        };
        if p < NEAR {
            if self.near.len() <= p as usize {
                self.near.resize(p as usize + 1, None);
            }
            self.near[p as usize].get_or_insert_with(fresh)
        } else {
            self.far.entry(p).or_insert_with(fresh)
        }
    }
    pub fn read_at(&self, a: u64, buf: &mut [u8]) {
        let mut i = 0;
        while i < buf.len() {
            let p = (a + i as u64) / PAGE as u64;
            let o = ((a + i as u64) % PAGE as u64) as usize;
            let n = (PAGE - o).min(buf.len() - i);
            match self.page(p) {
                Some(pg) => buf[i..i + n].copy_from_slice(&pg[o..o + n]),
                None => fill(a + i as u64, &mut buf[i..i + n]),
            }
            i += n;
        }
    }
    pub fn get(&self, a: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.read_at(a, &mut v);
        v
    }
    pub fn write(&mut self, a: u64, data: &[u8]) {
        let mut i = 0;
        while i < data.len() {
            let p = (a + i as u64) / PAGE as u64;
            let o = ((a + i as u64) % PAGE as u64) as usize;
            let n = (PAGE - o).min(data.len() - i);
            let pg = self.page_mut(p);
            Arc::make_mut(pg)[o..o + n].copy_from_slice(&data[i..i + n]);
            i += n;
        }
        self.size = self.size.max(a + data.len() as u64);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// this reader call fails with `Disk::kind`
    Err,
    /// this reader call fails with Interrupted
    Interrupted,
    /// this read delivers a single byte only
    Short1,
    /// this read delivers about half of what was asked for
    ShortHalf,
}

/// How reads are answered when no fault applies.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    Full,
    /// at most n bytes per read
    Max(u64),
    /// never crosses a multiple of n
    Block(u64),
    /// every read first fails with Interrupted, then succeeds
    Intr,
}

#[derive(Clone)]
pub struct Disk {
    pub img: Arc<Img>,
    pub pos: u64,
    /// number of reader calls so far (reads and seeks)
    pub ops: u64,
    pub bytes: u64,
    /// end of the readable image
    pub end: u64,
    pub faults: Vec<(u64, Fault)>,
    pub style: Style,
    pub budget: u64,
    pub patch: Vec<(u64, Vec<u8>)>,
    pub faulted: bool,
    /// set when the faulty call was a read (as opposed to a seek)
    pub fault_was_read: bool,
    /// set when a read hit the end of the image
    pub hit_end: bool,
    /// from this reader call on, every call fails
    pub dead: u64,
    /// the kind of injected errors
    pub kind: io::ErrorKind,
    /// bytes that can never be read
    pub bad: Option<(u64, u64)>,
    intr: bool,
    pub trace: Option<Vec<(bool, u64, usize)>>,
}

impl Disk {
    pub fn new(img: Arc<Img>) -> Self {
        let end = img.size;
        Disk {
            img,
            pos: 0,
            ops: 0,
            bytes: 0,
            end,
            faults: vec![],
            style: Style::Full,
            budget: u64::MAX,
            patch: vec![],
            faulted: false,
            fault_was_read: false,
            hit_end: false,
            dead: u64::MAX,
            kind: io::ErrorKind::PermissionDenied,
            bad: None,
            intr: false,
            trace: None,
        }
    }
    fn tick(&mut self) -> Option<Fault> {
        let i = self.ops;
        self.ops += 1;
        if self.ops > self.budget {
            panic!("reader call budget of {} exceeded", self.budget);
        }
        if i >= self.dead {
            return Some(Fault::Err);
        }
        self.faults.iter().find(|f| f.0 == i).map(|f| f.1)
    }
}

impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let f = self.tick();
        if let Some(t) = &mut self.trace {
            t.push((true, self.pos, buf.len()));
        }
        match f {
            Some(Fault::Err) => {
                self.faulted = true;
                self.fault_was_read = true;
                return Err(io::Error::new(self.kind, "injected read error"));
            }
            Some(Fault::Interrupted) => {
                self.faulted = true;
                self.fault_was_read = true;
                return Err(io::Error::new(io::ErrorKind::Interrupted, "injected interruption"));
            }
            _ => {}
        }
        if self.style == Style::Intr {
            self.intr = !self.intr;
            if self.intr {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interruption"));
            }
        }
        let left = self.end.saturating_sub(self.pos);
        let mut n = (buf.len() as u64).min(left);
        if (buf.len() as u64) > left {
            self.hit_end = true;
        }
        match self.style {
            Style::Max(m) => n = n.min(m),
            Style::Block(b) => n = n.min(b - self.pos % b),
            _ => {}
        }
        match f {
            Some(Fault::Short1) if n > 1 => {
                self.faulted = true;
                n = 1;
            }
            Some(Fault::ShortHalf) if n > 1 => {
                self.faulted = true;
                n = n.div_ceil(2);
            }
            _ => {}
        }
        if let Some((s, e)) = self.bad {
            if self.pos >= s && self.pos < e && n > 0 {
                self.faulted = true;
                return Err(io::Error::new(self.kind, "bad sector"));
            }
            if self.pos < s && self.pos + n > s {
                n = s - self.pos;
            }
        }
        let n = n as usize;
        self.img.read_at(self.pos, &mut buf[..n]);
        for (a, d) in &self.patch {
            let (s, e) = ((*a).max(self.pos), (*a + d.len() as u64).min(self.pos + n as u64));
            if s < e {
                buf[(s - self.pos) as usize..(e - self.pos) as usize].copy_from_slice(&d[(s - a) as usize..(e - a) as usize]);
            }
        }
        self.pos += n as u64;
        self.bytes += n as u64;
        Ok(n)
    }
}

impl Seek for Disk {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let f = self.tick();
        if let Some(t) = &mut self.trace {
            let target = match p {
                SeekFrom::Start(n) => n,
                SeekFrom::Current(n) => self.pos.wrapping_add(n as u64),
                SeekFrom::End(n) => self.end.wrapping_add(n as u64),
            };
            t.push((false, target, 0));
        }
        match f {
            Some(Fault::Err) => {
                self.faulted = true;
                return Err(io::Error::new(self.kind, "injected seek error"));
            }
            _ => {}
        }
        let np = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(n) => self.pos.checked_add_signed(n),
            SeekFrom::End(n) => self.end.checked_add_signed(n),
        };
        match np {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before start")),
        }
    }
}
