//! Drives every operation of the library over a volume and records what it says.
//! Uses nothing but the library and binrw::io, so that it also compiles against the library without std.
#![allow(dead_code)]
use crate::disk::Disk;
use binrw::io::{ErrorKind, Read, Seek, SeekFrom};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::*;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    N(&'static str, u64),
    B(&'static str, Vec<u8>),
    /// an error, with the kind of an I/O error
    E(&'static str, Option<ErrorKind>),
}
pub struct Stop;
pub type S = Result<(), Stop>;

pub struct Out {
    pub items: Vec<Item>,
    pub keep: bool,
    pub hash: u64,
    pub count: u64,
    pub errors: u64,
    /// stop at the first I/O error of that kind
    pub stop: Option<ErrorKind>,
    /// most items an iteration may yield
    pub max_iter: usize,
    /// set to the iteration that did not end
    pub endless: Option<&'static str>,
    /// most bytes to read of a value from one position
    pub max_bytes: usize,
    /// also do things that make no sense
    pub deep: bool,
    /// moves the reader before every call
    pub scramble: Option<fn(u64, &mut Disk)>,
    pub calls: u64,
    /// reader calls a single library call may make; 0: no limit
    pub call_ops: u64,
    /// most bytes a call may read
    pub last: &'static str,
    /// names to look up
    pub names: Vec<String>,
    pub upcase: bool,
    /// leave out the bytes of values that are structures themselves
    pub meaning: bool,
    mute: bool,
    mft: bool,
}
impl Out {
    pub fn new() -> Out {
        Out {
            items: vec![],
            keep: false,
            hash: 0,
            count: 0,
            errors: 0,
            stop: None,
            max_iter: 4000,
            endless: None,
            max_bytes: 6000,
            deep: false,
            scramble: None,
            calls: 0,
            call_ops: 0,
            last: "",
            names: vec![],
            upcase: true,
            meaning: false,
            mute: false,
            mft: false,
        }
    }
    pub fn kept() -> Out {
        Out { keep: true, ..Out::new() }
    }
    fn mix(&mut self, x: u64) {
        self.hash = (self.hash.rotate_left(23) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.hash ^= self.hash >> 29;
    }
    pub fn n(&mut self, l: &'static str, v: u64) {
        self.count += 1;
        self.mix(v ^ (l.len() as u64) << 56 ^ (l.as_bytes()[0] as u64) << 48);
        if self.keep {
            self.items.push(Item::N(l, v));
        }
    }
    pub fn b(&mut self, l: &'static str, v: &[u8]) {
        if self.mute && l == "bytes" {
            return self.n(l, v.len() as u64);
        }
        self.count += 1;
        self.mix(v.len() as u64);
        for c in v.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            self.mix(u64::from_le_bytes(w));
        }
        if self.keep {
            self.items.push(Item::B(l, v.to_vec()));
        }
    }
    pub fn e(&mut self, l: &'static str, e: &NtfsError) -> S {
        self.count += 1;
        self.errors += 1;
        let k = match e {
            NtfsError::Io(e) => Some(e.kind()),
            _ => None,
        };
        if let Some(k) = k {
            for c in format!("{:?}", k).bytes() {
                self.mix(c as u64);
            }
        }
        if self.deep && k.is_some() {
            let _ = format!("{} {:?}", e, e);
        } else if self.deep {
            // displaying an error must work as well
            let n = format!("{} {:?}", e, e).len();
            self.mix(n as u64);
        }
        self.mix(0xE);
        if self.keep {
            self.items.push(Item::E(l, k));
        }
        if k.is_some() && k == self.stop {
            return Err(Stop);
        }
        Ok(())
    }
    fn end(&mut self, l: &'static str) -> S {
        self.endless = Some(l);
        Err(Stop)
    }
    /// About to make a call.
    fn at(&mut self, l: &'static str, d: &mut Disk) {
        self.last = l;
        self.calls += 1;
        if let Some(f) = self.scramble {
            f(self.calls, d);
        }
        if self.call_ops > 0 {
            d.budget = d.ops + self.call_ops;
        }
    }
}
macro_rules! ok {
    ($o:expr, $l:expr, $e:expr) => {
        match $e {
            Ok(x) => Some(x),
            Err(e) => {
                $o.e($l, &e)?;
                None
            }
        }
    };
}

pub fn mount(d: &mut Disk, o: &mut Out) -> Result<Option<Ntfs>, Stop> {
    o.at("mount", d);
    let n = Ntfs::new(d);
    let Some(mut n) = ok!(o, "mount", n) else { return Ok(None) };
    o.n("cs", n.cluster_size() as u64);
    o.n("rs", n.file_record_size() as u64);
    o.n("mft", pos(n.mft_position()));
    o.n("ss", n.sector_size() as u64);
    o.n("serial", n.serial_number());
    o.n("size", n.size());
    if o.upcase {
        o.at("upcase", d);
        let r = n.read_upcase_table(d);
        o.upcase = r.is_ok();
        ok!(o, "upcase", r);
    }
    Ok(Some(n))
}
fn pos(p: ntfs::types::NtfsPosition) -> u64 {
    p.value().map_or(0, |p| p.get())
}

pub fn volume(n: &Ntfs, d: &mut Disk, o: &mut Out) -> S {
    o.at("volume_info", d);
    if let Some(i) = ok!(o, "volume_info", n.volume_info(d)) {
        o.n("vi", (i.major_version() as u64) << 32 | (i.minor_version() as u64) << 16 | i.flags().bits() as u64);
        if o.deep {
            let s = format!("{}", i.flags());
            o.b("vi", s.as_bytes());
        }
    }
    o.at("volume_name", d);
    match n.volume_name(d) {
        None => o.n("no volume name", 0),
        Some(r) => {
            if let Some(v) = ok!(o, "volume_name", r) {
                name(o, "vn", v.name());
                o.n("vn", v.name_length() as u64);
            }
        }
    }
    o.at("root", d);
    if let Some(f) = ok!(o, "root", n.root_directory(d)) {
        o.n("root", f.file_record_number());
        o.n("root", pos(f.position()));
    }
    Ok(())
}
fn name(o: &mut Out, l: &'static str, s: nt_string::u16strle::U16StrLe) {
    let b: Vec<u8> = s.u16_iter().flat_map(|c| c.to_le_bytes()).collect();
    o.b(l, &b);
    if o.deep {
        let t = s.to_string_lossy();
        o.n(l, t.len() as u64);
        o.n(l, s.to_string().is_ok() as u64);
    }
}

pub fn file(n: &Ntfs, rec: u64, d: &mut Disk, o: &mut Out) -> S {
    o.at("file", d);
    let Some(f) = ok!(o, "file", n.file(d, rec)) else { return Ok(()) };
    o.n("file", f.file_record_number());
    o.n("file alloc", f.allocated_size() as u64);
    o.n("file size", f.data_size() as u64);
    o.n("file flags", f.flags().bits() as u64);
    o.n("file links", f.hard_link_count() as u64);
    o.n("file dir", f.is_directory() as u64);
    o.n("file pos", pos(f.position()));
    o.n("file seq", f.sequence_number() as u64);
    o.mft = o.meaning && rec == 0;
    raw(&f, d, o)?;
    flat(&f, d, o)?;
    o.mute = o.mft;
    accessors(n, &f, d, o)?;
    o.mute = false;
    index(n, &f, d, o)?;
    indexes(&f, d, o)?;
    Ok(())
}

fn raw(f: &NtfsFile, d: &mut Disk, o: &mut Out) -> S {
    let mut k = 0;
    o.at("attributes_raw", d);
    for a in f.attributes_raw() {
        k += 1;
        if k > o.max_iter {
            return o.end("raw attributes");
        }
        if let Some(a) = ok!(o, "raw", a) {
            o.n("raw", 1);
            attribute(f.ntfs(), &a, false, d, o)?;
        }
        o.at("attributes_raw", d);
    }
    o.n("raw end", k as u64);
    Ok(())
}
fn flat(f: &NtfsFile, d: &mut Disk, o: &mut Out) -> S {
    let mut it = f.attributes();
    let mut k = 0;
    loop {
        o.at("attributes", d);
        let Some(i) = it.next(d) else { break };
        k += 1;
        if k > o.max_iter {
            return o.end("attributes");
        }
        let Some(i) = ok!(o, "flat", i) else { continue };
        if let Some(a) = ok!(o, "flat attr", i.to_attribute()) {
            o.n("flat", 1);
            attribute(f.ntfs(), &a, true, d, o)?;
        }
    }
    o.n("flat end", k as u64);
    if !o.deep {
        return Ok(());
    }
    let mut k = 0;
    let mut it = f.attributes().attach(d);
    loop {
        let Some(i) = it.next() else { break };
        k += 1;
        if k > o.max_iter {
            return o.end("attached attributes");
        }
        let Some(i) = ok!(o, "attached", i) else { continue };
        if let Some(a) = ok!(o, "attached attr", i.to_attribute()) {
            o.n("attached", a.instance() as u64);
        }
    }
    let _ = it.detach();
    Ok(())
}

fn attribute(n: &Ntfs, a: &NtfsAttribute, flat: bool, d: &mut Disk, o: &mut Out) -> S {
    o.last = "attribute";
    let t = ok!(o, "ty", a.ty()).map(|t| t as u32);
    o.n("ty", t.unwrap_or(0) as u64);
    o.mute = o.mft || o.meaning && matches!(t, Some(0x20 | 0x70 | 0x90 | 0xA0));
    o.n("inst", a.instance() as u64);
    o.n("flags", a.flags().bits() as u64);
    o.n("resident", a.is_resident() as u64);
    o.n("len", a.value_length());
    o.n("alen", a.attribute_length() as u64);
    o.n("apos", pos(a.position()));
    o.n("nlen", a.name_length() as u64);
    if let Some(s) = ok!(o, "name", a.name()) {
        name(o, "name", s);
    }
    if o.deep {
        let s = format!("{}", a.flags());
        o.n("flags", s.len() as u64);
    }
    o.at("value", d);
    if let Some(v) = ok!(o, "value", a.value(d)) {
        value(v, d, o)?;
    }
    o.mute = false;
    macro_rules! sv {
        ($t:ty, $id:expr, $v:ident, $f:block) => {
            if t == Some($id) || o.deep {
                o.at("structured_value", d);
                let r = a.structured_value::<_, $t>(d);
                if let Some($v) = ok!(o, "structured", r) $f
            }
        };
    }
    macro_rules! rv {
        ($t:ty, $id:expr, $v:ident, $f:block) => {
            sv!($t, $id, $v, $f);
            if t == Some($id) && a.is_resident() || o.deep {
                o.at("resident_structured_value", d);
                let r = a.resident_structured_value::<$t>();
                if let Some($v) = ok!(o, "resident structured", r) $f
            }
        };
    }
    rv!(NtfsStandardInformation, 0x10, v, {
        std_info(&v, o);
    });
    sv!(NtfsFileName, 0x30, v, { file_name(&v, o) });
    rv!(NtfsObjectId, 0x40, v, {
        o.b("oid", format!("{}", v.object_id()).as_bytes());
        for g in [v.birth_volume_id(), v.birth_object_id(), v.domain_id()] {
            match g {
                Some(g) => o.b("oid", format!("{}", g).as_bytes()),
                None => o.n("no oid", 0),
            }
        }
    });
    rv!(NtfsVolumeName, 0x60, v, { name(o, "vn", v.name()) });
    rv!(NtfsVolumeInformation, 0x70, v, {
        o.n("vi", (v.major_version() as u64) << 32 | (v.minor_version() as u64) << 16 | v.flags().bits() as u64);
    });
    rv!(NtfsIndexRoot, 0x90, v, {
        o.n("root", (v.index_allocated_size() as u64) << 32 | v.index_data_size() as u64);
        o.n("root", (v.index_record_size() as u64) << 1 | v.is_large_index() as u64);
        o.n("root", pos(v.position()));
        if let Some(it) = ok!(o, "root entries", v.entries::<NtfsFileNameIndex>()) {
            let mut k = 0;
            for e in it {
                k += 1;
                if k > o.max_iter {
                    return o.end("root entries");
                }
                if let Some(e) = ok!(o, "root entry", e) {
                    entry(&e, o)?;
                }
            }
        }
    });
    if flat && (t == Some(0xA0) || o.deep) {
        o.at("index allocation", d);
        let r = a.structured_value::<_, NtfsIndexAllocation>(d);
        if let Some(v) = ok!(o, "allocation", r) {
            for irs in [1024, 4096] {
                let mut it = v.records(irs);
                for k in 0..60 {
                    o.at("index records", d);
                    let Some(r) = it.next(d) else {
                        o.n("records end", k);
                        break;
                    };
                    if let Some(r) = ok!(o, "record", r) {
                        record(&r, o)?;
                    }
                }
                for vcn in [0i64, 1, 2, 3, 4, 8, -1, 1 << 40, i64::MAX, i64::MIN] {
                    o.at("record_from_vcn", d);
                    let r = v.record_from_vcn(d, irs, ntfs::types::Vcn::from(vcn));
                    if let Some(r) = ok!(o, "record_from_vcn", r) {
                        record(&r, o)?;
                    }
                }
            }
        }
    }
    if t == Some(0x20) || o.deep {
        o.at("attribute list", d);
        let r = a.structured_value::<_, NtfsAttributeList>(d);
        if let Some(v) = ok!(o, "list", r) {
            o.n("list", pos(v.position()));
            let mut it = v.entries();
            let mut k = 0;
            loop {
                o.at("list entries", d);
                let Some(e) = it.next(d) else { break };
                k += 1;
                if k > o.max_iter {
                    return o.end("attribute list");
                }
                let Some(e) = ok!(o, "list entry", e) else { continue };
                let t = ok!(o, "le ty", e.ty()).map_or(0, |t| t as u64);
                o.n("le", t);
                o.n("le", e.instance() as u64);
                o.n("le", e.list_entry_length() as u64);
                o.n("le", e.lowest_vcn().value() as u64);
                o.n("le", e.base_file_reference().file_record_number());
                o.n("le", e.base_file_reference().sequence_number() as u64);
                o.n("le pos", pos(e.position()));
                name(o, "le", e.name());
                if k < 40 {
                    o.at("list entry file", d);
                    if let Some(f) = ok!(o, "le file", e.to_file(n, d)) {
                        o.n("le file", f.file_record_number());
                        if let Some(a) = ok!(o, "le attr", e.to_attribute(&f)) {
                            o.n("le attr", a.value_length());
                            o.n("le attr", pos(a.position()));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn std_info(v: &NtfsStandardInformation, o: &mut Out) {
    for t in [v.creation_time(), v.modification_time(), v.mft_record_modification_time(), v.access_time()] {
        o.n("time", t.nt_timestamp());
    }
    o.n("fa", v.file_attributes().bits() as u64);
    if o.deep {
        o.b("fa", format!("{}", v.file_attributes()).as_bytes());
    }
    for x in [v.class_id(), v.maximum_versions(), v.owner_id(), v.security_id(), v.version()] {
        o.n("std", x.map_or(1 << 40, |x| x as u64));
    }
    for x in [v.quota_charged(), v.usn()] {
        o.n("std", x.map_or(u64::MAX, |x| x.rotate_left(1)));
    }
}
fn file_name(v: &NtfsFileName, o: &mut Out) {
    for t in [v.creation_time(), v.modification_time(), v.mft_record_modification_time(), v.access_time()] {
        o.n("time", t.nt_timestamp());
    }
    o.n("fn", v.allocated_size());
    o.n("fn", v.data_size());
    o.n("fn", v.file_attributes().bits() as u64);
    o.n("fn", v.is_directory() as u64);
    o.n("fn", v.name_length() as u64);
    o.n("fn", v.namespace() as u64);
    o.n("fn", v.parent_directory_reference().file_record_number());
    o.n("fn", v.parent_directory_reference().sequence_number() as u64);
    name(o, "fn", v.name());
}
fn entry(e: &NtfsIndexEntry<NtfsFileNameIndex>, o: &mut Out) -> S {
    o.n("ie", e.file_reference().file_record_number());
    o.n("ie", e.file_reference().sequence_number() as u64);
    o.n("ie", (e.flags().bits() as u64) << 32 | (e.index_entry_length() as u64) << 16 | e.key_length() as u64);
    o.n("ie pos", pos(e.position()));
    if o.deep {
        o.b("ie", format!("{}", e.flags()).as_bytes());
    }
    match e.key() {
        None => o.n("no key", 0),
        Some(k) => {
            if let Some(k) = ok!(o, "key", k) {
                file_name(&k, o);
            }
        }
    }
    match e.subnode_vcn() {
        None => o.n("no subnode", 0),
        Some(v) => {
            if let Some(v) = ok!(o, "subnode", v) {
                o.n("subnode", v.value() as u64);
            }
        }
    }
    Ok(())
}
fn record(r: &NtfsIndexRecord, o: &mut Out) -> S {
    o.n("ir", r.vcn().value() as u64);
    o.n("ir", (r.index_allocated_size() as u64) << 32 | r.index_data_size() as u64);
    o.n("ir", r.has_subnodes() as u64);
    if let Some(it) = ok!(o, "ir entries", r.entries::<NtfsFileNameIndex>()) {
        let mut k = 0;
        for e in it {
            k += 1;
            if k > o.max_iter {
                return o.end("record entries");
            }
            if let Some(e) = ok!(o, "ir entry", e) {
                entry(&e, o)?;
            }
        }
    }
    Ok(())
}

/// Reads up to `cap` bytes; interrupted reads are repeated.
pub fn read<V: NtfsReadSeek>(v: &mut V, d: &mut Disk, o: &mut Out, cap: usize) -> S {
    let mut data = vec![];
    let mut buf = [0u8; 1500];
    let r = loop {
        o.at("read", d);
        let n = buf.len().min(cap - data.len());
        match v.read(d, &mut buf[..n]) {
            Ok(0) => break Ok(()),
            Ok(n) => data.extend(&buf[..n]),
            Err(NtfsError::Io(e)) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => break Err(e),
        }
    };
    o.b("bytes", &data);
    if let Err(e) = r {
        o.e("read", &e)?;
    }
    o.n("at", v.stream_position());
    Ok(())
}

fn value(v: NtfsAttributeValue, d: &mut Disk, o: &mut Out) -> S {
    let mut v = v;
    let len = v.len();
    o.n("vlen", len);
    o.n("vempty", v.is_empty() as u64);
    o.n("vpos", pos(v.data_position()));
    let cap = o.max_bytes;
    read(&mut v, d, o, cap)?;
    o.n("vpos", pos(v.data_position()));
    if let NtfsAttributeValue::NonResident(n) = &v {
        let mut k = 0;
        o.last = "data_runs";
        let mut it = n.data_runs();
        while let Some(r) = it.next() {
            k += 1;
            o.n("run", pos(it.position()));
            if k > o.max_iter {
                return o.end("data runs");
            }
            match ok!(o, "run", r) {
                Some(r) => {
                    o.n("run", pos(r.data_position()));
                    o.n("run", r.allocated_size());
                    if k < 4 {
                        let mut r = r;
                        let mut b = [0; 40];
                        let first = loop {
                            o.at("run read", d);
                            match r.read(d, &mut b) {
                                Err(NtfsError::Io(e)) if e.kind() == ErrorKind::Interrupted => {}
                                x => break x,
                            }
                        };
                        if let Some(n) = ok!(o, "run read", first) {
                            // how much one call yields is up to the reader
                            let mut n = n;
                            while n < 40 {
                                o.at("run read", d);
                                match r.read(d, &mut b[n..]) {
                                    Ok(0) => break,
                                    Ok(m) => n += m,
                                    Err(NtfsError::Io(e)) if e.kind() == ErrorKind::Interrupted => {}
                                    Err(_) => break,
                                }
                            }
                            o.n("run read", (n > 0) as u64);
                        }
                    }
                }
                None => break,
            }
        }
    }
    let seeks: &[SeekFrom] = &[
        SeekFrom::Start(len / 2),
        SeekFrom::Current(-1),
        SeekFrom::Current(1),
        SeekFrom::End(-7),
        SeekFrom::Start(0),
        SeekFrom::Start(len),
        SeekFrom::Start(u64::MAX),
        SeekFrom::Current(i64::MAX),
        SeekFrom::Current(1),
        SeekFrom::Current(i64::MIN),
        SeekFrom::End(i64::MAX),
        SeekFrom::End(i64::MIN),
        SeekFrom::End(0),
        SeekFrom::Start(513),
    ];
    for s in &seeks[..if o.deep { seeks.len() } else { 5 }] {
        o.at("seek", d);
        if let Some(p) = ok!(o, "seek", v.seek(d, *s)) {
            o.n("seek", p);
        }
        o.n("vpos", pos(v.data_position()));
        if o.deep {
            read(&mut v, d, o, 33)?;
        }
    }
    let c = v.clone();
    read(&mut v, d, o, 100)?;
    if o.deep {
        let mut at = c.attach(d);
        let mut b = [0u8; 20];
        let mut n = 0;
        let mut calls = 0;
        while n < 20 {
            calls += 1;
            match at.read(&mut b[n..]) {
                Ok(0) => break,
                Ok(m) => n += m,
                Err(e) if e.kind() == ErrorKind::Interrupted && calls < 100 => {}
                Err(e) => {
                    o.b("bytes", &b[..n]);
                    o.e("attached", &NtfsError::Io(e))?;
                    n = 99;
                }
            }
        }
        if n < 99 {
            o.b("bytes", &b[..n]);
        }
        match at.seek(SeekFrom::End(-3)) {
            Ok(p) => o.n("attached", p),
            Err(e) => o.e("attached", &NtfsError::Io(e))?,
        }
        o.n("attached", pos(at.data_position()));
        o.n("attached", at.len());
        let mut v = at.detach();
        read(&mut v, d, o, 5)?;
    }
    Ok(())
}

fn accessors(n: &Ntfs, f: &NtfsFile, d: &mut Disk, o: &mut Out) -> S {
    o.at("info", d);
    if let Some(i) = ok!(o, "info", f.info()) {
        std_info(&i, o);
    }
    for (ns, p) in [(None, None), (Some(NtfsFileNamespace::Dos), None), (Some(NtfsFileNamespace::Win32), Some(5)), (None, Some(77))] {
        o.at("name", d);
        match f.name(d, ns, p) {
            None => o.n("no name", 0),
            Some(x) => {
                if let Some(x) = ok!(o, "name", x) {
                    file_name(&x, o);
                }
            }
        }
    }
    for q in ["", "s", "S2", "absent"] {
        if !o.upcase && !q.is_empty() {
            continue;
        }
        o.at("data", d);
        match f.data(d, q) {
            None => o.n("no data", 0),
            Some(x) => {
                if let Some(i) = ok!(o, "data", x) {
                    if let Some(a) = ok!(o, "data attr", i.to_attribute()) {
                        o.n("data", a.value_length());
                        o.n("data", pos(a.position()));
                        o.at("value", d);
                        if let Some(mut v) = ok!(o, "data value", a.value(d)) {
                            read(&mut v, d, o, 700)?;
                        }
                    }
                }
            }
        }
    }
    let _ = n;
    Ok(())
}

fn index(n: &Ntfs, f: &NtfsFile, d: &mut Disk, o: &mut Out) -> S {
    o.at("directory_index", d);
    let Some(ix) = ok!(o, "index", f.directory_index(d)) else { return Ok(()) };
    let mut it = ix.entries();
    let mut k = 0;
    let mut found: Vec<String> = vec![];
    loop {
        o.at("entries", d);
        let Some(e) = it.next(d) else { break };
        k += 1;
        if k > o.max_iter {
            return o.end("index entries");
        }
        if let Some(e) = ok!(o, "entry", e) {
            o.n("entry", 1);
            entry(&e, o)?;
            if found.len() < 3 {
                if let Some(Ok(k)) = e.key() {
                    found.push(k.name().to_string_lossy());
                }
            }
            if k < 3 {
                o.at("entry file", d);
                if let Some(f) = ok!(o, "entry file", e.to_file(n, d)) {
                    o.n("entry file", f.file_record_number());
                    o.n("entry file", f.sequence_number() as u64);
                }
            }
        }
    }
    o.n("entries end", k as u64);
    let mut fi = ix.finder();
    let names: Vec<String> = o.names.iter().cloned().chain(found).collect();
    for q in &names {
        o.at("find", d);
        let r = if o.upcase {
            NtfsFileNameIndex::find(&mut fi, n, d, q)
        } else {
            let u: Vec<u16> = q.encode_utf16().collect();
            fi.find(d, |k: &NtfsFileName| u.iter().copied().cmp(k.name().u16_iter()))
        };
        match r {
            None => o.n("not found", 0),
            Some(r) => {
                if let Some(e) = ok!(o, "find", r) {
                    entry(&e, o)?;
                }
            }
        }
    }
    for c in [Ordering::Less, Ordering::Greater] {
        o.at("find", d);
        match fi.find(d, |_| c) {
            None => o.n("not found", 0),
            Some(r) => {
                if let Some(e) = ok!(o, "find", r) {
                    entry(&e, o)?;
                }
            }
        }
    }
    Ok(())
}

/// Indexes with keys and data of any kind.
#[derive(Clone, Debug)]
pub struct AnyIndex;
#[derive(Clone, Debug)]
pub struct Bytes(pub Vec<u8>, pub u64);
impl NtfsIndexEntryType for AnyIndex {
    type KeyType = Bytes;
}
impl NtfsIndexEntryHasData for AnyIndex {
    type DataType = Bytes;
}
impl NtfsIndexEntryKey for Bytes {
    fn key_from_slice(slice: &[u8], position: types::NtfsPosition) -> Result<Self, NtfsError> {
        Ok(Bytes(slice.to_vec(), pos(position)))
    }
}
impl NtfsIndexEntryData for Bytes {
    fn data_from_slice(slice: &[u8], position: types::NtfsPosition) -> Result<Self, NtfsError> {
        Ok(Bytes(slice.to_vec(), pos(position)))
    }
}
fn any_entry(e: &NtfsIndexEntry<AnyIndex>, o: &mut Out) -> S {
    o.n("any entry", pos(e.position()));
    o.n("any entry", e.data_length() as u64 | (e.key_length() as u64) << 16 | (e.index_entry_length() as u64) << 32);
    for x in [e.key(), e.data()].into_iter().flatten() {
        if let Some(x) = ok!(o, "any entry", x) {
            o.b("any entry", &x.0);
            o.n("any entry", x.1);
        }
    }
    Ok(())
}
/// Every index root with the allocation of the same name.
fn indexes(f: &NtfsFile, d: &mut Disk, o: &mut Out) -> S {
    let mut roots: Vec<(Vec<u16>, NtfsAttributeItem)> = vec![];
    let mut allocs: Vec<(Vec<u16>, NtfsAttributeItem)> = vec![];
    let mut it = f.attributes();
    let mut k = 0;
    loop {
        o.at("attributes", d);
        let Some(i) = it.next(d) else { break };
        k += 1;
        if k > o.max_iter {
            return o.end("attributes");
        }
        let Some(i) = ok!(o, "any", i) else { continue };
        let Some(a) = ok!(o, "any", i.to_attribute()) else { continue };
        let to = match a.ty() {
            Ok(NtfsAttributeType::IndexRoot) => &mut roots,
            Ok(NtfsAttributeType::IndexAllocation) => &mut allocs,
            _ => continue,
        };
        if let (Some(n), true) = (ok!(o, "any", a.name()), to.len() < 4) {
            to.push((n.u16_iter().collect(), i.clone()));
        }
    }
    for (n, r) in roots {
        // directories are walked already
        let dir = n.len() == 4 && n[1] == 0x49;
        if dir && !o.deep {
            continue;
        }
        o.at("any index", d);
        let alloc = allocs.iter().find(|a| a.0 == n).map(|a| a.1.clone());
        let Some(ix) = ok!(o, "any index", NtfsIndex::<AnyIndex>::new(r, alloc)) else { continue };
        let mut it = ix.entries();
        let mut k = 0;
        loop {
            o.at("any entries", d);
            let Some(e) = it.next(d) else { break };
            k += 1;
            if k > o.max_iter {
                return o.end("entries of any kind");
            }
            if let Some(e) = ok!(o, "any entry", e) {
                any_entry(&e, o)?;
            }
        }
        let mut fi = ix.finder();
        for c in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
            o.at("any find", d);
            if let Some(r) = fi.find(d, |_| c) {
                if let Some(e) = ok!(o, "any find", r) {
                    any_entry(&e, o)?;
                }
            }
        }
    }
    Ok(())
}

/// Everything of the given records, on a mounted volume.
pub fn records(n: &Ntfs, recs: &[u64], d: &mut Disk, o: &mut Out) -> S {
    for r in recs {
        file(n, *r, d, o)?;
    }
    Ok(())
}
/// Everything from mounting on.
pub fn all(recs: &[u64], d: &mut Disk, o: &mut Out) -> S {
    if let Some(n) = mount(d, o)? {
        volume(&n, d, o)?;
        records(&n, recs, d, o)?;
    }
    Ok(())
}
