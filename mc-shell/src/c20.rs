//! C20: ntfs-shell, run as a program on image files, answers its commands from the volume.
use crate::engine::*;
use crate::img::*;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};

// ---------------------------------------------------------------- running the shell

/// Everything happens below this directory, by an unprivileged user.
struct Place {
    dir: PathBuf,
    uid: Option<u32>,
}
static PLACE: OnceLock<Place> = OnceLock::new();
extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn atexit(f: extern "C" fn()) -> i32;
    fn chown(path: *const std::ffi::c_char, uid: u32, gid: u32) -> i32;
}
fn chown_to(p: &std::path::Path, uid: u32) {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    unsafe { chown(c.as_ptr(), uid, uid) };
}
extern "C" fn clean() {
    if let Some(p) = PLACE.get() {
        let _ = fs::remove_dir_all(&p.dir);
    }
}
fn place() -> &'static Place {
    PLACE.get_or_init(|| {
        let base = if fs::metadata("/dev/shm").is_ok_and(|m| m.is_dir()) { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        for base in [base, std::env::temp_dir()] {
            let dir = base.join(format!("mc-shell-{}", std::process::id()));
            if fs::create_dir(&dir).is_err() {
                continue;
            }
            unsafe { atexit(clean) };
            let v = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
            let bin = dir.join("ntfs-shell");
            if fs::copy(std::env::var("MC_SHELL").unwrap_or(format!("{}/mc-shell/target/release/ntfs-shell", v)), &bin).is_err() {
                eprintln!("there is no ntfs-shell");
                std::process::exit(3);
            }
            let _ = fs::set_permissions(&dir, fs::Permissions::from_mode(0o755));
            let _ = fs::set_permissions(&bin, fs::Permissions::from_mode(0o755));
            let run = |uid: Option<u32>| {
                let mut c = Command::new(&bin);
                if let Some(u) = uid {
                    c.uid(u).gid(u);
                }
                c.current_dir("/").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok()
            };
            if run(Some(65534)) {
                return Place { dir, uid: Some(65534) };
            }
            if run(None) {
                return Place { dir, uid: None };
            }
            let _ = fs::remove_dir_all(&dir);
        }
        eprintln!("ntfs-shell cannot be run");
        std::process::exit(3)
    })
}
/// A directory of this thread: an image file and the local directory of the shell.
struct Bench {
    image: PathBuf,
    local: PathBuf,
}
thread_local!(static BENCH: Bench = {
    let p = place();
    let d = p.dir.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let b = Bench { image: d.join("image"), local: d.join("local") };
    fs::create_dir_all(&b.local).expect("scratch");
    if let Some(u) = p.uid {
        chown_to(&b.local, u);
    }
    b
});
struct Shown {
    /// prompt's path and what follows it, for each command and the last prompt
    parts: Vec<(String, String)>,
    before: String,
    code: Option<i32>,
}
fn shell(b: &Bench, script: &str) -> Shown {
    let p = place();
    let (mut rd, wr) = std::io::pipe().expect("pipe");
    let mut c = Command::new(p.dir.join("ntfs-shell"));
    c.arg(&b.image).current_dir(&b.local).stdin(Stdio::piped());
    c.env_clear().env("RUST_BACKTRACE", "0");
    c.stdout(wr.try_clone().unwrap()).stderr(wr);
    if let Some(u) = p.uid {
        c.uid(u).gid(u);
    }
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &[20, 20]); // CPU seconds
            setrlimit(1, &[16 << 20, 16 << 20]); // size of a file
            setrlimit(9, &[2 << 30, 2 << 30]); // address space
            signal(25, 1); // a file too large is an error and no signal
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("spawn");
    drop(c);
    assert!(script.len() < 60_000, "harness: script of {} bytes", script.len());
    let _ = ch.stdin.take().unwrap().write_all(script.as_bytes());
    let mut out = vec![];
    let _ = rd.read_to_end(&mut out);
    let code = ch.wait().ok().and_then(|s| s.code());
    let out = String::from_utf8_lossy(&out).into_owned();
    let mut it = out.split("ntfs-shell:\\");
    let before = it.next().unwrap().to_string();
    let parts = it
        .map(|s| match s.find("> ") {
            Some(i) => (s[..i].to_string(), s[i + 2..].to_string()),
            None => (s.to_string(), String::new()),
        })
        .collect();
    beat();
    Shown { parts, before, code }
}
fn empty(b: &Bench) {
    if let Ok(d) = fs::read_dir(&b.local) {
        for f in d.flatten() {
            let _ = fs::remove_file(f.path());
        }
    }
}

// ---------------------------------------------------------------- volumes

#[derive(Clone, Debug)]
enum Data {
    Res(Vec<u8>),
    /// runs (clusters, hole), in this order on disk or backwards; size, initialized size
    Non(Vec<(u64, bool)>, bool, u64, u64),
}
#[derive(Clone, Debug)]
struct Node {
    parent: usize, // 0: root
    names: Vec<(String, u8)>,
    dir: bool,
    streams: Vec<(String, Data)>,
    /// streams are stored in a record of their own
    listed: bool,
}
fn rec_of(i: usize) -> u64 {
    if i == 0 {
        5
    } else {
        15 + i as u64
    }
}
struct Row {
    ty: u32,
    resident: bool,
    rec: u64,
    start: u64,
    len: u64,
    name: String,
    runs: Vec<(Option<u64>, u64)>,
}
struct World {
    img: Vec<u8>,
    g: Geo,
    nodes: Vec<Node>, // without the root
    content: Vec<Vec<(String, Vec<u8>)>>,
    rows: Vec<Vec<Row>>,
    label: Option<String>,
    mft: u64,
    /// where the records used lie
    recs: Vec<(u64, usize)>,
    up: Vec<u16>,
}
const DIRF: u32 = 0x1000_0000;
fn world(g: Geo, nodes: Vec<Node>, label: Option<&str>, room: u64) -> World {
    let mut v = Vol::new(g, 16 + 2 * nodes.len() as u64 + 2);
    let up = upcase_table();
    v.put_upcase(&up);
    let cs = v.cs();
    let mut recs = vec![(v.rec_addr(0), g.rs as usize), (v.rec_addr(10), g.rs as usize)];
    let fname = |i: usize, name: &str, ns: u8| {
        let (p, dir) = if i == 0 { (5, true) } else { (rec_of(nodes[i - 1].parent), nodes[i - 1].dir) };
        let mut f = FName::new(fref(p, 1), name, ns);
        f.attrs = if dir { DIRF } else { 0x20 };
        f
    };
    let mut info = vec![0u8; 12];
    info[8] = 3;
    info[9] = 1;
    let mut r3 = v.rec().attr(Attr::res(ty::STD, "", 0, &std_info(3)));
    if let Some(l) = label {
        r3 = r3.attr(Attr::res(ty::VOLNAME, "", 1, &u16bytes(&u16s(l))));
    }
    let r3 = r3.attr(Attr::res(ty::VOLINFO, "", 2, &info));
    v.put(3, &r3);
    recs.push((v.rec_addr(3), g.rs as usize));
    let mut content = vec![vec![]; nodes.len() + 1];
    let mut rows: Vec<Vec<Row>> = vec![];
    let mut ext = 16 + nodes.len() as u64;
    for i in 0..=nodes.len() {
        let names: Vec<(String, u8)> = if i == 0 { vec![(".".into(), 3)] } else { nodes[i - 1].names.clone() };
        let is_dir = i == 0 || nodes[i - 1].dir;
        let n = rec_of(i);
        let mut r = v.rec();
        r.links = names.len() as u16;
        if is_dir {
            r = r.dir();
        }
        let mut inst = 0u16;
        let mut next = || {
            inst += 1;
            inst
        };
        let mut attrs = vec![Attr::res(ty::STD, "", next(), &std_info(n))];
        for (name, ns) in &names {
            attrs.push(Attr::res(ty::NAME, "", next(), &fname(i, name, *ns).encode()));
        }
        let mut far = vec![];
        let mut placed: Vec<Vec<Run>> = vec![];
        if is_dir {
            let mut es: Vec<(Vec<u16>, Entry)> = vec![];
            for (k, c) in nodes.iter().enumerate() {
                if c.parent == i {
                    for (name, ns) in &c.names {
                        let key = fname(k + 1, name, *ns).encode();
                        es.push((self::up(&up, &u16s(name)), Entry { fref: fref(rec_of(k + 1), 1), key: Some(key), sub: None, pad: 0 }));
                    }
                }
            }
            if i == 0 {
                es.push((u16s("."), Entry { fref: fref(5, 1), key: Some(fname(0, ".", 3).encode()), sub: None, pad: 0 }));
            }
            es.sort_by(|a, b| a.0.cmp(&b.0));
            let mut es: Vec<Entry> = es.into_iter().map(|e| e.1).collect();
            es.push(Entry { fref: 0, key: None, sub: None, pad: 0 });
            attrs.push(Attr::res(ty::ROOT, "$I30", next(), &index_root(&encode_entries(&es), 4096, false, cs as u32)));
        } else {
            for (name, data) in &nodes[i - 1].streams {
                let (a, bytes) = match data {
                    Data::Res(b) => (Attr::res(ty::DATA, name, next(), b), b.clone()),
                    Data::Non(runs, backward, size, init) => {
                        let mut order: Vec<usize> = (0..runs.len()).collect();
                        if *backward {
                            order.reverse();
                        }
                        let mut rs = vec![hole(1); runs.len()];
                        for k in order {
                            let (len, sparse) = runs[k];
                            rs[k] = if sparse { hole(len) } else { run(len, v.alloc(len)) };
                            if !*backward && !sparse {
                                v.alloc(1);
                            }
                        }
                        let mut b = v.content(&rs, *size);
                        b.iter_mut().skip(*init as usize).for_each(|x| *x = 0);
                        placed.push(rs.clone());
                        (Attr::non(ty::DATA, name, next(), &rs, cs, *size).with_init(*init), b)
                    }
                };
                content[i].push((name.clone(), bytes));
                if nodes[i - 1].listed {
                    far.push(a)
                } else {
                    attrs.push(a)
                }
            }
        }
        let row = |r: &Rec, k: usize, rec: u64, base: u64, placed: &mut std::vec::IntoIter<Vec<Run>>| {
            let a = &r.attrs[k];
            let (resident, len) = match &a.val {
                Val::Res(b) => (true, b.len() as u64),
                Val::Non { size, .. } => (false, *size),
            };
            let runs = if resident { vec![] } else { placed.next().unwrap().iter().map(|r| (r.lcn.map(|l| l * cs), r.len * cs)).collect() };
            Row { ty: a.ty, resident, rec, start: base + r.offsets()[k] as u64, len, name: String::from_utf16_lossy(&a.name), runs }
        };
        let mut out = vec![];
        let mut pl = placed.into_iter();
        if far.is_empty() {
            r.attrs = attrs;
        } else {
            let mut l = vec![];
            for a in &attrs {
                l.extend(list_entry(a.ty, &a.name, 0, n, a.inst));
            }
            for a in &far {
                l.extend(list_entry(a.ty, &a.name, 0, ext, a.inst));
            }
            attrs.insert(1, Attr::res(ty::LIST, "", 90, &l));
            r.attrs = attrs;
        }
        let base = v.rec_addr(n);
        for k in 0..r.attrs.len() {
            out.push(row(&r, k, n, base, &mut pl));
            if r.attrs[k].ty == ty::LIST {
                let mut e = v.rec();
                e.base = fref(n, 1);
                e.attrs = far.clone();
                let eb = v.rec_addr(ext);
                for m in 0..far.len() {
                    out.push(row(&e, m, ext, eb, &mut pl));
                }
                v.put(ext, &e);
                recs.push((eb, e.plain().len()));
            }
        }
        if !far.is_empty() {
            ext += 1;
        }
        v.put(n, &r);
        let used = r.offsets().last().unwrap() + r.attrs.last().unwrap().encode().len() + 8;
        recs.push((base, used));
        rows.push(out);
    }
    let mft = v.rec_addr(0);
    // the volume ends `room` bytes after the last cluster used
    v.g.clusters = v.next + room.div_ceil(cs);
    v.img.write(0, &boot_sector(&v.g, mft / cs));
    let img = v.img.get(0, (v.g.clusters * cs) as usize);
    World { img, g: v.g, nodes, content, rows, label: label.map(|s| s.into()), mft, recs, up }
}

// ---------------------------------------------------------------- what is expected

struct Model<'a> {
    w: &'a World,
    at: Vec<usize>,
    path: Vec<String>,
}
#[derive(Clone, Debug)]
enum Expect {
    /// only that there is an answer
    Any,
    Quiet,
    Failure,
    Refused,
    Listing(usize),
    Info(usize),
    Attr(usize, bool),
    Fs,
    Got(usize, usize, String),
    NoStream,
}
impl<'a> Model<'a> {
    fn same(&self, a: &str, b: &str) -> bool {
        up(&self.w.up, &u16s(a)) == up(&self.w.up, &u16s(b))
    }
    fn find(&self, name: &str) -> Option<usize> {
        let d = *self.at.last().unwrap();
        if d == 0 && name == "." {
            return Some(0);
        }
        (1..=self.w.nodes.len()).find(|i| self.w.nodes[i - 1].parent == d && self.w.nodes[i - 1].names.iter().any(|n| self.same(&n.0, name)))
    }
    /// The file an argument stands for.
    fn arg(&self, a: &str) -> Option<usize> {
        if let Some(n) = a.strip_prefix('/') {
            let n = match n.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16).ok()?,
                None => n.parse().ok()?,
            };
            return (0..=self.w.nodes.len()).find(|i| rec_of(*i) == n);
        }
        self.find(a)
    }
    fn best(&self, i: usize) -> String {
        if i == 0 {
            return ".".into();
        }
        let n = &self.w.nodes[i - 1].names;
        n.iter().find(|n| n.1 == 1).or(n.iter().find(|n| n.1 == 3)).unwrap_or(&n[0]).0.clone()
    }
    fn step(&mut self, cmd: &str) -> Expect {
        let (c, a) = cmd.split_once(' ').unwrap_or((cmd, ""));
        match c {
            "cd" if a.is_empty() => Expect::Quiet,
            "cd" if a == ".." => {
                if self.at.len() > 1 {
                    self.at.pop();
                    self.path.pop();
                }
                Expect::Quiet
            }
            "cd" => match self.find(a) {
                Some(i) if i == 0 || self.w.nodes[i - 1].dir => {
                    self.path.push(self.best(i));
                    self.at.push(i);
                    Expect::Quiet
                }
                _ => Expect::Refused,
            },
            "dir" => Expect::Listing(*self.at.last().unwrap()),
            "fileinfo" => self.arg(a).map_or(Expect::Failure, Expect::Info),
            "attr" => self.arg(a).map_or(Expect::Failure, |i| Expect::Attr(i, false)),
            "attr_runs" => self.arg(a).map_or(Expect::Failure, |i| Expect::Attr(i, true)),
            "fsinfo" => Expect::Fs,
            "help" => Expect::Any,
            _ => Expect::Failure,
        }
    }
}
fn last_field(s: &str, label: &str) -> Option<String> {
    s.lines().find(|l| l.trim_start().starts_with(label)).map(|l| l.trim_start()[label.len()..].trim().to_string())
}
fn number(s: &str) -> Option<u64> {
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => s.parse().ok(),
    }
}
fn type_name(t: u32) -> &'static str {
    match t {
        ty::STD => "StandardInformation",
        ty::LIST => "AttributeList",
        ty::NAME => "FileName",
        ty::DATA => "Data",
        ty::ROOT => "IndexRoot",
        _ => "?",
    }
}
fn judge(w: &World, b: &Bench, cmd: &str, e: &Expect, out: &str, ctx: &mut Ctx) -> R {
    let bad = |m: String| fail("c20-answer", format!("\"{}\": {}; the answer is {:?}", cmd, m, out));
    let error = out.contains("Error:");
    ctx.step();
    match e {
        Expect::Any => return Ok(()),
        Expect::Failure => return if error { Ok(()) } else { bad("no error".into()) },
        _ if error => return bad("an error".into()),
        Expect::Quiet => {
            if !out.trim().is_empty() {
                return bad("nothing is to be said".into());
            }
        }
        Expect::Refused => {
            if out.trim().is_empty() {
                return bad("no word about the directory that is none".into());
            }
        }
        Expect::Listing(d) => {
            let mut want: Vec<(Vec<u16>, String, bool)> = vec![];
            for n in w.nodes.iter().filter(|n| n.parent == *d) {
                for (name, _) in &n.names {
                    want.push((up(&w.up, &u16s(name)), name.clone(), n.dir));
                }
            }
            if *d == 0 {
                want.push((u16s("."), ".".into(), true));
            }
            want.sort();
            let lines: Vec<&str> = out.lines().filter(|l| !l.trim().is_empty()).collect();
            if lines.len() != want.len() {
                return bad(format!("{} entries expected", want.len()));
            }
            for (l, x) in lines.iter().zip(&want) {
                let rest = l.trim_start().strip_prefix("<DIR>");
                if rest.is_some() != x.2 || rest.unwrap_or(l).trim() != x.1.trim() {
                    return bad(format!("{:?} expected (directory: {})", x.1, x.2));
                }
            }
            ctx.outcome(&("dir", want.len()));
        }
        Expect::Info(i) => {
            for (label, v) in [
                ("Byte Position:", w.mft + rec_of(*i) * w.g.rs as u64),
                ("Record Number:", rec_of(*i)),
                ("Allocated Size:", w.g.rs as u64),
                ("Sequence Number:", 1),
                ("Hard-Link Count:", if *i == 0 { 1 } else { w.nodes[i - 1].names.len() as u64 }),
            ] {
                if last_field(out, label).and_then(|x| number(&x)) != Some(v) {
                    return bad(format!("{} {} expected", label, v));
                }
            }
            let dir = *i == 0 || w.nodes[i - 1].dir;
            if last_field(out, "Is Directory:") != Some(dir.to_string()) {
                return bad("directory or not".into());
            }
            // in any order
            let sorted = |mut v: Vec<String>| {
                v.sort();
                v
            };
            let names = |label: &str| sorted(out.lines().filter_map(|l| l.strip_prefix(label)).map(|x| x.trim().trim_matches('"').to_string()).collect());
            let mut want: Vec<String> = if *i == 0 { vec![".".into()] } else { w.nodes[i - 1].names.iter().map(|n| n.0.clone()).collect() };
            want.extend(w.content[*i].iter().map(|s| s.0.clone()));
            let want = sorted(want);
            if names("Name:") != want {
                return bad(format!("names {:?} expected", want));
            }
            if names("Size:") != sorted(w.content[*i].iter().map(|s| s.1.len().to_string()).collect()) {
                return bad("sizes of the streams".into());
            }
            ctx.outcome(&("info", want.len()));
        }
        Expect::Attr(i, with_runs) => {
            let mut want: Vec<Vec<String>> = vec![];
            for r in &w.rows[*i] {
                want.push(vec![
                    type_name(r.ty).into(),
                    r.resident.to_string(),
                    format!("{:#x}", r.rec),
                    format!("{:#x}", r.start),
                    r.len.to_string(),
                    format!("\"{}\"", r.name),
                ]);
                if *with_runs {
                    for (start, len) in &r.runs {
                        // a hole has no position; how that is written is not our business
                        want.push(vec!["DataRun".into(), "".into(), "".into(), start.map_or("*".into(), |s| format!("{:#x}", s)), len.to_string(), "".into()]);
                    }
                }
            }
            let got: Vec<Vec<String>> = out
                .lines()
                .filter(|l| l.matches('|').count() == 6 && !l.contains("INSTANCE"))
                .map(|l| l.split('|').skip(1).map(|c| c.trim().to_string()).collect())
                .collect();
            let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, x)| g.iter().zip(x).all(|(g, x)| g == x || x == "*"));
            if !same {
                return bad(format!("{:?} expected, {:?} found", want, got));
            }
            ctx.outcome(&("attr", want.len()));
        }
        Expect::Fs => {
            for (label, v) in [
                ("Cluster Size:", w.g.cs as u64),
                ("File Record Size:", w.g.rs as u64),
                ("MFT Byte Position:", w.mft),
                ("Sector Size:", w.g.ss as u64),
                ("Serial Number:", 0xDEAD_BEEF_1234_5678),
                ("Size:", w.g.clusters * w.g.cs as u64),
            ] {
                if last_field(out, label).and_then(|x| number(&x)) != Some(v) {
                    return bad(format!("{} {} expected", label, v));
                }
            }
            if last_field(out, "NTFS Version:") != Some("3.1".into()) {
                return bad("version 3.1 expected".into());
            }
            let l = last_field(out, "Volume Name:").unwrap_or_default();
            if l != w.label.as_ref().map_or("<NONE>".to_string(), |s| format!("\"{}\"", s)) {
                return bad(format!("volume name {:?}", l));
            }
        }
        Expect::Got(i, k, file) => {
            let x = fs::read(b.local.join(file)).unwrap_or_else(|_| b"no file".to_vec());
            let y = &w.content[*i][*k].1;
            if x != *y {
                let d = x.iter().zip(y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
                return bad(format!("{} bytes are saved as {:?} instead of {}, the first difference at {}", x.len(), file, y.len(), d));
            }
            ctx.outcome(&("got", y.len()));
        }
        Expect::NoStream => {
            if out.contains("Saving") || out.trim().is_empty() {
                return bad("there is no such stream".into());
            }
        }
    }
    Ok(())
}
/// Runs a script. Each command comes with what is expected, and the path shown by the prompt after it.
fn session(w: &World, b: &Bench, script: &[(String, Expect, String)], desc: &dyn Fn() -> String, ctx: &mut Ctx) -> R {
    let mut text = String::new();
    for s in script {
        text += &s.0;
        text.push('\n');
    }
    let o = shell(b, &text);
    ctx.exec();
    let told = |m: String| V { key: "c20-session".into(), msg: format!("{}: {}", desc(), m) };
    if o.parts.len() != script.len() + 1 || o.code != Some(0) {
        let k = o.parts.len().saturating_sub(1).min(script.len().saturating_sub(1));
        return Err(told(format!("the shell ends with {:?} after {} of {} commands ({:?}): {:?} {:?}", o.code, o.parts.len(), script.len(), script.get(k).map(|s| &s.0), o.before, o.parts.last())));
    }
    for (k, s) in script.iter().enumerate() {
        judge(w, b, &s.0, &s.1, &o.parts[k].1, ctx).map_err(|v| V { key: v.key, msg: format!("{}: after {:?}: {}", desc(), script[k.saturating_sub(6)..k].iter().map(|s| &s.0).collect::<Vec<_>>(), v.msg) })?;
        if o.parts[k + 1].0 != s.2 {
            return fail("c20-path", format!("{}: after {:?} the prompt shows {:?} instead of {:?}", desc(), s.0, o.parts[k + 1].0, s.2));
        }
        ctx.state(&(s.2.as_str(), s.0.as_str(), fp(&w.img[..0]), w.nodes.len(), w.img.len()));
    }
    Ok(())
}
fn put_image(b: &Bench, w: &World) {
    fs::write(&b.image, &w.img).expect("scratch");
}

// ---------------------------------------------------------------- phases

/// Unused clusters at the end of an image, in bytes.
const ROOM: u64 = 64 << 10;

const POOL: [&str; 6] = ["Alpha", "beta dir", "Ünï\u{20ac}", "d.txt", "UPPER", "\u{1f600}x"];
/// Every tree of n nodes: each a file or a directory in the root or in an earlier directory.
fn trees(n: usize) -> Vec<Vec<(usize, bool)>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for t in &out {
            let t: &Vec<(usize, bool)> = t;
            let mut parents = vec![0];
            parents.extend((1..=t.len()).filter(|i| t[i - 1].1));
            for p in parents {
                for d in [true, false] {
                    let mut t = t.clone();
                    t.push((p, d));
                    next.push(t);
                }
            }
        }
        out = next;
    }
    out
}
fn swapped(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
fn geo(cs: u32, rs: u32) -> Geo {
    Geo { ss: 512, cs, rs, clusters: (4 << 20) / cs as u64 }
}
fn walk(t: &[(usize, bool)], naming: usize, depth: usize, ctx: &mut Ctx) -> R {
    let nodes: Vec<Node> = t
        .iter()
        .enumerate()
        .map(|(i, (p, d))| {
            // names may repeat in other directories
            let name = POOL[if naming == 1 { i / 2 + (t[..i].iter().any(|x| x.0 == *p) as usize) * 3 } else { i }].to_string();
            let names = match naming {
                2 => vec![(name.clone(), 1), (format!("{}~1", &["A", "B", "C", "D", "E"][i]), 2)],
                3 => vec![(format!("{}~1", &["A", "B", "C", "D", "E"][i]), 2), (name.clone(), 1)],
                4 => vec![(name.clone(), 0)],
                5 => vec![(name.clone(), 2)],
                _ => vec![(name.clone(), 3)],
            };
            Node { parent: *p, names, dir: *d, streams: if *d { vec![] } else { vec![("".into(), Data::Res(vec![i as u8; i + 1]))] }, listed: false }
        })
        .collect();
    // the same name twice in a directory is no directory
    for i in 0..nodes.len() {
        for j in 0..i {
            if nodes[i].parent == nodes[j].parent && nodes[i].names[0].0 == nodes[j].names[0].0 {
                return Ok(());
            }
        }
    }
    let w = world(geo(512, 4096), nodes, Some("mylabel"), ROOM);
    BENCH.with(|b| {
        put_image(b, &w);
        let mut args: Vec<String> = vec!["..".into(), "".into(), ".".into(), "missing".into()];
        for (i, n) in w.nodes.iter().enumerate() {
            let nm = &n.names[i % n.names.len()].0;
            args.push(if i % 2 == 0 { nm.clone() } else { swapped(nm) });
        }
        let mut m = Model { w: &w, at: vec![0], path: vec![] };
        let mut script: Vec<(String, Expect, String)> = vec![];
        let mut size = 0;
        let total = args.len().pow(depth as u32);
        let desc = || format!("tree {:?}, names {}", t, naming);
        for k in 0..total {
            let mut x = k;
            let mut cmds: Vec<String> = vec![];
            for _ in 0..depth {
                cmds.push(format!("cd {}", args[x % args.len()]).trim_end().to_string());
                x /= args.len();
            }
            cmds.push("dir".into());
            cmds.push(format!("fileinfo {}", args[k % args.len()]));
            while m.at.len() + cmds.len() > 0 {
                let c = if cmds.is_empty() {
                    if m.at.len() == 1 {
                        break;
                    }
                    "cd ..".to_string()
                } else {
                    cmds.remove(0)
                };
                // fileinfo without an argument, ".." and the like are no files
                let e = if c == "fileinfo .." || c.trim() == "fileinfo" { Expect::Failure } else { m.step(&c) };
                size += c.len() + 1;
                script.push((c, e, m.path.join("\\")));
            }
            if size > 40_000 || k + 1 == total {
                session(&w, b, &script, &desc, ctx)?;
                script.clear();
                size = 0;
            }
        }
        Ok(())
    })
}
fn layouts(cs: u64) -> Vec<Data> {
    let mut v = vec![];
    for n in [0usize, 1, 100, 300] {
        v.push(Data::Res((0..n).map(|i| (i * 7 + 1) as u8).collect()));
    }
    for cl in [1u64, 2, 8192 / cs, 8192 / cs + 1, 16384 / cs, 40000 / cs + 1] {
        if cl == 0 {
            continue;
        }
        for sub in [0, 1, cs - 1] {
            let size = cl * cs - sub;
            v.push(Data::Non(vec![(cl, false)], false, size, size));
            v.push(Data::Non(vec![(cl, false)], false, size, size / 2));
            if cl > 1 {
                for back in [false, true] {
                    v.push(Data::Non(vec![(cl / 2, false), (cl - cl / 2, false)], back, size, size));
                }
                v.push(Data::Non(vec![(cl / 2, true), (cl - cl / 2, false)], false, size, size));
                v.push(Data::Non(vec![(cl / 2, false), (cl - cl / 2, true)], false, size, size));
            }
        }
    }
    v
}
/// Files of every layout; saved, saved again, with local files in the way.
fn gets(g: Geo, data: &[Data], listed: bool, ctx: &mut Ctx) -> R {
    let nodes: Vec<Node> = data
        .iter()
        .enumerate()
        .map(|(i, d)| Node {
            parent: 0,
            names: vec![(format!("{} F", i), 3)],
            dir: false,
            streams: if i % 2 == 1 {
                vec![("".into(), d.clone()), ("Alt".into(), Data::Res(vec![3; 5]))]
            } else if data.len() == 1 {
                vec![("".into(), Data::Res(vec![4; 6])), ("Alt".into(), d.clone())]
            } else {
                vec![("".into(), d.clone())]
            },
            listed,
        })
        .chain([Node { parent: 0, names: vec![("Sub".into(), 3)], dir: true, streams: vec![], listed: false }])
        .collect();
    let w = world(g, nodes, None, ROOM);
    BENCH.with(|b| {
        put_image(b, &w);
        empty(b);
        let root = String::new();
        let desc = || format!("{:?}, files {:?} in the root, with a list: {}", g, data, listed);
        let mut script: Vec<(String, Expect, String)> = vec![];
        let mut kept: Vec<(String, Vec<u8>)> = vec![];
        for i in 1..=data.len() {
            let name = &w.nodes[i - 1].names[0].0;
            for k in 0..w.content[i].len() {
                let s = &w.content[i][k].0;
                let file = if s.is_empty() { name.clone() } else { format!("{}_{}", name, s) };
                let arg = if s.is_empty() { name.clone() } else { format!("{}:{}", name, s) };
                script.push((format!("get {}", arg), Expect::Got(i, k, file.clone()), root.clone()));
                kept.push((file, w.content[i][k].1.clone()));
                // a second time nothing is overwritten
                script.push((format!("get {}", arg), Expect::Failure, root.clone()));
                let file = swapped(&arg).replace(':', "_");
                if file != kept.last().unwrap().0 && !b.local.join(&file).exists() {
                    script.push((format!("get {}", swapped(&arg)), Expect::Got(i, k, file), root.clone()));
                }
            }
            script.push((format!("get {}:none", name), Expect::NoStream, root.clone()));
            for c in ["attr", "attr_runs", "fileinfo"] {
                for a in [name.clone(), format!("/{}", rec_of(i)), format!("/{:#x}", rec_of(i))] {
                    let e = Model { w: &w, at: vec![0], path: vec![] }.step(&format!("{} {}", c, a));
                    script.push((format!("{} {}", c, a), e, root.clone()));
                }
            }
        }
        for c in ["get", "get missing", "get /999999", "get /x", "attr", "attr /", "nothing", "fileinfo /0xzz"] {
            if place().uid.is_some() || !c.contains('/') {
                script.push((c.into(), Expect::Failure, root.clone()));
            }
        }
        script.push(("fsinfo".into(), Expect::Fs, root.clone()));
        for c in ["help", "help attr", "help cd", "help dir", "help get", "help fileinfo", "help attr_runs", "help help"] {
            script.push((c.into(), Expect::Any, root.clone()));
        }
        // in the way
        let way = b.local.join("way");
        fs::write(&way, b"keep me").unwrap();
        script.push(("get way".into(), Expect::Failure, root.clone()));
        kept.push(("way".into(), b"keep me".to_vec()));
        session(&w, b, &script, &desc, ctx)?;
        for (f, c) in &kept {
            if fs::read(b.local.join(f)).ok().as_ref() != Some(c) {
                return fail("c20-overwritten", format!("{}: the local file {:?} has changed", desc(), f));
            }
        }
        empty(b);
        Ok(())
    })
}
/// One command in a session of its own.
fn alone(w: &World, b: &Bench, cmd: &str, ctx: &mut Ctx) -> Result<String, V> {
    put_image(b, w);
    empty(b);
    let o = shell(b, &format!("{}\n", cmd));
    ctx.exec();
    if o.parts.is_empty() && o.code == Some(1) {
        // the volume is refused
        return Ok(o.before);
    }
    if o.parts.len() != 2 || o.code != Some(0) {
        return Err(V { key: "c20-session".into(), msg: format!("{:?}: the shell ends with {:?}: {:?} {:?}", cmd, o.code, o.before, o.parts.last()) });
    }
    Ok(o.parts[0].1.clone())
}
fn one_file(d: &Data) -> Vec<Node> {
    vec![Node { parent: 0, names: vec![("F".into(), 3)], dir: false, streams: vec![("".into(), d.clone())], listed: false }]
}
/// A file whose clusters are the last ones of the image.
fn tail(g: Geo, d: &Data, ctx: &mut Ctx) -> R {
    for room in [0, 512, 4096, 8192, 16384] {
        let w = world(g, one_file(d), None, room);
        BENCH.with(|b| {
            let out = alone(&w, b, "get F", ctx)?;
            ctx.state(&(w.img.len(), room));
            let r = judge(&w, b, "get F", &Expect::Got(1, 0, "F".into()), &out, ctx);
            let had = fs::read(b.local.join("F")).unwrap_or_default();
            empty(b);
            // As listed: the sector reader asks for more than the image has left (see C19),
            // so what the 8 KiB buffer of the shell reaches of its end is an error.
            if r.is_err() && room < 16384 && out.contains("failed to fill whole buffer") && w.content[1][0].1.starts_with(&had) {
                return ctx.finding("tail", || format!("{:?}, {:?}, {} bytes before the end of the image: {:?}", g, d, room, out));
            }
            r.map_err(|v| V { key: v.key, msg: format!("{:?}, {:?}, {} bytes before the end of the image: {}", g, d, room, v.msg) })
        })?;
    }
    Ok(())
}
/// A file is saved by its record number.
fn by_number(g: Geo, d: &Data, ctx: &mut Ctx) -> R {
    let w = world(g, one_file(d), None, ROOM);
    if place().uid.is_none() {
        return Ok(());
    }
    BENCH.with(|b| {
        for n in ["16", "0x10", "0x00010", "016"] {
            let cmd = format!("get /{}", n);
            let out = alone(&w, b, &cmd, ctx)?;
            ctx.state(&(w.img.len(), n));
            let r = judge(&w, b, &cmd, &Expect::Got(1, 0, n.into()), &out, ctx);
            let nothing = fs::read_dir(&b.local).is_ok_and(|mut d| d.next().is_none());
            empty(b);
            // As listed: it goes to the root of the local file system, where nobody may write here.
            if r.is_err() && nothing && out.contains("Error") && out.contains(&format!("/{}", n)) {
                ctx.finding("absolute", || format!("{:?}: {:?}", cmd, out))?;
                continue;
            }
            r?;
        }
        Ok(())
    })
}
/// The shell goes on whatever the volume contains.
fn damage(w: &World, rec: usize, from: usize, to: usize, values: &[u8], ctx: &mut Ctx) -> R {
    let (base, len) = w.recs[rec];
    let mut script = String::new();
    let cmds = [
        "dir", "fsinfo", "fileinfo 0 F", "attr_runs 0 F", "get 0 F", "fileinfo 1 F", "attr 1 F", "get 1 F:Alt", "get 1 F", "cd Sub", "dir", "fileinfo x", "attr /17", "get x", "cd ..", "fileinfo /18", "attr_runs /5",
        "fileinfo /3", "attr /0", "attr /10",
    ];
    for c in cmds {
        script += c;
        script.push('\n');
    }
    BENCH.with(|b| {
        put_image(b, w);
        let f = fs::OpenOptions::new().write(true).open(&b.image).expect("scratch");
        for o in from..to.min(len) {
            let at = base + o as u64;
            for x in values {
                let old = w.img[at as usize];
                let new = match x {
                    0 => old ^ 1,
                    1 => old ^ 0x80,
                    2 => old.wrapping_add(8),
                    3 => 0,
                    4 => 0xFF,
                    5 => old.wrapping_sub(1),
                    6 => old ^ 0x10,
                    n => *n,
                };
                if new == old {
                    continue;
                }
                use std::os::unix::fs::FileExt;
                f.write_all_at(&[new], at).unwrap();
                let s = shell(b, &script);
                ctx.exec();
                ctx.step();
                ctx.state(&(rec, o, new));
                // A volume that cannot be opened ends the shell with an error; everything else is answered.
                let refused = s.parts.is_empty() && s.code == Some(1) && s.before.contains("Error");
                let done = s.parts.len() == cmds.len() + 1 && s.code == Some(0);
                ctx.outcome(&(refused, s.parts.iter().filter(|p| p.1.contains("Error")).count()));
                if !refused && !done {
                    let k = s.parts.len().saturating_sub(1);
                    return fail(
                        "c20-damage",
                        format!("byte {} of record at {:#x} is {:#x} instead of {:#x}: the shell ends with {:?} at {:?}: {:?} {:?}", o, base, new, old, s.code, cmds.get(k), s.before, s.parts.last()),
                    );
                }
                f.write_all_at(&[old], at).unwrap();
                empty(b);
            }
        }
        Ok(())
    })
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut ph = vec![];
    let n = t.pick(3, 4);
    let depth = 4;
    let ts: Vec<Vec<(usize, bool)>> = (0..=n).flat_map(trees).collect();
    ph.push(Phase::new(
        "walks",
        format!("{} directory trees of up to {} files and directories x 6 ways to name them, every sequence of {} changes of the directory followed by a listing and a file's information", ts.len(), n, depth),
        ts.len() * 6,
        move |i, ctx| walk(&ts[i / 6], i % 6, depth, ctx),
    ));
    let bigger = trees(n + 1);
    ph.push(Phase::new(
        "larger walks",
        format!("{} trees of {} files and directories x 2 ways to name them, every sequence of 2 changes", bigger.len(), n + 1),
        bigger.len() * 2,
        move |i, ctx| walk(&bigger[i / 2], [0, 2][i % 2], 2, ctx),
    ));
    let mut items: Vec<(Geo, Vec<Data>, bool)> = vec![];
    for g in [geo(512, 1024), geo(512, 4096), geo(4096, 1024), geo(8192, 4096)] {
        for listed in [false, true] {
            let l = layouts(g.cs as u64);
            for (i, a) in l.iter().enumerate() {
                items.push((g, vec![a.clone()], listed));
                for (j, b) in l.iter().enumerate() {
                    if t.thorough() || (i + j) % 12 == 0 {
                        items.push((g, vec![a.clone(), b.clone()], listed));
                    }
                }
            }
        }
    }
    let small = |d: &Data| !matches!(d, Data::Res(b) if b.len() > 100);
    items.retain(|x| x.0.rs > 1024 || x.1.iter().all(small));
    ph.push(Phase::new(
        "files",
        format!("{} volumes with one or two files of any layout: saving each stream by name and in another case, again and over local files; attributes and information", items.len()),
        items.len(),
        move |i, ctx| gets(items[i].0, &items[i].1, items[i].2, ctx),
    ));
    let mut ends: Vec<(Geo, Data)> = vec![];
    for g in [geo(512, 1024), geo(512, 4096), geo(4096, 1024), geo(8192, 4096)] {
        ends.extend(layouts(g.cs as u64).into_iter().filter(|d| g.rs > 1024 || small(d)).map(|d| (g, d)));
    }
    let numbers = ends.clone();
    ph.push(Phase::new("ends", format!("{} files, 0 to 16384 bytes before the end of the image", ends.len()), ends.len(), move |i, ctx| tail(ends[i].0, &ends[i].1, ctx)));
    ph.push(Phase::new("numbers", format!("{} files saved by their record number, written in 4 ways", numbers.len()), numbers.len(), move |i, ctx| by_number(numbers[i].0, &numbers[i].1, ctx)));
    let w = Arc::new(world(
        geo(512, 1024),
        vec![
            Node { parent: 0, names: vec![("0 F".into(), 3)], dir: false, streams: vec![("".into(), Data::Non(vec![(2, false), (1, true), (1, false)], true, 1900, 1800))], listed: false },
            Node { parent: 0, names: vec![("1 F".into(), 1), ("1F~1".into(), 2)], dir: false, streams: vec![("".into(), Data::Res(vec![1; 40])), ("Alt".into(), Data::Non(vec![(1, false)], false, 300, 300))], listed: true },
            Node { parent: 0, names: vec![("Sub".into(), 3)], dir: true, streams: vec![], listed: false },
            Node { parent: 3, names: vec![("x".into(), 3)], dir: false, streams: vec![("".into(), Data::Res(vec![2; 9]))], listed: false },
        ],
        Some("vol"),
        ROOM,
    ));
    const CHUNK: usize = 8;
    let mut items = vec![];
    for (r, (_, len)) in w.recs.iter().enumerate() {
        for o in (0..*len).step_by(CHUNK) {
            items.push((r, o));
        }
    }
    let values: Vec<u8> = if t.thorough() { (0..=6).chain([7, 8, 16, 0x20, 0x40, 0x55, 0x7f, 0x90]).collect() } else { vec![1, 4] };
    ph.push(Phase::new(
        "damage",
        format!("every byte of {} records replaced by {} other values, 20 commands each", w.recs.len(), values.len()),
        items.len(),
        move |i, ctx| damage(&w, items[i].0, items[i].1, items[i].1 + CHUNK, &values, ctx),
    ));
    (ph, Opts::default())
}
