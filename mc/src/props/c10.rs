//! C10: names compare by UTF-16 units mapped through the volume's own uppercase table.
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::ensure_eq;
use nt_string::u16strle::U16StrLe;
use ntfs::{Ntfs, UpcaseOrd};
use std::cmp::Ordering;
use std::sync::Arc;

/// Tables to put on volumes.
fn tables() -> Vec<(&'static str, Vec<u16>)> {
    let id: Vec<u16> = (0..=0xFFFFu32).map(|x| x as u16).collect();
    let mut v = vec![("peculiar", upcase_table()), ("identity", id.clone())];
    v.push(("reversed", id.iter().map(|x| !x).collect()));
    v.push(("byte-swapped", id.iter().map(|x| x.swap_bytes()).collect()));
    v.push(("one class per 256", id.iter().map(|x| x >> 8).collect()));
    v.push(("scrambled", id.iter().map(|x| mix(*x as u64) as u16).collect()));
    v.push(("constant", vec![7; 65536]));
    v
}

#[derive(Clone, Debug)]
struct Store {
    cs: u32,
    frags: u64,
    split: bool,
    /// run turned into a hole
    hole: Option<usize>,
}
/// A volume whose table has that many bytes, stored that way. The bytes behind the table are filler.
fn volume(st: &Store, table: &[u16], size: u64) -> (Arc<crate::disk::Img>, Vec<u16>) {
    let g = Geo { ss: 512, cs: st.cs, rs: 4096.max(if st.cs == 512 { 4096 } else { 0 }), clusters: (96u64 << 20).div_ceil(st.cs as u64).max(300) };
    let mut v = Vol::new(g, 24);
    let cs = v.cs();
    let mut bytes = u16bytes(table);
    let stored = size.min(256 << 10);
    while (bytes.len() as u64) < stored {
        bytes.push(0x41);
    }
    bytes.truncate(stored as usize);
    let total = size.div_ceil(cs);
    let mut runs = vec![];
    let k = st.frags.min(total.min(600)).max(1);
    let backed = total.min((512u64 << 10).div_ceil(cs));
    let base = v.alloc(backed * 2 + 2 * k + 2);
    let mut left = backed;
    for i in 0..k {
        let l = if i + 1 == k { left } else { (backed / k).max(1).min(left) };
        if l == 0 {
            break;
        }
        left -= l;
        // backwards on disk
        runs.push(run(l, base + backed * 2 + 2 * k - (i + 1) * (backed / k + 2)));
    }
    // the last run may be longer than the others
    if let Some(r) = runs.last_mut() {
        if r.len > backed / k {
            r.lcn = Some(base);
            v.next += 0;
        }
    }
    if total > backed {
        runs.push(hole(total - backed));
    }
    v.write_stream(&runs, 0, &bytes);
    if let Some(h) = st.hole {
        if h < runs.len() {
            runs[h].lcn = None;
        }
    }
    let model: Vec<u8> = {
        let c = content(&v.img, &runs, cs, stored, stored);
        c
    };
    let std = Attr::res(ty::STD, "", 0, &std_info(10));
    let name = Attr::res(ty::NAME, "", 1, &FName::new(fref(5, 5), "$UpCase", 3).encode());
    // another stream that is not the table
    let info = Attr::res(ty::DATA, "$Info", 9, &[1u8; 32]);
    if st.split && runs.len() > 1 {
        let cut = runs.len() / 2;
        let mut list = list_entry(ty::STD, &[], 0, 10, 0);
        list.extend(list_entry(ty::NAME, &[], 0, 10, 1));
        list.extend(list_entry(ty::DATA, &[], 0, 12, 0));
        list.extend(list_entry(ty::DATA, &[], runs_clusters(&runs[..cut]), 13, 0));
        list.extend(list_entry(ty::DATA, &u16s("$Info"), 0, 10, 9));
        let a = Attr::extent(ty::DATA, "", 0, 0, &runs[..cut], cs, size);
        let b = Attr::extent(ty::DATA, "", 0, runs_clusters(&runs[..cut]), &runs[cut..], cs, size);
        for (n, x) in [(12, a), (13, b)] {
            let mut r = v.rec().attr(x);
            r.base = fref(10, 1);
            v.put(n, &r);
        }
        let r = v.rec().attr(std).attr(Attr::res(ty::LIST, "", 2, &list)).attr(name).attr(info);
        v.put(10, &r);
    } else {
        let d = if size == 0 { Attr::res(ty::DATA, "", 2, &[]) } else { Attr::non(ty::DATA, "", 2, &runs, cs, size) };
        let r = v.rec().attr(std).attr(name).attr(d).attr(info);
        v.put(10, &r);
    }
    let t = model.chunks_exact(2).map(|b| u16::from_le_bytes([b[0], b[1]])).collect();
    (v.done(), t)
}

fn mount(st: &Store, table: &[u16]) -> (Ntfs, Vec<u16>) {
    let (img, t) = volume(st, table, 131072);
    let mut d = Disk::new(img);
    let mut n = Ntfs::new(&mut d).expect("harness: mount");
    n.read_upcase_table(&mut d).expect("harness: uppercase table");
    (n, t)
}
fn plain() -> Store {
    Store { cs: 512, frags: 1, split: false, hole: None }
}

fn model(t: &[u16], a: &[u16], b: &[u16]) -> Ordering {
    let m = |s: &[u16]| s.iter().map(|c| t[*c as usize]).collect::<Vec<u16>>();
    m(a).cmp(&m(b))
}
/// All implementations that apply to the two names.
fn compare(n: &Ntfs, t: &[u16], a: &[u16], b: &[u16], ctx: &mut Ctx) -> R {
    let want = model(t, a, b);
    let (ab, bb) = (u16bytes(a), u16bytes(b));
    let (ua, ub) = (U16StrLe(&ab), U16StrLe(&bb));
    ctx.step();
    ensure_eq!(ua.upcase_cmp(n, &ub), want, "c10-u16-u16", "{:x?} with {:x?}", a, b);
    if let Ok(s) = String::from_utf16(b) {
        ctx.step();
        ensure_eq!(ua.upcase_cmp(n, &s.as_str()), want, "c10-u16-str", "{:x?} with {:?}", a, s);
    }
    if let Ok(s) = String::from_utf16(a) {
        ctx.step();
        ensure_eq!(s.as_str().upcase_cmp(n, &ub), want, "c10-str-u16", "{:?} with {:x?}", s, b);
    }
    ctx.outcome(&(want as i8, a.len(), b.len()));
    Ok(())
}

fn words(alpha: &[Vec<u16>], max: usize) -> Vec<Vec<u16>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..max {
        level = level.iter().flat_map(|w| alpha.iter().map(move |a| [&w[..], &a[..]].concat())).collect();
        out.extend(level.clone());
    }
    out
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut v = vec![];
    // every pair of code units
    let tabs: Vec<(Ntfs, Vec<u16>)> = tables().iter().map(|(_, x)| mount(&plain(), x)).collect();
    let tabs = Arc::new(tabs);
    let nt = t.pick(1, tabs.len());
    let tb = tabs.clone();
    let items = nt * 4096;
    v.push(Phase::new("units", format!("every pair of single code units (2^32) under {} table(s)", nt), items, move |i, ctx| {
        let (n, t) = &tb[i / 4096];
        let mut bytes = Vec::with_capacity(131072);
        for c in 0..=0xFFFFu32 {
            bytes.extend((c as u16).to_le_bytes());
        }
        for a in (i % 4096) * 16..(i % 4096) * 16 + 16 {
            beat();
            let ab = (a as u16).to_le_bytes();
            let ua = U16StrLe(&ab);
            let ta = t[a];
            for b in 0..65536usize {
                let ub = U16StrLe(&bytes[2 * b..2 * b + 2]);
                if ua.upcase_cmp(n, &ub) != ta.cmp(&t[b]) {
                    return fail("c10-units", format!("{:04x} with {:04x}: expected {:?}", a, b, ta.cmp(&t[b])));
                }
            }
            ctx.steps(65536);
        }
        ctx.state(&i);
        Ok(())
    }));
    // every character against references, as Rust strings
    let tb = tabs.clone();
    // quick: the peculiar and the scrambled table
    let which: Vec<usize> = t.pick(vec![0, 5], (0..tabs.len()).collect());
    let nt2 = which.len();
    v.push(Phase::new("characters", "every Rust character against itself, its mapping and 40 reference names, all combinations of string kinds, under 2 (thorough: 7) tables".to_string(), nt2 * 1088, move |i, ctx| {
        let (n, t) = &tb[which[i / 1088]];
        let refs: Vec<Vec<u16>> = vec![
            vec![], vec![0], vec![0x41], vec![0x61], vec![0x7A], vec![0x5A], vec![0xD7FF], vec![0xD800], vec![0xD801], vec![0xDBFF], vec![0xDC00], vec![0xDFFF], vec![0xE000], vec![0xFFFF],
            vec![0xD800, 0xDC00], vec![0xD801, 0xDC00], vec![0xD801, 0xDC28], vec![0xDBFF, 0xDFFF], vec![0x41, 0x41], vec![0xFFFD], vec![0x2200], vec![0x51], vec![0x71], vec![0x178], vec![0xFF],
        ];
        for c in (i % 1088) as u32 * 1024..(i % 1088) as u32 * 1024 + 1024 {
            let Some(ch) = char::from_u32(c) else { continue };
            let mut buf = [0u16; 2];
            let u = ch.encode_utf16(&mut buf).to_vec();
            for r in &refs {
                compare(n, t, &u, r, ctx)?;
                compare(n, t, r, &u, ctx)?;
            }
            let m: Vec<u16> = u.iter().map(|x| t[*x as usize]).collect();
            compare(n, t, &u, &u, ctx)?;
            compare(n, t, &u, &m, ctx)?;
            let mut longer = u.clone();
            longer.push(0);
            compare(n, t, &u, &longer, ctx)?;
            compare(n, t, &longer, &m, ctx)?;
        }
        ctx.state(&i);
        Ok(())
    }));
    // all pairs of short names
    let alpha: Vec<Vec<u16>> = vec![vec![0x61], vec![0x41], vec![0x62], vec![0x7A], vec![0x71], vec![0x51], vec![0xD801, 0xDC00], vec![0xD800], vec![0xDC00], vec![0]];
    let k = t.pick(3, 4);
    let alpha2 = if t.thorough() { alpha[..8].to_vec() } else { alpha };
    let ws = Arc::new(words(&alpha2, k));
    let nw = ws.len();
    let tb = tabs.clone();
    v.push(Phase::new("words", format!("all pairs of {} names of up to {} characters from an alphabet of {}, all combinations of string kinds", nw, k, alpha2.len()), nw, move |i, ctx| {
        for (ti, (n, t)) in tb.iter().enumerate() {
            if ti > 0 && nw > 2000 {
                break;
            }
            for b in ws.iter() {
                compare(n, t, &ws[i], b, ctx)?;
            }
        }
        ctx.state(&i);
        Ok(())
    }));
    // long names differing in one place
    let tb = tabs.clone();
    v.push(Phase::new("long", "names of up to 256 units that differ at one place or in length", 257, move |i, ctx| {
        for (n, t) in tb.iter() {
            let a: Vec<u16> = (0..i).map(|x| 0x61 + (x % 20) as u16).collect();
            for d in [0usize, 1, 2, 127, 128, 254, 255] {
                let mut b = a.clone();
                if d < b.len() {
                    b[d] = b[d] - 32;
                    compare(n, t, &a, &b, ctx)?;
                    b[d] = 0x7B;
                    compare(n, t, &a, &b, ctx)?;
                    b.truncate(d);
                    compare(n, t, &a, &b, ctx)?;
                    compare(n, t, &b, &a, ctx)?;
                }
            }
        }
        Ok(())
    }));
    // where the table is stored
    let mut stores = vec![];
    for cs in [512u32, 1024, 4096, 65536, 2 << 20] {
        for frags in [1u64, 2, 3, 31] {
            for split in [false, true] {
                for hole in [None, Some(0), Some(1)] {
                    stores.push(Store { cs, frags, split, hole });
                }
            }
        }
    }
    let ns = stores.len();
    let ntab = tabs.len();
    v.push(Phase::new("stored", format!("{} ways to store the table on disk x {} tables", ns, ntab), ns * ntab, move |i, ctx| {
        let st = &stores[i / ntab];
        let tabs = tables();
        let (name, tab) = &tabs[i % ntab];
        ctx.sample(|| format!("{:?} {}", st, name));
        let (img, t) = volume(st, tab, 131072);
        let mut d = Disk::new(img);
        let mut n = Ntfs::new(&mut d).map_err(|e| V { key: "c10-mount".into(), msg: format!("{:?}", e) })?;
        if let Err(e) = n.read_upcase_table(&mut d) {
            return fail("c10-read", format!("{:?} table {}: {:?}", st, name, e));
        }
        for c in 0..=0xFFFFu16 {
            for o in [c.wrapping_sub(1), t[c as usize], 0x61, 0x8000] {
                let (a, b) = (c.to_le_bytes(), o.to_le_bytes());
                ctx.step();
                ensure_eq!(U16StrLe(&a).upcase_cmp(&n, &U16StrLe(&b)), t[c as usize].cmp(&t[o as usize]), "c10-stored", "{:?} table {}: {:04x} with {:04x}", st, name, c, o);
            }
        }
        ctx.state(&i);
        Ok(())
    }));
    // sizes
    let sizes: Vec<u64> = vec![0, 1, 2, 511, 512, 65535, 65536, 130560, 131070, 131071, 131072, 131073, 131074, 131584, 196608, 262144, (1 << 32) + 131072, (1 << 33) + 131072, 1 << 40, (1 << 16) + 131072];
    let ns = sizes.len();
    v.push(Phase::new("size", format!("{} table sizes x 3 cluster sizes x whole or split", ns), ns * 6, move |i, ctx| {
        let size = sizes[i / 6];
        let st = Store { cs: [512, 4096, 65536][i % 3], frags: 2, split: (i % 6) >= 3, hole: None };
        let (img, _) = volume(&st, &upcase_table(), size);
        let mut d = Disk::new(img);
        let mut n = Ntfs::new(&mut d).map_err(|e| V { key: "c10-mount".into(), msg: format!("{:?}", e) })?;
        ctx.step();
        ctx.state(&i);
        let r = n.read_upcase_table(&mut d);
        ctx.outcome(&r.is_ok());
        ensure_eq!(r.is_ok(), size == 131072, "c10-size", "table of {} bytes {:?}: {:?}", size, st, r.as_ref().err());
        Ok(())
    }));
    (v, Opts { alloc_cap: 1 << 30, ..Default::default() })
}
