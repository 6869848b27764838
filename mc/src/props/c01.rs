//! C01: mounting accepts exactly the supported geometries and reports them faithfully.
use crate::disk::{Disk, Img};
use crate::engine::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use binrw::io::{Seek, SeekFrom};
use ntfs::Ntfs;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Hash)]
struct B {
    ss: u16,
    spc: u8,
    total: u64,
    mft: u64,
    rsi: u8,
    serial: u64,
    sig: [u8; 2],
}
#[derive(Debug, PartialEq, Eq, Hash, Clone, Copy)]
struct Geom {
    ss: u16,
    cs: u32,
    rs: u32,
    size: u64,
    serial: u64,
    mft: u64,
}

/// The reference: what a boot sector means, written from the format description.
fn spec(b: &B) -> Option<Geom> {
    if b.sig != [0x55, 0xAA] {
        return None;
    }
    if ![512, 1024, 2048, 4096].contains(&b.ss) {
        return None;
    }
    let spc: u64 = match b.spc {
        1 | 2 | 4 | 8 | 16 | 32 | 64 | 128 => b.spc as u64,
        129..=255 => {
            let e = 256 - b.spc as u32;
            if e > 12 {
                return None;
            }
            1 << e
        }
        _ => return None,
    };
    let cs = spc * b.ss as u64;
    if cs < 512 || cs > 2 * 1024 * 1024 {
        return None;
    }
    let rsi = b.rsi as i8 as i64;
    let rs = if rsi > 0 {
        cs * rsi as u64
    } else if (10..=12).contains(&-rsi) {
        1 << -rsi
    } else {
        return None;
    };
    let size = (b.total as u128) * b.ss as u128;
    if size > u64::MAX as u128 || b.mft == 0 {
        return None;
    }
    let mft = b.mft as u128 * cs as u128;
    if mft > u64::MAX as u128 {
        return None;
    }
    Some(Geom { ss: b.ss, cs: cs as u32, rs: rs as u32, size: size as u64, serial: b.serial, mft: mft as u64 })
}

fn enc(b: &B, fill: u8) -> Vec<u8> {
    let mut s = vec![fill; 512];
    put(b, &mut s);
    s
}
fn put(b: &B, s: &mut [u8]) {
    w16(s, 11, b.ss);
    s[13] = b.spc;
    w64(s, 40, b.total);
    w64(s, 48, b.mft);
    s[64] = b.rsi;
    w64(s, 72, b.serial);
    s[510..512].copy_from_slice(&b.sig);
}
fn parse(s: &[u8]) -> B {
    B {
        ss: u16::from_le_bytes([s[11], s[12]]),
        spc: s[13],
        total: u64::from_le_bytes(s[40..48].try_into().unwrap()),
        mft: u64::from_le_bytes(s[48..56].try_into().unwrap()),
        rsi: s[64],
        serial: u64::from_le_bytes(s[72..80].try_into().unwrap()),
        sig: [s[510], s[511]],
    }
}

struct Fast(Disk);
impl Fast {
    fn new() -> Fast {
        let mut i = Img::new(4096);
        i.write(0, &[0u8; 4096]);
        let mut d = Disk::new(Arc::new(i));
        d.patch = vec![(0, vec![0; 512])];
        Fast(d)
    }
}

fn check(c: &mut Ctx, d: &mut Disk, b: &B, what: &str) -> R {
    let want = spec(b);
    let got = match Ntfs::new(d) {
        Ok(n) => Some(Geom {
            ss: n.sector_size(),
            cs: n.cluster_size(),
            rs: n.file_record_size(),
            size: n.size(),
            serial: n.serial_number(),
            mft: n.mft_position().value().map_or(0, |p| p.get()),
        }),
        Err(_) => None,
    };
    c.step();
    c.outcome(&(got.is_some(), got.map(|g| (g.ss, g.cs, g.rs))));
    if got != want {
        return fail(format!("{:?}", b), format!("{} {:?}: got {:?}, expected {:?}", what, b, got, want));
    }
    Ok(())
}

const TOTALS: [u64; 9] = [0, 1, 4096, 1 << 20, u64::MAX / 4096, u64::MAX / 4096 + 1, u64::MAX / 512, u64::MAX / 512 + 1, u64::MAX];
const MFTS: [u64; 11] = [
    0,
    1,
    4,
    786432,
    u64::MAX / 512,
    u64::MAX / 512 + 1,
    u64::MAX / 4096,
    u64::MAX / 4096 + 1,
    u64::MAX / (2 << 20),
    u64::MAX / (2 << 20) + 1,
    u64::MAX,
];

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let good = B { ss: 512, spc: 8, total: 4096, mft: 4, rsi: 0xF6, serial: 0x0123_4567_89AB_CDEF, sig: [0x55, 0xAA] };
    let mut v = vec![];
    v.push(Phase::new("sector-and-cluster-size", t.pick("all 65536 sector sizes x 20 sectors-per-cluster codes, and all 256 codes x 140 sector sizes", "all 65536 sector sizes x all 256 sectors-per-cluster codes"), 256, move |spc, c| {
        let mut f = Fast::new();
        let full = t.thorough() || [0usize, 1, 2, 3, 4, 8, 16, 64, 127, 128, 129, 192, 243, 244, 245, 247, 248, 249, 254, 255].contains(&spc);
        for ss in 0..=65535u16 {
            if !full && !(ss % 512 == 0 || ss.is_power_of_two() || (ss as u32 + 1).is_power_of_two()) {
                continue;
            }
            let b = B { ss, spc: spc as u8, ..good };
            f.0.patch[0].1 = enc(&b, 0);
            c.exec();
            if spec(&b).is_some() {
                c.state(&(ss, spc));
            }
            check(c, &mut f.0, &b, "")?;
        }
        Ok(())
    }));
    v.push(Phase::new(
        "record-size-codes",
        "all 256 record size codes x all 256 cluster codes x sector sizes {512,1024,2048,4096,256,513,8192} x volume sizes and MFT locations around every overflow boundary",
        256,
        move |rsi, c| {
            let mut f = Fast::new();
            let totals: Vec<u64> = if t.thorough() { TOTALS.to_vec() } else { vec![4096, u64::MAX / 4096 + 1, u64::MAX / 512 + 1, u64::MAX / 512] };
            let mfts: Vec<u64> = if t.thorough() { MFTS.to_vec() } else { vec![0, 1, u64::MAX / 4096, u64::MAX / 4096 + 1, u64::MAX / (2 << 20)] };
            for spc in 0..=255u8 {
                for ss in [512u16, 1024, 2048, 4096, 256, 513, 8192] {
                    for &total in &totals {
                        for &mft in &mfts {
                            let b = B { ss, spc, rsi: rsi as u8, total, mft, ..good };
                            f.0.patch[0].1 = enc(&b, 0xFF);
                            c.exec();
                            if spec(&b).is_some() {
                                c.state(&(ss, spc, rsi, total, mft));
                            }
                            check(c, &mut f.0, &b, "")?;
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(Phase::new("overflow-boundaries", "MFT location and volume size at +-2 around 2^64/size for every cluster size", 24, move |i, c| {
        let mut f = Fast::new();
        let ss = [512u16, 1024, 2048, 4096][i % 4];
        let spcs: Vec<u8> = [1u8, 2, 4, 8, 16, 32, 64, 128, 244, 245, 246, 247, 248, 250, 255, 249].to_vec();
        for spc in spcs.chunks(3).nth(i / 4).unwrap_or(&[]) {
            let n = if *spc > 128 { 1u64 << (256 - *spc as u32) } else { *spc as u64 };
            for base in [u64::MAX / (n * ss as u64), u64::MAX / ss as u64, 0, 1 << 32, 1 << 31, 1 << 63] {
                for d in 0..5u64 {
                    for other in [1u64, u64::MAX / ss as u64] {
                        for sw in [false, true] {
                            let x = base.wrapping_add(d).wrapping_sub(2);
                            let (total, mft) = if sw { (x, other) } else { (other, x) };
                            let b = B { ss, spc: *spc, total, mft, serial: x, ..good };
                            f.0.patch[0].1 = enc(&b, 0x11);
                            c.exec();
                            c.state(&(total, mft, *spc));
                            check(c, &mut f.0, &b, "")?;
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(Phase::new(
        "every-byte",
        "every byte of the sector set to every value, over 4 base sectors, from 6 initial reader positions (irrelevant bytes must not matter)",
        512,
        move |o, c| {
            let bases = [
                good,
                B { ss: 4096, spc: 1, rsi: 1, mft: 1 << 40, total: 1 << 30, ..good },
                B { ss: 1024, spc: 0xF5, rsi: 0xF4, mft: 3, total: 77, serial: u64::MAX, ..good },
                B { sig: [0x55, 0xAB], ..good },
            ];
            for (k, b) in bases.iter().enumerate() {
                for fill in [0u8, 0xA5] {
                    for val in 0..=255u8 {
                        let mut s = enc(b, fill);
                        s[o] = val;
                        let bb = parse(&s);
                        let mut f = Fast::new();
                        f.0.patch[0].1 = s;
                        let starts = [0u64, 1, 511, 512, 4096, 1 << 40];
                        f.0.pos = starts[(val as usize + k) % starts.len()];
                        c.exec();
                        c.state(&(o, val, k, fill));
                        check(c, &mut f.0, &bb, &format!("byte {} = {:#x}, reader at {}", o, val, starts[(val as usize + k) % starts.len()]))?;
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(Phase::new("reader-position", "every initial reader position 0..=1024 and from the end", 1, move |_, c| {
        for p in 0..=1024u64 {
            let mut f = Fast::new();
            f.0.patch[0].1 = enc(&good, 0);
            f.0.seek(SeekFrom::Start(p)).unwrap();
            c.exec();
            c.state(&p);
            check(c, &mut f.0, &good, &format!("reader at {}", p))?;
        }
        Ok(())
    }));
    v.push(Phase::new("truncated", "images of every length 0..=512", 1, move |_, c| {
        for n in 0..=512u64 {
            let mut f = Fast::new();
            f.0.patch[0].1 = enc(&good, 0);
            f.0.end = n;
            c.exec();
            c.state(&n);
            c.step();
            let ok = Ntfs::new(&mut f.0).is_ok();
            ensure_eq!(ok, n == 512, format!("len{}", n), "mount of a {}-byte image", n);
            ensure!(true, "", "");
        }
        Ok(())
    }));
    (v, Opts { assumptions: vec!["the reference geometry function in props/c01.rs states the documented NTFS boot sector rules".into()], ..Opts::default() })
}
