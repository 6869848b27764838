//! C15: time conversions are exact, ordered and reversible.
use crate::engine::*;
use crate::{ensure, ensure_eq};
use ntfs::NtfsTime;
use std::time::{Duration, SystemTime};
use time::{OffsetDateTime, UtcOffset};

/// Intervals of 100 ns from 1601 to 1970: 369 years with 89 leap days.
const EPOCH: i128 = (369 * 365 + 89) * 86400 * 10_000_000;
const DAY: i128 = 86400 * 10_000_000;

/// Calendar day of the given number of days since 1601-01-01, by counting whole 400-, 100-, 4- and 1-year groups.
fn civil(days: i128) -> (i32, u8, u8) {
    let mut y = 1601 + 400 * days.div_euclid(146097);
    let mut d = days.rem_euclid(146097);
    let c = (d / 36524).min(3);
    y += 100 * c;
    d -= 36524 * c;
    let q = d / 1461;
    y += 4 * q;
    d -= 1461 * q;
    let o = (d / 365).min(3);
    y += o;
    d -= 365 * o;
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let mut m = 1;
    for l in [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] {
        if d < l {
            break;
        }
        d -= l;
        m += 1;
    }
    (y as i32, m as u8, d as u8 + 1)
}

/// A timestamp to a date-time and back.
fn forth_and_back(t: u64, ctx: &mut Ctx) -> R {
    let what = || format!("timestamp {}", t);
    let nt = NtfsTime::from(t);
    ensure_eq!(nt.nt_timestamp(), t, "c15-stored", "{}", what());
    let dt = guarded(what, || OffsetDateTime::from(nt))?;
    let t1 = t as i128;
    let day = t1 / DAY;
    let rest = t1 % DAY;
    let sec = rest / 10_000_000;
    let want = (civil(day), (sec / 3600) as u8, (sec / 60 % 60) as u8, (sec % 60) as u8, (rest % 10_000_000) as u32 * 100);
    let got = ((dt.year(), dt.month() as u8, dt.day()), dt.hour(), dt.minute(), dt.second(), dt.nanosecond());
    ensure_eq!(got, want, "c15-date", "{}: date-time", what());
    ensure!(dt.offset().is_utc(), "c15-utc", "{}: the date-time is not in UTC but {:?}", what(), dt.offset());
    let back = guarded(what, || NtfsTime::try_from(dt))?;
    ensure!(matches!(back, Ok(b) if b == nt && b.nt_timestamp() == t), "c15-back", "{}: converted to {} and back is {:?}", what(), dt, back);
    ctx.steps(2);
    ctx.exec();
    ctx.outcome(&want);
    Ok(())
}
/// The moment that many nanoseconds after 1601, as a date-time with that offset (in seconds).
fn from_nanos(n: i128, off: i32, ctx: &mut Ctx) -> R {
    let what = || format!("date-time {} ns after 1601 with an offset of {} s", n, off);
    let Ok(dt) = OffsetDateTime::from_unix_timestamp_nanos(n - EPOCH * 100) else { return Ok(()) };
    let o = UtcOffset::from_whole_seconds(off).expect("harness: offset");
    // the local date must be representable
    if off != 0 && !(-370_000..=900_000).contains(&(dt.year() as i64)) {
        return Ok(());
    }
    let dt = dt.to_offset(o);
    let want = u64::try_from(n.div_euclid(100)).ok();
    let got = guarded(what, || NtfsTime::try_from(dt).ok().map(|t| t.nt_timestamp()))?;
    ensure_eq!(got, want, "c15-from-date", "{}: {}", what(), dt);
    ctx.step();
    ctx.exec();
    ctx.outcome(&(want.is_some(), n.rem_euclid(100)));
    Ok(())
}
/// A system time that many seconds and nanoseconds after (or before) 1970.
fn from_system(before: bool, s: u64, ns: u32, ctx: &mut Ctx) -> R {
    let what = || format!("system time {} {}.{:09} s from 1970", if before { "minus" } else { "plus" }, s, ns);
    let d = Duration::new(s, ns);
    let st = if before { SystemTime::UNIX_EPOCH.checked_sub(d) } else { SystemTime::UNIX_EPOCH.checked_add(d) };
    let Some(st) = st else { return Ok(()) };
    let n = s as i128 * 10_000_000 + ns as i128 / 100 + EPOCH;
    let want = if before && (s > 0 || ns > 0) { None } else { u64::try_from(n).ok() };
    let got = guarded(what, || NtfsTime::try_from(st).ok().map(|t| t.nt_timestamp()))?;
    ensure_eq!(got, want, "c15-from-system", "{}", what());
    ctx.step();
    ctx.exec();
    ctx.outcome(&(want.is_some(), ns % 100));
    Ok(())
}

/// Interesting timestamps.
fn stamps() -> Vec<u64> {
    let mut v = vec![];
    for b in 0..64 {
        for d in -3i128..=3 {
            for x in [(1i128 << b) + d, u64::MAX as i128 - (1i128 << b) + d, EPOCH + (1i128 << b) + d, EPOCH - (1i128 << b) + d] {
                v.push(x);
            }
        }
        for d in 0..8 {
            v.push((0xFFu64.rotate_left(b) as i128) - d);
            v.push((0x0101_0101_0101_0101u64.rotate_left(b) as i128) - d);
        }
    }
    for k in 0..20 {
        let p = 10i128.pow(k);
        for m in 1..=9 {
            for d in -1..=1 {
                v.extend([p * m + d, EPOCH + p * m + d, EPOCH - p * m + d]);
            }
        }
    }
    let mut v: Vec<u64> = v.into_iter().filter_map(|x| u64::try_from(x).ok()).collect();
    v.sort();
    v.dedup();
    v
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut out = vec![];
    let chunk = |name: &'static str, bound: String, n: usize, f: Box<dyn Fn(usize, &mut Ctx) -> R + Send + Sync>| {
        let per = n.div_ceil(64);
        Phase::new(name, bound, 64, move |i, ctx| {
            for k in i * per..((i + 1) * per).min(n) {
                ctx.state(&(name, k));
                f(k, ctx)?;
            }
            Ok(())
        })
    };

    let s = stamps();
    let n = s.len();
    out.push(chunk("timestamps", format!("{} timestamps: powers of two and ten around 0, 1970 and the largest, byte patterns; to a date-time and back", n), n, Box::new({
        let s = s.clone();
        move |k, ctx| {
            ctx.sample(|| format!("timestamp {}", s[k]));
            forth_and_back(s[k], ctx)
        }
    })));
    // windows of consecutive timestamps
    let w = t.pick(1i128 << 18, 1 << 22);
    let mids: Vec<i128> = vec![0, EPOCH, u64::MAX as i128, EPOCH + 10_000_000, EPOCH - 10_000_000, 1 << 32, 1 << 63, EPOCH + (1i128 << 31) * 10_000_000, 132539328000000000];
    let nm = mids.len();
    out.push(chunk("consecutive", format!("all timestamps within {} of {} moments, to a date-time and back", w, nm), nm * 512, Box::new(move |k, ctx| {
        let (m, part) = (mids[k / 512], (k % 512) as i128);
        for x in m - w + part * (w / 256)..m - w + (part + 1) * (w / 256) {
            if let Ok(x) = u64::try_from(x) {
                forth_and_back(x, ctx)?;
            }
        }
        Ok(())
    })));
    // every day of 400 years, every year of the range
    out.push(chunk("days", "the first and last interval of every day of 1601 to 2401 and one in the day".into(), 146097 * 2, Box::new(|k, ctx| {
        let d = k as i128 * DAY;
        for x in [d - 1, d, d + (k as i128 * 7919_000_003) % DAY] {
            if let Ok(x) = u64::try_from(x) {
                forth_and_back(x, ctx)?;
            }
        }
        Ok(())
    })));
    let years = (u64::MAX as i128 / DAY / 365) as usize + 2;
    out.push(chunk("years", format!("the days around the end of every February and every year from 1601 on, {} years", years), years, Box::new(|k, ctx| {
        let k = k as i128;
        let start = (k * 365 + k / 4 - k / 100 + k / 400) * DAY;
        for d in [-1, 0, 1, 57, 58, 59, 60, 364, 365, 366] {
            for e in [-1, 0, 10_000_000 - 1] {
                if let Ok(x) = u64::try_from(start + d * DAY + e) {
                    forth_and_back(x, ctx)?;
                }
            }
        }
        Ok(())
    })));
    let days = (u64::MAX as i128 / DAY) as usize + 2;
    let per = t.pick(1, 24);
    out.push(chunk("all days", format!("the first and last interval of every {} up to the largest timestamp, {} days", if per == 1 { "day" } else { "hour" }, days), days, Box::new(move |k, ctx| {
        for h in 0..per {
            let d = k as i128 * DAY + h * DAY / 24;
            for x in [d - 1, d] {
                if let Ok(x) = u64::try_from(x) {
                    forth_and_back(x, ctx)?;
                }
            }
        }
        Ok(())
    })));
    // date-times with nanoseconds and offsets
    let s2 = s.clone();
    let extra = t.pick(1usize, 8);
    out.push(chunk("date-times", format!("every nanosecond of the interval at {} timestamps, and as far below 1601", n), n, Box::new(move |k, ctx| {
        for r in 0..100 {
            from_nanos(s2[k] as i128 * 100 + r, 0, ctx)?;
            from_nanos(-(s2[k] as i128 * 100) - r, 0, ctx)?;
            if extra > 1 {
                for o in [1, -1, 3600, -3600, 50400, -43200] {
                    from_nanos(s2[k] as i128 * 100 + r, o, ctx)?;
                }
            }
        }
        Ok(())
    })));
    let near: Vec<i128> = vec![0, 1, 99, 100, -1, -99, -100, -101, 100 * EPOCH, 100 * EPOCH - 1, 100 * EPOCH + 1, u64::MAX as i128 * 100, u64::MAX as i128 * 100 + 99, u64::MAX as i128 * 100 + 100, 100 * DAY, 100 * DAY - 1, -100 * DAY, 100 * (1i128 << 63)];
    let step = t.pick(60, 1);
    let no = (2 * 86399 / step + 1) as usize;
    out.push(chunk("offsets", format!("{} UTC offsets (every {} s) x {} moments", no, step, near.len()), no, Box::new(move |k, ctx| {
        let o = -86399 + k as i32 * step;
        for n in &near {
            from_nanos(*n, o, ctx)?;
        }
        Ok(())
    })));
    // the windows around the two limits, nanosecond by nanosecond
    let w = t.pick(100_000i128, 2_000_000);
    let lims: [i128; 3] = [0, 100 * EPOCH, (u64::MAX as i128 + 1) * 100];
    out.push(chunk("limits", format!("every nanosecond within {} ns of 1601, of 1970 and of the end", w), 3 * 200, Box::new(move |k, ctx| {
        let m = lims[k / 200];
        let part = (k % 200) as i128;
        for x in m - w + part * (w / 100)..m - w + (part + 1) * (w / 100) {
            from_nanos(x, 0, ctx)?;
        }
        Ok(())
    })));
    // date-times of every year the time crate knows
    out.push(chunk("far years", "the first moment of each year from -999,999 to 999,999".into(), 2_000_000, Box::new(|k, ctx| {
        let y = k as i128 - 1_000_000 - 1600;
        // days before 1601 + y
        let days = y * 365 + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400);
        from_nanos(days * DAY * 100, 0, ctx)
    })));
    // system times
    let mut secs: Vec<u64> = vec![];
    let end = (u64::MAX as i128 - EPOCH) / 10_000_000;
    for b in 0..64 {
        for d in -2..=2i128 {
            for x in [(1i128 << b) + d, end + d, end - (1i128 << b) + d, EPOCH / 10_000_000 + d, i64::MAX as i128 - d] {
                if let Ok(x) = u64::try_from(x) {
                    secs.push(x);
                }
            }
        }
    }
    secs.sort();
    secs.dedup();
    let ns: Vec<u32> = (0..t.pick(400u32, 5000)).flat_map(|x| [x, 999_999_999 - x, 551_615_000 + x, 955_161_500 + 200 - x.min(400)]).chain((0..30).flat_map(|b| [(1u32 << b) % 1_000_000_000, ((1u32 << b) + 99) % 1_000_000_000])).collect();
    let m = secs.len();
    out.push(chunk("system times", format!("{} numbers of seconds x {} nanoseconds after and before 1970", m, ns.len()), m, Box::new(move |k, ctx| {
        for x in &ns {
            for before in [false, true] {
                from_system(before, secs[k], *x, ctx)?;
            }
        }
        Ok(())
    })));
    // the end of the range, interval by interval
    out.push(chunk("system limit", "every interval of the last two seconds that can be represented and of the first two that cannot".into(), 400, Box::new(move |k, ctx| {
        let per = if t.thorough() { 100_000 } else { 2_000 };
        for j in 0..per {
            let i = (k * per + j) as i128 * if t.thorough() { 1 } else { 50 };
            let x = u64::MAX as i128 - EPOCH - 20_000_000 + i;
            from_system(false, (x / 10_000_000) as u64, (x % 10_000_000) as u32 * 100 + (i % 100) as u32, ctx)?;
        }
        let x = u64::MAX as i128 - EPOCH - 200 + k as i128;
        for r in 0..100 {
            from_system(false, (x / 10_000_000) as u64, (x % 10_000_000) as u32 * 100 + r, ctx)?;
        }
        Ok(())
    })));
    // order
    out.push(chunk("order", format!("every pair of the {} timestamps", n), n, Box::new(move |k, ctx| {
        let a = NtfsTime::from(s[k]);
        let da = OffsetDateTime::from(a);
        for x in &s {
            let b = NtfsTime::from(*x);
            ensure_eq!((a.cmp(&b), a.partial_cmp(&b), a == b), (s[k].cmp(x), Some(s[k].cmp(x)), s[k] == *x), "c15-order", "timestamps {} and {}", s[k], x);
            ensure_eq!(da.cmp(&OffsetDateTime::from(b)), s[k].cmp(x), "c15-order", "date-times of the timestamps {} and {}", s[k], x);
        }
        ctx.steps(2 * s.len() as u64);
        Ok(())
    })));
    (out, Opts::default())
}
