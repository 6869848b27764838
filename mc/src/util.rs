//! Small helpers shared by the property checks.
#![allow(dead_code)]
use crate::engine::V;
use ntfs::NtfsError;

pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join("")
}
/// Unwraps a result that must succeed on a well-formed image.
pub fn must<T>(r: Result<T, NtfsError>, key: &str, what: &str) -> Result<T, V> {
    r.map_err(|e| V { key: key.to_string(), msg: format!("{}: unexpected error {:?}", what, e) })
}
pub fn must_some<T>(r: Option<T>, key: &str, what: &str) -> Result<T, V> {
    r.ok_or_else(|| V { key: key.to_string(), msg: format!("{}: unexpectedly absent", what) })
}
/// First difference between two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!(
        "lengths {} and {}, first difference at {}: got {} expected {}",
        a.len(),
        b.len(),
        i,
        hexs(&a[i.min(a.len())..(i + 8).min(a.len())]),
        hexs(&b[i.min(b.len())..(i + 8).min(b.len())])
    )
}
/// All compositions of n into at most k positive parts.
pub fn compositions(n: u64, k: usize) -> Vec<Vec<u64>> {
    fn rec(n: u64, k: usize, cur: &mut Vec<u64>, out: &mut Vec<Vec<u64>>) {
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        if k == 0 {
            return;
        }
        for i in 1..=n {
            cur.push(i);
            rec(n - i, k - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(n, k, &mut vec![], &mut out);
    out
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(n, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(n, &mut vec![], &mut out);
    out
}
pub fn io_kind(e: &NtfsError) -> Option<binrw::io::ErrorKind> {
    match e {
        NtfsError::Io(e) => Some(e.kind()),
        _ => None,
    }
}
pub fn is_interrupted(e: &NtfsError) -> bool {
    io_kind(e) == Some(binrw::io::ErrorKind::Interrupted)
}
