//! C13: malformed volumes produce errors, never panics.
use crate::engine::*;
use crate::hostile::*;

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let lim = Lim { key: "c13", deep: true, call_ops: 2_000_000, iter: 1_000_000, alloc: 0 };
    let mut out = super::c14::endless(t, lim);
    out.extend(crate::hostile::phases(t, lim));
    (out, Opts { alloc_cap: 1 << 30, ..Default::default() })
}
