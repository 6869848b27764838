//! The other checks' explorations as cases for both builds of the library.
use crate::engine::{mirror, Tier};
use crate::props;
use crate::work::{Set, Sink};

/// The checks, and which share of their items is taken at the quick level.
const WHICH: [(&str, usize); 13] =
    [("C01", 7), ("C02", 3), ("C03", 3), ("C04", 7), ("C06", 7), ("C07", 7), ("C08", 7), ("C09", 5), ("C10", 7), ("C11", 7), ("C12", 7), ("C16", 7), ("C21", 7)];

pub fn sets(thorough: bool) -> Vec<Set> {
    let mut out = vec![];
    for (id, k) in WHICH {
        let k = if thorough { 1 } else { k };
        let (ph, _) = props::get(id, Tier::Quick).expect("harness: property");
        for p in ph {
            let name: &'static str = Box::leak(format!("{} {}", id, p.name).into_boxed_str());
            let bound = format!("{}{}", if k > 1 { format!("one item of {} of: ", k) } else { String::new() }, p.bound);
            let items = p.items.div_ceil(k);
            out.push(Set {
                name,
                bound,
                items,
                run: Box::new(move |i, s: &mut Sink| {
                    let (h, what) = mirror(&p, i * k);
                    if s.tell == Some(s.hashes.len()) {
                        s.told = format!("item {}: {}", i * k, what.unwrap_or("as expected".into()));
                    }
                    s.hashes.push(h);
                }),
            });
        }
    }
    out
}
