//! C18: the same results with and without the standard library.
use crate::engine::*;
use crate::work::{self, Set, Sink};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};

/// The same program around the library built without default features.
struct Other {
    child: Child,
}
impl Other {
    fn new(t: Tier) -> Other {
        let dir = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
        let path = format!("{}/mc-nostd/target/release/mc-nostd", dir);
        let child = Command::new(&path).arg(t.name()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
        match child {
            Ok(child) => Other { child },
            Err(e) => {
                eprintln!("cannot run {}: {}", path, e);
                std::process::exit(3);
            }
        }
    }
    fn ask(&mut self, set: usize, item: usize) {
        let mut b = (set as u64).to_le_bytes().to_vec();
        b.extend((item as u64).to_le_bytes());
        let w = self.child.stdin.as_mut().unwrap();
        let _ = w.write_all(&b);
        let _ = w.flush();
    }
    fn answer(&mut self) -> Option<Vec<u64>> {
        let r = self.child.stdout.as_mut().unwrap();
        let mut b = [0u8; 8];
        r.read_exact(&mut b).ok()?;
        let n = u64::from_le_bytes(b) as usize;
        let mut v = vec![0u8; n * 8];
        r.read_exact(&mut v).ok()?;
        Some(v.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
    }
}
impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// those that have nothing to do
static IDLE: Mutex<Vec<Other>> = Mutex::new(Vec::new());

fn compare(t: Tier, sets: &[Set], set: usize, item: usize, ctx: &mut Ctx) -> R {
    let mut o = IDLE.lock().unwrap().pop().unwrap_or_else(|| Other::new(t));
    o.ask(set, item);
    let mut s = Sink::new();
    (sets[set].run)(item, &mut s);
    beat();
    let theirs = o.answer();
    beat();
    let Some(theirs) = theirs else {
        return fail("c18-died", format!("{}, item {}: the build without the standard library ends the program", sets[set].name, item));
    };
    IDLE.lock().unwrap().push(o);
    for (i, h) in s.hashes.iter().enumerate() {
        ctx.step();
        ctx.outcome(h);
        if theirs.get(i) != Some(h) {
            let mut x = Sink::new();
            x.tell = Some(i);
            (sets[set].run)(item, &mut x);
            return fail("c18-differs", format!("{}: {}: another result without the standard library ({:x?})", sets[set].name, x.told, theirs.get(i)));
        }
        ctx.state(&(set, item, i));
        ctx.exec();
    }
    if theirs.len() != s.hashes.len() {
        return fail("c18-count", format!("{}: {} cases, {} without the standard library", sets[set].name, s.hashes.len(), theirs.len()));
    }
    Ok(())
}

pub fn phases(t: Tier) -> (Vec<Phase>, Opts) {
    let mut sets = work::sets(t.thorough());
    let own = sets.len();
    sets.extend(crate::mirror::sets(t.thorough()));
    let sets = Arc::new(sets);
    let mut ph = vec![];
    for i in 0..own {
        let s = sets.clone();
        ph.push(Phase::new(sets[i].name, sets[i].bound.clone(), sets[i].items, move |k, ctx| compare(t, &s, i, k, ctx)));
    }
    // the other checks, one phase for each
    let mut i = own;
    while i < sets.len() {
        let id = &sets[i].name[..3];
        let mut its = vec![];
        let mut bounds = vec![];
        while i < sets.len() && &sets[i].name[..3] == id {
            its.extend((0..sets[i].items).map(|k| (i, k)));
            bounds.push(sets[i].bound.clone());
            i += 1;
        }
        let s = sets.clone();
        ph.push(Phase::new(id, bounds.join("; "), its.len(), move |k, ctx| compare(t, &s, its[k].0, its[k].1, ctx)));
    }
    (ph, Opts { watchdog_cpu_s: 60.0, ..Default::default() })
}
