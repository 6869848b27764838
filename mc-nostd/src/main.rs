//! Does what it is told with the library built without the standard library, and answers with fingerprints.
//! A request is the number of the set and of the item; the answer is a count and as many fingerprints.
#[path = "../../mc/src/disk.rs"]
mod disk;
#[path = "../../mc/src/dump.rs"]
mod dump;
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/files.rs"]
mod files;
#[path = "../../mc/src/hash.rs"]
mod hash;
#[path = "../../mc/src/hostile.rs"]
mod hostile;
#[path = "../../mc/src/images.rs"]
mod images;
#[path = "../../mc/src/img.rs"]
mod img;
#[path = "../../mc/src/lay.rs"]
mod lay;
#[path = "../../mc/src/mirror.rs"]
mod mirror;
#[path = "../../mc/src/props/mod.rs"]
mod props;
#[path = "../../mc/src/real.rs"]
mod real;
#[path = "../../mc/src/realcheck.rs"]
mod realcheck;
#[path = "../../mc/src/tree.rs"]
mod tree;
#[path = "../../mc/src/util.rs"]
mod util;
#[path = "../../mc/src/work.rs"]
mod work;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};

#[global_allocator]
static A: engine::Guard = engine::Guard;
/// requests answered so far
static DONE: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this process in seconds
fn cpu() -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(2, &mut t) };
    t.sec
}

fn serve() {
    let thorough = std::env::args().nth(1).as_deref() == Some("thorough");
    let mut sets = work::sets(thorough);
    sets.extend(mirror::sets(thorough));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut b = [0u8; 16];
    while i.read_exact(&mut b).is_ok() {
        let set = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        let item = u64::from_le_bytes(b[8..].try_into().unwrap()) as usize;
        let mut s = work::Sink::new();
        (sets[set].run)(item, &mut s);
        DONE.fetch_add(1, Ordering::Relaxed);
        let mut a = (s.hashes.len() as u64).to_le_bytes().to_vec();
        for h in &s.hashes {
            a.extend(h.to_le_bytes());
        }
        o.write_all(&a).unwrap();
        o.flush().unwrap();
    }
}

fn main() {
    engine::install_hook();
    // a request that does not end, ends the program
    std::thread::spawn(|| {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let (d, c) = (DONE.load(Ordering::Relaxed), cpu());
            if d != last.0 {
                last = (d, c);
            } else if c - last.1 > 90 {
                std::process::exit(9);
            }
        }
    });
    std::thread::Builder::new().stack_size(64 << 20).spawn(serve).unwrap().join().unwrap();
}
