//! Explores the parts of examples/ntfs-shell: its sector reader (C19) and the shell as a program (C20).
#[path = "../../mc/src/disk.rs"]
#[allow(dead_code)]
mod disk;
#[path = "../../mc/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../mc/src/hash.rs"]
mod hash;
#[path = "../../mc/src/img.rs"]
#[allow(dead_code)]
mod img;
#[path = "/repo/examples/ntfs-shell/sector_reader.rs"]
mod sector_reader;

mod c19;
mod c20;

use engine::{Opts, Phase, Tier};

#[global_allocator]
static A: engine::Guard = engine::Guard;

fn get(id: &str, t: Tier) -> Option<(Vec<Phase>, Opts)> {
    match id {
        "C19" => Some(c19::phases(t)),
        "C20" => Some(c20::phases(t)),
        _ => None,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        eprintln!("usage: mc-shell <property> [quick|thorough] | mc-shell replay <file>");
        std::process::exit(2);
    }
    if a[1] == "replay" {
        let s = std::fs::read_to_string(&a[2]).expect("replay file");
        let f = |k: &str| {
            let pat = format!("\"{}\":\"", k);
            let i = s.find(&pat).expect("field") + pat.len();
            s[i..i + s[i..].find('"').unwrap()].to_string()
        };
        let (p, t) = (f("property"), f("tier"));
        let tier = if t == "thorough" { Tier::Thorough } else { Tier::Quick };
        let (ph, o) = get(&p, tier).expect("unknown property");
        std::process::exit(engine::replay(&p, ph, &a[2], o));
    }
    let tier = match a.get(2).map(|s| s.as_str()).or(std::env::var("VERIF_TIER").ok().as_deref()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let (ph, o) = get(&a[1], tier).unwrap_or_else(|| {
        eprintln!("unknown property {}", a[1]);
        std::process::exit(2)
    });
    std::process::exit(engine::explore(&a[1], tier, ph, o));
}
