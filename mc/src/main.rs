mod disk;
mod dump;
mod engine;
mod files;
mod hash;
mod hostile;
mod images;
mod img;
mod lay;
mod mirror;
mod props;
mod real;
mod realcheck;
mod tree;
mod util;
mod work;

use engine::{Opts, Phase, Tier};

#[global_allocator]
static A: engine::Guard = engine::Guard;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = "usage: mc <property> [quick|thorough] | mc replay <file> | mc list";
    if a.len() < 2 {
        eprintln!("{}", usage);
        std::process::exit(2);
    }
    if a[1] == "list" {
        for p in props::IDS {
            println!("{}", p);
        }
        return;
    }
    if a[1] == "replay" {
        let s = std::fs::read_to_string(&a[2]).expect("replay file");
        let f = |k: &str| {
            let pat = format!("\"{}\":\"", k);
            let i = s.find(&pat).expect("field") + pat.len();
            s[i..i + s[i..].find('"').unwrap()].to_string()
        };
        let (p, t) = (f("property"), f("tier"));
        let tier = if t == "thorough" { Tier::Thorough } else { Tier::Quick };
        let (ph, o): (Vec<Phase>, Opts) = props::get(&p, tier).expect("unknown property");
        std::process::exit(engine::replay(&p, ph, &a[2], o));
    }
    let tier = match a.get(2).map(|s| s.as_str()).or(std::env::var("VERIF_TIER").ok().as_deref()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let (ph, o) = props::get(&a[1], tier).unwrap_or_else(|| {
        eprintln!("unknown property {}", a[1]);
        std::process::exit(2)
    });
    std::process::exit(engine::explore(&a[1], tier, ph, o));
}
