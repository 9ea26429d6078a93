//! Runner: executes the property-based checks of one property.
//!
//!   vh run <property> --tier quick|thorough --seed N --work DIR --out STATS.json [--scale F] [--salt N]
//!   vh replay <file.json>          exit 0: passes, 1: fails (message on stdout)
//!   vh list                        properties and arms

mod core;
mod exec32;
#[cfg(guided)]
mod fuzz;
mod gen;
mod inflate;
mod lossless;
mod portable;
mod quality;
mod reference;
mod runner;
mod sinks;

#[global_allocator]
static A: core::Counting = core::Counting;

fn main() {
    core::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
    };
    let props = || {
        let mut v = lossless::props();
        v.extend(sinks::props());
        v.extend(quality::props());
        v.extend(portable::props());
        v
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = args.get(2).expect("property");
            let p = props().into_iter().find(|p| p.id == *id).expect("unknown property");
            let params =
                runner::Params {
                    thorough: opt("--tier").as_deref() == Some("thorough"),
                    seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                    work: opt("--work").expect("--work"),
                    out: opt("--out").expect("--out"),
                    scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                    salt: opt("--salt").and_then(|s| s.parse().ok()).unwrap_or(0),
                    only: opt("--arm"),
                    budget: opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(100_000),
                };
            #[cfg(guided)]
            {
                let n = |o: &str, d: u64| opt(o).and_then(|s| s.parse().ok()).unwrap_or(d);
                fuzz::run(p, params, n("--worker", 0), n("--cases", 1000))
            }
            #[cfg(not(guided))]
            runner::run(p, params)
        }
        Some("replay") => runner::replay(&props(), args.get(2).expect("file")),
        Some("list") => {
            for p in props() {
                for a in &p.arms {
                    println!("{} {} {:?}", p.id, a.name(), a.counts());
                }
            }
            0
        }
        _ => {
            eprintln!("usage: vh run|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
