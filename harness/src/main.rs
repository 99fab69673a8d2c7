mod backends;
mod built;
mod conc;
mod engine;
mod fakeredis;
mod faults;
mod forked;
mod gen;
mod jobs;
mod looks;
mod macrogen;
mod monitor;
mod probes;
mod props;
mod pure;
mod rng;
mod runner;
mod sim;
mod store;

use runner::Tier;

/// Log messages are part of what the code does: half of the cases format them, and drop them.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("aj")
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            std::hint::black_box(format!("{}", r.args()));
        }
    }
    fn flush(&self) {}
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|_| {}));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let tier = if a.get(3).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { tier };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            match find(&a[2]) {
                Some(p) => runner::check(p, tier, seed),
                None => {
                    println!("unknown property {}", a[2]);
                    2
                }
            }
        }
        Some("worker") => {
            let tier = if a[5] == "thorough" { Tier::Thorough } else { Tier::Quick };
            runner::worker(find(&a[2]).unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), tier, a[6].parse().unwrap(), &a[7]);
            0
        }
        Some("replay") => runner::replay(&props, &a[2]),
        Some("trace") => {
            // print the event log of a replay file
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let c: engine::Case = serde_json::from_value(j["case"].clone()).unwrap();
            match props::run_engine(&c) {
                Ok((log, _)) => {
                    for r in log {
                        println!("{:>14} {:?}", r.t, r.ev);
                    }
                    0
                }
                Err(e) => {
                    println!("{e:?}");
                    2
                }
            }
        }
        Some("ids") => {
            pure::print_ids(a[2].parse().unwrap(), a[3].parse().unwrap());
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: ajv check ID [thorough] | replay FILE | trace FILE | list");
            2
        }
    };
    std::process::exit(code);
}
