#![allow(non_snake_case)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod catalogue;
mod fw;
mod lob;
mod procs;

use fw::*;
use simrt::host;

static PROPS: &[&'static dyn Prop] = &[&c01::C01, &c02::C02, &c03::C03, &c04::C04, &c05::C05, &c06::C06, &c07::C07, &lob::C08, &lob::C09, &c10::C10, &c11::C11, &c12::C12, &c13::C13, &c14::C14];

fn main() {
    host::fixed_addresses();
    std::panic::set_hook(Box::new(|i| {
        if simrt::sim::me().is_some() {
            simrt::sim::note_panic(i.to_string());
        } else {
            eprintln!("{i}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let num = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<f64>().ok());
    let find = |id: &str| *PROPS.iter().find(|p| p.id() == id).expect("unknown property");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match a.get(1).map(String::as_str) {
        Some("check") => {
            let t = tier(a.get(3).map_or("quick", String::as_str));
            let cfg = Cfg {
                root,
                tier: t,
                seed,
                max_s: num("DST_MAX_S").unwrap_or(if t == Tier::Quick { 60.0 } else { 560.0 }),
                runs: num("DST_RUNS").map(|x| x as u64),
            };
            check(find(&a[2]), &cfg)
        }
        Some("replay") => replay(PROPS, &a[2]),
        Some("one") => {
            let cfg = Cfg { root, tier: tier(a.get(4).map_or("quick", String::as_str)), seed, max_s: 0.0, runs: None };
            one(find(&a[2]), &cfg, a[3].parse().unwrap());
            0
        }
        _ => {
            eprintln!("dst check <property> <quick|thorough> | replay <file> | one <property> <index>");
            2
        }
    };
    std::process::exit(code);
}
