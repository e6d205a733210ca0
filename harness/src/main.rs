#[macro_use]
mod alloc;
mod c01;
mod c02;
mod c03;
mod c04;
mod cfg;
mod gen;
mod glue;
mod isol;
mod model;
mod order;
mod limits;
#[cfg(feature = "crypto")]
mod pki;
mod units;
mod bufs;
mod serve;
mod reqs;
mod neg;
mod wire;
mod session;
mod world;
use vcommon::run::{self, Part, RunCfg, Tier};

fn parts(p: &str) -> Vec<Part> {
    match p {
        "C01" => c01::parts(),
        "C02" => c02::parts(),
        "C03" => c03::parts(),
        "C04" => c04::parts(),
        "C05" => wire::c05(),
        "C06" => wire::c06(),
        "C07" => wire::c07(),
        "C08" => order::c08(),
        "C09" => order::c09(),
        "C19" => order::c19(),
        "C26" => order::c26(),
        "C12" => neg::c12(),
        "C13" => neg::c13(),
        "C14" => neg::c14(),
        "C15" => neg::c15(),
        "C10" => reqs::c10(),
        "C16" => serve::c16(),
        "C17" => serve::c17(),
        "C27" => serve::c27(),
        "C11" => bufs::c11(),
        "C18" => bufs::c18(),
        "C20" => units::c20(),
        "C21" => units::c21(),
        "C22" => units::c22(),
        "C23" => units::c23(),
        "C24" => alloc::parts(),
        #[cfg(feature = "crypto")]
        "C28" => pki::parts(),
        "C29" => isol::parts(),
        "C25" => limits::c25(),
        _ => panic!("no such property: {p}"),
    }
}

/// harness PROPERTY TIER OUT [PART]: run (one part of) the property's parts
/// harness PROPERTY replay FILE: run one recorded case; status 0 holds,
/// 1 fails (the reason on stdout), 3 unusable
fn main() {
    cfg::load();
    let a: Vec<String> = std::env::args().collect();
    if a[1] != "C24" {
        let _ = run::BEFORE_CASE.set(getrandom::control::seed);
    }
    if a[2] == "child" {
        return isol::child();
    }
    if a[2] == "replay" {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).expect("file")).expect("json");
        match run::replay(parts(&a[1]), v["part"].as_str().expect("part"), &v["case"]) {
            None => std::process::exit(3),
            Some(Ok(())) => {}
            Some(Err(e)) => {
                println!("{e}");
                std::process::exit(1)
            }
        }
        return;
    }
    let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let num = |name: &str| std::env::var(name).ok().and_then(|s| s.parse().ok());
    let seed = num("VERIF_SEED").unwrap_or(1);
    let journal = std::env::var("VJOURNAL").ok().map(Into::into);
    let cfg_ = RunCfg { seed, tier, journal, hang_s: num("VHANG").unwrap_or(60), until: num("VUNTIL").map(|s| std::time::UNIX_EPOCH + std::time::Duration::from_secs(s)) };
    let mut ps = parts(&a[1]);
    if let Some(only) = a.get(4) {
        ps.retain(|p| p.name == *only);
    }
    run::run_parts(&a[1], &cfg::cfg().name, ps, cfg_, std::path::Path::new(&a[3]));
}
