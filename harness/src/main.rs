mod bench;
mod cli;
mod engine;
mod fbb;
mod logs;
mod lz;
mod lzref;
mod rig;
mod station;
mod text;
mod vara;

use engine::Ctx;
use std::sync::Arc;

type Check = fn(&Ctx);

fn checks() -> Vec<(&'static str, Check)> {
    vec![("L01", lz::l01 as Check), ("L02", lz::l02), ("L03", lz::l03), ("L04", lz::l04), ("L05", lz::l05), ("L06", lz::l06),
        ("B01", fbb::b01), ("B02", fbb::b02), ("B03", fbb::b03), ("B04", fbb::b04), ("F01", fbb::f01), ("F02", fbb::f02), ("F03", fbb::f03), ("S01", station::s01),
        ("V01", vara::v01), ("V02", vara::v02), ("V03", vara::v03), ("V04", vara::v04), ("V05", vara::v05), ("V06", vara::v06),
        ("V07", vara::v07), ("V08", vara::v08), ("V09", vara::v09), ("V10", vara::v10), ("V11", vara::v11),
        ("R01", rig::r01), ("R02", rig::r02), ("M01", cli::m01), ("M02", cli::m02), ("M03", cli::m03), ("M04", cli::m04)]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    engine::install_panic_hook();
    let usage = || -> ! {
        eprintln!("usage: plv ID | plv replay FILE");
        std::process::exit(2)
    };
    if args.len() < 2 {
        usage();
    }
    let (id, replay) = if args[1] == "replay" {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(args.get(2).unwrap_or_else(|| usage())).expect("replay file")).expect("replay JSON");
        (v["property"].as_str().unwrap().to_string(), Some((v["part"].as_str().unwrap().to_string(), v["case"].clone())))
    } else {
        (args[1].clone(), None)
    };
    let Some((_, check)) = checks().into_iter().find(|c| c.0 == id) else { usage() };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let ctx = Arc::new(Ctx::new(&id, tier, seed, replay));
    engine::spawn_cpu_monitor(ctx.clone());
    check(&ctx);
    std::process::exit(ctx.finish());
}
