mod fw;
mod p_dyn;
mod p_kf;
mod p_od;
mod p_sol;
mod p_noise;
mod p_cfg;
mod p_seq;
mod p_state;
mod p_gnd;
mod p_shoot;
mod p_util;
mod p_prop;
mod p_thrust;
mod p_mc;
mod p_md;
mod p_msr;
mod p_traj;
mod p_trk;
mod pq;
mod world;

use fw::{Prop, Tier};

fn registry() -> Vec<fn() -> Prop> {
    let mut v: Vec<fn() -> Prop> = Vec::new();
    v.extend_from_slice(p_prop::PROPS);
    v.extend_from_slice(p_dyn::PROPS);
    v.extend_from_slice(p_thrust::PROPS);
    v.extend_from_slice(p_traj::PROPS);
    v.extend_from_slice(p_md::PROPS);
    v.extend_from_slice(p_mc::PROPS);
    v.extend_from_slice(p_msr::PROPS);
    v.extend_from_slice(p_trk::PROPS);
    v.extend_from_slice(p_kf::PROPS);
    v.extend_from_slice(p_od::PROPS);
    v.extend_from_slice(p_sol::PROPS);
    v.extend_from_slice(p_noise::PROPS);
    v.extend_from_slice(p_cfg::PROPS);
    v.extend_from_slice(p_seq::PROPS);
    v.extend_from_slice(p_state::PROPS);
    v.extend_from_slice(p_gnd::PROPS);
    v.extend_from_slice(p_shoot::PROPS);
    v.extend_from_slice(p_util::PROPS);
    v
}

fn main() {
    fw::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in registry() {
                let p = p();
                println!("{} {:?}", p.id, p.subs.iter().map(|s| s.name().to_string()).collect::<Vec<_>>());
            }
            0
        }
        Some("run") => {
            let id = args.get(2).expect("property id");
            let tier = match args.get(3).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1u64);
            let only = args.get(4).map(|s| s.as_str());
            match registry().into_iter().map(|p| p()).find(|p| p.id == id) {
                Some(p) => fw::run_prop(&p, tier, seed, only),
                None => {
                    eprintln!("unknown property {id}");
                    3
                }
            }
        }
        Some("replay") => {
            let path = args.get(2).expect("replay file");
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(path).expect("readable")).expect("json");
            let id = v["property"].as_str().unwrap();
            let sub = v["sub"].as_str().unwrap();
            let input = v["input"].as_str().unwrap();
            let p = registry()
                .into_iter()
                .map(|p| p())
                .find(|p| p.id == id)
                .expect("property");
            let s = p.subs.iter().find(|s| s.name() == sub).expect("sub-check");
            match s.replay(input) {
                Ok(o) => {
                    println!("replay of {id}/{sub}: holds ({o:?})");
                    0
                }
                Err(f) => {
                    println!("replay of {id}/{sub}: fails [{}] {}", f.sig, f.msg);
                    println!("VIOLATION property={id} replay={path}");
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: nyxpbt list | run ID quick|thorough [sub] | replay FILE");
            3
        }
    };
    world::cleanup();
    std::process::exit(code);
}
