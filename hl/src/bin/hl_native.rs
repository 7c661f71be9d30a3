//! Native side of the checks: list / search / playback of obligations.
use std::time::Duration;

use hl::vf::native::{playback, search};
use hl::vf::{Ob, Outcome};
use serde_json::json;

fn all() -> Vec<&'static Ob> {
    hl::props::ALL.iter().flat_map(|x| x.iter()).collect()
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "list" => {
            let l: Vec<_> = all()
                .iter()
                .map(|o| json!({"prop": o.prop, "name": o.name, "level": o.level, "bound": o.bound, "funcs": o.funcs, "harness": o.harness}))
                .collect();
            println!("{}", serde_json::to_string(&l).unwrap());
        }
        // run PROP SEED DFS_CAP BUDGET_MS [NAME]
        "run" => {
            let seed: u64 = args[3].parse().unwrap();
            let cap: u64 = args[4].parse().unwrap();
            let ms: u64 = args[5].parse().unwrap();
            let obs: Vec<_> = all()
                .into_iter()
                .filter(|o| o.prop == args[2] && args.get(6).map_or(true, |n| n == o.name))
                .collect();
            let mut out = vec![];
            std::thread::scope(|sc| {
                let hs: Vec<_> = obs
                    .iter()
                    .map(|o| {
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(sc, move || (o.name, search(o, seed, cap, Duration::from_millis(ms))))
                            .unwrap()
                    })
                    .collect();
                for h in hs {
                    let (name, r) = h.join().unwrap();
                    out.push(json!({
                        "name": name, "evaluations": r.evaluations, "passed": r.passed, "distinct": r.distinct,
                        "exhausted": r.exhausted, "samples": r.samples,
                        "failure": r.failure.map(|(m, d)| json!({"message": m, "draws": d})),
                    }));
                }
            });
            println!("{}", serde_json::to_string(&out).unwrap());
        }
        // playback PROP NAME draw,draw,...
        "playback" => {
            let ob = all().into_iter().find(|o| o.prop == args[2] && o.name == args[3]).expect("unknown obligation");
            let draws = args.get(4).map_or("", |x| x).split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            match playback(ob, draws) {
                Outcome::Pass => println!("PASS"),
                Outcome::Discard => println!("DISCARD"),
                Outcome::Fail(m) => {
                    println!("FAIL {m}");
                    std::process::exit(1);
                }
            }
        }
        _ => panic!("unknown command"),
    }
}
