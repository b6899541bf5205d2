mod adapt;
mod core;
mod curves;
mod gen;
mod model;
mod shapes;
mod surfaces;
mod boxes;
mod chains;
mod boolean;
mod serial;
mod kernels;
mod knots;
mod cross;
mod mesh;

use crate::core::{Env, Tier};
use std::process::Command;

type Check = fn(&Env);

fn table() -> Vec<(&'static str, Check)> {
    let mut t: Vec<(&'static str, Check)> = vec![];
    t.extend(curves::table());
    t.extend(shapes::table());
    t.extend(surfaces::table());
    t.extend(mesh::table());
    t.extend(boxes::table());
    t.extend(chains::table());
    t.extend(cross::table());
    t.extend(boolean::table());
    t.extend(serial::table());
    t.extend(kernels::table());
    t.extend(knots::table());
    t
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut prop = String::new();
    let mut filter = None;
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                let s = std::fs::read_to_string(&args[i + 1]).unwrap_or_else(|e| {
                    eprintln!("cannot read {}: {e}", args[i + 1]);
                    std::process::exit(2)
                });
                for l in s.lines() {
                    if let Some(v) = l.strip_prefix("property=") {
                        prop = v.into();
                    } else if let Some(v) = l.strip_prefix("case=") {
                        filter = Some(v.to_string());
                    } else if l == "tier=thorough" {
                        tier = Tier::Thorough;
                    }
                }
                i += 2;
            }
            "--case" => {
                filter = Some(args[i + 1].clone());
                i += 2;
            }
            "--list" => {
                for (n, _) in table() {
                    println!("{n}");
                }
                return;
            }
            "--json" => {
                // emit the ids as a JSON list
                let v: Vec<&str> = table().iter().map(|x| x.0).collect();
                println!("{}", serde_json::json!(v));
                return;
            }
            p => {
                prop = p.into();
                i += 1;
            }
        }
    }
    let Some((_, f)) = table().into_iter().find(|(n, _)| *n == prop) else {
        eprintln!("unknown property {prop:?}");
        std::process::exit(2);
    };
    if std::env::var("MC_CHILD").is_ok() {
        core::install_panic_hook();
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let env = Env::new(&prop, tier, seed, filter);
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&env))).is_err() {
            env.setup_failed();
        }
        std::process::exit(env.finish());
    }
    // Parent: the exploration runs in a child so that an abort (stack overflow, out of memory) of
    // the code under test is attributed to the case that causes it.
    let exe = std::env::current_exe().unwrap();
    let tiers = if tier == Tier::Thorough { "thorough" } else { "quick" };
    let scratch = std::env::temp_dir().join(format!("mc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut crashed: Vec<String> = vec![];
    let mut code = 2;
    for _round in 0..4 {
        let run = |case: Option<&str>, out: bool| {
            let mut c = Command::new(&exe);
            c.arg(&prop)
                .env("MC_CHILD", "1")
                .env("VERIF_TIER", tiers)
                .env("MC_CRUMBS", &scratch)
                .env("MC_CRASHED", crashed.join("\n"));
            if let Some(id) = case {
                c.arg("--case").arg(id);
            }
            if !out {
                c.stdout(std::process::Stdio::null());
                c.stderr(std::process::Stdio::null());
            }
            c.status().expect("run child").code()
        };
        let st = run(filter.as_deref(), true);
        if let Some(c @ (0 | 1)) = st {
            code = c;
            break;
        }
        // which case was in flight?
        let mut inflight: Vec<String> = vec![];
        for w in 0..core::WORKERS {
            if let Ok(s) = std::fs::read_to_string(scratch.join(w.to_string())) {
                if let Some(l) = s.lines().next() {
                    inflight.push(l.trim().to_string());
                }
            }
        }
        let mut found = vec![];
        for id in inflight {
            if id.is_empty() || crashed.contains(&id) {
                continue;
            }
            if !matches!(run(Some(&id), false), Some(0 | 1)) {
                found.push(id);
            }
        }
        if found.is_empty() {
            eprintln!("the explorer ended with {st:?} and no case reproduces it");
            code = 2;
            break;
        }
        crashed.extend(found);
    }
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}
