#![allow(dead_code)]
mod bsim;
mod csim;
mod conv;
mod gen;
mod hex;
mod net;
mod props;
mod refcodec;
mod runner;

use runner::*;
use std::path::PathBuf;

#[global_allocator]
static MEMORY: net::Counting = net::Counting;

fn find(id: &str) -> Option<Property> {
    props::all().into_iter().map(|f| f()).find(|p| p.id == id)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    raise_files();
    let code = match arg(0) {
        "list" => {
            for f in props::all() {
                let p = f();
                println!("{}: {}", p.id, p.subs.iter().map(|s| s.name()).collect::<Vec<_>>().join(" "));
            }
            0
        }
        // run ID [SUB]
        "run" => match find(arg(1)) {
            Some(p) => supervise(&p, &args[2..]),
            None => {
                eprintln!("no property {}", arg(1));
                2
            }
        },
        // work ID SLOTS [SUB]
        "work" => {
            limit_memory();
            install_panic_hook();
            match find(arg(1)) {
                Some(p) => work(&p, &PathBuf::from(arg(2)), args.get(3).map(|s| s.as_str())),
                None => 2,
            }
        }
        // one ID SUB INDEX
        "one" => {
            limit_memory();
            install_panic_hook();
            let Some(p) = find(arg(1)) else { std::process::exit(2) };
            let index: u64 = arg(3).parse().unwrap_or(0);
            let mut code = 2;
            for s in &p.subs {
                if s.name() == arg(2) {
                    let case = s.case(env_seed(), index, env_thorough());
                    if std::env::var_os("VX_CASE").is_some() {
                        println!("{case}");
                    }
                    code = show(s.exec(&case, true));
                }
            }
            code
        }
        // replay FILE
        "replay" => {
            limit_memory();
            install_panic_hook();
            let text = std::fs::read_to_string(arg(1)).unwrap_or_default();
            let j: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
            let Some(p) = j["property"].as_str().and_then(find) else {
                eprintln!("no replay file {}", arg(1));
                std::process::exit(2)
            };
            let mut code = 2;
            for s in &p.subs {
                if Some(s.name()) == j["check"].as_str() {
                    code = show(s.exec(&j["case"], true));
                    if code == 1 {
                        println!("VIOLATION property={} replay={}", p.id, arg(1));
                    }
                }
            }
            code
        }
        _ => {
            eprintln!("usage: vx list | run ID [CHECK] | one ID CHECK INDEX | replay FILE");
            2
        }
    };
    std::process::exit(code)
}

fn show((r, o): (Res, Obs)) -> i32 {
    for l in &o.trace {
        println!("  {l}");
    }
    println!("{:?}", o.labels);
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(Fail::Harness(m)) => {
            println!("no verdict: {m}");
            2
        }
        Err(f) => {
            println!("fails: {}", f.msg());
            1
        }
    }
}
