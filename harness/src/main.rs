mod checks_cli;
mod checks_code;
mod checks_shape;
mod code;
mod report;
mod rust;
mod ts;

pub use vlib::{cli, draw, exec, gen, json, model, raw, value, wire};
pub use vlib::glue;

use report::{Ctx, Tier};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = args.get(2).expect("property");
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                _ if args.get(3).map(String::as_str) == Some("thorough") => Tier::Thorough,
                _ if args.get(3).map(String::as_str) == Some("quick") => Tier::Quick,
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let mut ctx = Ctx::new(id, tier, seed);
            let known = match checks_cli::plan(&ctx, id) {
                Some(p) => {
                    checks_cli::run(&mut ctx, &p);
                    true
                }
                None => checks_shape::check(&mut ctx) || checks_code::check(&mut ctx),
            };
            if !known {
                eprintln!("no such check: {id}");
                std::process::exit(2);
            }
            std::process::exit(ctx.finish());
        }
        Some("replay") => {
            let text = std::fs::read_to_string(args.get(2).expect("file")).expect("file");
            let j = json::J::parse(&text).expect("JSON");
            let id = j.get("check").expect("check").s().to_owned();
            let ctx = Ctx::new(&id, Tier::Quick, seed);
            let case = j.get("case").expect("case");
            let mut code = 2;
            let mut say = |r: Option<Result<report::Info, report::Failure>>| match r {
                Some(Ok(_)) => {
                    println!("the case passes");
                    code = 0;
                }
                Some(Err(f)) => {
                    println!("{}: {}", f.sig, f.text);
                    code = 1;
                }
                None => println!("not a replayable case"),
            };
            match checks_cli::plan(&ctx, &id) {
                Some(p) => say(checks_cli::replay(&p, case)),
                None if matches!(id.as_str(), "C13" | "C14") => say(checks_shape::replay(&ctx, &id, case)),
                None => {
                    checks_code::with_plan(&ctx, &id, &mut |p| say(code::replay(p, case)));
                }
            }
            std::process::exit(code);
        }
        _ => {
            eprintln!("usage: vh check ID [quick|thorough] | vh replay FILE");
            std::process::exit(2);
        }
    }
}
