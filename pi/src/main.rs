//! Checks of the Raspberry Pi support, which runs on a simulated board.

#[allow(dead_code)]
#[path = "../../harness/src/engine.rs"]
mod engine;
mod regress;
mod pi_props;

use engine::*;
use std::path::PathBuf;

fn parse_choices(s: &str) -> Option<Vec<u64>> {
    let at = s.find("\"choices\": [")? + "\"choices\": [".len();
    let end = s[at..].find(']')? + at;
    Some(s[at..end].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect())
}

fn parse_number(s: &str, key: &str) -> Option<u64> {
    let key = format!("\"{}\": ", key);
    let at = s.find(&key)? + key.len();
    s[at..].split([',', '}']).next()?.trim().parse().ok()
}

fn parse_id(s: &str) -> Option<String> {
    let at = s.find("\"property\": \"")? + "\"property\": \"".len();
    let end = s[at..].find('"')? + at;
    Some(s[at..end].to_owned())
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".to_owned()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let props = pi_props::props();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".to_owned());
            let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
            match find(&args[2]) {
                None => {
                    eprintln!("harness error: unknown property {}", args[2]);
                    2
                }
                Some(p) => {
                    let cfg = Config { seed, tier, verif, cases };
                    check(p, &cfg, &|| regress::regressions(p.id))
                }
            }
        }
        Some("replay") => {
            let body = std::fs::read_to_string(&args[2]).expect("cannot read replay file");
            let id = parse_id(&body).expect("no property");
            if let Some(i) = body.find("\"regression\": \"") {
                let name = body[i + 15..].split('"').next().unwrap().to_owned();
                let r = regress::regressions(&id).into_iter().find(|r| r.name == name).unwrap();
                let res = guarded(|| (r.run)());
                println!("{:?}", res);
                std::process::exit(if matches!(res, Ok(Ok(()))) { 0 } else { 1 });
            }
            let p = find(&id).expect("unknown property");
            let src = match parse_choices(&body) {
                Some(c) => Src::replaying(c),
                None => {
                    let n = |k: &str| parse_number(&body, k).expect("no choices nor case");
                    Src::random(case_seed(p.id, n("seed"), n("case")))
                }
            };
            replay(p, src, &args[2])
        }
        Some("show") => {
            show_case(find(&args[2]).expect("unknown property"), seed, args[3].parse().unwrap());
            0
        }
        Some("list") => {
            props.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            eprintln!("usage: vppi check ID | replay FILE | show ID CASE | list");
            2
        }
    };
    std::process::exit(code);
}
