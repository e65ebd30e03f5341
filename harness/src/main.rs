mod cli_props;
mod pty_props;
mod client_props;
mod core_props;
mod call_props;
mod core_props2;
mod dev_props;
mod gfx_props;
mod engine;
mod r#gen;
mod help_props;
mod lcd_props;
mod lang;
mod limits_props;
mod regress;
mod sdl_props;
mod std_props;
mod std_props2;
mod std_sut;
mod store_props;
mod repl_props;
mod sut;
mod term;
mod ui_props;
mod ui_props2;

use engine::*;
use std::path::PathBuf;

fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(core_props::props());
    v.extend(core_props2::props());
    v.extend(call_props::props());
    v.extend(limits_props::props());
    v.extend(std_props::props());
    v.extend(std_props2::props());
    v.extend(store_props::props());
    v.extend(repl_props::props());
    v.extend(ui_props::props());
    v.extend(ui_props2::props());
    v.extend(gfx_props::props());
    v.extend(help_props::props());
    v.extend(lcd_props::props());
    v.extend(sdl_props::props());
    v.extend(dev_props::props());
    v.extend(client_props::props());
    v.extend(cli_props::props());
    v.extend(pty_props::props());
    v
}

fn parse_choices(s: &str) -> Option<Vec<u64>> {
    let at = s.find("\"choices\": [")? + "\"choices\": [".len();
    let end = s[at..].find(']')? + at;
    Some(s[at..end].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect())
}

fn parse_number(s: &str, key: &str) -> Option<u64> {
    let key = format!("\"{}\": ", key);
    let at = s.find(&key)? + key.len();
    s[at..].split([',', '}']).next()?.trim().parse().ok()
}

fn parse_id(s: &str) -> Option<String> {
    let at = s.find("\"property\": \"")? + "\"property\": \"".len();
    let end = s[at..].find('"')? + at;
    Some(s[at..end].to_owned())
}

fn main() {
    install_panic_hook();
    for v in ["http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"] {
        // SAFETY: There are no other threads yet.
        unsafe { std::env::remove_var(v) };
    }
    sdl_props::init();
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".to_owned()));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = &args[2];
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".to_owned());
            let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
            let props = all();
            match props.iter().find(|p| p.id == id) {
                None => {
                    eprintln!("harness error: unknown property {}", id);
                    2
                }
                Some(p) => {
                    let cfg = Config { seed, tier, verif, cases };
                    check(p, &cfg, &|| regress::regressions(p.id))
                }
            }
        }
        Some("replay") => {
            let body = std::fs::read_to_string(&args[2]).expect("cannot read replay file");
            let id = parse_id(&body).expect("no property");
            if let Some(i) = body.find("\"regression\": \"") {
                let name = body[i + 15..].split('"').next().unwrap().to_owned();
                let r = regress::regressions(&id).into_iter().find(|r| r.name == name).unwrap();
                let res = guarded(|| (r.run)());
                println!("{:?}", res);
                std::process::exit(if matches!(res, Ok(Ok(()))) { 0 } else { 1 });
            }
            let props = all();
            let p = props.iter().find(|p| p.id == id).expect("unknown property");
            let src = match parse_choices(&body) {
                Some(c) => Src::replaying(c),
                None => {
                    let n = |k: &str| parse_number(&body, k).expect("no choices nor case");
                    Src::random(case_seed(p.id, n("seed"), n("case")))
                }
            };
            replay(p, src, &args[2])
        }
        Some("show") => {
            let props = all();
            let p = props.iter().find(|p| p.id == args[2]).expect("unknown property");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            show_case(p, seed, args[3].parse().unwrap());
            0
        }
        Some("run") => {
            // Runs the chunks of a file (separated by "---" lines) for manual exploration.
            let body = std::fs::read_to_string(&args[2]).expect("cannot read file");
            let mut sut = sut::Sut::new();
            for chunk in body.split("---\n") {
                match sut.compile(chunk) {
                    Err(e) => println!("compile error: {}", e.text),
                    Ok(()) => {
                        if std::env::var("DIS").is_ok() {
                            sut.image.disasm().iter().for_each(|l| println!("{}", l));
                        }
                        let r = sut.run(1000);
                        for l in sut.take_out() {
                            println!("{}", l);
                        }
                        println!("=> {:?}", r);
                    }
                }
            }
            0
        }
        Some("list") => {
            for p in all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vp check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
