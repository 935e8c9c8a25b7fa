//! `check <property> [--replay <file>]`, `check C18|C19 --runs <list of recorded runs>`
use mlxmon::ctx::install_hook;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let Some(id) = args.get(1) else {
        eprintln!("usage: check <property> [--replay <file>]");
        std::process::exit(2);
    };
    if args.get(2).map(String::as_str) == Some("--runs") {
        let code = mlxmon::props::run_recorded(id, args.get(3).map_or("", |s| s));
        std::process::exit(code.unwrap_or(2));
    }
    let replay = match (args.get(2).map(String::as_str), args.get(3)) {
        (None, _) => None,
        (Some("--replay"), Some(path)) => match std::fs::read_to_string(path) {
            Ok(t) => {
                let get = |k: &str| {
                    t.lines()
                        .find_map(|l| l.strip_prefix(k))
                        .map(|v| v.trim().to_string())
                        .unwrap_or_default()
                };
                Some((
                    get("phase="),
                    get("case=").parse().unwrap_or(0),
                    get("seed=").parse().unwrap_or(1),
                ))
            }
            Err(e) => {
                eprintln!("{path}: {e}");
                std::process::exit(2);
            }
        },
        _ => {
            eprintln!("usage: check <property> [--replay <file>]");
            std::process::exit(2);
        }
    };
    install_hook();
    match mlxmon::props::run(id, replay) {
        Some(code) => std::process::exit(code),
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
