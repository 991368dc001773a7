#![allow(dead_code)]
mod checks;
mod cov;
mod damage;
mod extract;
mod r#gen;
mod hostile;
mod pp;
mod run;
mod tape;
mod v;
mod wire;
use std::path::PathBuf;

fn root() -> PathBuf {
    if let Ok(r) = std::env::var("VH_ROOT") {
        return r.into();
    }
    let mut p = std::env::current_exe().expect("own path");
    for _ in 0..4 {
        p.pop();
    }
    p
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    // scratch files and helpers are found through this
    unsafe { std::env::set_var("VH_ROOT", root()) };
    if (get(0) == "check" && get(1) == "C27") || (get(0) == "replay" && get(1).contains("C27")) {
        if let Err(e) = checks::fs::build_cli(&root()) {
            eprintln!("the command-line tool does not build: {e}");
            std::process::exit(2);
        }
    }
    let code = match get(0) {
        "check" => {
            let id = get(1);
            let tier = if get(2).is_empty() { std::env::var("VERIF_TIER").unwrap_or("quick".into()) } else { get(2).into() };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let only_part = std::env::var("VH_PART").ok();
            let o = run::Opts { root: root(), seed, tier, scale, only_part };
            match checks::all().into_iter().find(|c| c.id == id) {
                Some(c) => run::check(&c, &o),
                None => {
                    eprintln!("no check for {id:?}");
                    2
                }
            }
        }
        "replay" => run::replay(&checks::all(), &PathBuf::from(get(1))),
        "list" => {
            checks::all().iter().for_each(|c| println!("{}", c.id));
            0
        }
        x => checks::helper(x, &a),
    };
    std::process::exit(code);
}
