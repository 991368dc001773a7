mod coded;
mod dump;
mod faults;
pub mod fs;
mod pure;
pub mod content;
pub mod robust;
pub mod wire;
use crate::run::Check;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(coded::checks());
    v.extend(content::checks());
    v.extend(faults::checks());
    v.extend(fs::checks());
    v.extend(pure::checks());
    v.extend(robust::checks());
    v.extend(wire::checks());
    v
}
/// Internal subcommands run in processes of their own.
pub fn helper(cmd: &str, args: &[String]) -> i32 {
    match cmd {
        "dump" if args.len() == 5 => dump::dump(args),
        "toc" if args.len() >= 3 => dump::toc(args),
        "outcomes" if args.len() == 3 => pure::outcomes(args),
        _ => {
            eprintln!("unknown command {cmd:?}");
            2
        }
    }
}
