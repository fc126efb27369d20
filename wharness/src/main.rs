//! Drives the wallet: transactions and blocks applied to it, directly and through its main loop.
#[macro_use]
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;
mod handle;
mod wallet;

fn main() {
    util::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let r = util::guard(|| match args.get(1).map(|s| s.as_str()) {
        Some("wallet") => wallet::main(&args),
        _ => panic!("usage: wharness wallet --seed N --runs N --out FILE"),
    });
    if let Err(e) = r {
        eprintln!("panic: {}", e);
        std::process::exit(if e.contains("/repo/") { 101 } else { 3 });
    }
}
