#[macro_use]
mod util;
mod wire;
mod chain;
mod data;
mod net;
mod node;
mod reactor;
mod small;
mod store;

fn main() {
    util::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let r = util::guard(|| match args.get(1).map(|s| s.as_str()) {
        Some("chain") => chain::main(&args),
        Some("clock") => small::clock(&args),
        Some("timers") => small::timers(&args),
        Some("bus") => small::bus(&args),
        Some("fcache") => small::fcache(&args),
        Some("fees") => small::fees(&args),
        Some("peers") => small::peers(&args),
        Some("stream") => small::stream(&args),
        Some("data") => data::main(&args),
        Some("net") => net::main(&args),
        Some("reactor") => reactor::main(&args),
        Some("wire") => wire::main(&args),
        Some("store") => store::main(&args),
        _ => panic!("usage: harness <driver> --seed N --runs N --out FILE"),
    });
    if let Err(e) = r {
        eprintln!("panic: {}", e);
        // A panic inside the code under test is a result; anything else is a harness error.
        std::process::exit(if e.contains("/repo/") { 101 } else { 3 });
    }
}
