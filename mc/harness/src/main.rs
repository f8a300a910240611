mod engine;
mod conform;
mod net;
mod props;

use engine::worker_main;

#[global_allocator]
static HEAP: mcstd::heapcount::Counting = mcstd::heapcount::Counting;

fn arg(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) }

fn main() {
    if let Ok(w) = std::env::var("MC_WORKER") {
        props::apps::logging(std::env::var("MC_LOG").as_deref() != Ok("0"));
        let v: Vec<&str> = w.splitn(3, ':').collect();
        worker_main(props::scenarios(v[0], v[1], v[2]));
    }
    if std::env::var_os("MC_APP").is_some() { props::apps::static_main() }
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(props::check(&args[2], &arg(&args, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into()), arg(&args, "--only"))),
        Some("replay") => std::process::exit(props::replay(&args[2])),
        Some("list") => for p in props::ids() { println!("{}", p) },
        _ => { eprintln!("usage: mc check ID [--tier quick|thorough] [--only scenario] | replay FILE | list"); std::process::exit(2) }
    }
}
