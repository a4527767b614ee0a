#![allow(clippy::type_complexity, dead_code)]
mod checks;
mod det;
mod exec;
mod explore;
mod hist;
mod mgraph;
mod net;
mod report;
mod world;
mod exp;

use report::{Report, Tier};
use std::os::unix::process::ExitStatusExt;

fn usage() -> ! {
    eprintln!("usage: mc check <ID> quick|thorough | mc replay <file> | mc list");
    std::process::exit(2)
}

fn tier(s: Option<&String>) -> Tier {
    match s.map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        Some("quick") | None => Tier::Quick,
        _ => usage(),
    }
}

/// Runs one check in a child process, so that an abort of the code under test
/// (stack overflow, `abort`) is a verdict and not the end of the checker.
fn supervise(id: &str, t: Tier, only_key: Option<&str>) -> i32 {
    let exe = std::env::current_exe().expect("current_exe");
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("worker").arg(id).arg(t.pick("quick", "thorough"));
    if let Some(k) = only_key {
        cmd.env("MC_ONLY_KEY", k);
    }
    let status = cmd.status().expect("spawn worker");
    match (status.code(), status.signal()) {
        (Some(c), _) => c,
        // SIGABRT, SIGBUS, SIGSEGV, SIGILL: the code under test brought the process down
        (None, Some(s)) if [4, 6, 7, 11].contains(&s) => {
            let path = report::emergency(id, t, &format!("process-died-signal-{s}"), "the process running the code under test died (stack overflow or abort)");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        (None, s) => {
            eprintln!("worker ended by signal {s:?}");
            3
        }
    }
}

fn worker(id: &str, t: Tier) -> i32 {
    det::install_panic_hook();
    let Some(f) = checks::find(id) else { usage() };
    let idw = id.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        if let Some(l) = det::stuck(std::time::Duration::from_secs(150)) {
            let path = report::emergency(&idw, t, &format!("no-termination:{l}"), "one execution of the code under test did not terminate in 150 s");
            println!("VIOLATION property={idw} replay={path}");
            std::process::exit(1);
        }
    });
    let mut r = Report::new(id, t);
    f(&mut r);
    r.finish()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => supervise(args.get(2).unwrap_or_else(|| usage()), tier(args.get(3)), None),
        Some("worker") => worker(args.get(2).unwrap_or_else(|| usage()), tier(args.get(3))),
        Some("replay") => {
            let text = std::fs::read_to_string(args.get(2).unwrap_or_else(|| usage())).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            let t = tier(v["tier"].as_str().map(String::from).as_ref());
            supervise(v["property"].as_str().expect("property"), t, v["key"].as_str())
        }
        Some("list") => {
            for id in checks::ids() {
                println!("{id}");
            }
            0
        }
        Some("exp") => {
            det::install_panic_hook();
            exp::main();
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
