#![allow(dead_code)]
#[macro_use]
mod core;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c23;
mod c21;
mod c22;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod srv;
mod alloc;
mod net;
mod crypto;
mod exec;
mod gen;
mod heads;
mod hs;
mod recv;
mod send;
mod stream;
mod wire;

use crate::core::*;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

use std::os::unix::process::ExitStatusExt;

fn run_prop(x: &Ctx) -> bool {
    match x.prop.as_str() {
        "C01" => c01::run(x),
        "C02" => c02::run(x),
        "C03" => c03::run(x),
        "C04" => c04::run(x),
        "C05" => c05::run(x),
        "C06" => c06::run(x),
        "C07" => c07::run(x),
        "C08" => c08::run(x),
        "C09" => c09::run(x),
        "C10" => c10::run(x),
        "C11" => c11::run(x),
        "C12" => c12::run(x),
        "C13" => c13::run(x),
        "C14" => c14::run(x),
        "C15" => c15::run(x),
        "C16" => c16::run(x),
        "C17" => c17::run(x),
        "C18" => c18::run(x),
        "C19" => c19::run(x),
        "C20" => c20::run(x),
        "C21" => c21::run(x),
        "C22" => c22::run(x),
        "C25" => c25::run(x),
        "C26" => c26::run(x),
        "C27" => c27::run(x),
        "C28" => c28::run(x),
        "C29" => c29::run(x),
        "C30" => c30::run(x),
        "C23" => c23::run(x),
        _ => return false,
    }
    true
}

fn child(prop: &str, tier: Tier, seed: u64, only: Option<(String, u64)>) -> i32 {
    crypto::selftest();
    install_panic_hook();
    start_watchdog(prop.to_string(), tier, seed);
    let x = Ctx::new(prop, tier, seed, only);
    if !run_prop(&x) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    x.finish()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "replay" {
        let txt = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| {
            txt.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string())).unwrap_or_default()
        };
        let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
        let seed = get("seed").parse().unwrap_or(1);
        std::process::exit(child(&get("property"), tier, seed, Some((get("section"), get("index").parse().unwrap_or(0)))));
    }
    if args.len() >= 2 && args[1] == "c03-keys" {
        c03::print_keys();
        return;
    }
    if args.len() < 3 {
        eprintln!("usage: wsmon PROP quick|thorough");
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if std::env::var("WSMON_CHILD").is_ok() {
        if let Ok(j) = std::env::var("WSMON_JOURNAL") {
            open_journal(&j);
        }
        if std::env::var("WSMON_NOLIMIT").is_err() {
            let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
            unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
        }
        let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe { libc::setrlimit(libc::RLIMIT_CORE, &nocore) };
        std::process::exit(child(&prop, tier, seed, None));
    }
    // supervisor
    let jpath = format!("{}/wsmon-journal-{}-{}", std::env::temp_dir().display(), prop, std::process::id());
    let st = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(&args[1..])
        .env("WSMON_CHILD", "1")
        .env("WSMON_JOURNAL", &jpath)
        .status();
    let journal = std::fs::read_to_string(&jpath).unwrap_or_default();
    let _ = std::fs::remove_file(&jpath);
    match st {
        Err(e) => {
            eprintln!("cannot run child: {}", e);
            std::process::exit(2)
        }
        Ok(s) => {
            if let Some(c) = s.code() {
                std::process::exit(c);
            }
            let sig = s.signal().unwrap_or(0);
            let crash = [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE];
            if crash.contains(&sig) {
                let cases: Vec<&str> = journal.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
                let first = cases.first().cloned().unwrap_or("?|0");
                let mut it = first.split('|');
                let section = it.next().unwrap_or("?").to_string();
                let idx = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                let w = format!("the process died with signal {} while running one of: {:?}", sig, cases);
                let p = write_replay(&prop, tier, seed, &section, idx, &w);
                println!("{}", w);
                println!("VIOLATION property={} replay={}", prop, p);
                std::process::exit(1);
            }
            eprintln!("INCONCLUSIVE property={}: child ended by signal {}", prop, sig);
            std::process::exit(2);
        }
    }
}
