#![allow(dead_code)]

mod alloc;
mod engine;
mod model;
mod api;
mod trees;
mod names;
mod values;
mod corpus;
mod iters;
mod text;
mod refparse;
mod opts;
mod parse;
mod css;
mod refs;
mod vals;
mod write;
mod ser;
mod tables;
mod docs;
mod show;
mod nodes;

use engine::{Suite, Tier};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Formats every record (so that log arguments are evaluated) and drops it.
struct EatLogger;
impl log::Log for EatLogger {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        struct Null;
        impl Write for Null { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
        let _ = write!(Null, "{}", r.args());
    }
    fn flush(&self) {}
}
static LOGGER: EatLogger = EatLogger;

/// Properties whose second set of bounds is fast enough for the quick tier.
const FAST: [&str; 10] = ["C07", "C09", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C20"];

fn suites(prop: &str, tier: Tier) -> Vec<Suite> {
    let tier = if FAST.contains(&prop) { tier.pick(Tier::Thorough, Tier::Deep) } else { tier };
    match prop {
        "C01" => api::c01(tier),
        "C02" => iters::c02(tier),
        "C03" => api::c03(tier),
        "C04" => api::c04(tier),
        "C05" => api::c05(tier),
        "C06" => api::c06(tier),
        "C07" => api::c07(tier),
        "C08" => parse::c08(tier),
        "C09" => parse::c09(tier),
        "C10" => css::c10(tier),
        "C11" => refs::c11(tier),
        "C17" => vals::c17(tier),
        "C15" => tables::c15(tier),
        "C16" => tables::c16(tier),
        "C18" => show::c18(tier),
        "C19" => docs::c19(tier),
        "C20" => nodes::c20(tier),
        "C14" => ser::c14(tier),
        "C13" => write::c13(tier),
        "C12" => text::c12(tier),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(2) }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str());
    let tier = if arg(3) == "thorough" { Tier::Thorough } else { Tier::Quick };
    engine::install_panic_hook();
    if opt("--log") == Some("on") {
        let _ = log::set_logger(&LOGGER);
        log::set_max_level(log::LevelFilter::Trace);
    }
    match arg(1) {
        "run" => {
            let list = suites(arg(2), tier);
            let threads = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
            let hang = opt("--hang").and_then(|s| s.parse().ok()).unwrap_or(60);
            let only = opt("--suite");
            let list: Vec<Suite> = list.into_iter().filter(|s| only.map_or(true, |o| o == s.name)).collect();
            let out = arg(4).to_string();
            let known = opt("--known").map(|p| engine::load_known(p, arg(2))).unwrap_or_default();
            let f = engine::run_suites(&list, threads, opt("--trace"), hang, &known, |r, k, f| {
                let mut k: Vec<usize> = k.to_vec();
                k.sort();
                k.dedup();
                let k: Vec<&engine::Known> = k.into_iter().map(|i| &known[i]).collect();
                engine::write_report(&out, r, &k, f)
            });
            std::process::exit(if f.is_some() { 1 } else { 0 });
        }
        "one" => {
            let list = suites(arg(2), tier);
            let idx: u64 = arg(5).parse().unwrap();
            let s = list.iter().find(|s| s.name == arg(4)).unwrap_or_else(|| { eprintln!("no such suite"); std::process::exit(2) });
            println!("case: {}", (s.describe)(idx));
            // in a thread with the same stack size as in a full run
            let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(16 << 20)
                .spawn_scoped(sc, || { let mut c = engine::Ctx::new(); engine::run_case(s, idx, &mut c) }).unwrap().join().unwrap());
            match r {
                Ok(()) => println!("ok"),
                Err(e) => { println!("wrong: {}", e); std::process::exit(1); }
            }
        }
        "list" => {
            for s in suites(arg(2), tier) { println!("{} {} {}", s.name, s.count, s.about); }
        }
        _ => { eprintln!("usage: mc run|one|list <property> <tier> ..."); std::process::exit(2); }
    }
}
