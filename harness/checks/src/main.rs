#![allow(clippy::all)]
mod conc;
mod conform;
mod engine;
mod growth;
mod http;
mod lang;
mod model;
mod scale;
mod seq;
mod servers;
mod sweep;
mod why;
mod world;
use engine::*;

#[global_allocator]
static ALLOCATOR: sweep::Counting = sweep::Counting;

fn lanes(prop: &str, tier: &str) -> Option<Vec<Lane>> {
    let q = tier != "thorough";
    Some(match prop {
        "C01" => seq::c01(q).into_iter().chain(scale::c01(q)).collect(),
        "C02" => seq::c02(q).into_iter().chain(scale::c02(q)).collect(),
        "C03" => seq::c03(q).into_iter().chain(scale::c03(q)).collect(),
        "C04" => seq::c04(q).into_iter().chain(scale::c04(q)).collect(),
        "C05" => seq::c05(q).into_iter().chain(scale::c05(q)).collect(),
        "C06" => seq::c06(q).into_iter().chain(scale::c06(q)).collect(),
        "C07" => seq::c07(q).into_iter().chain(scale::c07(q)).collect(),
        "C08" => seq::c08(q).into_iter().chain(scale::c08(q)).collect(),
        "C09" => lang::c09(q),
        "C10" => lang::c10(q).into_iter().chain([servers::c10_servers()]).collect(),
        "C11" => lang::c11(q).into_iter().chain([servers::c11_servers()]).collect(),
        "C12" => http::c12(q).into_iter().chain([servers::c12_servers(q), servers::ordinary(q)]).collect(),
        "C13" => http::c13(q).into_iter().chain(servers::c13_servers()).collect(),
        "C14" => http::c14(q).into_iter().chain([servers::c14_servers(), servers::ordinary(q), servers::bulky_servers()]).collect(),
        "C15" => http::c15(q).into_iter().chain([servers::c15_servers(), servers::bulky_servers()]).collect(),
        "C16" => servers::c16(q),
        "C17" => servers::c17(q).into_iter().chain(conc::async_endings(q)).collect(),
        "C18" => servers::c18(q),
        "C19" => conc::c19(q),
        "C20" => conc::c20(q),
        "C21" => conc::c21(q),
        "C22" => servers::c22(q),
        "C23" => sweep::c23(q),
        "C24" => why::c24(q),
        "C25" => lang::c25(q),
        "C26" => growth::c26(q),
        _ => return None,
    })
}

/// What a verdict rests on.
fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec![
        "std::{thread, sync, time, net, process}, tokio and rand are replaced by models (harness/vstd, shim-tokio, shim-rand); everything else is the code of /repo as it is, bin/conform.py compares the models with the real binaries",
        "values, keys and texts outside the stated alphabets and longer histories are not covered",
    ];
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C26" => v.push("the clock never goes backwards; lifetimes above 136 years (2^32 s) may be refused or accepted"),
        "C09" | "C10" | "C11" | "C25" => v.push("the words lt, none, vec and map may be refused or read as keys (their statements cannot be written)"),
        _ => v.extend([
            "sequentially consistent memory; threads are preempted only at synchronisation, clock, network and random operations",
            "sockets: reads and writes of any size, resets, half-closes and accept errors; no loss of bytes already acknowledged, no EINTR, no limits on descriptors or threads",
            "tokio: tasks are scheduled in any order at their suspension points; select! starts with any of its branches",
        ]),
    }
    v.into_iter().map(String::from).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "--replay" {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
        let prop = j["property"].as_str().unwrap();
        let lane = lanes(prop, j["tier"].as_str().unwrap_or("quick")).unwrap().into_iter().find(|l| l.name == j["lane"].as_str().unwrap()).expect("lane");
        let choices: Vec<u16> = serde_json::from_value(j["choices"].clone()).unwrap();
        let acc = Check::replay(&lane, &choices);
        for v in &acc.violations {
            println!("VIOLATION property={} {}: {}", prop, v.key, v.detail);
        }
        std::process::exit(if acc.violations.is_empty() { 0 } else { 1 });
    }
    if args.len() >= 3 && args[1] == "--conform" {
        std::process::exit(conform::main(&args[2]));
    }
    let prop = args.get(1).map(|x| x.as_str()).unwrap_or("");
    let tier = args.get(2).map(|x| x.as_str()).unwrap_or("quick");
    let Some(ls) = lanes(prop, tier) else {
        eprintln!("usage: checks <property> quick|thorough, or checks --replay <file>");
        std::process::exit(3);
    };
    let secs = std::env::var("VERIF_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 2400 } else { 300 });
    let mut check = Check::new(prop, tier, secs);
    check.assumptions = assumptions(prop);
    std::process::exit(check.run(ls));
}
