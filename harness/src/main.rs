mod ctx;
mod dk;
mod gen;
mod oracle;
mod orc;
mod p_canon;
mod p_hash;
mod p_header;
mod p_names;
mod p_qp;
mod p_sign;
mod p_tags;
mod p_total;
mod p_verify;

use ctx::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let num = |n: &str, d: u64| get(n).and_then(|s| s.parse().ok()).unwrap_or(d);
    let cur = Arc::new(Mutex::new((Instant::now(), String::new())));
    let mut c = Ctx {
        prop: prop.clone(),
        seed: num("--seed", 1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        only: get("--only").and_then(|s| s.parse().ok()),
        shard: num("--shard", 0),
        shards: num("--shards", 1),
        deadline: Instant::now() + Duration::from_secs(num("--secs", 20)),
        case_no: 0,
        evaluated: 0,
        nontrivial: Default::default(),
        samples: vec![],
        failures: vec![],
        fail_count: 0,
        per_contract: Default::default(),
        exhaustive: vec![],
        current: cur.clone(),
    };
    if c.only.is_some() {
        c.deadline = Instant::now() + Duration::from_secs(3600);
    }
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
    }));
    watchdog(cur, Duration::from_secs(60));
    let rule = match &*prop {
        "C01" => p_canon::c01(&mut c),
        "C02" => p_header::c02(&mut c),
        "C03" => p_header::c03(&mut c),
        "C04" => p_hash::c04(&mut c),
        "C05" => p_sign::c05(&mut c),
        "C14" => p_sign::c14(&mut c),
        "C18" => p_sign::c18(&mut c),
        "C19" => p_verify::c19(&mut c),
        "C20" => p_total::c20(&mut c),
        "C06" => p_verify::c06(&mut c),
        "C07" => p_verify::c07(&mut c),
        "C08" => p_verify::c08(&mut c),
        "C09" => p_verify::c09(&mut c),
        "C17" => p_verify::c17(&mut c),
        "C10" => p_tags::c10(&mut c),
        "C11" => p_tags::c11(&mut c),
        "C12" => p_tags::c12(&mut c),
        "C13" => p_qp::c13(&mut c),
        "C16" => p_names::c16(&mut c),
        "C15" => p_header::c15(&mut c),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    };
    let r = report(&c, rule);
    if let Some(p) = get("--out") {
        std::fs::write(p, &r).unwrap();
    } else {
        println!("{r}");
    }
    std::process::exit(if c.failures.is_empty() { 0 } else { 1 });
}
