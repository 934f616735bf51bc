//! Monitors for static-xml. See /verif/DESIGN.md.
#![allow(dead_code)]

mod alloc;
mod interp;
mod model;
mod props;
mod report;
mod rng;
mod tracked;
mod types;
mod watchdog;
mod xml;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    if cfg!(miri) {
        run();
    } else {
        // Values nested very deeply need some stack, here more than in the code under test.
        std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
    }
}

fn run() {
    let mut prop = String::new();
    let (mut shard, mut shards, mut seed, mut cap) = (0u64, 1u64, 1u64, 120u64);
    let (mut thorough, mut only, mut out, mut case_file) = (false, None, None, None);
    let (mut write_corpus, mut replay, mut describe) = (None, None, None);
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--prop" => prop = v(),
            "--shard" => shard = v().parse().unwrap(),
            "--shards" => shards = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--tier" => thorough = v() == "thorough",
            "--cap" => cap = v().parse().unwrap(),
            "--case" => only = Some(v().parse().unwrap()),
            "--out" => out = Some(v()),
            "--case-file" => case_file = Some(std::fs::File::create(v()).unwrap()),
            "--write-corpus" => write_corpus = Some(v()),
            // Path, first case, step, seconds.
            "--replay" => replay = Some((v(), v().parse().unwrap(), v().parse().unwrap(), v().parse().unwrap())),
            "--describe" => describe = Some((v(), v().parse().unwrap())),
            _ => panic!("unknown argument {}", a),
        }
    }
    if let Some((path, n)) = describe {
        println!("{}", props::memory::describe(&path, n));
        return;
    }
    if let Some((path, from, step, seconds)) = replay {
        props::quiet_panics(false);
        props::memory::replay(&path, from, step, seconds);
        std::process::exit(0);
    }
    #[cfg(not(miri))]
    {
        alloc::set_limit(3 << 30);
        watchdog::spawn(if thorough { 120_000 } else { 40_000 });
    }
    props::quiet_panics(only.is_some());
    let mut ctx = report::Ctx::new(&prop, seed, shard, shards, thorough, only, cap, case_file);
    match &write_corpus {
        Some(p) => props::memory::c01(&mut ctx, Some(p)),
        None => props::run(&mut ctx),
    }
    watchdog::done();
    if let Some(o) = out {
        std::fs::write(format!("{}.distinct", o), ctx.distinct_bytes()).unwrap();
        std::fs::write(&o, ctx.to_json()).unwrap();
    } else {
        println!("{}", ctx.to_json());
    }
    std::process::exit(if ctx.violations.is_empty() { 0 } else { 1 });
}
