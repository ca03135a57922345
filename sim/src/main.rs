#![allow(invalid_runtime_symbol_definitions, static_mut_refs, dead_code)]
//! Deterministic simulation of rtForth with fault injection.
mod alloc;
mod checks;
mod console;
mod session;
mod noalloc;
mod cohost;
mod torn;
mod wild;
mod outs;
mod errs;
mod files;
mod frame;
mod hosts;
mod incl;
mod interpose;
mod rng;
mod shrink;
mod sim;
mod sources;
mod simfs;
mod supervise;
mod mt;
mod names;
mod prog;
mod term;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    frame::install_hook();
    // The console keeps its history in the simulated home directory.
    std::env::set_var("HOME", "/simhome");
    std::env::set_var("XDG_CACHE_HOME", "/simhome/.cache");
    let a: Vec<String> = std::env::args().collect();
    let defs = checks::all();
    let find = |id: &str| defs.iter().find(|d| d.id == id).unwrap_or_else(|| panic!("no check {}", id));
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let mut thorough = tier == "thorough";
            let mut runs = None;
            let mut base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut i = 3;
            while i < a.len() {
                match a[i].as_str() {
                    "--tier" => {
                        thorough = a[i + 1] == "thorough";
                        i += 1
                    }
                    "--runs" => {
                        runs = Some(a[i + 1].parse().unwrap());
                        i += 1
                    }
                    "--seed" => {
                        base = a[i + 1].parse().unwrap();
                        i += 1
                    }
                    x => panic!("unknown option {}", x),
                }
                i += 1;
            }
            supervise::check(find(&a[2]), thorough, base, runs)
        }
        "worker" => {
            let p = |i: usize| a[i].parse::<u64>().unwrap();
            supervise::worker(find(&a[2]), p(3), p(4), p(5), p(6), a[7] == "1");
            0
        }
        "exec" => {
            supervise::exec_server(find(&a[2]));
            0
        }
        "replay" => supervise::replay(&a[2], &defs),
        // Run the plan of a replay file in this process.
        "run" => {
            frame::install_signals();
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let o = (find(v["property"].as_str().unwrap()).run)(&v["plan"]);
            println!("{}", serde_json::to_string_pretty(&o).unwrap());
            0
        }
        "plan" => {
            let base: u64 = a[3].parse().unwrap();
            let i: u64 = a[4].parse().unwrap();
            println!("{}", serde_json::to_string_pretty(&(find(&a[2]).gen)(frame::seed_of(base, i), false)).unwrap());
            0
        }
        "one" => {
            // Run one seed in this process and print the outcome.
            let base: u64 = a[3].parse().unwrap();
            let i: u64 = a[4].parse().unwrap();
            let d = find(&a[2]);
            let plan = (d.gen)(frame::seed_of(base, i), false);
            let o = (d.run)(&plan);
            println!("{}", serde_json::to_string_pretty(&o).unwrap());
            0
        }
        // Interpret lines from standard input in a simulated host.
        "script" => {
            use std::io::BufRead;
            frame::install_signals();
            frame::arm_hang_timer();
            sim::reset_sim();
            term::reset();
            sim::sim().past = std::env::var("RTSIM_PAST").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
            let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
            fn go<H: hosts::Host>(lines: &[String]) {
                hosts::new_ctx(&[]);
                let mut vm = H::make();
                hosts::add_words(&mut *vm);
                for l in lines {
                    if let Some((n, t)) = l.strip_prefix("%file ").and_then(|x| x.split_once(' ')) {
                        sim::sim().fs.put(n, t.replace("\\n", "\n").as_bytes());
                        continue;
                    }
                    if l == "%recover" {
                        hosts::recover(&mut *vm);
                        continue;
                    }
                    let e = hosts::line(&mut *vm, l);
                    let (d, f, r, c) = (hosts::data(&mut *vm), hosts::floats(&mut *vm), vm.r_stack().len, vm.c_stack().len);
                    let k = vm.state().is_compiling; println!("{:?}: error {:?} S {:?} F {:?} R {} C {} compiling {} out {:?}", l, e, d, f, r, c, k, vm.output_buffer());
                }
                println!("stdout {:?}", String::from_utf8_lossy(&sim::sim().stdout));
            }
            use rtforth::core::Core;
            match a.get(2).map(|s| s.as_str()) {
                Some("1") => go::<hosts::ExVm>(&lines),
                Some("2") => go::<hosts::Rtf>(&lines),
                _ => go::<hosts::Mock>(&lines),
            }
            0
        }
        "list" => {
            for d in &defs {
                println!("{}", d.id);
            }
            0
        }
        // Trace hashes of many seeds: compare the output of two processes.
        "traces" => {
            let d = find(&a[2]);
            let n: u64 = a[3].parse().unwrap();
            for i in 0..n {
                let plan = (d.gen)(frame::seed_of(7, i), false);
                let o = (d.run)(&plan);
                println!("{} {:x} {:x}", i, o.trace, o.sched);
            }
            0
        }
        _ => {
            eprintln!("usage: rtsim check ID [--tier quick|thorough] [--runs N] [--seed S] | replay FILE | traces ID N | plan ID BASE I | one ID BASE I | list");
            2
        }
    };
    std::process::exit(code);
}
