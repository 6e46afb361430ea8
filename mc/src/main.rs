// `open` and `syscall` are variadic in C; on x86-64 a fixed-arity definition has the same ABI.
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, dead_code, private_interfaces)]
mod case;
mod deco;
mod engine;
mod exec;
mod interpose;
mod props;
mod sched;
mod spec;
mod vfs;

use engine::Tier;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

fn main() {
    engine::init();
    let a: Vec<String> = std::env::args().collect();
    let tier = |i: usize| match a.get(i).map(String::as_str) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let code = match a.get(1).map(String::as_str) {
        Some("check") => engine::check(&a[2], tier(3)),
        Some("replay") => engine::replay(&a[2]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("count") => {
            for p in props::all() {
                let (mut n, mut ops) = (0u64, 0u64);
                let t = std::time::Instant::now();
                (p.gen)(tier(2), &mut |c| {
                    n += 1;
                    ops += c.ops.len() as u64;
                });
                println!("{} {n} cases {ops} ops {:.2} s", p.id, t.elapsed().as_secs_f64());
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> quick|thorough | replay <file> | list | count");
            2
        }
    };
    std::process::exit(code);
}
