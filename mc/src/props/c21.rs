//! C21: answers do not depend on the seed of the hash tables nor on the order in which condition
//! names are given — the spaces in which anything is looked up in a table, under many seeds.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        gen,
        explore,
        oracle: spec_oracle,
        bounds: |t| json!({"cases": "the complete quick spaces of C04, C05, C07, C08, C10, C11 and C24, the two 20-40 question sweeps of each tree and option set of C14",
            "seeds_per_case": format!("{:?}", SPACES.iter().map(|(n, ..)| format!("{n}: {}", seeds(t, n).count())).collect::<Vec<_>>()),
            "condition_names": "as listed and reversed",
            "orders": orders()}),
        rests_on: &[FS_MODEL, ORACLE, "std's hash tables draw their keys once per thread from the (interposed) system randomness"],
    }
}

type Gen = fn(Tier, &mut dyn FnMut(Case));
const SPACES: &[(&str, fn() -> Gen, u64)] = &[
    ("C04", || super::c04::prop().gen, 3),
    ("C05", || super::c05::prop().gen, 6),
    ("C07", || super::c07::prop().gen, 2),
    ("C08", || super::c08::prop().gen, 6),
    ("C10", || super::c10::prop().gen, 12),
    ("C11", || super::c11::prop().gen, 3),
    ("C24", || super::c24::prop().gen, 2),
    ("C14", || super::c14::sweeps, 24),
];

fn seeds(t: Tier, name: &str) -> std::ops::Range<u64> {
    let n = SPACES.iter().find(|s| s.0 == name).unwrap().2;
    2..2 + n * if t == Tier::Quick { 1 } else { 8 }
}

/// How many of the orders of three and four keys the seeds of C10 reach (measured).
fn orders() -> serde_json::Value {
    let mut v = vec![];
    for n in [2usize, 3, 4] {
        let mut seen = std::collections::BTreeSet::new();
        for s in seeds(Tier::Quick, "C10") {
            crate::interpose::HASH_SEED.store(s, std::sync::atomic::Ordering::SeqCst);
            let o: Vec<String> = std::thread::spawn(move || {
                ["@x/*", "x", "*", "x/*"][..n].iter().map(|k| k.to_string()).collect::<std::collections::HashSet<_>>().into_iter().collect()
            })
            .join()
            .unwrap();
            seen.insert(o);
        }
        crate::interpose::HASH_SEED.store(1, std::sync::atomic::Ordering::SeqCst);
        v.push(json!({"keys": n, "orders_reached": seen.len()}));
    }
    json!(v)
}

fn explore(c: &Case, r: &mut Runner) {
    let name = c.note.split(' ').next().unwrap().to_string();
    let mut c = c.clone();
    for s in seeds(r.tier, &name) {
        c.seed = s;
        r.run(&c);
        if s % 2 == 0 {
            for o in &mut c.opts {
                o.conds.reverse();
            }
        }
    }
}

fn gen(_: Tier, emit: &mut dyn FnMut(Case)) {
    for (name, g, _) in SPACES {
        g()(Tier::Quick, &mut |mut c| {
            c.note = format!("{name} {}", c.note);
            emit(c);
        });
    }
}
