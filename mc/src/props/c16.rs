//! C16: resolvers that share one cache do not influence each other — every interleaving of their
//! questions (and of changes on disk) over pools, for pairs and triples of differing options.
use super::*;
use super::c14::{options, tree, TREES};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"trees": TREES, "resolvers_per_cache": if t == Tier::Quick { "2" } else { "2..3" }, "option_sets": VARIANTS, "questions_per_tree": "16..22",
            "sequence_length": "every sequence of 2 (question, resolver) pairs, asked twice; and every sequence of 3 over a third of the pool",
            "edits": "one description file rewritten or removed between every two questions of a reduced pool"}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const VARIANTS: usize = 8;

fn variant(o: &mut Opts, k: usize) {
    match k {
        0..=4 => options(o, k),
        5 => o.desc = Some("other.json".into()),
        6 => o.desc = None,
        _ => {
            o.conds = strs(&[]);
            o.ext = strs(&[".json"]);
            o.main_files = strs(&[]);
            o.main_fields = strs(&[]);
        }
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    for tr in 0..TREES {
        for v0 in 0..VARIANTS {
            for v1 in v0..VARIANTS {
                let mut base = Case::default();
                base.cold = false;
                base.shared = true;
                base.opts = vec![Opts::default(), Opts::default()];
                variant(&mut base.opts[0], v0);
                variant(&mut base.opts[1], v1);
                let pool = tree(&mut base, tr);
                // the same directories also hold description files of another name
                for (i, d) in ["/w/node_modules/a", "/w", "/w/p/q", "/s/m", "/w/node_modules/e", "/w/node_modules/o", "/w/c"].iter().enumerate() {
                    if base.tree.iter().any(|(p, _)| p.starts_with(d)) {
                        base.file(
                            &format!("{d}/other.json"),
                            ["{\"main\":\"./i.js\",\"exports\":{\".\":\"./l/y.js\"}}", "{\"name\":\"self\",\"imports\":{\"#r\":\"./i.js\",\"#s\":\"./i.js\"}}", "{\"main\":\"./s\"}", "{\"main\":\"./j\",\"sideEffects\":false}"][i % 4],
                        );
                    }
                }
                let n = pool.len();
                let push = |c: &mut Case, r: usize, q: usize| c.ops.push(Op::Resolve(r, pool[q].0.into(), pool[q].1.into()));
                for a in 0..n {
                    for b in 0..n {
                        for (r0, r1) in [(0, 1), (1, 0)] {
                            let mut c = base.clone();
                            c.note = format!("tree={tr} variants={v0},{v1} {r0}:{a} {r1}:{b}");
                            push(&mut c, r0, a);
                            push(&mut c, r1, b);
                            push(&mut c, r1, a);
                            push(&mut c, r0, b);
                            c.ops.push(Op::Side(r0, pool[b].0.into()));
                            c.ops.push(Op::Side(r1, pool[a].0.into()));
                            c.ops.push(Op::Side(r0, pool[a].0.into()));
                            push(&mut c, r0, a);
                            emit(c);
                        }
                    }
                }
                if t == Tier::Thorough {
                    for a in 0..n {
                        for b in 0..n {
                            for d in (a + b) % 3..n {
                                if d % 3 != (a + b) % 3 {
                                    continue;
                                }
                                for m in 0..8usize {
                                    let mut c = base.clone();
                                    c.note = format!("tree={tr} variants={v0},{v1} {a},{b},{d} by {m:03b}");
                                    push(&mut c, m & 1, a);
                                    push(&mut c, m >> 1 & 1, b);
                                    push(&mut c, m >> 2, d);
                                    push(&mut c, 1 - (m & 1), a);
                                    emit(c);
                                }
                            }
                        }
                    }
                }
                // changes on disk seen through either resolver
                let files: Vec<String> = base.tree.iter().filter(|(p, _)| p.ends_with(".json")).map(|(p, _)| p.clone()).collect();
                for f in &files {
                    for a in 0..n {
                        for e in 0..3 {
                            if t == Tier::Quick && (a + e + v0 + v1) % 2 == 1 {
                                continue;
                            }
                            let mut c = base.clone();
                            c.note = format!("tree={tr} variants={v0},{v1} edit {e} of {f}, question {a}");
                            let edit = match e {
                                0 => Op::Write(f.clone(), "{\"main\":\"./i.js\",\"sideEffects\":true}".into()),
                                1 => Op::Remove(f.clone()),
                                _ => Op::Write(f.clone(), "{".into()),
                            };
                            push(&mut c, 0, a);
                            push(&mut c, 1, a);
                            c.ops.push(Op::Tick(2000));
                            c.ops.push(edit);
                            push(&mut c, 1, a);
                            push(&mut c, 0, a);
                            c.ops.push(Op::Tick(2000));
                            c.ops.push(Op::Write(f.clone(), "{\"name\":\"self\",\"exports\":\"./i.js\"}".into()));
                            push(&mut c, 0, a);
                            push(&mut c, 1, a);
                            emit(c);
                        }
                    }
                }
            }
        }
    }
    if t == Tier::Thorough {
        for tr in 0..TREES {
            for v in 0..VARIANTS {
                let mut base = Case::default();
                base.cold = false;
                base.shared = true;
                base.opts = vec![Opts::default(), Opts::default(), Opts::default()];
                variant(&mut base.opts[0], v);
                variant(&mut base.opts[1], (v + 1) % VARIANTS);
                variant(&mut base.opts[2], (v + 3) % VARIANTS);
                let pool = tree(&mut base, tr);
                for a in 0..pool.len() {
                    for b in 0..pool.len() {
                        for m in 0..27usize {
                            let mut c = base.clone();
                            c.note = format!("tree={tr} three from {v}: {a},{b} by {m}");
                            for (q, r) in [(a, m % 3), (b, m / 3 % 3), (a, m / 9), (b, (m + 1) % 3)] {
                                c.ops.push(Op::Resolve(r, pool[q].0.into(), pool[q].1.into()));
                            }
                            emit(c);
                        }
                    }
                }
            }
        }
    }
}
