//! C17: concurrent use of a resolver — every interleaving (of lock acquisitions and file-system
//! calls) of two or three threads up to a preemption bound, including threads that change
//! description files meanwhile.
use super::c14::{options, tree};
use super::*;
use crate::exec::{conforms, describe, Act, Ran};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        gen,
        explore: |c, r| r.all_schedules(c, if r.tier == Tier::Quick { 12_000 } else { 60_000 }),
        oracle,
        bounds: |t| json!({"threads": "2..3", "questions_per_thread": "1..2",
            "preemption_bound": if t == Tier::Quick { "2 at locks; 1 at locks and file-system calls" } else { "3 at locks; 2 at locks and file-system calls" },
            "pairs": "every pair of questions of the pools of c14 trees 0..4 (unordered), cold and warm cache, one resolver or two that share a cache",
            "writers": WRITES, "cap_per_case": if t == Tier::Quick { 12_000 } else { 60_000 }}),
        rests_on: &[FS_MODEL, ORACLE, "interleaving points are the lock operations of the caches (dashmap shards, std mutexes/condvars via futex) and file-system calls; accesses between them are not reordered (sequential consistency)",
            "all dashmap shards are folded into one, which only adds lock conflicts"],
    }
}

/// (description file, new content or removal) of the tree of `writers`
const WRITES: &[(&str, Option<&str>)] = &[
    ("/w/node_modules/m/package.json", Some("{\"main\":\"./b.js\"}")),
    ("/w/node_modules/m/package.json", Some("{\"exports\":\"./b.js\"}")),
    ("/w/node_modules/m/package.json", None),
    ("/w/node_modules/m/package.json", Some("{")),
    ("/w/package.json", Some("{\"imports\":{\"#i\":\"./y.js\"},\"browser\":{\"./x.js\":\"./y.js\"}}")),
    ("/w/package.json", None),
    ("/w/src/package.json", Some("{\"imports\":{\"#i\":\"./z.js\"},\"sideEffects\":true}")),
];

fn oracle(c: &Case, ran: &Ran) -> Result<(), String> {
    let writers = c.threads.as_ref().is_some_and(|t| t.jobs.iter().flatten().any(|o| matches!(o, Op::Write(..) | Op::Remove(_))));
    for s in &ran.steps {
        // while somebody writes, any mixture of before and after is fine; afterwards it is not
        let ok = if writers && s.job.is_some() { !matches!(s.act, Act::Panic(_)) } else { conforms(&s.exp, &s.act) };
        if !ok {
            return Err(describe(s));
        }
    }
    Ok(())
}

fn writers(c: &mut Case) -> Vec<Op> {
    c.opts[0].browser = true;
    c.file("/w/package.json", "{\"imports\":{\"#i\":\"./x.js\"}}");
    c.file("/w/node_modules/m/package.json", "{\"main\":\"./a.js\",\"sideEffects\":false}");
    c.files(&["/w/node_modules/m/a.js", "/w/node_modules/m/b.js", "/w/node_modules/m/index.js", "/w/x.js", "/w/y.js", "/w/src/z.js", "/w/src/index.js"]);
    let q = |b: &str, r: &str| Op::Resolve(0, b.into(), r.into());
    vec![q("/w", "m"), q("/w/src", "#i"), q("/w", "./x"), q("/w/src", "."), Op::Side(0, "/w/node_modules/m/a.js".into()), Op::Side(0, "/w/src".into())]
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    let quick = t == Tier::Quick;
    // allocation level: what is not guarded by a lock of the caches
    for tr in 0..5 {
        for shared in [false, true] {
            let mut base = Case::default();
            base.cold = false;
            options(&mut base.opts[0], [1, 1, 0, 4, 2][tr]);
            let pool = tree(&mut base, tr);
            if shared {
                base.shared = true;
                base.opts.push(Opts::default());
            }
            for (i, a) in pool.iter().enumerate() {
                for b in &pool[i..] {
                    if quick && a != b {
                        continue;
                    }
                    let mut c = base.clone();
                    c.note = format!("readers tree={tr} {a:?} || {b:?} shared={shared} allocations bound=1");
                    let q = |r: usize, x: &(&str, &str)| Op::Resolve(r, x.0.into(), x.1.into());
                    let jobs = vec![vec![q(0, a)], vec![q(shared as usize, b)]];
                    c.threads = Some(Threads { jobs, prefix: vec![], bound: 1, fs_points: true, alloc_points: true });
                    emit(c);
                }
            }
        }
    }
    // lock level, then file-system level
    for (fs, bound) in [(false, if quick { 2 } else { 3 }), (true, if quick { 1 } else { 2 })] {
        // readers
        for tr in 0..5 {
            for warm in [false, true] {
                for shared in [false, true] {
                    let mut base = Case::default();
                    base.cold = false;
                    options(&mut base.opts[0], [1, 1, 0, 4, 2][tr]);
                    let mut pool = tree(&mut base, tr);
                    if shared {
                        base.shared = true;
                        base.opts.push(Opts::default());
                    }
                    if quick {
                        pool.truncate(if fs { 7 } else { 12 });
                    }
                    if warm {
                        base.req(pool[0].0, pool[0].1).req(pool[3].0, pool[3].1);
                    }
                    for (i, a) in pool.iter().enumerate() {
                        for b in &pool[i..] {
                            if fs && quick && warm {
                                continue;
                            }
                            let mut c = base.clone();
                            c.note = format!("readers tree={tr} {a:?} || {b:?} warm={warm} shared={shared} fs={fs} bound={bound}");
                            let q = |r: usize, x: &(&str, &str)| Op::Resolve(r, x.0.into(), x.1.into());
                            let other = shared as usize;
                            let jobs = if fs { vec![vec![q(0, a)], vec![q(other, b)]] } else { vec![vec![q(0, a), q(0, b)], vec![q(other, b), q(other, a)]] };
                            c.threads = Some(Threads { jobs, prefix: vec![], bound, fs_points: fs, alloc_points: false });
                            emit(c);
                        }
                    }
                    // one question each, more preemptions
                    if !fs && !warm {
                        for (i, a) in pool.iter().enumerate() {
                            for b in &pool[i..] {
                                let mut c = base.clone();
                                c.note = format!("readers tree={tr} {a:?} || {b:?} shared={shared} bound={}", bound + 1);
                                let q = |r: usize, x: &(&str, &str)| Op::Resolve(r, x.0.into(), x.1.into());
                                let jobs = vec![vec![q(0, a)], vec![q(shared as usize, b)]];
                                c.threads = Some(Threads { jobs, prefix: vec![], bound: bound + 1, fs_points: fs, alloc_points: false });
                                emit(c);
                            }
                        }
                    }
                    // three threads
                    if !fs {
                        for i in 0..pool.len().min(if quick { 6 } else { 12 }) {
                            let mut c = base.clone();
                            c.note = format!("readers tree={tr} three from {i} warm={warm} shared={shared} bound=1");
                            let q = |k: usize, r: usize| Op::Resolve(r, pool[(i + k) % pool.len()].0.into(), pool[(i + k) % pool.len()].1.into());
                            let jobs = vec![vec![q(0, 0)], vec![q(1, shared as usize)], vec![q(0, 0), q(2, shared as usize)]];
                            c.threads = Some(Threads { jobs, prefix: vec![], bound: bound - 1, fs_points: fs, alloc_points: false });
                            emit(c);
                        }
                    }
                }
            }
        }
        // a writer next to one or two readers
        for (w, (file, text)) in WRITES.iter().enumerate() {
            for warm in [false, true] {
                for touch in [0, -1_000_000] {
                    let mut base = Case::default();
                    base.cold = false;
                    let pool = writers(&mut base);
                    for (i, a) in pool.iter().enumerate() {
                        for b in &pool[i..] {
                            if a != b && fs && quick {
                                continue;
                            }
                            let mut c = base.clone();
                            c.note = format!("writer {w} touch={touch} || {a:?} || {b:?} warm={warm} fs={fs} bound={bound}");
                            if warm {
                                c.ops.push(a.clone());
                                c.ops.push(b.clone());
                            }
                            c.ops.push(Op::Tick(1500));
                            let mut edit = vec![match text {
                                Some(x) => Op::Write(file.to_string(), x.to_string()),
                                None => Op::Remove(file.to_string()),
                            }];
                            if touch != 0 {
                                if text.is_none() {
                                    continue;
                                }
                                edit.push(Op::Touch(file.to_string(), touch));
                            }
                            let jobs = if a == b { vec![edit, vec![a.clone()]] } else { vec![edit, vec![a.clone()], vec![b.clone()]] };
                            let bound = if a == b { bound + 1 } else { bound };
                            c.threads = Some(Threads { jobs, prefix: vec![], bound, fs_points: fs, alloc_points: false });
                            emit(c);
                        }
                    }
                }
            }
        }
    }
}
