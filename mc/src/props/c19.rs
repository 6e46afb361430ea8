//! C19: every file-system call of every question fails once with each errno (or fails from there on),
//! and every edit happens at every call. The call must end; afterwards the same resolver must answer
//! everything like a new one.
use super::*;
use crate::exec::{conforms, describe, Act, Ran};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        gen,
        explore,
        oracle,
        bounds: |t| json!({"trees": "the 6 trees of C14 and one with tsconfig chains, under 5 option sets; the layouts of C15",
            "questions": "every question of the pools on a new resolver, and on one that has answered everything before",
            "faults": format!("every single file-system call x errnos {:?}; all calls from every point on x {:?}; all opens fail (EMFILE){}", ERRNOS, STICKY, if t == Tier::Thorough { "; every pair of calls x 4 errno pairs" } else { "" }),
            "faults after an edit": "each edit of the vocabulary on a resolver that has answered everything, then a question during which one call fails",
            "edits": "every edit of the vocabulary (28 description-file edits, 14 edits of directories, files and links) at every file-system call",
            "afterwards": "the question again and the whole pool on the same resolver, compared with a cache-free reference"}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const EINTR: i32 = 4;
const EIO: i32 = 5;
const EACCES: i32 = 13;
const ENOENT: i32 = 2;
const EMFILE: i32 = 24;
const ERRNOS: &[i32] = &[EIO, EACCES, ENOENT, EMFILE, EINTR, 20, 40];
const STICKY: &[i32] = &[EIO, ENOENT];
const PAIRS: &[(i32, i32)] = &[(EIO, EIO), (ENOENT, EIO), (EIO, ENOENT), (ENOENT, ENOENT)];

fn oracle(c: &Case, ran: &Ran) -> Result<(), String> {
    let mut asked = c.ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Resolve(..) | Op::Side(..)));
    for s in &ran.steps {
        let i = asked.next().map_or(usize::MAX, |(i, _)| i);
        let hit = c.events.iter().any(|e| e.0 == i);
        // (aliases and prefer_relative take every failure of an attempt as a reason to try the next)
        // a description file that is there but cannot be opened is not taken for absent
        let unread = hit && c.events.len() == 1 && c.opts[0].alias.is_empty() && !c.opts[0].prefer_relative && c.events.iter().any(|e| s.opens.contains(&e.1) && matches!(e.2, Event::Fail(x) if x != EINTR));
        let ok = match &s.act {
            Act::Panic(_) => false,
            Act::Err(_) | Act::SideErr(_) if hit => true,
            a if unread => conforms(&s.exp, a),
            a => hit || conforms(&s.exp, a),
        };
        if !ok {
            return Err(format!("{}{}", if hit { "while " } else { "after " }, describe(s)));
        }
    }
    Ok(())
}

fn explore(c: &Case, r: &mut Runner) {
    let at = c.events[0].0;
    let mut c = c.clone();
    let wanted = std::mem::take(&mut c.events);
    let ran = r.run(&c);
    let asked = c.ops[..at].iter().filter(|o| matches!(o, Op::Resolve(..) | Op::Side(..))).count();
    let n = ran.steps[asked].calls;
    let opens = ran.steps[asked].opens.clone();
    let before = r.stats.violations;
    let mut go = |r: &mut Runner, events: Vec<(usize, u64, Event)>| {
        c.events = events;
        r.stats.faults += 1;
        r.run(&c);
        r.stats.violations > before + 3 || r.over()
    };
    match &wanted[0].2 {
        // edits at every call
        Event::Do(op) => {
            for i in 1..=n {
                let mut e = vec![(at, i, Event::Do(op.clone()))];
                for w in &wanted[1..] {
                    e.push((at, i, w.2.clone()));
                }
                if go(r, e) {
                    return;
                }
            }
        }
        Event::Fail(kind) => {
            let few = *kind == 1 && r.tier == Tier::Quick;
            for i in 1..=n {
                for x in if few { &ERRNOS[..3] } else { ERRNOS } {
                    if go(r, vec![(at, i, Event::Fail(*x))]) {
                        return;
                    }
                }
                for x in STICKY {
                    if few {
                        break;
                    }
                    if go(r, (i..=n + 40).map(|k| (at, k, Event::Fail(*x))).collect()) {
                        return;
                    }
                }
            }
            go(r, opens.iter().map(|k| (at, *k, Event::Fail(EMFILE))).collect());
            if r.tier == Tier::Thorough {
                for i in 1..=n {
                    for j in i + 1..=n + 3 {
                        for (x, y) in PAIRS {
                            if go(r, vec![(at, i, Event::Fail(*x)), (at, j, Event::Fail(*y))]) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}

fn tsconfigs(c: &mut Case, k: usize) -> Vec<(&'static str, &'static str)> {
    c.opts[0].tsconfig = Some("/w/tsconfig.json".into());
    c.opts[0].browser = k == 1;
    c.opts[0].symlinks = k != 2;
    c.file("/w/tsconfig.json", "{\"extends\":\"./base\",\"compilerOptions\":{\"paths\":{\"x/*\":[\"./gone/*\",\"./x/*\"],\"m\":[\"./y\"]}}}");
    c.file("/w/base.json", "{\"extends\":\"t\",\"compilerOptions\":{\"baseUrl\":\".\"}}");
    c.file("/w/node_modules/t/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\"./z\"}}");
    c.files(&["/w/x/a.js", "/w/y/index.js", "/w/node_modules/m/index.js", "/w/node_modules/x/b.js", "/w/src/a.js"]);
    c.link("/w/l", "src");
    vec![("/w", "x/a"), ("/w/src", "x/b"), ("/w", "m"), ("/w/src", "./a"), ("/w/l", "./a"), ("/w", "gone"), ("/w", "./l/a")]
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    // faults
    for tr in 0..=super::c14::TREES {
        for op in 0..super::c14::OPTS {
            let mut base = Case::default();
            base.cold = false;
            let pool = if tr == super::c14::TREES {
                tsconfigs(&mut base, op)
            } else {
                super::c14::options(&mut base.opts[0], op);
                super::c14::tree(&mut base, tr)
            };
            let mut qs: Vec<Op> = pool.iter().map(|(b, r)| Op::Resolve(0, b.to_string(), r.to_string())).collect();
            qs.push(Op::Side(0, pool[0].0.into()));
            qs.push(Op::Side(0, pool[pool.len() - 1].0.into()));
            for (i, q) in qs.iter().enumerate() {
                for warm in [false, true] {
                    let mut c = base.clone();
                    c.note = format!("fault tree={tr} options={op} question={i} warm={warm}");
                    if warm {
                        c.ops.extend(qs.iter().cloned());
                    }
                    let at = c.ops.len();
                    c.ops.push(q.clone());
                    c.ops.push(q.clone());
                    c.ops.extend(qs.iter().cloned());
                    c.events.push((at, 0, Event::Fail(0)));
                    emit(c);
                }
            }
        }
    }
    // description files edited in the middle of a question
    let starts: &[[usize; 4]] = &[[1, 1, 1, 1], [0, 0, 0, 0], [2, 3, 0, 2], [3, 2, 2, 3], [1, 0, 4, 4]];
    for start in starts {
        for (mi, m) in super::c15::muts().iter().enumerate() {
            let mut e = Case::default();
            super::c15::apply(&mut e, m, 1);
            let mut p = Case::default();
            super::c15::probe(&mut p);
            for (i, q) in p.ops.iter().enumerate() {
                for warm in [false, true] {
                    let mut c = Case::default();
                    c.note = format!("edit start={start:?} edit={mi} question={i} warm={warm}");
                    super::c15::layout(&mut c, start);
                    if warm {
                        c.ops.extend(p.ops.iter().cloned());
                    }
                    c.ops.push(Op::Tick(1500));
                    let at = c.ops.len();
                    c.ops.push(q.clone());
                    c.ops.push(q.clone());
                    c.ops.extend(p.ops.iter().cloned());
                    for o in &e.ops {
                        if !matches!(o, Op::Tick(_)) {
                            c.events.push((at, 0, Event::Do(o.clone())));
                        }
                    }
                    emit(c);
                }
            }
        }
    }
    // an edit, and then a question during which a call fails
    for (si, start) in starts.iter().enumerate() {
        for (mi, m) in super::c15::muts().iter().enumerate() {
            let mut p = Case::default();
            super::c15::probe(&mut p);
            for (i, q) in p.ops.iter().enumerate() {
                if t == Tier::Quick && (si + mi + i) % 3 != 0 {
                    continue;
                }
                let mut c = Case::default();
                c.note = format!("edit then fault start={start:?} edit={mi} question={i}");
                super::c15::layout(&mut c, start);
                c.ops.extend(p.ops.iter().cloned());
                super::c15::apply(&mut c, m, 1);
                c.ops.push(Op::Tick(1500));
                let at = c.ops.len();
                c.ops.push(q.clone());
                c.ops.push(q.clone());
                c.ops.extend(p.ops.iter().cloned());
                c.events.push((at, 0, Event::Fail(1)));
                emit(c);
            }
        }
    }
    for k in 0..3 {
        for (mi, m) in super::c15::tree_muts().iter().enumerate() {
            let mut p = Case::default();
            super::c15::tree_probe(&mut p);
            for (i, q) in p.ops.iter().enumerate() {
                let mut c = Case::default();
                c.note = format!("tree edit then fault k={k} edit={mi} question={i}");
                super::c15::tree_layout(&mut c, k);
                c.ops.extend(p.ops.iter().cloned());
                c.ops.push(Op::Tick(1500));
                c.ops.extend(m.iter().cloned());
                let at = c.ops.len();
                c.ops.push(q.clone());
                c.ops.push(q.clone());
                c.ops.extend(p.ops.iter().cloned());
                c.events.push((at, 0, Event::Fail(1)));
                emit(c);
            }
        }
    }
    // the tree edited in the middle of a question
    for k in 0..3 {
        let edits = super::c15::tree_muts();
        for (mi, m) in edits.iter().enumerate() {
            let mut p = Case::default();
            super::c15::tree_probe(&mut p);
            for (i, q) in p.ops.iter().enumerate() {
                for warm in [false, true] {
                    let mut c = Case::default();
                    c.note = format!("tree edit k={k} edit={mi} question={i} warm={warm}");
                    super::c15::tree_layout(&mut c, k);
                    if warm {
                        c.ops.extend(p.ops.iter().cloned());
                    }
                    c.ops.push(Op::Tick(1500));
                    let at = c.ops.len();
                    c.ops.push(q.clone());
                    c.ops.push(q.clone());
                    c.ops.extend(p.ops.iter().cloned());
                    for o in m {
                        c.events.push((at, 0, Event::Do(o.clone())));
                    }
                    emit(c);
                }
            }
        }
    }
}
