//! C15: a long-lived resolver answers like a new one after description files change on disk.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"description_files": PLACES, "contents_per_file": 5, "mutations": muts().len(), "tree_edits": format!("{} edits of files, directories, links and tsconfigs, every history of up to {}", tree_muts().len(), depth(t) + 1), "history_length": depth(t),
            "probe": "8 requests and 2 side-effect lookups on the same resolver before the history and after every mutation; expected: what a resolver without any cache says",
            "clock": "every change gets an mtime at least 1.5 s away from all earlier ones, forwards or backwards"}),
        rests_on: &[FS_MODEL, ORACLE, "a rewrite that moves the mtime by less than the documented 1000 ms tolerance is outside the explored space"],
    }
}

const PLACES: &[&str] = &["/w/package.json", "/w/p/package.json", "/w/p/s/package.json", "/w/node_modules/m/package.json"];

pub fn content(place: usize, k: usize) -> Option<String> {
    // k: 0 absent, 1..3 variants, 4 malformed
    Some(match (place, k) {
        (_, 0) => return None,
        (_, 4) => "{".into(),
        (3, 1) => "{\"name\":\"m\",\"main\":\"./a.js\",\"sideEffects\":false}".into(),
        (3, 2) => "{\"name\":\"m\",\"main\":\"./a.js\",\"exports\":{\".\":\"./b.js\"}}".into(),
        (3, _) => "{\"name\":\"m\",\"main\":\"./b.js\",\"browser\":{\"./b.js\":\"./a.js\"}}".into(),
        (p, 1) => format!("{{\"name\":\"l{p}\",\"sideEffects\":true}}"),
        (p, 2) => format!("{{\"name\":\"l{p}\",\"imports\":{{\"#i\":\"./f{p}.js\"}},\"browser\":{{\"./x.js\":\"./f{p}.js\"}}}}"),
        (p, _) => format!("{{\"name\":\"l{p}\",\"main\":\"./f{p}.js\",\"browser\":{{\"./x.js\":false,\"./f{p}.js\":\"./x.js\"}},\"sideEffects\":[\"x{p}\"]}}"),
    })
}

#[derive(Clone)]
pub enum M {
    Set(usize, usize),
    Older(usize),
    Newer(usize),
}

pub fn muts() -> Vec<M> {
    let mut v = vec![];
    for p in 0..PLACES.len() {
        for k in 0..5 {
            v.push(M::Set(p, k));
        }
        v.push(M::Older(p));
        v.push(M::Newer(p));
    }
    v
}

pub fn apply(c: &mut Case, m: &M, step: i64) {
    c.ops.push(Op::Tick(1500));
    match m {
        M::Set(p, k) => match content(*p, *k) {
            None => c.ops.push(Op::Remove(PLACES[*p].into())),
            Some(t) => c.ops.push(Op::Write(PLACES[*p].into(), t)),
        },
        // swapped for another version whose file is older or newer
        M::Older(p) => {
            c.ops.push(Op::Write(PLACES[*p].into(), content(*p, 2).unwrap()));
            c.ops.push(Op::Touch(PLACES[*p].into(), -1_000_000 * (step + 1)));
        }
        M::Newer(p) => {
            c.ops.push(Op::Write(PLACES[*p].into(), content(*p, 3).unwrap()));
            c.ops.push(Op::Touch(PLACES[*p].into(), 1_000_000 * (step + 1)));
        }
    }
}

pub fn layout(c: &mut Case, start: &[usize]) {
    c.cold = false;
    c.opts[0].browser = true;
    for (p, k) in start.iter().enumerate() {
        if let Some(t) = content(p, *k) {
            c.file(PLACES[p], &t);
        }
    }
    c.files(&["/w/f0.js", "/w/x.js", "/w/p/f1.js", "/w/p/x.js", "/w/p/s/f2.js", "/w/p/s/x.js"]);
    c.files(&["/w/node_modules/m/a.js", "/w/node_modules/m/b.js", "/w/node_modules/m/index.js"]);
}

pub fn probe(c: &mut Case) {
    c.req("/w/p/s", "#i").req("/w/p/s", "./x").req("/w", "./p/s").req("/w/p/s", "m").req("/w", "m/b").req("/w/p", "#i").req("/w", "./p").req("/w", ".");
    c.ops.push(Op::Side(0, "/w/p/s/x.js".into()));
    c.ops.push(Op::Side(0, "/w/node_modules/m/a.js".into()));
}

/// Edits of files, directories, links and tsconfig files; each may take several steps.
pub fn tree_muts() -> Vec<Vec<Op>> {
    let w = |p: &str, t: &str| Op::Write(p.into(), t.into());
    let rm = |p: &str| Op::Remove(p.into());
    let ln = |p: &str, t: &str| Op::Link(p.into(), t.into());
    vec![
        vec![rm("/w/x.js")],
        vec![w("/w/x.js", "")],
        vec![rm("/w/x.js"), Op::Mkdir("/w/x.js".into())],
        vec![w("/w/x.ts", "")],
        vec![w("/w/x/index.js", "")],
        vec![rm("/w/x")],
        vec![w("/w/p/node_modules/m/index.js", "")],
        vec![w("/w/p/node_modules/m/package.json", "{\"main\":\"./b\",\"exports\":{\".\":\"./c.js\"}}"), w("/w/p/node_modules/m/c.js", "")],
        vec![rm("/w/p/node_modules")],
        vec![rm("/w/node_modules/m")],
        vec![w("/w/node_modules/m/index.js", ""), w("/w/node_modules/m.js", "")],
        vec![rm("/w/l"), ln("/w/l", "p")],
        vec![rm("/w/l"), ln("/w/l", "{R}/w/node_modules/m")],
        vec![rm("/w/l")],
        vec![rm("/w/tsconfig.json"), w("/w/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"t\":[\"./p\"],\"m\":[\"./x.js\"]}}}")],
        vec![rm("/w/base.json"), w("/w/base.json", "{\"compilerOptions\":{\"baseUrl\":\"./p\",\"paths\":{\"t\":[\"./i.js\"]}}}")],
        vec![rm("/w/tsconfig.json")],
        vec![rm("/w/node_modules"), ln("/w/node_modules", "p/node_modules")],
    ]
}

pub fn tree_layout(c: &mut Case, k: usize) {
    c.cold = false;
    c.opts[0].tsconfig = if k == 1 { Some("/w/tsconfig.json".into()) } else { None };
    c.opts[0].symlinks = k != 2;
    c.opts[0].ext = strs(&[".ts", ".js"]);
    c.file("/w/tsconfig.json", "{\"extends\":\"./base\",\"compilerOptions\":{}}");
    c.file("/w/base.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"t\":[\"./x\"]}}}");
    c.file("/w/p/package.json", "{\"main\":\"./i\"}").file("/w/node_modules/m/package.json", "{\"main\":\"./a\"}");
    c.files(&["/w/p/i.js", "/w/node_modules/m/a.js", "/w/node_modules/m/b.js", "/w/p/x.js"]);
    // every description file has a time of its own, also when a link swaps one for another
    c.ops.push(Op::Touch("/w/p/package.json".into(), -50_000));
    c.ops.push(Op::Touch("/w/node_modules/m/package.json".into(), -90_000));
    match k {
        0 => {
            c.files(&["/w/x.js"]);
        }
        1 => {
            c.files(&["/w/x/index.js", "/w/p/node_modules/m/b.js"]).link("/w/l", "x");
        }
        _ => {
            c.files(&["/w/x.ts", "/w/p/node_modules/n/index.js"]).link("/w/l", "gone");
        }
    }
}

pub fn tree_probe(c: &mut Case) {
    c.req("/w", "./x").req("/w", "./x.js").req("/w/p", "m").req("/w", "m").req("/w", "./l").req("/w/l", "./x").req("/w/l", "m").req("/w", "t").req("/w/p", "../x").req("/w", "./p").req("/w", "m/b");
}

fn depth(t: Tier) -> usize {
    if t == Tier::Quick { 2 } else { 3 }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c15(t, emit);
    words::c15(t, emit);
    let tm = tree_muts();
    for k in 0..3 {
        for warm in [true, false] {
            let d = if warm { depth(t) + 1 } else { 1 };
            for i in 0..tm.len().pow(d as u32) {
                let mut c = Case::default();
                c.note = format!("tree edits k={k} history={i}/{d} probed_before={warm}");
                tree_layout(&mut c, k);
                if warm {
                    tree_probe(&mut c);
                }
                let mut x = i;
                for _ in 0..d {
                    c.ops.push(Op::Tick(1500));
                    c.ops.extend(tm[x % tm.len()].iter().cloned());
                    x /= tm.len();
                    tree_probe(&mut c);
                }
                emit(c);
            }
        }
    }
    let ms = muts();
    let starts: &[[usize; 4]] = &[[1, 1, 1, 1], [0, 0, 0, 0], [2, 3, 0, 2], [3, 2, 2, 3], [1, 0, 4, 4], [0, 2, 3, 0]];
    let n = ms.len();
    for (si, start) in starts.iter().enumerate() {
        let mut go = |d: usize, warm: bool| {
            for i in 0..n.pow(d as u32) {
                let mut c = Case::default();
                c.note = format!("start={start:?} history={i}/{d} probed_before={warm}");
                layout(&mut c, start);
                if warm {
                    probe(&mut c);
                }
                let mut x = i;
                for s in 0..d {
                    apply(&mut c, &ms[x % n], s as i64);
                    x /= n;
                    if warm || s + 1 == d || s == 0 {
                        probe(&mut c);
                    }
                }
                emit(c);
            }
        };
        for d in 1..=depth(t) {
            go(d, true);
            go(d, false);
        }
        if t == Tier::Quick && si < 2 {
            go(3, true);
        }
    }
}
