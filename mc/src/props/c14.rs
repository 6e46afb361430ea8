//! C14: what a resolver was asked before does not change its answers — every sequence of questions
//! over a pool, on trees whose packages share and nearly share their exports, imports and directories.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"trees": TREES, "option_sets": OPTS, "questions": "16..22 per tree", "pairs_of_similar_packages": {"description_files": contents().len(), "places": PLACES}, "sequence_length": format!("every sequence of 1..{} questions on one resolver", depth(t))}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

pub const TREES: usize = 7;
pub const OPTS: usize = 5;

fn depth(t: Tier) -> usize {
    if t == Tier::Quick { 3 } else { 4 }
}

pub fn tree(c: &mut Case, k: usize) -> Vec<(&'static str, &'static str)> {
    let nm = "/w/node_modules";
    match k {
        // equal exports in several packages; equal text as imports
        0 => {
            for p in ["a", "b", "@s/c"] {
                c.file(&format!("{nm}/{p}/package.json"), "{\"exports\":{\".\":\"./i.js\",\"./x/*\":\"./l/*.js\"}}");
                c.files(&[format!("{nm}/{p}/i.js"), format!("{nm}/{p}/l/y.js")]);
            }
            c.file(&format!("{nm}/d/package.json"), "{\"exports\":{\"node\":\"./i.js\"},\"imports\":{\"#x\":\"./i.js\"}}");
            c.file(&format!("{nm}/e/package.json"), "{\"exports\":{\"node\":\"./i.js\"},\"imports\":{\"#x\":\"./j.js\"}}");
            c.file(&format!("{nm}/f/package.json"), "{\"imports\":{\"#x\":\"./i.js\"}}");
            c.files(&[format!("{nm}/d/i.js"), format!("{nm}/e/i.js"), format!("{nm}/e/j.js"), format!("{nm}/f/i.js"), format!("{nm}/f/index.js")]);
            vec![("/w", "a"), ("/w", "b"), ("/w", "@s/c"), ("/w", "a/x/y"), ("/w", "b/x/y"), ("/w", "b/x/z"), ("/w", "d"), ("/w", "e"), ("/w/node_modules/d", "#x"), ("/w/node_modules/e", "#x"), ("/w/node_modules/f", "#x"), ("/w", "f"), ("/w", "a/l/y.js"), ("/w/node_modules/a", "./i"), ("/w/node_modules/a", "#x"), ("/w", "gone")]
        }
        // nested directories with and without description files of their own
        1 => {
            c.file("/w/package.json", "{\"name\":\"w\",\"imports\":{\"#r\":\"./r.js\"},\"browser\":{\"./p/x.js\":\"./r.js\",\"m\":\"./r.js\"}}");
            c.file("/w/p/q/package.json", "{\"name\":\"q\",\"main\":\"./z\",\"imports\":{\"#r\":\"./z.js\"}}");
            c.files(&["/w/r.js", "/w/p/x.js", "/w/p/index.js", "/w/p/q/z.js", "/w/p/q/x.js", "/w/p/q/s/x.js", "/w/p/q/s/index.js", "/w/p/q/r.js"]);
            c.files(&["/w/node_modules/m/index.js", "/w/p/node_modules/m/x.js", "/w/p/q/node_modules/m.js"]);
            vec![("/w", "#r"), ("/w/p", "#r"), ("/w/p/q", "#r"), ("/w/p/q/s", "#r"), ("/w", "./p"), ("/w", "./p/q"), ("/w/p", "./q"), ("/w/p/q/s", "."), ("/w/p/q/s", ".."), ("/w/p/q/s", "../../x"), ("/w/p", "./x"), ("/w/p/q", "m"), ("/w/p", "m"), ("/w", "m"), ("/w/p/q", "m/x"), ("/w/gone", "#r"), ("/w/p/gone/x", "../q"), ("/", "./w/p/q/x"), ("/w", "q")]
        }
        // broken next to sound description files
        2 => {
            c.file(&format!("{nm}/a/package.json"), "{\"exports\":{\".\":\"./i.js\",\"x\":\"./y\"}}");
            c.file(&format!("{nm}/b/package.json"), "{");
            c.file(&format!("{nm}/b/in/package.json"), "{\"main\":\"./k\"}");
            c.file(&format!("{nm}/c/package.json"), "{\"exports\":{\".\":[\"./gone\",\"./i.js\"]}}");
            c.file(&format!("{nm}/d/package.json"), "{\"exports\":{\".\":\"../c/i.js\"}}");
            c.files(&[format!("{nm}/a/i.js"), format!("{nm}/b/index.js"), format!("{nm}/b/in/k.js"), format!("{nm}/c/i.js"), "/w/f.js".into(), format!("{nm}/index.js")]);
            vec![("/w", "a"), ("/w", "a/i.js"), ("/w", "b"), ("/w", "b/in"), ("/w", "b/in/k.js"), ("/w", "c"), ("/w", "d"), ("/w", "c/i.js"), ("/w/node_modules/a", "./i"), ("/w/node_modules/b/in", "./k"), ("/w/node_modules/b", "./index"), ("/w", "./f"), ("/w", "./node_modules/a/i"), ("/w", "./node_modules/c"), ("/w", "."), ("/w", "./node_modules")]
        }
        // links: one directory under several names
        3 => {
            c.file("/s/m/package.json", "{\"name\":\"m\",\"main\":\"./i\",\"browser\":{\"./i.js\":\"./j.js\"},\"imports\":{\"#d\":\"dep\"}}");
            c.files(&["/s/m/i.js", "/s/m/j.js", "/s/m/node_modules/dep/index.js", "/w/node_modules/dep/index.js", "/w/i.js"]);
            c.link("/w/node_modules/m", "{R}/s/m").link("/w/node_modules/n", "m").link("/w/l", "{R}/s").link("/w/k", "gone");
            vec![("/w", "m"), ("/w", "n"), ("/w", "m/j"), ("/w", "./l/m"), ("/w/l/m", "#d"), ("/w/node_modules/m", "#d"), ("/s/m", "#d"), ("/s/m", "dep"), ("/w/l/m", "dep"), ("/w/node_modules/n", "."), ("/w", "./k"), ("/w/l", "./m"), ("/w/l/..", "./i"), ("/w/l/m", "../../i"), ("/s", "./m"), ("/w", "dep")]
        }
        // self reference, encapsulation, conditions
        4 => {
            c.file("/w/package.json", "{\"name\":\"self\",\"exports\":{\".\":\"./i.js\",\"./p/*\":{\"node\":\"./n/*.js\",\"x\":\"./x/*.js\"},\"./no/*\":null},\"imports\":{\"#s\":\"self\",\"#p/*\":\"self/p/*\"}}");
            c.files(&["/w/i.js", "/w/n/a.js", "/w/x/a.js", "/w/no/a.js", "/w/src/b.js", "/w/node_modules/o/index.js"]);
            c.file("/w/node_modules/o/package.json", "{\"name\":\"self\",\"exports\":{\".\":\"./index.js\",\"./p/*\":{\"x\":\"./x/*.js\",\"node\":\"./n/*.js\"}}}");
            c.files(&["/w/node_modules/o/x/a.js", "/w/node_modules/o/n/a.js"]);
            vec![("/w", "self"), ("/w/src", "self"), ("/w/src", "self/p/a"), ("/w", "self/no/a"), ("/w", "#s"), ("/w/src", "#p/a"), ("/w", "o"), ("/w", "o/p/a"), ("/w/node_modules/o", "self"), ("/w/node_modules/o", "self/p/a"), ("/w", "self/gone"), ("/w", "./n/a"), ("/w/node_modules/o", "#s"), ("/", "self"), ("/w", "self?q"), ("/w", "o/p/a?q")]
        }
        // questions and directories that are nearly the same
        5 => {
            c.files(&["/w/a.js", "/w/a/index.js", "/w/A.js", "/w/s/a.js", "/w/s/x.js", "/w/node_modules/a/index.js", "/w/node_modules/A.js", "/w/s/node_modules/a/x.js", "/w/ s/a.js"]);
            c.file("/w/s/package.json", "{\"imports\":{\"#a\":\"./x.js\",\"#A\":\"./a.js\"}}").link("/w/l", "s").link("/v", "w");
            vec![("/w", "./a"), ("/w", "./a/"), ("/w", "./A"), ("/w", "a"), ("/w", "A"), ("/w/s", "./a"), ("/w/l", "./a"), ("/w/l/..", "./a"), ("/v", "./a"), ("/v/s", "a/x"), ("/w/s", "a"), ("/w/s", "#a"), ("/w/s", "#A"), ("/w/l", "#a"), ("/w", "./a?q"), ("/w", "./a#q"), ("/w", "./s/a"), ("/w/ s", "./a"), ("/w/s/", "../a"), ("/w", "./s/../a")]
        }
        // files that look like directories and the other way round, weird names
        _ => {
            c.file("/w/a.js/package.json", "{\"main\":\"é\"}").files(&["/w/a.js/é.js", "/w/b.js", "/w/b.js.js", "/w/é/index.js", "/w/c/index.js", "/w/c.js", "/w/#h.js"]);
            c.dir("/w/node_modules/a/package.json").files(&["/w/node_modules/a/index.js", "/w/node_modules/a.js/index.js", "/w/node_modules/é.js"]);
            vec![("/w", "./a"), ("/w", "./a.js"), ("/w", "./a.js/é"), ("/w", "./b"), ("/w", "./b.js"), ("/w", "./é"), ("/w", "./c"), ("/w", "./c/"), ("/w/c", "."), ("/w/c", ".."), ("/w", "a"), ("/w", "a.js"), ("/w", "é"), ("/w/é", "../c"), ("/w", "./c?x#y"), ("/w/b.js", "./c"), ("/w/b.js", "../c")]
        }
    }
}

pub fn options(o: &mut Opts, k: usize) {
    match k {
        0 => {}
        1 => o.browser = true,
        2 => {
            o.symlinks = false;
            o.conds = strs(&["x"]);
            o.main_fields = strs(&["module", "main"]);
        }
        3 => {
            o.prefer_relative = true;
            o.enforce = Some(true);
            o.ext = strs(&[".json", ".js"]);
        }
        _ => {
            o.alias = vec![("m".into(), Some("dep".into())), ("#r".into(), Some("./r".into())), ("a".into(), Some("c".into()))];
            o.main_files = strs(&["x", "index"]);
            o.browser = true;
        }
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c14(t, emit);
    for tr in 0..TREES {
        for op in 0..OPTS {
            let mut base = Case::default();
            base.cold = false;
            options(&mut base.opts[0], op);
            let pool = tree(&mut base, tr);
            let n = pool.len();
            let d = depth(t);
            for i in 0..n.pow(d as u32) {
                // a sequence answers for its prefixes; its last two questions are asked again at the end
                let mut c = base.clone();
                c.note = format!("tree={tr} options={op} sequence={i}");
                let mut x = i;
                for _ in 0..d {
                    let (b, r) = pool[x % n];
                    c.req(b, r);
                    x /= n;
                }
                let again = c.ops.clone();
                c.ops.extend(again);
                emit(c);
            }
        }
    }
    sweeps(t, emit);
    pairs(t, emit);
}

/// Description files of which each differs from some other in little.
pub fn contents() -> Vec<String> {
    let long = |tail: &str| format!("{{\"exports\":{{{},\".\":\"./{tail}.js\"}}}}", (0..40).map(|i| format!("\"./k{i}\":\"./{}.js\"", "y".repeat(20))).collect::<Vec<_>>().join(","));
    let mut v = vec![long("x"), long("y")];
    let fields = [
        "\"./x.js\"", "\"./y.js\"", "\"./gone.js\"", "\".\\/x.js\"", "[\"./x.js\",\"./y.js\"]", "[\"./y.js\",\"./x.js\"]", "[\"./gone.js\",\"./y.js\"]", "null", "{}", "[]",
        "{\"node\":\"./x.js\",\"import\":\"./y.js\"}", "{\"import\":\"./y.js\",\"node\":\"./x.js\"}", "{\"import\":\"./x.js\",\"node\":\"./y.js\"}", "{\"import\":\"./x.js\",\"default\":\"./y.js\"}", "{\"default\":\"./y.js\",\"import\":\"./x.js\"}",
        "{\".\":{\"node\":\"./x.js\",\"import\":\"./y.js\"}}", "{\".\":{\"import\":\"./y.js\",\"node\":\"./x.js\"}}", "{\".\":\"./x.js\"}", "{\".\":\"./y.js\"}", "{ \".\" : \"./y.js\" }",
        "{\".\":\"./x.js\",\"./a\":\"./y.js\"}", "{\"./a\":\"./y.js\",\".\":\"./x.js\"}", "{\"./a\":\"./x.js\",\".\":\"./y.js\"}", "{\"./*\":\"./x.js\",\".\":\"./y.js\"}", "{\".\":\"./y.js\",\".\":\"./x.js\"}",
        "{\"#a\":\"./x.js\"}", "{\"#a\":\"./y.js\"}", "{\"#A\":\"./y.js\",\"#a\":\"./x.js\"}", "{\"#a\":{\"node\":\"./x.js\",\"import\":\"./y.js\"}}", "{\"#a\":{\"import\":\"./y.js\",\"node\":\"./x.js\"}}", "{\"#a\":null}", "{\".\":\"./x.js\",\"node\":\"./y.js\"}", "{\"a\":\"./x.js\"}",
    ];
    for f in fields {
        v.push(format!("{{\"name\":\"n\",\"version\":\"1.0.0\",\"exports\":{f}}}"));
        if f.contains('#') || f.len() < 5 {
            v.push(format!("{{\"name\":\"n\",\"version\":\"1.0.0\",\"imports\":{f}}}"));
        }
        if f.contains("#a") {
            v.push(format!("{{\"exports\":{f},\"imports\":{f}}}"));
        }
    }
    for f in ["{\"main\":\"./x\"}", "{\"main\":\"./y\"}", "{\"main\":\"./x\",\"main\":\"./y\"}", "{\"browser\":{\"./index.js\":\"./x.js\"}}", "{\"browser\":{\"./index.js\":\"./y.js\"}}", "{\"browser\":{\"./index.js\":false}}", "{\"browser\":\"./x.js\"}", "{\"sideEffects\":false}", "{\"sideEffects\":true}", "{\"sideEffects\":1}", "{}", "{", "", "[]", " {}", "-"] {
        v.push(f.into());
    }
    v
}

const PLACES: &[(&str, &str)] = &[
    ("/w/node_modules/a", "/w/node_modules/b"), ("/w/node_modules/a", "/w/node_modules/a/b"), ("/w/node_modules/a", "/w/s/node_modules/a"),
    ("/w/node_modules/a", "/w/node_modules/A"), ("/w/node_modules/@s/a", "/w/node_modules/@t/a"), ("/w/node_modules/ab/c", "/w/node_modules/a/bc"), ("/w/node_modules/é", "/w/node_modules/e\u{301}"),
];

/// Two packages that are nearly the same, one asked about after the other.
fn pairs(t: Tier, emit: &mut dyn FnMut(Case)) {
    let all = contents();
    let ask = |c: &mut Case, at: &str| {
        let name = at.rsplit_once("node_modules/").unwrap().1;
        let from = if at.starts_with("/w/s/") { "/w/s" } else { "/w" };
        c.req(from, name).req(from, &format!("{name}/a")).req(at, "#a").req(at, ".").req(at, "./x");
        c.ops.push(Op::Side(0, format!("{at}/x.js")));
    };
    for (i, (p, q)) in PLACES.iter().enumerate() {
        for op in [0, 1] {
            for (j, a) in all.iter().enumerate() {
                for (k, b) in all.iter().enumerate() {
                    if t == Tier::Quick && (i > 0 && (j * 7 + k) % 3 != 0 || op == 1 && !a.contains("browser")) {
                        continue;
                    }
                    let mut c = Case::default();
                    c.cold = false;
                    c.opts[0].browser = op == 1;
                    c.opts[0].conds = strs(&["node", "import"]);
                    c.note = format!("pair {p} {a:.80} {q} {b:.80} browser={op}");
                    for (d, text) in [(p, a), (q, b)] {
                        if text != "-" {
                            c.file(&format!("{d}/package.json"), text);
                        }
                        c.files(&[format!("{d}/x.js"), format!("{d}/y.js"), format!("{d}/index.js")]);
                    }
                    ask(&mut c, p);
                    ask(&mut c, q);
                    ask(&mut c, p);
                    emit(c);
                }
            }
        }
    }
}

/// Everything in order, in reverse, and twice.
pub fn sweeps(_: Tier, emit: &mut dyn FnMut(Case)) {
    for tr in 0..TREES {
        for op in 0..OPTS {
            let mut c = Case::default();
            c.cold = false;
            options(&mut c.opts[0], op);
            let pool = tree(&mut c, tr);
            c.note = format!("tree={tr} options={op} all");
            for (b, r) in pool.iter().chain(pool.iter().rev()).chain(pool.iter()) {
                c.req(b, r);
            }
            for (b, _) in pool.iter().rev() {
                c.ops.push(Op::Side(0, b.to_string()));
            }
            emit(c);
        }
    }
}
