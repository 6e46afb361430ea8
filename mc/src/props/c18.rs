//! C18: totality — every request string, base directory, field value and option ends in a result or
//! an error. Run in a build with and in one without the crate's debug assertions.
use super::*;
use crate::exec::{describe, Act, Ran};
use std::sync::atomic::Ordering::Relaxed;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        gen,
        explore: |c, r| {
            crate::exec::NO_SPEC.store(std::env::var_os("MC_SPEC").is_none(), Relaxed);
            r.run(c);
        },
        oracle,
        bounds: |t| json!({
            "requests": format!("every string of up to {} characters over {:?}, from {} base directories under {} option sets", len(t), ALPHA, BASES.len(), SETS),
            "fields": format!("{} fields x {} values (and, within objects, {} keys), requested in {} ways", FIELDS.len(), values(1).len(), KEYS.len(), QUESTIONS.len()),
            "documents": DOCS.len(), "options": "odd extensions, main files, main fields, aliases, description files, tsconfigs, and their pairs",
            "large": "long and deeply nested requests, keys, conditions, chains",
            "builds": "release and debug assertions"}),
        rests_on: &[FS_MODEL, "termination is judged by a budget of file-system calls per question and by a 30 s watchdog",
            "JSON nested deeper than the parsers of the dependencies accept on an 8 MB stack is outside"],
    }
}

fn oracle(_: &Case, ran: &Ran) -> Result<(), String> {
    if std::env::var_os("MC_SPEC").is_some() {
        return crate::exec::check_all(&ran.steps);
    }
    match ran.steps.iter().find(|s| matches!(s.act, Act::Panic(_))) {
        Some(s) => Err(describe(s)),
        None => Ok(()),
    }
}

const ALPHA: &[&str] = &["a", ".", "/", "#", "?", "@", "*", "é", "\\", ":", "\0", "$", "{"];
const BASES: &[&str] = &["/w", "/w/a", "/", "", ".", "..", "../..", "w", "w/../..", "/w/a.js", "/gone/x", "/w/../..", "//w//.", "/w/é/.", "é", "/w/\u{10FFFF}", "\u{10FFFF}"];
const SETS: usize = 9;

fn len(t: Tier) -> u32 {
    if t == Tier::Quick { 4 } else { 5 }
}

fn set(o: &mut Opts, k: usize) {
    match k {
        0 => {}
        1 => {
            o.browser = true;
            o.main_fields = strs(&["browser", "main"]);
        }
        2 => o.tsconfig = Some("/w/tsconfig.json".into()),
        3 => {
            o.alias = vec![("a".into(), Some("./a".into())), ("#".into(), Some("a/".into())), ("é".into(), None), (".".into(), Some("é".into())), ("@".into(), Some("{R}/w".into()))];
            o.browser = true;
        }
        4 => {
            o.alias = vec![("".into(), Some("a".into())), ("".into(), Some("".into())), ("a".into(), Some("".into())), ("/".into(), Some("#a".into()))];
            o.prefer_relative = true;
        }
        5 => {
            o.prefer_relative = true;
            o.enforce = Some(true);
            o.symlinks = false;
        }
        6 => {
            o.desc = None;
            o.ext = vec![];
            o.main_files = vec![];
            o.main_fields = vec![];
            o.conds = vec![];
        }
        7 => {
            o.ext = strs(&["", ".", "/", "é", "/../.."]);
            o.main_files = strs(&["", ".", "..", "/", "é"]);
            o.main_fields = strs(&["", "exports", "name"]);
            o.enforce = Some(false);
        }
        _ => {
            o.desc = Some("".into());
            o.tsconfig = Some("/w/gone.json".into());
        }
    }
}

fn world(c: &mut Case) {
    c.file("/w/package.json", "{\"name\":\"a\",\"exports\":{\".\":\"./a.js\",\"./a\":\"./a.js\",\"./*\":\"./é/*.js\",\"./é/\":\"./é/\"},\"imports\":{\"#a\":\"./a.js\",\"#é\":\"a\",\"#a/*\":\"./*\",\"#a/é\":null,\"#/\":\"./\"},\"browser\":{\"./a.js\":\"./é.js\",\"a\":false,\"é\":\"#a\",\"#a\":\"@a/a\"}}");
    c.files(&["/w/a.js", "/w/é.js", "/w/é/a.js", "/w/é/é.js", "/w/a/index.js", "/w/a/a", "/a.js", "/w/\u{10FFFF}/a.js", "/w/\u{10FFFF}.js"]);
    c.file("/w/node_modules/a/package.json", "{\"name\":\"a\",\"main\":\"é\",\"exports\":{\".\":{\"a\":null,\"default\":[\"./é\",\"./a.js\"]},\"./*\":\"./*\",\"./a/*\":null,\"./é\":\"./a.js\"},\"browser\":{\".\":\"./é\",\"./a.js\":false}}");
    c.files(&["/w/node_modules/a/a.js", "/w/node_modules/a/é", "/w/node_modules/é.js", "/w/node_modules/@a/a/index.js", "/w/node_modules/é/index.js"]);
    c.file("/w/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"*\":[\"é/*\"],\"a\":[\"\"],\"a*\":[\"./*/a\",\"*\"],\"*é\":[\"{R}/w/*\"],\"@*a\":[],\"\":[\"a\"],\"#*\":[\"*\"]}}}");
    c.link("/w/l", ".").link("/w/node_modules/l", "../l/l");
}

pub const FIELDS: &[&str] = &["name", "version", "main", "exports", "imports", "browser", "sideEffects", "type", "", "é"];
pub const KEYS: &[&str] = &["", ".", "./", "./a", "./a/", "./*", "./é*é", "./*/*", "a", "@a/a", "#a", "#", "#/", "#a/*", "#é", "default", "node", "é", "/", "..", "./..", "/w/a.js", "0", "./node_modules/a"];
pub const QUESTIONS: &[(&str, &str)] = &[
    ("/w", "p"), ("/w", "p/a"), ("/w", "p/é"), ("/w", "p/a/é"), ("/w", "p/."), ("/w", "p/.."), ("/w", "p/"), ("/w", "p//"), ("/w", "./node_modules/p"), ("/w/node_modules/p", "#a"), ("/w/node_modules/p", "#é"),
    ("/w/node_modules/p", "#a/é"), ("/w/node_modules/p", "#"), ("/w/node_modules/p", "#/"), ("/w/node_modules/p", "./a"), ("/w/node_modules/p", "."), ("/w/node_modules/p", "p/a"), ("/w/node_modules/p", "p"), ("/w/node_modules/p", "é"), ("/w/node_modules/p", "a"), ("/w/node_modules/p/a", ".."), ("/w/node_modules/p", "a/é"),
];

/// JSON texts: every kind of value, nested up to `depth`.
pub fn values(depth: usize) -> Vec<String> {
    let mut v: Vec<String> = ["null", "true", "false", "0", "-1", "1e400", "1.5", "\"\"", "\".\"", "\"..\"", "\"/\"", "\"./\"", "\"./a\"", "\"./a.js\"", "\"a\"", "\"p\"", "\"p/a\"", "\"@a/a\"", "\"@\"", "\"@a\"", "\"#a\"", "\"#é\"", "\"#\"", "\"é\"", "\"./é/\"", "\"./*\"", "\"*\"", "\"./é*é\"", "\"./a?b#c\"", "\"./\\u0000\"", "\"../p/a.js\"", "\"./$1\"", "\"\\\\\"", "\"?\"", "\"#?\"", "[]", "{}"].iter().map(|s| s.to_string()).collect();
    if depth > 0 {
        let inner = values(depth - 1);
        for x in &inner {
            v.push(format!("[{x}]"));
            v.push(format!("[{x},\"./a.js\"]"));
        }
        for k in KEYS {
            for x in &inner {
                v.push(format!("{{\"{k}\":{x}}}"));
            }
        }
    }
    v
}

pub const DOCS: &[&str] = &["", " ", "null", "true", "1", "\"a\"", "[]", "[{}]", "{", "}", "{}", "{\"a\"}", "{\"a\":}", "{\"main\":\"./a\",}", "{\"main\":\"a\"}//", "\u{feff}{}", "{}{}", "\u{10FFFF}", "{\"\u{10FFFF}\":1}", "{\"main\":\"\u{10FFFF}\"}", "\0", "{\"exports\":{\"./a\":\"./a.js\",\"./a\":null}}", "{\"main\":\"\\ud800\"}", "/*", "//", "/**/", "{/**/}", "{\"a\":'b'}", "{a:1}"];

fn package(c: &mut Case) {
    c.files(&["/w/node_modules/p/a.js", "/w/node_modules/p/é", "/w/node_modules/p/é.js", "/w/node_modules/p/index.js", "/w/node_modules/p/a/index.js", "/w/node_modules/a/é.js", "/w/node_modules/@a/a.js", "/w/a.js"]);
}

fn ask(c: &mut Case) {
    for (b, r) in QUESTIONS {
        c.req(b, r);
    }
    for p in ["/w/node_modules/p/a.js", "/w/node_modules/p", "/w/node_modules/p/a/gone"] {
        c.ops.push(Op::Side(0, p.into()));
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    let quick = t == Tier::Quick;
    // request strings
    let n = ALPHA.len();
    for k in 0..SETS {
        for b in BASES {
            let l = len(t);
            for first in 0..n {
                for second in 0..=n {
                    let mut base = Case::default();
                    base.cold = false;
                    set(&mut base.opts[0], k);
                    world(&mut base);
                    base.note = format!("request set={k} base={b:?} {first} {second}");
                    let head = format!("{}{}", ALPHA[first], if second < n { ALPHA[second] } else { "" });
                    if second == n {
                        base.req(b, &head);
                        if first == 0 {
                            base.req(b, "");
                            for p in BASES {
                                base.ops.push(Op::Side(0, p.to_string()));
                                base.ops.push(Op::Norm(p.to_string()));
                            }
                        }
                        emit(base);
                        continue;
                    }
                    for rest in 0..=(l - 2) {
                        for i in 0..(n as u64).pow(rest) {
                            let mut s = head.clone();
                            let mut x = i;
                            for _ in 0..rest {
                                s.push_str(ALPHA[x as usize % n]);
                                x /= n as u64;
                            }
                            base.req(b, &s);
                            if k == 0 && *b == "/w" {
                                base.ops.push(Op::Norm(s.clone()));
                                base.ops.push(Op::Builtin(s.clone()));
                            }
                        }
                    }
                    emit(base);
                }
            }
        }
    }
    // fields of package.json
    for k in [0, 1, 5, 7] {
        let mut o = Opts::default();
        set(&mut o, k);
        for (i, doc) in DOCS.iter().enumerate() {
            let mut c = Case::default();
            c.opts = vec![o.clone()];
            c.note = format!("document {i} set={k}");
            package(&mut c);
            c.file("/w/node_modules/p/package.json", doc);
            ask(&mut c);
            c.cold = false;
            let ops = c.ops.clone();
            c.ops.extend(ops.clone());
            // repaired, touched, broken again
            for text in ["{\"main\":\"./a\"}", doc] {
                c.ops.push(Op::Tick(2000));
                c.ops.push(Op::Write("/w/node_modules/p/package.json".into(), text.into()));
                c.ops.extend(ops.clone());
            }
            emit(c);
        }
        for f in FIELDS {
            if k != 0 && !["main", "exports", "browser", "imports"].contains(f) {
                continue;
            }
            let deep = !quick && ["exports", "imports", "browser"].contains(f) && k != 5;
            for v in values(if deep { 2 } else { 1 }) {
                let mut c = Case::default();
                c.opts = vec![o.clone()];
                c.note = format!("field {f} {v} set={k}");
                package(&mut c);
                c.cold = false;
                c.file("/w/node_modules/p/package.json", &if *f == "name" { format!("{{\"name\":{v},\"exports\":\"./a.js\"}}") } else { format!("{{\"name\":\"p\",\"{f}\":{v}}}") });
                ask(&mut c);
                emit(c);
            }
        }
        // two fields at once: scalars
        for (f, g) in [("main", "browser"), ("exports", "browser"), ("imports", "browser"), ("exports", "imports"), ("main", "exports")] {
            for v in values(0) {
                for w in values(0) {
                    let mut c = Case::default();
                    c.opts = vec![o.clone()];
                    c.note = format!("fields {f} {v} {g} {w} set={k}");
                    package(&mut c);
                    c.cold = false;
                    let wrap = |f: &str, v: &str| match f {
                        "imports" => format!("{{\"#a\":{v}}}"),
                        "browser" => format!("{{\"./a.js\":{v},\"a\":{v},\"#a\":{v}}}"),
                        _ => v.to_string(),
                    };
                    c.file("/w/node_modules/p/package.json", &format!("{{\"name\":\"p\",\"{f}\":{},\"{g}\":{}}}", wrap(f, &v), wrap(g, &w)));
                    ask(&mut c);
                    emit(c);
                }
            }
        }
    }
    tsconfigs(emit);
    words::c10(t, emit);
    words::c08(t, emit);
    words::c07(t, emit);
    odd_options(quick, emit);
    large(quick, emit);
}

fn tsconfigs(emit: &mut dyn FnMut(Case)) {
    let mut one = |note: String, text: String| {
        let mut c = Case::default();
        c.opts[0].tsconfig = Some("/w/tsconfig.json".into());
        c.note = note;
        c.file("/w/tsconfig.json", &text);
        c.file("/w/base.json", "{\"compilerOptions\":{\"baseUrl\":\"./x\",\"paths\":{\"a\":[\"./a\"]}}}");
        c.files(&["/w/a.js", "/w/x/a.js", "/w/é.js", "/w/node_modules/a/index.js", "/w/node_modules/a/tsconfig.json", "/a.js"]);
        for r in ["a", "é", "a/é", "./a", "#a", "", "*", "@a/a", "/w/a", "éa"] {
            c.req("/w", r);
        }
        emit(c);
    };
    for d in DOCS {
        one(format!("tsconfig document {d}"), d.to_string());
    }
    for v in values(1) {
        one(format!("tsconfig compilerOptions {v}"), format!("{{\"compilerOptions\":{v}}}"));
        one(format!("tsconfig paths {v}"), format!("{{\"compilerOptions\":{{\"baseUrl\":\".\",\"paths\":{v}}}}}"));
        one(format!("tsconfig paths a {v}"), format!("{{\"compilerOptions\":{{\"baseUrl\":\"./x\",\"paths\":{{\"a\":{v},\"a*\":{v},\"*\":{v}}}}}}}"));
        one(format!("tsconfig extends {v}"), format!("{{\"extends\":{v},\"compilerOptions\":{{\"paths\":{{\"a\":[\"./é\"]}}}}}}"));
        one(format!("tsconfig baseUrl {v}"), format!("{{\"extends\":\"./base\",\"compilerOptions\":{{\"baseUrl\":{v},\"paths\":{{\"é*\":[\"*\"]}}}}}}"));
    }
}

fn odd_options(quick: bool, emit: &mut dyn FnMut(Case)) {
    let words = ["", ".", "..", "/", "./", "a", "./a", "../a", "#a", "#", "é", "/w", "{R}/w/a", "@", "@a/a", "*", "?", "a?b", "a#b", "\0", "browser", "exports", "./a/../.."];
    let reqs = ["", ".", "..", "./", "a", "./a", "#a", "é", "{R}/w/a", "@a/a", "a/é", "?a", "./é", "../w", "/"];
    let mut go = |note: String, o: Opts| {
        let mut c = Case::default();
        c.opts = vec![o];
        c.note = note;
        world(&mut c);
        c.cold = false;
        for b in ["/w", "/w/é", "/w/node_modules/a"] {
            for r in reqs {
                c.req(b, r);
            }
        }
        c.ops.push(Op::Side(0, "/w/a".into()));
        emit(c);
    };
    for a in words {
        for b in words {
            for t in 0..7 {
                let mut o = Opts::default();
                match t {
                    0 => o.ext = strs(&[a, b]),
                    1 => o.main_files = strs(&[a, b]),
                    2 => o.main_fields = strs(&[a, b]),
                    3 => o.alias = vec![(a.into(), Some(b.into()))],
                    4 => o.alias = vec![(a.into(), Some(b.into())), (b.into(), Some(a.into()))],
                    5 => {
                        o.desc = Some(a.into());
                        o.tsconfig = Some(format!("/w/{b}"));
                    }
                    _ => {
                        o.ext = strs(&[a]);
                        o.main_files = strs(&[b]);
                        o.enforce = Some(true);
                        o.browser = true;
                    }
                }
                go(format!("options {t} {a:?} {b:?}"), o);
            }
            if !quick {
                for d in words {
                    let mut o = Opts::default();
                    o.alias = vec![(a.into(), Some(b.into())), (b.into(), Some(d.into())), (d.into(), Some(a.into()))];
                    o.prefer_relative = true;
                    go(format!("options alias {a:?} {b:?} {d:?}"), o);
                }
            }
        }
    }
}

fn large(quick: bool, emit: &mut dyn FnMut(Case)) {
    for n in if quick { vec![40, 300] } else { vec![40, 120, 300, 1000] } {
        let mut go = |note: &str, f: &dyn Fn(&mut Case)| {
            let mut c = Case::default();
            c.note = format!("large {note} {n}");
            package(&mut c);
            f(&mut c);
            if c.ops.is_empty() {
                ask(&mut c);
            }
            emit(c);
        };
        let pj = "/w/node_modules/p/package.json";
        for unit in ["a/", "../", "./", "/", "*", "é", "#", "?", "@", "a*"] {
            let s = unit.repeat(n);
            go("request", &|c| {
                c.file("/w/node_modules/p/package.json", "{\"exports\":{\"./*\":\"./*\",\"./a/\":\"./\"},\"imports\":{\"#*\":\"./*\",\"#a/*\":\"p/*\"}}");
                for h in ["", "p/", "./", "#", "#a/", "/"] {
                    c.req("/w", &format!("{h}{s}"));
                    c.req("/w/node_modules/p", &format!("{h}{s}"));
                    c.req(&format!("/w/{s}"), &format!("{h}a"));
                }
            });
            go("key", &|c| {
                c.file(pj, &format!("{{\"name\":\"p\",\"exports\":{{\"./{s}\":\"./{s}\",\"./{s}*\":\"./{s}*\"}},\"imports\":{{\"#{s}\":\"./{s}\"}},\"browser\":{{\"./{s}\":\"./{s}\"}},\"main\":\"./{s}\"}}"));
                c.opts[0].browser = true;
                c.req("/w", &format!("p/{s}")).req("/w", &format!("p/{s}x")).req("/w/node_modules/p", &format!("#{s}")).req("/w", "p").req("/w/node_modules/p", &format!("./{s}"));
            });
        }
        let deep = n.min(60);
        go("conditions", &|c| {
            c.file(pj, &format!("{{\"exports\":{}\"./a.js\"{}}}", "{\"node\":".repeat(deep), "}".repeat(deep)));
        });
        go("arrays", &|c| {
            c.file(pj, &format!("{{\"exports\":{}\"./a.js\"{}}}", "[".repeat(deep), "]".repeat(deep)));
        });
        go("too deep", &|c| {
            c.file(pj, &format!("{{\"exports\":{}\"./a.js\"{}}}", "{\"node\":".repeat(n), "}".repeat(n)));
        });
        go("mains", &|c| {
            for i in 0..n.min(200) {
                c.file(&format!("/w/d{i}/package.json"), &format!("{{\"main\":\"../d{}\"}}", i + 1));
            }
            c.req("/w", "./d0");
        });
        go("browser chain", &|c| {
            c.opts[0].browser = true;
            let m: Vec<String> = (0..n.min(200)).map(|i| format!("\"./d{i}.js\":\"./d{}.js\"", i + 1)).collect();
            c.file("/w/package.json", &format!("{{\"browser\":{{{}}}}}", m.join(",")));
            for i in 0..=n.min(200) {
                c.files(&[format!("/w/d{i}.js")]);
            }
            c.req("/w", "./d0").req("/w", "./d3.js");
        });
        go("imports chain", &|c| {
            let m: Vec<String> = (0..n.min(200)).map(|i| format!("\"#d{i}\":\"#d{}\"", i + 1)).collect();
            c.file("/w/package.json", &format!("{{\"imports\":{{{}}}}}", m.join(",")));
            c.req("/w", "#d0");
        });
        go("aliases", &|c| {
            c.opts[0].alias = (0..n.min(200)).map(|i| (format!("d{i}x"), Some(format!("d{}x", i + 1)))).collect();
            c.req("/w", "d0x");
        });
        go("extends chain", &|c| {
            c.opts[0].tsconfig = Some("/w/t0.json".into());
            for i in 0..n.min(100) {
                c.file(&format!("/w/t{i}.json"), &format!("{{\"extends\":\"./t{}\"}}", i + 1));
            }
            c.file(&format!("/w/t{}.json", n.min(100)), "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"x\":[\"./a\"]}}}");
            c.req("/w", "x");
        });
        go("directories", &|c| {
            let d = "d/".repeat(n.min(400));
            c.files(&[format!("/w/{d}a.js")]);
            c.req(&format!("/w/{d}"), "./a").req(&format!("/w/{d}"), "a").req(&format!("/w/{d}"), "#a").req("/w", &format!("./{d}a"));
        });
        go("links", &|c| {
            for i in 0..n.min(60) {
                c.link(&format!("/w/l{i}"), &format!("l{}", i + 1));
            }
            c.link(&format!("/w/l{}", n.min(60)), "a.js").file("/w/a.js", "");
            c.req("/w", "./l0").req("/w", "./l30").req("/w", "./l50");
        });
    }
}
