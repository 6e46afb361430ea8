//! C11: tsconfig loading — `extends` chains, inheritance, comments, malformed files, changes on disk.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |_| json!({"extends_targets": EXTENDS, "options_per_file": OPTIONS, "chain_length": "0..3, with cycles", "malformed_files": BAD, "well_formed_variants": TEXTS,
            "requests": REQS, "edits_between_requests": "rewrite, remove, create of each file of the chain on a warm resolver"}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const EXTENDS: &[&str] = &["./conf/base.json", "conf", "@s/conf/ts.json", "conf/base.json", "../up.json", "./tsconfig.json", "./conf/../tsconfig.json", "{R}/w/conf/base.json", "./p2.json", "./conf/gone.json", "./b"];
/// baseUrl / paths of one file
const OPTIONS: &[&str] = &[
    "",
    ",\"compilerOptions\":{\"baseUrl\":\"./src\"}",
    ",\"compilerOptions\":{\"paths\":{\"foo\":[\"./test.ts\"],\"x/*\":[\"./*\"]}}",
    ",\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"foo\":[\"./test.ts\"],\"x/*\":[\"./*\"]}}",
    ",\"compilerOptions\":{\"baseUrl\":\"./src\",\"paths\":{\"foo\":[\"./alt.ts\"],\"x/*\":[\"./sub/*\"]}}",
    ",\"compilerOptions\":{\"strict\":true}",
    ",\"compilerOptions\":{\"baseUrl\":null,\"paths\":null}",
    ",\"compilerOptions\":null",
];
pub const BAD: &[&str] = &[
    "", " ", "// only a comment", "{", "{\"compilerOptions\":{\"baseUrl\":1}}", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":1}}",
    "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":[]}}", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"foo\":\"./a\"}}}",
    "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"foo\":[1]}}}", "{\"compilerOptions\":{\"baseUrl\":[\".\"]}}", "{\"a\":1,}}",
    "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"foo\":{\"a\":\"b\"}}}}",
];
const TEXTS: &[&str] = &[
    "{}", "null", "1", "[]", "{\"extends\":1}", "{\"extends\":null}", "{\"extends\":{}}", "{\"compilerOptions\":1}", "{\"compilerOptions\":[]}",
    "/* a */{\"compilerOptions\":{\"baseUrl\":\"./src\",// b\n\"paths\":{\"foo\":[\"./test.ts\",],},},}",
    "{\"compilerOptions\":{\"baseUrl\":\"./src\",\"paths\":{\"foo\":[\"./test.ts\"],\"//x/*\":[\"./y\"]}}}",
];
const REQS: &[&str] = &["foo", "x/test", "./src/test", "x/gone"];

fn base() -> Case {
    let mut c = Case::default();
    c.opts[0].tsconfig = Some("/w/tsconfig.json".into());
    c.opts[0].ext = strs(&[".ts", ".json"]);
    for d in ["/w", "/w/conf", "/w/node_modules/conf", "/w/node_modules/@s/conf", "/"] {
        let d = if d == "/" { "" } else { d };
        c.files(&[format!("{d}/test.ts"), format!("{d}/alt.ts"), format!("{d}/src/test.ts"), format!("{d}/src/alt.ts"), format!("{d}/src/sub/test.ts")]);
    }
    c
}

fn place(e: &str) -> &'static str {
    match e {
        "./conf/base.json" | "{R}/w/conf/base.json" => "/w/conf/base.json",
        "conf" => "/w/node_modules/conf/index.json",
        "@s/conf/ts.json" => "/w/node_modules/@s/conf/ts.json",
        "conf/base.json" => "/w/node_modules/conf/base.json",
        "../up.json" => "/up.json",
        "./p2.json" => "/w/p2.json",
        "./b" => "/w/b.json",
        _ => "",
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c11(t, emit);
    words::c11(t, emit);
    for (i, text) in BAD.iter().chain(TEXTS).enumerate() {
        // malformed: the file itself, or the one it extends
        let mut c = base();
        c.note = format!("text #{i}");
        c.file("/w/tsconfig.json", text);
        for r in REQS {
            c.req("/w", r);
        }
        emit(c);
        let mut c = base();
        c.note = format!("extended text #{i}");
        c.file("/w/tsconfig.json", "{\"extends\":\"./p2.json\",\"compilerOptions\":{}}").file("/w/p2.json", text);
        for r in REQS {
            c.req("/w", r);
        }
        emit(c);
        // .. and then repaired, and broken again
        let mut c = base();
        c.cold = false;
        c.note = format!("repaired text #{i}");
        c.file("/w/tsconfig.json", text);
        for x in [&OPTIONS[3][1..], &OPTIONS[4][1..]] {
            c.req("/w", "foo");
            c.ops.push(Op::Tick(5000));
            c.ops.push(Op::Write("/w/tsconfig.json".into(), format!("{{{x}}}")));
            c.req("/w", "foo").req("/w", "x/test");
            c.ops.push(Op::Tick(5000));
            c.ops.push(Op::Write("/w/tsconfig.json".into(), text.to_string()));
        }
        c.req("/w", "foo");
        c.ops.push(Op::Remove("/w/tsconfig.json".into()));
        c.req("/w", "foo");
        emit(c);
    }
    let mut c = base();
    c.note = "no file".into();
    c.req("/w", "foo").req("/w", "./src/test");
    emit(c);
    // files that are links
    for (i, o) in OPTIONS.iter().enumerate() {
        for (j, p) in OPTIONS.iter().enumerate() {
            for k in 0..6 {
                let mut c = base();
                c.note = format!("linked {k} {i} {j}");
                let one = |e: &str, o: &str| format!("{{\"extends\":\"{e}\"{o}}}");
                match k {
                    // the file itself
                    0 => drop(c.link("/w/tsconfig.json", "conf/real.json").file("/w/conf/real.json", &format!("{{\"a\":1{o}}}"))),
                    // .. and extends counts from where?
                    1 => drop(c.link("/w/tsconfig.json", "conf/real.json").file("/w/conf/real.json", &one("./b", o)).file("/w/b.json", &format!("{{\"a\":1{p}}}")).file("/w/conf/b.json", &format!("{{\"a\":1{o}}}"))),
                    // what it extends
                    2 => drop(c.file("/w/tsconfig.json", &one("./b", o)).link("/w/b.json", "conf/real.json").file("/w/conf/real.json", &format!("{{\"a\":1{p}}}"))),
                    // a directory on the way
                    3 => drop(c.file("/w/tsconfig.json", &one("./k/b.json", o)).link("/w/k", "conf").file("/w/conf/b.json", &format!("{{\"a\":1{p}}}"))),
                    // a linked package
                    4 => drop(c.file("/w/tsconfig.json", &one("lc/b.json", o)).link("/w/node_modules/lc", "{R}/w/conf").file("/w/conf/b.json", &format!("{{\"a\":1{p}}}"))),
                    // the option names a directory that is a link
                    _ => {
                        c.opts[0].tsconfig = Some("/w/k/real.json".into());
                        c.link("/w/k", "conf").file("/w/conf/real.json", &one("../b.json", o)).file("/w/b.json", &format!("{{\"a\":1{p}}}"));
                    }
                }
                for b in ["/w", "/w/conf"] {
                    for r in REQS {
                        c.req(b, r);
                    }
                }
                emit(c);
            }
        }
    }
    let mut c = base();
    c.note = "a directory".into();
    c.dir("/w/tsconfig.json").req("/w", "foo");
    emit(c);

    let file = |e: Option<&str>, o: &str| match e {
        Some(e) => format!("{{\"extends\":\"{e}\"{o}}}"),
        None => format!("{{\"a\":1{o}}}"),
    };
    for o in OPTIONS {
        let mut c = base();
        c.note = format!("alone {o}");
        c.file("/w/tsconfig.json", &file(None, o));
        for b in ["/w", "/w/conf", "/"] {
            for r in REQS {
                c.req(b, r);
            }
        }
        emit(c);
    }
    for e in EXTENDS {
        for (i, o) in OPTIONS.iter().enumerate() {
            for (j, p) in OPTIONS.iter().enumerate() {
                for w in 0..3 {
                    let mut c = base();
                    c.note = format!("extends {e} {i} {j} warm={w}");
                    c.file("/w/tsconfig.json", &file(Some(e), o));
                    let at = place(e);
                    if !at.is_empty() {
                        c.file(at, &file(None, p));
                    } else if j > 0 {
                        continue;
                    }
                    for r in REQS {
                        c.req("/w", r);
                    }
                    if w > 0 {
                        c.cold = false;
                        let all = c.ops.clone();
                        let edit = |c: &mut Case, op: Op| {
                            c.ops.push(Op::Tick(3000));
                            c.ops.push(op);
                            c.ops.extend(all.iter().cloned());
                        };
                        let q = OPTIONS[(j + w) % OPTIONS.len()];
                        if !at.is_empty() {
                            edit(&mut c, Op::Write(at.into(), file(None, q)));
                            edit(&mut c, Op::Remove(at.into()));
                            edit(&mut c, Op::Write(at.into(), file(None, p)));
                        }
                        edit(&mut c, Op::Write("/w/tsconfig.json".into(), file(None, q)));
                        edit(&mut c, Op::Write("/w/tsconfig.json".into(), file(Some(EXTENDS[0]), q)));
                        edit(&mut c, Op::Write("/w/tsconfig.json".into(), file(Some(e), q)));
                    }
                    emit(c);
                }
            }
        }
    }
    // chains of three, and cycles over two and three files
    let places = ["./p2.json", "./conf/base.json", "conf", "../up.json"];
    for (a, e) in places.iter().enumerate() {
        for (b, f) in places.iter().enumerate() {
            if a == b {
                continue;
            }
            for (i, o) in OPTIONS.iter().enumerate() {
                for (j, p) in OPTIONS.iter().enumerate() {
                    for (k, q) in OPTIONS.iter().enumerate() {
                        if t == Tier::Quick && (i + j + k) % 2 == 1 {
                            continue;
                        }
                        for end in 0..3 {
                            let mut c = base();
                            let (x, y) = (place(e), place(f));
                            let from = crate::spec::parent(x).unwrap();
                            let rel = |to: &str| format!("{{R}}{to}");
                            c.note = format!("chain {e} {f} from {from} {i} {j} {k} end={end}");
                            c.file("/w/tsconfig.json", &file(Some(e), o));
                            c.file(x, &file(Some(&rel(y)), p));
                            let last = match end {
                                0 => None,
                                1 => Some(rel("/w/tsconfig.json")),
                                _ => Some(rel(x)),
                            };
                            c.file(y, &file(last.as_deref(), q));
                            for r in &REQS[..2] {
                                c.req("/w", r);
                            }
                            emit(c);
                        }
                    }
                }
            }
        }
    }
}
