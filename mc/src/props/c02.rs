//! C02: what a directory resolves to — main fields in configured order, then main files.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |_| json!({"main_values": MAINS.len(), "module_values": MODULES.len(),
            "main_field_lists": FIELDS.len(), "main_file_lists": FILES.len(),
            "file_layouts": 48, "requests": 5, "mutual_nesting": "two directories pointing at each other, 12 x 12 mains x 3 field lists"}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

pub const MAINS: &[&str] = &[
    "-", "\"m\"", "\"./m\"", "\"m.js\"", "\"lib\"", "\"./lib\"", "\"lib/\"", "\"./lib/x\"", "\"../out\"", "\".\"",
    "\"./\"", "\"./.\"", "\"..\"", "\"\"", "\"missing\"", "\"lib/../m\"", "\"./lib/..\"", "1", "null", "{\"a\":\"m\"}", "[\"m\"]",
    "\"../d\"", "\".//\"",
];
const MODULES: &[&str] = &["-", "\"m\"", "\"./lib\"", "\"missing\"", "\".\"", "\"../out.js\"", "true"];
const FIELDS: &[&[&str]] = &[&["main"], &["module", "main"], &["main", "module"], &[]];
const FILES: &[&[&str]] = &[&["index"], &["main", "index"], &["missing", "lib/x", "index"], &[], &["./index", "../out"]];

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c02(t, emit);
    for main in MAINS {
        for module in MODULES {
            for fields in FIELDS {
                if *module != "-" && !fields.contains(&"module") {
                    continue;
                }
                for files in FILES {
                    for lib in 0..6 {
                        for bits in 0..8 {
                            if t == Tier::Quick && lib == 5 && bits & 1 == 1 {
                                continue;
                            }
                            let mut c = Case::default();
                            c.note = format!("main={main} module={module} fields={fields:?} files={files:?} lib={lib} bits={bits}");
                            c.opts[0].main_fields = strs(fields);
                            c.opts[0].main_files = strs(files);
                            for d in ["/p/d", "/p/node_modules/d"] {
                                let mut j = vec!["\"name\":\"d\"".to_string()];
                                if *main != "-" {
                                    j.push(format!("\"main\":{main}"));
                                }
                                if *module != "-" {
                                    j.push(format!("\"module\":{module}"));
                                }
                                c.file(&format!("{d}/package.json"), &format!("{{{}}}", j.join(",")));
                                let f = |s: &str| format!("{d}/{s}");
                                match lib {
                                    1 => c.file(&f("lib/index.js"), ""),
                                    2 => c.file(&f("lib/package.json"), "{\"main\":\"x\"}").file(&f("lib/x.js"), ""),
                                    3 => c.file(&f("lib.js"), ""),
                                    4 => c.dir(&f("lib")),
                                    5 => c.file(&f("lib/package.json"), "{\"main\":\"..\",\"module\":\"..\"}").file(&f("lib/x.js"), ""),
                                    _ => &mut c,
                                };
                                if bits & 1 != 0 {
                                    c.file(&f("m.js"), "");
                                }
                                if bits & 2 != 0 {
                                    c.file(&f("index.js"), "");
                                }
                                if bits & 4 != 0 {
                                    c.file(&f("main.json"), "");
                                }
                            }
                            c.files(&["/p/out.js", "/p/node_modules/out.js"]);
                            c.req("/p", "./d").req("/p", "./d/").req("/p/d", ".").req("/p", "d").req("/p/x", "{R}/p/d");
                            emit(c);
                        }
                    }
                }
            }
        }
    }
    // directories whose mains point at each other
    let ms = ["..", "../a", "./b", "b", ".", "", "../b", "./x", "missing", "../a/b", "b/..", "l"];
    for ma in ms {
        for mb in ms {
            for fields in [&["main"][..], &["module", "main"], &["m1", "m2", "module", "main"]] {
                for idx in 0..2 {
                    let mut c = Case::default();
                    c.note = format!("cycle {ma} {mb} {fields:?} {idx}");
                    c.opts[0].main_fields = strs(fields);
                    c.file("/p/a/package.json", &format!("{{\"main\":\"{ma}\",\"module\":\"{ma}\",\"m1\":\"{ma}\",\"m2\":\"./l\"}}"));
                    c.file("/p/a/b/package.json", &format!("{{\"main\":\"{mb}\",\"module\":\"{mb}\",\"m1\":\"{mb}\",\"m2\":\"l\"}}"));
                    c.link("/p/a/l", ".").link("/p/a/b/l", "..");
                    if idx == 1 {
                        c.files(&["/p/a/b/index.js"]);
                    }
                    c.req("/p", "./a").req("/p/a", "./b").req("/p", "./a/b");
                    emit(c);
                }
            }
        }
    }
}
