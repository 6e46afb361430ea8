//! C26: `prefer_relative` — a bare request is first tried next to the importer, and only then as a module.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"local_entries": LOCAL, "modules": MODULES, "requests": REQS, "bases": BASES, "prefer_relative": [true, false],
            "combined_with": "alias, imports, browser field, enforce_extension, tsconfig paths", "thorough": t == Tier::Thorough}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const LOCAL: usize = 9;
const MODULES: usize = 5;
const EXTRA: usize = 7;
const REQS: &[&str] = &["a", "a/x", "a.js", "a/", "@s/a", "{R}/w/a", "{R}/a", "./a", ".", "..", "#a", "a?q#f", "../w/a", "é", "..a", "a/../b", "C:/a", ".a"];
const BASES: &[&str] = &["/w", "/w/src", "/w/gone", "/w/node_modules/a"];

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    for l in 0..LOCAL {
        for m in 0..MODULES {
            for e in 0..EXTRA {
                for on in [true, false] {
                    for b in BASES {
                        if t == Tier::Quick && !on && e > 2 {
                            continue;
                        }
                        let mut c = Case::default();
                        c.note = format!("local={l} module={m} extra={e} prefer={on} base={b}");
                        c.opts[0].prefer_relative = on;
                        for d in ["/w", "/w/src", ""] {
                            match l {
                                0 => {}
                                1 => drop(c.files(&[format!("{d}/a.js"), format!("{d}/é.js")])),
                                2 => drop(c.files(&[format!("{d}/a/index.js"), format!("{d}/a/x.js")])),
                                3 => drop(c.dir(&format!("{d}/a"))),
                                4 => {
                                    c.file(&format!("{d}/a/package.json"), "{\"main\":\"./m.js\",\"exports\":\"./e.js\"}");
                                    c.files(&[format!("{d}/a/m.js"), format!("{d}/a/e.js")]);
                                }
                                5 => drop(c.files(&[format!("{d}/a"), format!("{d}/#a.js"), format!("{d}/..a.js"), format!("{d}/.a.js")])),
                                6 => drop(c.files(&[format!("{d}/@s/a.js"), format!("{d}/a/x/index.js"), format!("{d}/b.js")])),
                                7 => drop(c.files(&[format!("{d}/index.js"), format!("{d}/.js"), format!("{d}/C:/a.js")])),
                                _ => drop(c.file(&format!("{d}/a/package.json"), "{").files(&[format!("{d}/a/index.js")])),
                            }
                        }
                        let nm = "/w/node_modules";
                        match m {
                            0 => {}
                            1 => drop(c.files(&[format!("{nm}/a/index.js"), format!("{nm}/a/x.js"), format!("{nm}/@s/a/index.js"), format!("{nm}/é/index.js"), format!("{nm}/b.js")])),
                            2 => {
                                c.file(&format!("{nm}/a/package.json"), "{\"exports\":{\".\":\"./i.js\"}}");
                                c.files(&[format!("{nm}/a/i.js"), format!("{nm}/a/x.js")]);
                            }
                            3 => drop(c.file(&format!("{nm}/a/package.json"), "{\"exports\":1}").files(&[format!("{nm}/a/index.js")])),
                            _ => drop(c.files(&[format!("{nm}/a.js"), format!("{nm}/..a/index.js"), format!("{nm}/.a/index.js")])),
                        }
                        match e {
                            0 => {}
                            1 => c.opts[0].alias = vec![("a".into(), Some("b".into()))],
                            2 => c.opts[0].alias = vec![("./a".into(), Some("./b".into()))],
                            3 => drop(c.file("/w/package.json", "{\"imports\":{\"#a\":\"./b.js\"},\"browser\":{\"./a.js\":\"./b.js\",\"a\":false}}").files(&["/w/b.js"])),
                            4 => {
                                c.opts[0].browser = true;
                                c.file("/w/package.json", "{\"imports\":{\"#a\":\"./b.js\"},\"browser\":{\"./a.js\":\"./b.js\",\"a\":false}}").files(&["/w/b.js"]);
                            }
                            5 => c.opts[0].enforce = Some(true),
                            _ => {
                                c.file("/w/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"a\":[\"./t/a.js\",\"./gone\"],\"@s/*\":[\"./t/*\"]}}}");
                                c.files(&["/w/t/a.js"]);
                                c.opts[0].tsconfig = Some("/w/tsconfig.json".into());
                            }
                        }
                        for r in REQS {
                            c.req(b, r);
                        }
                        emit(c);
                    }
                }
            }
        }
    }
}
