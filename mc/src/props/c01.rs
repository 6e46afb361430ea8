//! C01: path requests — file, then extensions in order, then directory.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({
            "entries": "9 kinds of `a` x 5 of `a.js` x 2 of `a.json` x 3 of `a.ts` below /p",
            "extension_lists": exts(t).len(),
            "enforce_extension": 3,
            "requests": requests().len(),
            "names": NAMES, "files_per_name": "every subset of 5 kinds of what a name (with extensions, also twice) stands for",
        }),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

fn exts(t: Tier) -> Vec<Vec<&'static str>> {
    let mut v = vec![
        vec![],
        vec![".js"],
        vec![".js", ".json", ".ts"],
        vec![".ts", ".json", ".js"],
        vec![".json", ".ts"],
        vec!["", ".js"],
        vec![".ts", "", ".js"],
        vec![".js", ".js"],
    ];
    if t == Tier::Thorough {
        v.extend([vec![".js", ".ts", ".json", ".x", ".y", ".z"], vec!["js"], vec![".a.js", ".js"], vec![""], vec!["/index.js", ".js"]]);
    }
    v
}

fn requests() -> Vec<(&'static str, &'static str)> {
    vec![
        ("/p", "./a"),
        ("/p", "./a.js"),
        ("/p", "./a.ts"),
        ("/p", "./a/"),
        ("/p", "./a/."),
        ("/p", "./a/index"),
        ("/p", "./a/../a"),
        ("/p", "././a"),
        ("/p", ".//a"),
        ("/p", "../p/a"),
        ("/p", "{R}/p/a"),
        ("/p", "{R}/p/a.json"),
        ("/p/a", "."),
        ("/p/a", ".."),
        ("/p/a", "../a"),
        ("/p/a", "./"),
        ("/p/a", ""),
        ("/p/q", "../a"),
        ("/p/q/r", "../../a"),
        ("/p/none", "../a"),
        ("/p", "./missing"),
        ("/p", "{R}/missing"),
    ]
}

const NAMES: &[&str] = &[
    "a", "a.js", "a.b", "a.b.js", ".a", ".js", "..a", "...", "a.", "A", "é", "a b", " a", "a ", "@a", "index", "index.js", "package.json", "node_modules", "a*", "$a", "%20", "a\\b", "-", "~", "a,b", "(a)", "a:b", "C:", "{a}", "a+b", "aa.jsjs",
];

/// What a name looks like does not matter.
fn names(t: Tier, emit: &mut dyn FnMut(Case)) {
    let exts: &[&[&str]] = &[&[".js", ".ts"], &[".ts", ".js"], &["", ".js"], &[".js", ""], &[".js.js", ".js"], &["js", ".b.js"], &[".d.ts", ".min.js", ".js"], &["/index.js", ".js"], &["é", " "], &[]];
    for n in NAMES {
        for have in 0..32u32 {
            for (x, ext) in exts.iter().enumerate() {
                if t == Tier::Quick && x > 3 && have % 3 != 0 {
                    continue;
                }
                for enf in [None, Some(true), Some(false)] {
                    let mut c = Case::default();
                    c.note = format!("names {n:?} have={have:05b} ext={ext:?} enforce={enf:?}");
                    c.dir("/p/q");
                    if have & 1 > 0 {
                        c.files(&[format!("/p/{n}")]);
                    } else if have & 2 > 0 {
                        c.files(&[format!("/p/{n}/index.js"), format!("/p/{n}/{n}")]);
                    }
                    if have & 4 > 0 {
                        c.files(&[format!("/p/{n}.js"), format!("/p/{n}js")]);
                    }
                    if have & 8 > 0 {
                        c.files(&[format!("/p/{n}.js.js"), format!("/p/{n}.b.js"), format!("/p/{n}.ts.js")]);
                    }
                    if have & 16 > 0 {
                        c.files(&[format!("/p/{n}.ts"), format!("/p/{n}.js.ts"), format!("/p/{n}é"), format!("/p/{n}.min.js")]);
                    }
                    c.opts[0].ext = strs(ext);
                    c.opts[0].enforce = enf;
                    c.req("/p", &format!("./{n}")).req("/p", &format!("./{n}.js")).req("/p", &format!("./{n}/")).req("/p", &format!("./{n}.js.js"));
                    c.req("/p/q", &format!("../{n}")).req("/p", &format!("{{R}}/p/{n}")).req("/p", &format!("./{n}/{n}")).req(&format!("/p/{n}"), ".").req("/p", &format!("./{n}.ts"));
                    emit(c);
                }
            }
        }
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c01(t, emit);
    words::c01(t, emit);
    names(t, emit);
    for a in 0..9 {
        for js in 0..5 {
            for jn in 0..2 {
                for ts in 0..3 {
                    for (x, ext) in exts(t).iter().enumerate() {
                        for (e, enf) in [None, Some(true), Some(false)].into_iter().enumerate() {
                            let mut c = Case::default();
                            c.note = format!("a={a} a.js={js} a.json={jn} a.ts={ts} ext={x} enforce={e}");
                            c.dir("/p/q/r");
                            match a {
                                1 => c.files(&["/p/a"]),
                                2 => c.dir("/p/a"),
                                3 => c.files(&["/p/a/index.js", "/p/a/index.ts"]),
                                4 => c.file("/p/a/package.json", "{\"main\":\"m\"}").files(&["/p/a/m.js", "/p/a/m.ts"]),
                                5 => c.link("/p/a", "q/f").files(&["/p/q/f"]),
                                6 => c.link("/p/a", "q/r").files(&["/p/q/r/index.js"]),
                                7 => c.link("/p/a", "nowhere"),
                                8 => c.special("/p/a"),
                                _ => &mut c,
                            };
                            match js {
                                1 => c.files(&["/p/a.js"]),
                                2 => c.files(&["/p/a.js/index.js"]),
                                3 => c.link("/p/a.js", "nowhere"),
                                4 => c.special("/p/a.js"),
                                _ => &mut c,
                            };
                            if jn == 1 {
                                c.files(&["/p/a.json"]);
                            }
                            match ts {
                                1 => c.files(&["/p/a.ts"]),
                                2 => c.link("/p/a.ts", "q/g.ts").files(&["/p/q/g.ts"]),
                                _ => &mut c,
                            };
                            c.opts[0].ext = strs(ext);
                            c.opts[0].enforce = enf;
                            for (b, r) in requests() {
                                c.req(b, r);
                            }
                            emit(c);
                        }
                    }
                }
            }
        }
    }
}
