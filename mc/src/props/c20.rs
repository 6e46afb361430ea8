//! C20: a failure that is simply "not found" is reported as `Resolve '<request>' failed in '<dir>'`
//! with the request and directory of the caller, whatever rewriting happened on the way.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"requests": REQS, "bases": BASES, "rewritings": REWRITES, "trees": TREES, "pairs_of_rewritings": true, "thorough": t == Tier::Thorough}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const REQS: &[&str] = &[
    "gone", "gone/x", "@s/gone", "./gone", "../gone", "{R}/w/gone", "./gone?q", "gone#f", "gone?q#f", "./gone.js?a=1&b#c?d", "é", "./é/x", ".", "..", "./", "a", "a/b", "b", "./a", "m", "m/gone", "@", "@s", "a%20b", "a b",
    "./gone/../x", "T0", "./T0", "#gone", "gone/", "C:/x", "?q", "",
];
const BASES: &[&str] = &["/w", "/w/src", "/w/none", "/w/src/..", "/", "/w/node_modules/m", "/w/é"];
const REWRITES: usize = 9;
const TREES: usize = 4;

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c20(t, emit);
    for tree in 0..TREES {
        for r0 in 0..REWRITES {
            for r1 in 0..REWRITES {
                if r1 < r0 || (t == Tier::Quick && tree > 1 && r0 != r1) {
                    continue;
                }
                for base in BASES {
                    let mut c = Case::default();
                    c.note = format!("tree={tree} rewriting={r0},{r1} base={base}");
                    for r in if r0 == r1 { vec![r0] } else { vec![r0, r1] } {
                        let o = &mut c.opts[0];
                        match r {
                            0 => {}
                            1 => o.alias.extend([("gone".into(), Some("elsewhere".into())), ("a".into(), Some("./gone".into()))]),
                            2 => o.alias.extend([("./gone".into(), Some("{R}/w/nowhere".into())), ("@s".into(), Some("m".into()))]),
                            3 => o.prefer_relative = true,
                            4 => {
                                o.tsconfig = Some("/w/tsconfig.json".into());
                                c.file("/w/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"gone\":[\"./lost\"],\"*\":[\"./nope/*\"],\"a/*\":[]}}}");
                            }
                            5 => {
                                o.browser = true;
                                c.file("/w/package.json", "{\"browser\":{\"gone\":\"./lost.js\",\"./gone.js\":\"./lost.js\",\"a\":\"b\",\"b\":\"a\"}}");
                            }
                            6 => o.main_files = vec![],
                            7 => {
                                o.ext = vec![];
                                o.enforce = Some(true);
                            }
                            _ => o.desc = None,
                        }
                    }
                    match tree {
                        0 => drop(c.dir("/w/src")),
                        1 => drop(c.dir("/w/src").dir("/w/node_modules/m").dir("/w/node_modules/@s").dir("/node_modules").dir("/w/é")),
                        2 => drop(c.dir("/w/src").dir("/w/gone").dir("/w/node_modules/gone/x").file("/w/node_modules/m/package.json", "{\"main\":\"gone\"}")),
                        _ => drop(c.dir("/w/src").file("/w/node_modules", "").link("/w/gone", "gone").link("/w/a", "{R}/w/lost").link("/w/src/node_modules", "{R}/w/src")),
                    }
                    for r in REQS {
                        c.req(base, r);
                    }
                    emit(c);
                }
            }
        }
    }
}
