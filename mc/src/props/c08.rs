//! C08: the `browser` field — replacements and `false`, relative to the package it stands in.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"keys": KEYS, "values": VALUES, "entries_per_map": "0..2, both orders", "places": ["importing package", "installed package"],
            "entry_points": ENTRY.len(), "browser_field_option": "on, off", "chains": CHAIN.len(), "thorough": t == Tier::Thorough}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const KEYS: &[&str] = &["./a.js", "./a", "a.js", "m", "m/x.js", "./lib/b.js", "./index.js", "../out.js", "@s/n", "./main.js", "./lib/../a.js", "gone", "./gone"];
const VALUES: &[&str] = &["false", "\"./r.js\"", "\"./r\"", "\"n\"", "\"./gone2.js\"", "\"./lib/b.js\"", "\"r.js\"", "true", "1", "\"./lib\"", "\"./a.js\"", "\"m\""];
const ENTRY: &[&str] = &["-", "\"./main.js\"", "\"main\"", "\"./a\"", "\"./lib\""];
/// maps whose values are keys again
const CHAIN: &[&str] = &[
    "{\"./a.js\":\"./b.js\",\"./b.js\":\"./r.js\"}",
    "{\"./a.js\":\"./b.js\",\"./b.js\":\"./a.js\"}",
    "{\"./a.js\":\"./a.js\"}",
    "{\"./a.js\":\"./b.js\",\"./b.js\":\"./c.js\",\"./c.js\":\"./b.js\"}",
    "{\"./a.js\":\"m\",\"m\":false}",
    "{\"./a.js\":\"m\",\"m\":\"./r.js\"}",
    "{\"m\":\"n\",\"n\":\"m\"}",
    "{\"m\":\"./a.js\",\"./a.js\":\"m\"}",
    "{\"m\":\"m\"}",
    "{\"n\":\"m\",\"m\":\"./a.js\",\"./a.js\":\"./r.js\"}",
    "{\"./a.js\":\"./b.js\",\"./b.js\":true}",
    "{\"./a.js\":\"./b.js\",\"./b\":\"./r.js\"}",
    "{\"./a\":\"./a.js\",\"./a.js\":\"./r.js\"}",
    "{\"./main.js\":\"./index.js\",\"./index.js\":\"./main.js\"}",
    "{\"./a.js\":\"q/a\"}",
    "{\"./main.js\":\"q\",\"./index.js\":\"q\"}",
    "{\"./a.js\":\"q/b\",\"./b.js\":\"q/a\"}",
    "{\"./a.js\":\"m\",\"./main.js\":\"q/lib\",\"./lib/index.js\":\"q\"}",
];

fn emit_map(map: &str, main: &str, on: bool, note: String, emit: &mut dyn FnMut(Case)) {
    let mut c = Case::default();
    c.note = note;
    c.opts[0].browser = on;
    let m = if main == "-" { String::new() } else { format!(",\"main\":{main}") };
    for d in ["/w/p", "/w/p/node_modules/q"] {
        c.file(&format!("{d}/package.json"), &format!("{{\"browser\":{map}{m}}}"));
        for f in ["a.js", "b.js", "c.js", "r.js", "lib/b.js", "lib/index.js", "main.js", "index.js", "out.js", "m.js"] {
            c.file(&format!("{d}/{f}"), "");
        }
    }
    c.files(&["/w/out.js", "/w/p/node_modules/m/index.js", "/w/p/node_modules/m/x.js", "/w/p/node_modules/n/index.js"]);
    c.files(&["/w/node_modules/@s/n/index.js", "/w/p/node_modules/a.js", "/w/p/node_modules/r.js"]);
    c.req("/w/p", "./a").req("/w/p", "./a.js").req("/w/p/lib", "../a").req("/w/p/lib", "./b").req("/w/p", "./lib/b.js");
    c.req("/w/p", "m").req("/w/p/lib", "m").req("/w/p/lib", "m/x").req("/w/p", "m/x.js").req("/w/p", "n").req("/w/p", "@s/n").req("/w/p", "a.js");
    c.req("/w", "./p").req("/w/p", ".").req("/w/p", "./index").req("/w/p", "../out").req("/w/p", "{R}/w/p/a.js").req("/w/p", "./lib");
    c.req("/w/p", "q").req("/w/p", "q/a").req("/w/p", "q/a.js").req("/w/p", "q/lib/b").req("/w/p/node_modules/q", "m").req("/w/p", "gone").req("/w/p", "./gone");
    c.req("/w/p", "q/lib").req("/w/p/lib", "./../a").req("/w/p", "./lib/../a.js").req("/w/p", "./a?x").req("/w", "./p/a.js").req("/w", "./p/lib/../a").req("/w/p", "q/gone");
    emit(c);
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c08(t, emit);
    words::c08(t, emit);
    for main in ENTRY {
        for map in CHAIN {
            for on in [true, false] {
                emit_map(map, main, on, format!("chain {map} main={main} on={on}"), emit);
            }
        }
        for map in ["\"./a.js\"", "null", "[]", "{}", "true"] {
            emit_map(map, main, true, format!("whole {map} main={main}"), emit);
        }
        for k in KEYS {
            for v in VALUES {
                for on in [true, false] {
                    emit_map(&format!("{{\"{k}\":{v}}}"), main, on, format!("one {k}={v} main={main} on={on}"), emit);
                }
            }
        }
    }
    for main in ["-", "\"./main.js\""] {
        for k0 in KEYS {
            for k1 in KEYS {
                if k0 == k1 {
                    continue;
                }
                for v0 in VALUES {
                    for v1 in VALUES {
                        if t == Tier::Quick && (main != "-" || v1.len() > 5 && v0.len() > 7) {
                            continue;
                        }
                        emit_map(&format!("{{\"{k0}\":{v0},\"{k1}\":{v1}}}"), main, true, format!("two {k0}={v0} {k1}={v1} main={main}"), emit);
                    }
                }
            }
        }
    }
}
