//! C09: the `alias` option — ordered prefix rules, chains, fall-through, cycles, packages left alone.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"from": FROM, "to": TO, "rules_per_list": if t == Tier::Quick { "1..2 of all, all orders; 3 of a reduced set" } else { "1..2 of all; 3 of a larger set" },
            "requests": REQS, "bases": BASES, "layouts": LAYOUTS}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const FROM: &[&str] = &["a", "a/", "b", "./a", "@/", "é", "ab", "{R}/w/a", ""];
/// None = ignored
const TO: &[Option<&str>] = &[
    None,
    Some("b"),
    Some("a"),
    Some("m"),
    Some("./src"),
    Some("{R}/w/src"),
    Some("./src/x.js"),
    Some("gone"),
    Some("m/y.js"),
    Some("bb"),
    Some("{R}/w/gone"),
    Some("@/"),
    Some("./é/"),
    Some("#a"),
    Some("./src#1/x"),
    Some("m?r"),
];
const REQS: &[&str] = &["a", "a/x.js", "a/x", "ab", "b", "b/y", "./a", "./a/x", "@/x.js", "é", "éx", "m", "{R}/w/a", "a?q#f", "a#f", "#a", "../w/a", "bba"];
const BASES: &[&str] = &["/w", "/w/src", "/w/node_modules/m", "/w/gone"];
const LAYOUTS: usize = 3;

fn case(rules: &[(&str, Option<&str>)], layout: usize, base: &str, emit: &mut dyn FnMut(Case)) {
    let mut c = Case::default();
    c.note = format!("{rules:?} layout={layout} base={base}");
    c.opts[0].alias = rules.iter().map(|(f, t)| (f.to_string(), t.map(String::from))).collect();
    c.files(&["/w/src#1/x.js", "/w/src#1/x/x.js", "/w/node_modules/m?r/index.js", "/w/node_modules/m?r.js", "/w/src.js", "/w/src/x.js", "/w/src/index.js", "/w/src/y.js", "/w/é/x.js", "/w/é/index.js", "/w/src/src/x.js"]);
    c.files(&["/w/node_modules/m/index.js", "/w/node_modules/m/y.js", "/w/node_modules/m/x.js", "/w/node_modules/m/b.js"]);
    match layout {
        0 => {}
        1 => {
            c.files(&["/w/a/x.js", "/w/a/index.js", "/w/a.js", "/w/ab.js", "/w/b/y.js", "/w/@/x.js"]);
            c.file("/w/package.json", "{\"imports\":{\"#a\":\"./src/y.js\",\"#b\":\"a\"}}");
        }
        _ => {
            c.files(&["/w/node_modules/a/x.js", "/w/node_modules/a/index.js", "/w/node_modules/b/y.js", "/w/node_modules/b/index.js", "/w/node_modules/ab.js"]);
            c.files(&["/w/node_modules/@/x.js", "/w/node_modules/bb/index.js", "/w/node_modules/é/index.js"]);
            c.file("/w/node_modules/b/package.json", "{\"exports\":{\".\":\"./index.js\",\"./y\":\"./y.js\"}}");
        }
    }
    for r in REQS {
        c.req(base, r);
    }
    emit(c);
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c09(t, emit);
    words::c09(t, emit);
    let rules: Vec<(&str, Option<&str>)> = FROM.iter().flat_map(|f| TO.iter().map(move |t| (*f, *t))).collect();
    for l in 0..LAYOUTS {
        for b in BASES {
            for r in &rules {
                case(&[*r], l, b, emit);
            }
        }
        for (i, r0) in rules.iter().enumerate() {
            for (j, r1) in rules.iter().enumerate() {
                case(&[*r0, *r1], l, BASES[if t == Tier::Quick { (i + j) % 3 } else { j % 2 }], emit);
            }
        }
    }
    let (fs, ts) = if t == Tier::Quick { (3, 6) } else { (5, 8) };
    let few: Vec<_> = FROM.iter().take(fs).flat_map(|f| TO.iter().take(ts).map(move |t| (*f, *t))).collect();
    for r0 in &few {
        for r1 in &few {
            for r2 in &few {
                case(&[*r0, *r1, *r2], 1, BASES[0], emit);
                case(&[*r0, *r1, *r2], 2, BASES[0], emit);
            }
        }
    }
}
