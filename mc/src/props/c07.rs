//! C07: `imports` — `#name` requests of a package, exact, wildcard and folder keys, to files and packages.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"keys": KEYS, "values": VALUES, "entries_per_map": "1..2, both orders", "requests": REQS, "dependency_layouts": DEPS, "chains": CHAINS,
            "thorough": t == Tier::Thorough}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const KEYS: &[&str] = &["#a", "#a/b", "#a/*", "#a/", "#a*", "#ab", "#é", "#a/b/*", "#dep", "#$*"];
const VALUES: &[&str] = &[
    "\"./f.js\"", "\"./d/*\"", "\"./d/\"", "\"m\"", "\"m/x.js\"", "\"@s/n\"", "\"m/*\"", "\"m/\"", "null", "\"./gone.js\"", "\"./../out.js\"", "\"#zz\"", "\"#a\"",
    "[\"./f.js\",\"m\"]", "[\"./gone.js\",\"./f.js\"]", "{\"node\":\"m\",\"default\":\"./f.js\"}", "{\"x\":\"m\"}", "\"../out.js\"", "\"gone\"", "\"self\"", "\"./d\"",
    "\"{R}/w/p/f.js\"",
];
const REQS: &[&str] = &["#a", "#a/b", "#a/b.js", "#a/b/c", "#ab", "#abc", "#é", "#dep", "#gone", "#", "#/a", "#a/", "#a/../b", "#$&", "#a/x.js", "#a?q", "#a/x.js?q"];
const DEPS: usize = 8;
/// imports that lead to other imports
const CHAINS: &[&str] = &[
    "{\"#a\":\"#b\",\"#b\":\"./f.js\"}",
    "{\"#a\":\"#b\",\"#b\":\"#a\"}",
    "{\"#a\":\"#a\"}",
    "{\"#a\":\"#b\",\"#b\":\"#c\",\"#c\":\"#a\"}",
    "{\"#a\":\"#gone\"}",
    "{\"#a\":\"#b/x.js\",\"#b/*\":\"./d/*\"}",
    "{\"#a*\":\"#ab*\"}",
    "{\"#a*\":\"#a*\"}",
    "{\"#a\":\"#b\",\"#b\":\"m\"}",
    "{\"#a\":{\"node\":\"#b\"},\"#b\":[\"#ab\"],\"#ab\":\"@s/n\"}",
];
pub const BAD: &[&str] = &["\"./f.js\"", "[\"./f.js\"]", "null", "1", "{\"a\":\"./f.js\"}", "{\"#\":\"./f.js\"}", "{\"#/a\":\"./f.js\"}", "{\"#a\":1}", "{}", "{\"./a\":\"./f.js\"}"];

fn case(imports: &str, dep: usize, note: String, emit: &mut dyn FnMut(Case)) {
    let mut c = Case::default();
    c.note = note;
    c.file("/w/p/package.json", &format!("{{\"name\":\"self\",\"main\":\"./f.js\",\"imports\":{imports}}}"));
    c.files(&["/w/p/f.js", "/w/p/d/b", "/w/p/d/b.js", "/w/p/d/x.js", "/w/p/d/b.x/c", "/w/p/d/é", "/w/p/d/&", "/w/out.js", "/w/p/d/bc", "/w/p/d/index.js"]);
    let m = "/w/p/node_modules/m";
    match dep {
        0 => drop(c.files(&[format!("{m}/index.js"), format!("{m}/x.js"), format!("{m}/b")])),
        1 => {
            c.file(&format!("{m}/package.json"), "{\"main\":\"./lib/main.js\"}");
            c.files(&[format!("{m}/lib/main.js"), format!("{m}/x.js"), format!("{m}/b.js")]);
        }
        2 => {
            c.file(&format!("{m}/package.json"), "{\"name\":\"m\",\"exports\":{\".\":\"./e.js\",\"./x.js\":\"./y.js\",\"./b\":\"./e.js\"},\"imports\":{\"#a\":\"./e.js\",\"#self\":\"./y.js\"}}");
            c.files(&[format!("{m}/e.js"), format!("{m}/y.js"), format!("{m}/x.js")]);
        }
        3 => drop(c.files(&["/w/node_modules/m/index.js", "/w/node_modules/m/x.js", "/w/node_modules/m/b.js"])),
        4 => drop(c.dir("/w/p/node_modules").file("/w/p/src/package.json", "{}")),
        // the directory that asks has modules of its own
        5 => {
            c.files(&["/w/p/src/node_modules/m/index.js", "/w/p/src/node_modules/m/x.js", "/w/p/src/node_modules/@s/n/index.js"]);
            c.files(&[format!("{m}/index.js"), format!("{m}/x.js")]);
        }
        6 => drop(c.files(&["/w/p/src/node_modules/m/index.js", "/w/p/src/node_modules/m/b", "/w/p/src/node_modules/self/index.js"])),
        _ => {}
    }
    c.files(&["/w/node_modules/@s/n/index.js"]);
    c.dir("/w/p/src");
    for b in ["/w/p", "/w/p/src"] {
        for r in REQS {
            c.req(b, r);
        }
    }
    c.req("/w", "#a").req(m, "#a").req(m, "#self").req("/w/p/gone", "#a").req("/w/p/src", "./#a").req("/w/p", "self");
    emit(c);
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c07(t, &[], emit);
    words::c07(t, emit);
    for dep in 0..DEPS {
        for i in CHAINS {
            case(i, dep, format!("chain {i} dep={dep}"), emit);
        }
        for i in BAD {
            case(i, dep, format!("bad {i} dep={dep}"), emit);
        }
        for k in KEYS {
            for v in VALUES {
                case(&format!("{{\"{k}\":{v}}}"), dep, format!("one {k}={v} dep={dep}"), emit);
            }
        }
    }
    for k0 in KEYS {
        for k1 in KEYS {
            if k0 == k1 {
                continue;
            }
            for (i, v0) in VALUES.iter().enumerate() {
                for (j, v1) in VALUES.iter().enumerate() {
                    for dep in 0..DEPS {
                        if t == Tier::Quick && dep != (i + j) % DEPS {
                            continue;
                        }
                        case(&format!("{{\"{k0}\":{v0},\"{k1}\":{v1}}}"), dep, format!("two {k0}={v0} {k1}={v1} dep={dep}"), emit);
                    }
                }
            }
        }
    }
}
