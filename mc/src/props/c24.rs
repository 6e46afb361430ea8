//! C24: the `description_file` option — every role of package.json is played by the file it names, or by none.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"description_file": NAMES, "contents": CONTENTS, "placed_as": "each assignment of contents to package.json and other.json of the dependency, and of the importing package",
            "requests": REQS, "thorough": t == Tier::Thorough}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const NAMES: &[Option<&str>] = &[Some("package.json"), Some("other.json"), None, Some("conf/p.json"), Some("index.js"), Some("é.json")];
const CONTENTS: &[&str] = &[
    "-",
    "{\"name\":\"m\",\"main\":\"./one.js\",\"sideEffects\":false}",
    "{\"name\":\"m\",\"main\":\"./two.js\",\"sideEffects\":true,\"browser\":{\"./one.js\":\"./two.js\",\"x\":false,\"./two.js\":\"./one.js\"}}",
    "{\"name\":\"m\",\"exports\":{\".\":\"./one.js\",\"./sub\":\"./two.js\"},\"imports\":{\"#a\":\"./one.js\"}}",
    "{\"name\":\"m\",\"exports\":\"./two.js\",\"imports\":{\"#a\":\"m\"},\"sideEffects\":[\"x\"]}",
    "{",
    "{\"exports\":1}",
];
const REQS: &[(&str, &str)] = &[
    ("/w", "m"), ("/w", "m/sub"), ("/w", "m/one.js"), ("/w", "m/one"), ("/w/node_modules/m", "#a"), ("/w/node_modules/m", "."), ("/w/node_modules/m", "x"), ("/w", "#a"), ("/w", "./one"), ("/w", "x"),
    ("/w", "."), ("/w/node_modules/m/conf", "./one"), ("/w/node_modules/m/conf", "#a"), ("/w/node_modules/m", "m"), ("/w/node_modules/m", "m/sub"),
];

/// Description files of either name at every level above a question, node_modules included.
fn levels(t: Tier, emit: &mut dyn FnMut(Case)) {
    const AT: [&str; 7] = ["", "/w", "/w/node_modules", "/w/node_modules/@s", "/w/node_modules/@s/m", "/w/node_modules/@s/m/lib", "/w/src"];
    let text = |i: usize| format!("{{\"name\":\"n{i}\",\"imports\":{{\"#a\":\"./f{i}.js\"}},\"browser\":{{\"./g.js\":\"./f{i}.js\",\"x\":false}},\"sideEffects\":[\"{i}\"],\"main\":\"./f{i}\",\"exports\":{{\".\":\"./f{i}.js\"}}}}");
    for name in [Some("other.json"), Some("package.json"), None] {
        for named in 0..1 << AT.len() {
            // package.json beside it: nowhere, everywhere, where the other one is not, at one place
            for beside in 0..3 + AT.len() {
                if t == Tier::Quick && (named + beside) % 2 == 1 || name.is_none() && named > 0 {
                    continue;
                }
                let mut c = Case::default();
                c.note = format!("levels {name:?} named={named:07b} beside={beside}");
                c.opts[0].desc = name.map(String::from);
                c.opts[0].browser = named % 3 == 0;
                for (i, d) in AT.iter().enumerate() {
                    let has = named >> i & 1 == 1;
                    if has {
                        c.file(&format!("{d}/{}", name.unwrap_or("other.json")), &text(i));
                    }
                    if name != Some("package.json") && (beside == 1 || beside == 2 && !has || beside == i + 3) {
                        c.file(&format!("{d}/package.json"), &text(9 - i));
                    }
                    c.files(&[format!("{d}/g.js"), format!("{d}/index.js")]);
                    for k in 0..10 {
                        c.files(&[format!("{d}/f{k}.js")]);
                    }
                }
                c.files(&["/w/node_modules/x.js"]);
                for d in AT {
                    let d = if d.is_empty() { "/" } else { d };
                    c.req(d, "#a").req(d, "./g").req(d, "x").req(d, "@s/m").req(d, "@s/m/g").req(d, ".").req(d, "n1").req(d, "n4");
                    c.ops.push(Op::Side(0, format!("{d}/g.js")));
                }
                emit(c);
            }
        }
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c24(t, emit);
    levels(t, emit);
    for name in NAMES {
        for a in 0..CONTENTS.len() {
            for b in 0..CONTENTS.len() {
                for x in 0..CONTENTS.len() {
                    for y in 0..CONTENTS.len() {
                        if t == Tier::Quick && (a + b + x + y) % 3 != 0 && y != 0 {
                            continue;
                        }
                        for browser in [false, true] {
                            let mut c = Case::default();
                            c.note = format!("{name:?} dependency: package.json={a} other={b}; importer: package.json={x} other={y} browser={browser}");
                            c.opts[0].desc = name.map(String::from);
                            c.opts[0].browser = browser;
                            let m = "/w/node_modules/m";
                            let other = match name {
                                None | Some("package.json") | Some("index.js") => "other.json",
                                Some(n) => n,
                            };
                            for (d, p, o) in [(m, a, b), ("/w", x, y)] {
                                if p > 0 {
                                    c.file(&format!("{d}/package.json"), CONTENTS[p]);
                                }
                                if o > 0 {
                                    c.file(&format!("{d}/{other}"), CONTENTS[o]);
                                }
                            }
                            c.files(&["/w/one.js", "/w/two.js", "/w/node_modules/x/index.js"]);
                            c.files(&[format!("{m}/one.js"), format!("{m}/two.js"), format!("{m}/sub.js"), format!("{m}/conf/one.js")]);
                            if *name != Some("index.js") {
                                c.files(&[format!("{m}/index.js")]);
                            }
                            for (b, r) in REQS {
                                c.req(b, r);
                            }
                            for p in [m, "/w", "/w/node_modules/m/conf/x"] {
                                c.ops.push(Op::Side(0, p.into()));
                            }
                            emit(c);
                        }
                    }
                }
            }
        }
    }
}
