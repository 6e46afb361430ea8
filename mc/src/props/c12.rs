//! C12: the query and the fragment of a request come back verbatim, whatever way it was resolved.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"suffixes": format!("every string of 0..{} symbols over {ALPHABET:?} that starts with ? or #, plus {}", depth(t), ODD.len()), "routes": ROUTES, "options": OPTIONS}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const ALPHABET: &[&str] = &["?", "#", "a", "/", ".", "é"];
const ODD: &[&str] = &["?a=1&b=2", "#f?x", "?x#y#z", "?./a", "?..", "#/../..", "?a b", "?%20", "? ", "?\u{0}", "?\\", "#*", "?$&", "?node_modules", "?{", "#💥?💥"];
/// (base, request without suffix)
const ROUTES: &[(&str, &str)] = &[
    ("/w", "./f.js"), ("/w", "./f"), ("/w", "./d"), ("/w", "./d/"), ("/w", "./p"), ("/w/d", "."), ("/w/d", ".."), ("/w/d", "../f"), ("/w", "{R}/w/f"), ("/w", "m"), ("/w", "m/x"), ("/w", "@s/m"), ("/w", "al"), ("/w", "al/x"),
    ("/w", "br"), ("/w", "./br.js"), ("/w", "ts"), ("/w", "ts/f"), ("/w", "./é"), ("/w", "ig"), ("/w", "gone"), ("/w", "./gone"), ("/w", ""), ("/w/d", ""), ("/w", "f"), ("/w", "./l"), ("/w", "#h"), ("/w", "mb"), ("/w", "ah"), ("/w", "ah/x"), ("/w", "aq"),
];
const OPTIONS: usize = 6;

fn depth(t: Tier) -> usize {
    if t == Tier::Quick { 4 } else { 6 }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c12(t, emit);
    words::c12(t, emit);
    let mut suffixes: Vec<String> = vec![String::new()];
    let mut words: Vec<String> = vec!["?".into(), "#".into()];
    for _ in 0..depth(t) {
        suffixes.extend(words.iter().cloned());
        words = words.iter().flat_map(|w| ALPHABET.iter().map(move |a| format!("{w}{a}"))).collect();
    }
    suffixes.extend(ODD.iter().map(|s| s.to_string()));
    for s in &suffixes {
        for o in 0..OPTIONS {
            let mut c = Case::default();
            c.note = format!("suffix={s:?} options={o}");
            c.files(&["/w/f.js", "/w/d/index.js", "/w/d/x.js", "/w/index.js", "/w/é.js", "/w/#h.js", "/w/t.js", "/w/e#/v?.js", "/w/e#/v?/x.js", "/w/node_modules/m?.js", "/w/e.js", "/w/e/index.js"]);
            c.file("/w/p/package.json", "{\"main\":\"./lib\"}").files(&["/w/p/lib/index.js"]);
            c.files(&["/w/node_modules/m/index.js", "/w/node_modules/m/x.js", "/w/node_modules/@s/m.js", "/w/node_modules/mb/a.js", "/w/node_modules/mb/b.js"]);
            c.file("/w/node_modules/mb/package.json", "{\"main\":\"./a\",\"browser\":{\"./a.js\":\"./b.js\"}}");
            c.link("/w/l", "{R}/w/f.js");
            let opt = &mut c.opts[0];
            let mut pkg = "{}";
            match o {
                0 => {}
                1 => {
                    opt.alias = vec![("al".into(), Some("./d".into())), ("ig".into(), None), ("f".into(), Some("m".into())), ("ah".into(), Some("./e#/v?".into())), ("aq".into(), Some("m?".into()))];
                    opt.symlinks = false;
                }
                2 => {
                    opt.browser = true;
                    pkg = "{\"browser\":{\"br\":\"./f.js\",\"./br.js\":\"./d/x.js\",\"ig\":false,\"m\":\"@s/m\"}}";
                }
                3 => {
                    opt.tsconfig = Some("/w/tsconfig.json".into());
                    c.file("/w/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"ts\":[\"./gone\",\"./d\"],\"ts/*\":[\"./*\"]}}}");
                }
                4 => opt.prefer_relative = true,
                _ => {
                    opt.alias = vec![("al".into(), Some("br".into()))];
                    opt.browser = true;
                    opt.tsconfig = Some("/w/tsconfig.json".into());
                    opt.prefer_relative = true;
                    pkg = "{\"browser\":{\"br\":\"./f.js\",\"ig\":false}}";
                    c.file("/w/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"ts\":[\"./t\"],\"al/*\":[\"./*\"]}}}");
                }
            }
            c.file("/w/package.json", pkg);
            for (b, r) in ROUTES {
                c.req(b, &format!("{r}{s}"));
            }
            emit(c);
        }
    }
}
