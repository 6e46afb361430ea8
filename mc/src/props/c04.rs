//! C04: `exports` subpaths — exact key, else the longest matching folder or wildcard key.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"keys": KEYS, "targets": TARGETS, "keys_per_map": max_keys(t), "requests": SUBS,
            "map_orders": "both", "non_map_exports": WHOLE}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const KEYS: &[&str] = &[
    ".", "./a", "./a.js", "./a/", "./a/*", "./a/b", "./a/b.js", "./a/b/", "./a/b/*", "./a/b*", "./a*", "./ab*", "./*",
    "./", "./é", "./é*", "./é/*", "./a/é", "./$", "./ab", "./a/b/c",
];
/// `%` is replaced by the position of the key, so that every key leads to files of its own.
const TARGETS: &[&str] = &[
    "\"./t%/\"", "\"./t%/*\"", "\"./t%/f.js\"", "\"./t%/*.js\"", "\"./t%/*/*\"", "null",
    "[\"./none%/*\",\"./none%/\",\"./t%/f.js\"]", "[\"./none%/f.js\",\"./t%/f.js\"]", "[null,\"./none%/*\",\"./t%/*\"]", "[\"./none%/\",\"./t%/\"]",
];
const SUBS: &[&str] = &[
    "", "/a", "/a.js", "/a/b", "/a/b.js", "/a/b/c", "/a/b/c.js", "/ab", "/abc", "/abc/d", "/é", "/éa", "/é/a", "/a/é", "/$", "/$&",
    "/a/$1", "/a/", "/x", "/x/y.js", "/a/b/c/d", "/*", "/a/*", "//a", "/./a", "/a//b", "/a/../a",
];
const WHOLE: &[&str] = &["\"./t0/f.js\"", "[\"./none\",\"./t0/f.js\"]", "null", "{}", "\"./none\"", "\"./t0\"", "[]"];

fn max_keys(t: Tier) -> usize {
    if t == Tier::Quick { 2 } else { 3 }
}

fn package(c: &mut Case, exports: &str) {
    c.file("/w/node_modules/m/package.json", &format!("{{\"name\":\"m\",\"main\":\"./main.js\",\"exports\":{exports}}}"));
    c.files(&["/w/node_modules/m/main.js", "/w/node_modules/m/a.js", "/w/node_modules/m/x"]);
    for t in ["t0", "t1", "t2"] {
        for f in [
            "f.js", "a", "a.js", "b", "b.js", "c", "c.js", "ab", "abc/d", "bc/d", "c/d", "d", "b/c", "b/c.js", "a/b", "a/b.js", "é", "é/a",
            "$", "$&", "&", "$1", "x", "x/y.js", "y.js", "b/c/d", "*", "a/é", "a/b/c", "é.js", "a/a", "b/b", "$$", "index.js", ".js", "éa", "a/$1",
        ] {
            let p = format!("/w/node_modules/m/{t}/{f}");
            // a prefix of another entry is made a directory by that entry
            if !matches!(f, "a" | "b" | "c" | "abc" | "bc" | "é" | "x" | "b/c" | "a/b") {
                c.files(&[p]);
            }
        }
    }
}

fn requests(c: &mut Case) {
    for s in SUBS {
        c.req("/w", &format!("m{s}"));
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c04(t, &[], emit);
    words::c04(t, emit);
    for w in WHOLE {
        let mut c = Case::default();
        c.note = format!("whole exports={w}");
        package(&mut c, w);
        requests(&mut c);
        emit(c);
    }
    let value = |t: usize, i: usize| TARGETS[t].replace('%', &i.to_string());
    let n = KEYS.len();
    for k in 0..n {
        for v in 0..TARGETS.len() {
            let mut c = Case::default();
            c.note = format!("one {}={}", KEYS[k], TARGETS[v]);
            package(&mut c, &format!("{{\"{}\":{}}}", KEYS[k], value(v, 0)));
            requests(&mut c);
            emit(c);
        }
    }
    for k0 in 0..n {
        for k1 in 0..n {
            if k0 == k1 {
                continue;
            }
            for v0 in 0..TARGETS.len() {
                for v1 in 0..TARGETS.len() {
                    if t == Tier::Quick && v0 > 5 && v1 > 5 {
                        continue;
                    }
                    let mut c = Case::default();
                    c.note = format!("two {}={} {}={}", KEYS[k0], TARGETS[v0], KEYS[k1], TARGETS[v1]);
                    package(&mut c, &format!("{{\"{}\":{},\"{}\":{}}}", KEYS[k0], value(v0, 0), KEYS[k1], value(v1, 1)));
                    requests(&mut c);
                    emit(c);
                }
            }
        }
    }
    // three keys, each with the kind of target that fits it
    let fit = |k: usize| if KEYS[k].ends_with('/') { 0 } else if KEYS[k].ends_with('*') { 1 } else { 2 };
    for k0 in 0..n {
        for k1 in 0..n {
            for k2 in 0..n {
                if k0 == k1 || k1 == k2 || k0 == k2 || (t == Tier::Quick && k0 > k1) {
                    continue;
                }
                for nulled in 0..4 {
                    if t == Tier::Quick && nulled > 1 {
                        continue;
                    }
                    let v = |k: usize, i: usize| if nulled == i + 1 { "null".to_string() } else { value(fit(k), i) };
                    let mut c = Case::default();
                    c.note = format!("three {} {} {} null={nulled}", KEYS[k0], KEYS[k1], KEYS[k2]);
                    package(&mut c, &format!(
                        "{{\"{}\":{},\"{}\":{},\"{}\":{}}}",
                        KEYS[k0], v(k0, 0), KEYS[k1], v(k1, 1), KEYS[k2], v(k2, 2)
                    ));
                    requests(&mut c);
                    emit(c);
                }
            }
        }
    }
}
