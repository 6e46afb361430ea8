//! C13: what comes back is an absolute, normalised path of an existing regular file — its real path
//! if `symlinks` is set — for every topology of links.
use super::*;
use crate::exec::{build, Act, Ran};
use crate::spec::norm;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        gen,
        explore: once,
        oracle,
        bounds: |t| json!({"entries": "each of /w/a, /w/b, /w/d/a, /w/node_modules/m: one of 9..13 (file, socket, directory, link to file, link to directory, link chain, dangling link, loop, link to the parent, absolute link, missing ...)",
            "symlinks": [true, false], "requests": REQS, "deep_paths": "one or two links at any of 7 depths, absolute, relative or in two hops", "thorough": t == Tier::Thorough}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

fn oracle(c: &Case, ran: &Ran) -> Result<(), String> {
    let v = build(c);
    for s in &ran.steps {
        let (Op::Resolve(r, ..), Act::Info { path, .. }) = (&s.op, &s.act) else { continue };
        let real = v.realpath(path.as_bytes()).map(|b| String::from_utf8_lossy(&b).into_owned());
        let bad = if !path.starts_with('/') || norm(path) != *path {
            "is not an absolute normalised path"
        } else if !v.is_file(path.as_bytes()) {
            "is not a file"
        } else if c.opts[*r].symlinks && real != Ok(path.clone()) {
            "is not a real path although symlinks is set"
        } else {
            continue;
        };
        return Err(format!("{:?}: the returned path {path} {bad}", s.op));
    }
    spec_oracle(c, ran)
}

const REQS: &[(&str, &str)] = &[
    ("/w", "./a"), ("/w", "./a/index"), ("/w", "./a/x"), ("/w", "./a/../b"), ("/w", "./a/../../w/b"), ("/w", "./b"), ("/w", "./b/a"), ("/w", "./b/a/x.js"), ("/w", "./d/a"), ("/w", "./d/a/x"),
    ("/w", "./d/../a"), ("/w", "./gone/../a"), ("/w/d", "../a"), ("/w/d/a", ".."), ("/w/d/a", "."), ("/w/d/a", "./x"), ("/w/a", "./x"), ("/w/a", "../b"), ("/w/a", "../node_modules/m"),
    ("/w", "m"), ("/w", "m/x"), ("/w", "m/../a"), ("/w/d", "m"), ("/w/a", "m"), ("/w/b/..", "m"), ("/w/b/..", "./a"), ("/w/b/../d/..", "."), ("/w", "{R}/w/b/../a"), ("/w", "{R}/w//./a"), ("/w", "./a.js"),
    ("/w/b/.", "./x"), ("/w//d/", "./a"),
];

fn entry(c: &mut Case, p: &str, k: usize) {
    match k {
        0 => {}
        1 => drop(c.file(p, "")),
        2 => drop(c.files(&[format!("{p}/index.js"), format!("{p}/x.js"), format!("{p}/a")])),
        3 => drop(c.link(p, "{R}/s/f.js")),
        4 => drop(c.link(p, "{R}/s/d")),
        5 => drop(c.link(p, "{R}/l1")),
        6 => drop(c.link(p, "{R}/s/gone")),
        7 => drop(c.link(p, p.rsplit('/').next().unwrap())),
        8 => drop(c.link(p, "..")),
        9 => drop(c.link(p, "./b")),
        10 => drop(c.link(p, "{R}/s/d/x.js")),
        11 => drop(c.link(&format!("{p}.js"), "{R}/s/f.js")),
        _ => drop(c.special(p)),
    }
}

/// A link at any depth of a deep path, and packages reached through links.
fn deep(emit: &mut dyn FnMut(Case)) {
    const SEG: [&str; 6] = ["a", "b", "node_modules", "m", "lib", "x"];
    for link in 0..7usize {
        for second in link..7 {
            for kind in 0..3 {
                for sym in [true, false] {
                    let mut c = Case::default();
                    c.note = format!("deep link={link},{second} kind={kind} symlinks={sym}");
                    c.opts[0].symlinks = sym;
                    // the path a question uses; where it really is changes at each link
                    let (mut at, mut real) = ("/w".to_string(), "/w".to_string());
                    c.dir("/w");
                    for (i, s) in SEG.iter().chain(["f.js"].iter()).enumerate() {
                        if i == link || i == second {
                            let target = format!("/store{i}/deep/{}{s}", "r");
                            let text = match kind {
                                0 => format!("{{R}}{target}"),
                                1 => format!("{}{}", "../".repeat(real.matches('/').count()), &target[1..]),
                                _ => {
                                    c.link(&format!("/hop{i}"), &format!("{{R}}{target}"));
                                    format!("{{R}}/hop{i}")
                                }
                            };
                            c.link(&format!("{real}/{s}"), &text);
                            real = target;
                        } else {
                            real = format!("{real}/{s}");
                        }
                        at = format!("{at}/{s}");
                        if i == 6 {
                            c.file(&real, "");
                        } else {
                            c.dir(&real);
                            c.file(&format!("{real}/index.js"), "");
                        }
                        if i == 3 {
                            c.file(&format!("{real}/package.json"), "{\"main\":\"./lib/x/f\",\"exports\":{\".\":\"./lib/x/f.js\",\"./x/*\":\"./lib/x/*\"},\"imports\":{\"#f\":\"./lib/x/f.js\"}}");
                        }
                    }
                    c.req("/w", "./a/b/node_modules/m/lib/x/f").req("/w/a/b", "m").req("/w/a/b", "m/x/f.js").req("/w/a/b/node_modules/m", "#f").req("/w/a/b/node_modules/m/lib", "#f");
                    c.req("/w", "./a/b/node_modules/m").req("/w", "{R}/w/a/b/node_modules/m/lib/x/f.js").req("/w/a/b/node_modules/m/lib/x", "../../lib/x").req("/w", "./a/b/node_modules/m/lib/x");
                    c.req("/w/a/b/node_modules/m/lib/x", ".").req("/w/a/b/node_modules/m/lib/x", "m").req("/w", "./a/b").req("/w/a", "./b/index").req("/w/a/b", "./node_modules/m/lib/x/f");
                    emit(c);
                }
            }
        }
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c13(t, emit);
    deep(emit);
    let n = if t == Tier::Quick { 9 } else { 13 };
    for a in 0..13 {
        for b in 0..n {
            for d in 0..n {
                for m in 0..n {
                    if t == Tier::Quick && ((a + b + d + m) % 3 != 0 || m == 6) {
                        continue;
                    }
                    for sym in [true, false] {
                        let mut c = Case::default();
                        c.note = format!("a={a} b={b} d={d} m={m} symlinks={sym}");
                        c.opts[0].symlinks = sym;
                        entry(&mut c, "/w/a", a);
                        entry(&mut c, "/w/b", b);
                        entry(&mut c, "/w/d/a", d);
                        entry(&mut c, "/w/node_modules/m", m);
                        c.files(&["/s/f.js", "/s/d/index.js", "/s/d/x.js", "/s/b/index.js", "/s/a.js"]);
                        c.file("/s/d/package.json", "{\"main\":\"./x.js\"}");
                        c.link("/l1", "l2").link("/l2", "{R}/s/d");
                        for (b, r) in REQS {
                            c.req(b, r);
                        }
                        emit(c);
                    }
                }
            }
        }
    }
}
