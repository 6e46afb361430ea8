//! C03: bare requests — node_modules of the base directory and each ancestor, nearest first.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |_| json!({"levels": "/w, /w/p, /w/p/s", "entry_kinds_per_level": KINDS, "package_names": NAMES.len(),
            "subpaths": SUBS, "bases": BASES, "inside_node_modules": "the same kinds at node_modules, node_modules/node_modules and node_modules/@s/node_modules above a package", "extension_lists": 2}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const KINDS: usize = 10;
const NAMES: &[&str] = &["m", "@s/m", "m.js", "@s", "é", "a.b-c", "..m", "node_modules", "mm"];
const SUBS: &[&str] = &["", "/", "/x", "/x.js", "/d", "/d/x", "/../m/x", "//x", "/é/x", "/missing", "/d/..", "/."];
const BASES: &[&str] = &["/w/p/s", "/w/p/s/src/deep", "/w/p/none/gone", "/w", "/", "/w/p/s/../s", "/w/p/s/src/..", "/w/p/s/", "/w/p/s/..", "/w/p/gone/../s/.."];

/// Adds what the node_modules directory `nm` holds for package `n`.
fn level(c: &mut Case, nm: &str, n: &str, k: usize, tag: &str) {
    let f = |s: &str| format!("{nm}/{n}{s}");
    match k {
        0 => {}                                  // no node_modules at all
        1 => drop(c.dir(nm)),                    // empty node_modules
        2 => drop(c.file(nm, "not a directory")),
        3 => drop(c.dir(&f(""))),                // package directory with nothing in it
        4 => drop(c.files(&[f("/index.js"), f("/x.js"), f("/d/x.js"), f("/d/index.js"), f("/é/x.js")])),
        5 => {
            c.file(&f("/package.json"), &format!("{{\"name\":\"{n}\",\"main\":\"./lib/{tag}.js\"}}"));
            c.files(&[f(&format!("/lib/{tag}.js")), f("/x/index.js")]);
        }
        6 => drop(c.files(&[f(".js")])),
        7 => {
            c.link(&f(""), &format!("{{R}}/store/{tag}"));
            c.file(&format!("/store/{tag}/package.json"), "{\"main\":\"i\"}");
            c.files(&[&format!("/store/{tag}/i.js"), &format!("/store/{tag}/x.js")]);
        }
        8 => {
            c.file(&f("/package.json"), "{\"main\":\"missing\"}");
            c.files(&[f("/x.json")]);
            c.file(&f("/d/package.json"), "{\"main\":\"y\"}");
            c.files(&[f("/d/y.js")]);
        }
        _ => drop(c.files(&[f("")])),           // a plain file named like the package
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c03(t, emit);
    words::c03(t, emit);
    for n in NAMES {
        for k0 in 0..KINDS {
            for k1 in 0..KINDS {
                for k2 in 0..KINDS {
                    below(n, [k0, k1, k2], emit);
                    for x in 0..2 {
                        if t == Tier::Quick && x == 1 && (k0 + k1 + k2) % 3 != 0 {
                            continue;
                        }
                        let mut c = Case::default();
                        c.note = format!("name={n} /w/p/s={k0} /w/p={k1} /w={k2} ext={x}");
                        c.dir("/w/p/s/src/deep");
                        level(&mut c, "/w/p/s/node_modules", n, k0, "near");
                        level(&mut c, "/w/p/node_modules", n, k1, "mid");
                        level(&mut c, "/w/node_modules", n, k2, "far");
                        if x == 1 {
                            c.opts[0].ext = strs(&[".json", ".js"]);
                            c.opts[0].symlinks = false;
                        }
                        for b in BASES {
                            for s in SUBS {
                                c.req(b, &format!("{n}{s}"));
                            }
                        }
                        emit(c);
                    }
                }
            }
        }
    }
}

/// Levels of which some are node_modules (or look like it) themselves.
fn below(n: &str, k: [usize; 3], emit: &mut dyn FnMut(Case)) {
    if k.iter().any(|k| [1, 2, 8].contains(k)) {
        return;
    }
    let nm = "/w/node_modules";
    for (mid, near) in [("/w/node_modules/node_modules", "/w/node_modules/node_modules/q/node_modules"), ("/w/node_modules/@s/node_modules", "/w/node_modules/@s/q/node_modules"), ("/w/node_modules/q/node_modules", "/w/node_modules/q/node_modules/q/node_modules"), ("/w/xnode_modules/node_modules", "/w/xnode_modules/node_modulesx/node_modules")] {
        let mut c = Case::default();
        c.note = format!("below name={n} near={near}={} mid={mid}={} far={}", k[0], k[1], k[2]);
        let base = near.strip_suffix("/node_modules").unwrap();
        c.dir(&format!("{base}/lib"));
        level(&mut c, near, n, k[0], "near");
        level(&mut c, mid, n, k[1], "mid");
        level(&mut c, nm, n, k[2], "far");
        for b in [format!("{base}/lib"), base.to_string(), mid.to_string(), crate::spec::parent(mid).unwrap().to_string(), near.to_string(), nm.to_string()] {
            for s in ["", "/x", "/d"] {
                c.req(&b, &format!("{n}{s}"));
            }
        }
        emit(c);
    }
}
