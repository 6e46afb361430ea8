//! Families that grow along one axis: chains, circles, lists, depths and repetitions of every
//! length up to a bound. A property that holds for small inputs only is broken here.
use super::*;

/// Every length up to 40, and the neighbourhoods of round numbers beyond.
pub fn lengths(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).collect();
    v.extend([41, 47, 48, 49, 50, 60, 63, 64, 65, 66, 80, 100, 101, 127, 128, 129, 150, 200, 254, 255, 256, 257]);
    if t == Tier::Thorough {
        v.extend((51..=99).filter(|n| ![60, 63, 64, 65, 66, 80].contains(n)));
        v.extend([300, 399, 400, 511, 512, 513]);
    }
    v
}

/// Shorter, for what costs more than linearly.
pub fn short(t: Tier) -> Vec<usize> {
    lengths(t).into_iter().filter(|n| *n <= if t == Tier::Quick { 66 } else { 130 }).collect()
}

fn named(note: String) -> Case {
    Case { note, ..Default::default() }
}

/// C01: how many extensions, levels and steps.
pub fn c01(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        // the last, the first, the middle of n extensions
        for at in [0, n / 2, n - 1] {
            let mut c = named(format!("extensions {n} at {at}"));
            c.opts[0].ext = (0..n).map(|i| format!(".e{i}")).collect();
            c.dir("/w");
            c.files(&[format!("/w/f.e{at}"), format!("/w/f.e{}", n + 1), format!("/w/d/index.e{at}"), format!("/w/f.e{}", n - 1)]);
            c.req("/w", "./f").req("/w", "./d").req("/w", &format!("./f.e{at}")).req("/w", &format!("./f.e{}", n + 1)).req("/w/d", "../f").req("/w", "./g");
            c.files(&[format!("/w/g.x{n}")]);
            emit(c);
        }
        let mut c = named(format!("long {n}"));
        let name = "x".repeat(n.min(240));
        c.files(&[format!("/w/{name}.js"), format!("/w/{name}/index.js"), format!("/w/{name}/x.js"), "/w/f.js".into()]);
        c.req("/w", &format!("./{name}")).req("/w", &format!("./{name}/")).req("/w", &format!("./{name}x")).req(&format!("/w/{name}"), "./x").req(&format!("/w/{name}"), "../f");
        c.req("/w", &format!("{}f", "./".repeat(n))).req("/w", &format!(".{}f", "/".repeat(n)));
        c.req("/w", &format!("./{name}{}/../f", "/.".repeat(n)));
        c.req(&format!("/w{}", "/.".repeat(n)), "./f").req(&format!("/w{}", "/".repeat(n)), "./f").req("/w", &format!("{{R}}{}w/f", "/".repeat(n)));
        emit(c);
        let mut c = named(format!("deep {n}"));
        let d = "/d".repeat(n);
        c.files(&[format!("/w{d}/f.js"), format!("/w{d}/index.js"), "/w/f.js".into(), "/w/index.js".into()]);
        c.req("/w", &format!(".{d}/f")).req("/w", &format!(".{d}")).req(&format!("/w{d}"), "./f").req(&format!("/w{d}"), &format!("{}f", "../".repeat(n)));
        c.req(&format!("/w{d}"), &"../".repeat(n)).req("/w", &format!(".{d}/{}f", "../".repeat(n))).req("/w", &format!("{{R}}/w{d}/f")).req(&format!("/w{d}/gone"), "../f").req("/w", &format!(".{d}/d/f"));
        emit(c);
        // beyond the root (which the scratch directory of a replay on disk is not)
        let mut c = named(format!("beyond the root {n}"));
        c.seed = 2;
        c.files(&[format!("/w{d}/x.js"), "/w/f.js".into(), "/index.js".into()]);
        c.req(&format!("/w{d}"), &format!("{}w/f", "../".repeat(n + 3))).req("/w", &format!("{}w/f", "../".repeat(n))).req("/w", &"../".repeat(n)).req("/", &format!("{}w/f", "../".repeat(n)));
        emit(c);
    }
}

/// C02: chains and circles of mains, long lists of main fields and main files.
pub fn c02(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for end in 0..5 {
            let mut c = named(format!("mains {n} end={end}"));
            for i in 0..n {
                let to = if i + 1 < n || end < 3 { format!("../d{}", i + 1) } else if end == 3 { "../d0".into() } else { format!("../d{}", i / 2) };
                c.file(&format!("/w/d{i}/package.json"), &format!("{{\"main\":\"{to}\"}}"));
            }
            match end {
                0 => drop(c.files(&[format!("/w/d{n}/index.js")])),
                1 => drop(c.files(&[format!("/w/d{n}.js")])),
                2 => drop(c.files(&["/w/d0/index.js", "/w/d1/index.js"])),
                3 => drop(c.files(&[format!("/w/d{}/index.js", n / 2)])),
                _ => {}
            }
            c.req("/w", "./d0").req("/w", &format!("./d{}", n / 2)).req("/w/d0", ".");
            emit(c);
        }
        // .. downwards
        let mut c = named(format!("nested mains {n}"));
        let mut d = "/w/p".to_string();
        for _ in 0..n {
            c.file(&format!("{d}/package.json"), "{\"main\":\"./n\"}");
            d += "/n";
        }
        c.files(&[format!("{d}/index.js")]);
        c.req("/w", "./p").req("/w/p", "./n");
        emit(c);
        for at in [0, n / 2, n - 1] {
            let mut c = named(format!("fields {n} at {at}"));
            c.opts[0].main_fields = (0..n).map(|i| format!("f{i}")).collect();
            c.opts[0].main_files = (0..n).map(|i| format!("m{i}")).collect();
            c.file("/w/d/package.json", &format!("{{\"f{n}\":\"./no\",\"f{at}\":\"./yes\",\"main\":\"./no\"}}"));
            c.files(&["/w/d/no.js", "/w/d/yes.js", "/w/d/index.js"]);
            c.files(&[format!("/w/e/m{at}.js"), format!("/w/e/m{n}.js"), "/w/e/index.js".into(), format!("/w/g/m{n}.js")]);
            // every field leads nowhere but one
            let all: Vec<String> = (0..n).map(|i| format!("\"f{i}\":\"./{}\"", if i == at { "yes" } else { "gone" })).collect();
            c.file("/w/h/package.json", &format!("{{{}}}", all.join(","))).files(&["/w/h/yes.js"]);
            c.req("/w", "./d").req("/w", "./e").req("/w", "./g").req("/w", "./h");
            emit(c);
        }
    }
}

/// C03: how many levels of directories with and without node_modules.
pub fn c03(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for decoys in 0..3 {
            if decoys == 2 && n > 130 {
                continue;
            }
            for at in [0, n / 2, n] {
                let mut c = named(format!("levels {n} at {at} decoys={decoys}"));
                let dir = |i: usize| format!("/w{}", "/d".repeat(i));
                c.dir(&dir(n));
                for i in 0..=n {
                    match decoys {
                        1 if i != at => drop(c.dir(&format!("{}/node_modules/other", dir(i)))),
                        2 if i > at => drop(c.file(&format!("{}/node_modules/m/package.json", dir(i)), "{\"main\":\"./gone\"}")),
                        _ => {}
                    }
                }
                c.files(&[format!("{}/node_modules/m/index.js", dir(at)), format!("{}/node_modules/m/x.js", dir(at)), "/node_modules/m/index.js".into(), "/node_modules/o/y.js".into()]);
                c.req(&dir(n), "m").req(&dir(n), "m/x").req(&dir(n), "m/gone").req(&dir(n), "o/y").req(&dir(at), "m").req(&format!("{}/gone/gone", dir(n)), "m");
                emit(c);
            }
        }
        // packages in packages
        if n <= 66 {
            let mut c = named(format!("nested packages {n}"));
            let d = format!("/w{}", "/node_modules/p".repeat(n));
            c.files(&[format!("{d}/index.js"), "/w/node_modules/m/index.js".into(), format!("/w{}/node_modules/m/x.js", "/node_modules/p".repeat(n / 2))]);
            c.req(&d, "m").req(&d, "m/x").req(&d, "p").req(&format!("{d}/lib"), "p/index").req("/w", "p");
            emit(c);
        }
        let mut c = named(format!("subpath {n}"));
        let s = "/s".repeat(n);
        let name = "x".repeat(n.min(200));
        c.files(&[format!("/w/node_modules/m{s}/f.js"), format!("/w/node_modules/@{name}/{name}/index.js"), format!("/w/node_modules/{name}/f.js"), format!("/w/node_modules/{name}.js")]);
        c.req("/w", &format!("m{s}/f")).req("/w/d", &format!("@{name}/{name}")).req("/w", &format!("{name}/f")).req("/w", &name).req("/w", &format!("{name}x")).req("/w", &format!("m{}/s/s", "/.".repeat(n)));
        emit(c);
    }
}

/// C04: how many keys, nested conditions, alternatives and levels of a path.
pub fn c04(t: Tier, only: &[usize], emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for at in [0, n / 2, n - 1] {
            for kind in 0..8 {
                if !only.is_empty() && !only.contains(&kind) {
                    continue;
                }
                let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
                let hit = |i: usize| if i == at { "./yes.js" } else { "./no.js" };
                let deep = n.min(100);
                let e = match kind {
                    0 => format!("{{{}}}", list(&|i| format!("\"./k{i}\":\"{}\"", hit(i)))),
                    1 => format!("{{\".\":{{{}}}}}", list(&|i| format!("\"c{i}\":\"{}\"", hit(i)))),
                    2 => format!("{{\".\":[{}]}}", list(&|i| format!("\"{}\"", if i >= at { "./yes.js" } else { "./gone.js" }))),
                    3 => format!("{{\".\":{}\"./yes.js\"{},\"./a\":\"./no.js\"}}", "{\"node\":".repeat(deep), "}".repeat(deep)),
                    4 => format!("{{{},\"./*\":\"./no.js\"}}", list(&|i| format!("\"./{}*\":\"{}\"", "a/".repeat(i.min(60)) + &format!("b{i}/"), hit(i)))),
                    5 => format!("{{\"./{}k\":\"./yes.js\",\"./*\":\"./no.js\"}}", "s/".repeat(n)),
                    6 => format!("{{\"./{}\":\"./yes.js\",\"./{}x\":\"./no.js\"}}", "k".repeat(n), "k".repeat(n)),
                    _ => format!("{{\"./{}/\":\"./lib/\",\"./*\":\"./no.js\",\"./{}/yes.js\":null}}", "s/".repeat(n) + "t", "s/".repeat(n) + "u"),
                };
                if [3, 5, 6, 7].contains(&kind) && at != 0 {
                    continue;
                }
                let mut c = named(format!("exports {kind} {n} at {at}"));
                c.opts[0].conds = vec![format!("c{at}"), "node".into()];
                c.file("/w/node_modules/m/package.json", &format!("{{\"exports\":{e}}}"));
                c.files(&["/w/node_modules/m/yes.js", "/w/node_modules/m/no.js", "/w/node_modules/m/lib/yes.js"]);
                c.req("/w", "m").req("/w", &format!("m/k{at}")).req("/w", &format!("m/k{n}")).req("/w", &format!("m/{}b{at}/z", "a/".repeat(at.min(60)))).req("/w", &format!("m/{}k", "s/".repeat(n)));
                c.req("/w", &format!("m/{}", "k".repeat(n))).req("/w", &format!("m/{}x", "k".repeat(n))).req("/w", &format!("m/{}k", "k".repeat(n))).req("/w", &format!("m/{}t/yes.js", "s/".repeat(n))).req("/w", &format!("m/{}u/yes.js", "s/".repeat(n))).req("/w", &format!("m/{}", "z/".repeat(n)));
                emit(c);
            }
        }
    }
}

/// C07 and C05: the same for imports, and chains of imports.
pub fn c07(t: Tier, only: &[usize], emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for at in [0, n / 2, n - 1] {
            for kind in 0..8 {
                if !only.is_empty() && !only.contains(&kind) {
                    continue;
                }
                let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
                let hit = |i: usize| if i == at { "./yes.js" } else { "./no.js" };
                let deep = n.min(100);
                if [2, 3, 5].contains(&kind) && at != 0 {
                    continue;
                }
                let e = match kind {
                    0 => list(&|i| format!("\"#k{i}\":\"{}\"", hit(i))),
                    1 => format!("\"#a\":{{{}}}", list(&|i| format!("\"c{i}\":\"{}\"", hit(i)))),
                    2 => format!("\"#a\":{}\"./yes.js\"{}", "{\"node\":".repeat(deep), "}".repeat(deep)),
                    3 => format!("\"#{}k\":\"./yes.js\",\"#s/*\":\"./no.js\"", "s/".repeat(n)),
                    4 => format!("{},\"#a/*\":\"./no.js\"", list(&|i| format!("\"#a/{}*\":\"{}\"", format!("b{i}/"), hit(i)))),
                    5 => format!("\"#{}\":\"./yes.js\",\"#{}x\":\"./no.js\"", "k".repeat(n), "k".repeat(n)),
                    // one leads to the next
                    6 => format!("{},\"#k{n}\":\"./yes.js\"", list(&|i| format!("\"#k{i}\":\"#k{}\"", i + 1))),
                    // .. and round
                    _ => format!("{}", list(&|i| format!("\"#k{i}\":\"#k{}\"", if i + 1 == n { at } else { i + 1 }))),
                };
                let mut c = named(format!("imports {kind} {n} at {at}"));
                c.opts[0].conds = vec![format!("c{at}"), "node".into()];
                c.file("/w/package.json", &format!("{{\"imports\":{{{e}}}}}"));
                c.files(&["/w/yes.js", "/w/no.js", "/w/src/yes.js"]);
                c.req("/w", "#a").req("/w", &format!("#k{at}")).req("/w", &format!("#k{n}")).req("/w", "#k0").req("/w/src", &format!("#a/b{at}/z")).req("/w", &format!("#{}k", "s/".repeat(n)));
                c.req("/w", &format!("#{}", "k".repeat(n))).req("/w", &format!("#{}x", "k".repeat(n))).req("/w", &format!("#{}k", "k".repeat(n)));
                c.req(&format!("/w/src{}", "/d".repeat(n)), &format!("#k{at}"));
                emit(c);
            }
        }
    }
}

/// C06: how far above the importer a package stands that names itself.
pub fn c06(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for k in 0..4 {
            let mut c = named(format!("own name from below {n} kind={k}"));
            let d = "/d".repeat(n);
            c.file("/w/package.json", "{\"name\":\"self\",\"exports\":{\".\":\"./i.js\",\"./p/*\":\"./p/*.js\"}}");
            c.files(&["/w/i.js", "/w/p/a.js", "/w/secret.js"]).dir(&format!("/w{d}")).dir("/w/node_modules");
            match k {
                1 => drop(c.dir(&format!("/w{d}/node_modules/o"))),
                2 => drop(c.file(&format!("/w{}/package.json", "/d".repeat(n / 2 + 1)), "{\"name\":\"other\",\"exports\":{}}")),
                3 => drop(c.files(&["/w/node_modules/self/index.js", "/w/node_modules/self/p/a.js"])),
                _ => {}
            }
            for r in ["self", "self/p/a", "self/secret.js", "self/gone", "selfx", "self/", "sel"] {
                c.req(&format!("/w{d}"), r);
            }
            emit(c);
        }
        let mut c = named(format!("long own name {n}"));
        let name = "x".repeat(n.min(200));
        c.file("/w/package.json", &format!("{{\"name\":\"@{name}/{name}\",\"exports\":{{\".\":\"./i.js\",\"./{name}\":\"./p.js\"}}}}")).files(&["/w/i.js", "/w/p.js"]);
        c.file("/v/package.json", &format!("{{\"name\":\"{name}\",\"exports\":{{\".\":\"./i.js\",\"./{name}\":\"./p.js\"}}}}")).files(&["/v/i.js", "/v/p.js"]).dir("/w/node_modules").dir("/v/node_modules/x");
        for b in ["/w", "/v"] {
            c.req(b, &name).req(b, &format!("{name}/{name}")).req(b, &format!("@{name}/{name}")).req(b, &format!("@{name}/{name}/{name}")).req(b, &format!("{name}x"));
        }
        emit(c);
    }
}

/// C08: chains and circles of replacements, large maps, deep packages.
pub fn c08(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for kind in 0..7 {
            let mut c = named(format!("browser {kind} {n}"));
            c.opts[0].browser = true;
            let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
            let m = match kind {
                0 => list(&|i| format!("\"./d{i}.js\":\"./d{}.js\"", i + 1)),
                1 => list(&|i| format!("\"./d{i}.js\":\"./d{}.js\"", (i + 1) % n)),
                2 => list(&|i| format!("\"./d{i}.js\":{}", if i + 1 == n { "false".into() } else { format!("\"./d{}.js\"", i + 1) })),
                3 => list(&|i| format!("\"m{i}\":\"m{}\"", i + 1)),
                4 => list(&|i| format!("\"m{i}\":{}", if i + 1 == n { "\"./d0.js\"".into() } else { format!("\"m{}\"", i + 1) })),
                5 => list(&|i| format!("\"m{i}\":\"./d{}.js\"", n - i)),
                _ => list(&|i| format!("\"./d{i}.js\":\"./d{}.js\"", if i + 1 == n { n / 2 } else { i + 1 })),
            };
            c.file("/w/package.json", &format!("{{\"browser\":{{{m}}}}}"));
            for i in 0..=n {
                c.files(&[format!("/w/d{i}.js")]);
                if kind == 3 {
                    c.files(&[format!("/w/node_modules/m{i}/index.js")]);
                }
            }
            for i in [0, n / 2, n - 1, n] {
                c.req("/w", &format!("./d{i}")).req("/w", &format!("./d{i}.js")).req("/w", &format!("m{i}")).req("/w/src", &format!("../d{i}"));
            }
            emit(c);
        }
        let mut c = named(format!("browser deep {n}"));
        c.opts[0].browser = true;
        let d = "/d".repeat(n);
        c.file("/w/package.json", &format!("{{\"browser\":{{\".{d}/a.js\":\"./r.js\",\"m\":\".{d}/b.js\",\"x\":false}}}}"));
        c.files(&["/w/r.js".to_string(), format!("/w{d}/a.js"), format!("/w{d}/b.js"), "/w/node_modules/m/index.js".into(), "/w/node_modules/x/index.js".into()]);
        c.req(&format!("/w{d}"), "./a").req(&format!("/w{d}"), "m").req(&format!("/w{d}"), "x").req("/w", &format!(".{d}/a")).req(&format!("/w{d}"), "./b").req("/w", &format!(".{d}/../{}/a.js", if n > 0 { "d" } else { "" }));
        emit(c);
    }
}

/// C09: long lists, chains and circles of aliases; two that matter at any distance.
pub fn c09(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for kind in 0..6 {
            if kind < 3 && n > if t == Tier::Quick { 66 } else { 130 } {
                continue;
            }
            let mut c = named(format!("alias {kind} {n}"));
            let a = |f: String, to: String| (f, Some(to));
            c.opts[0].alias = match kind {
                // one leads to the next ..
                0 => (0..n).map(|i| a(format!("k{i}x"), format!("k{}x", i + 1))).collect(),
                1 => (0..n).rev().map(|i| a(format!("k{i}x"), format!("k{}x", i + 1))).collect(),
                // .. and round
                2 => (0..n).map(|i| a(format!("k{i}x"), format!("k{}x", (i + 1) % n))).collect(),
                // the same name again and again: the first that leads somewhere
                3 => (0..n).map(|i| a("k0x".into(), format!("./{}", if i + 1 == n { "f".into() } else { format!("gone{i}") }))).collect(),
                4 => (0..n).map(|i| a(format!("k{i}x"), format!("./{}", if i % 2 == 0 { "f" } else { "g" }))).collect(),
                // ever longer prefixes
                _ => (0..n).map(|i| a("k".repeat(n - i), format!("./{}/", if i % 2 == 0 { "d" } else { "e" }))).collect(),
            };
            c.files(&["/w/f.js", "/w/g.js", "/w/d/x.js", "/w/e/x.js", "/w/node_modules/k0x/index.js"]);
            c.files(&[format!("/w/node_modules/k{n}x/index.js"), format!("/w/k{n}x.js")]);
            for i in [0, n / 2, n - 1, n] {
                c.req("/w", &format!("k{i}x")).req("/w", &format!("k{i}x/x"));
            }
            for i in [1, n / 2 + 1, n] {
                c.req("/w", &format!("{}x", "k".repeat(i)));
            }
            emit(c);
        }
    }
    // two of many
    let gaps: Vec<usize> = lengths(t).into_iter().filter(|n| *n <= if t == Tier::Quick { 130 } else { 300 }).collect();
    for g in gaps {
        for first in [0, 1, 7] {
            let (i, j) = (first, first + g);
            let mut c = named(format!("alias {i} and {j}"));
            for k in 0..=j + 1 {
                c.opts[0].alias.push(match k {
                    _ if k == i => ("aa".into(), Some("bb/q".into())),
                    _ if k == j => ("bb".into(), Some("./src".into())),
                    _ if k == j + 1 => ("cc".into(), Some("aa".into())),
                    _ => (format!("u{k}x"), Some("./f".into())),
                });
            }
            c.files(&["/w/src/q.js", "/w/src/index.js", "/w/src/q/x.js", "/w/f.js", "/w/node_modules/bb/q/index.js"]);
            for r in ["aa", "aa/x", "bb", "bb/q", "cc", "cc/x", "u2x", "aax"] {
                c.req("/w", r);
            }
            emit(c);
        }
    }
}

/// C10: many patterns, many targets, long matches.
pub fn c10(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for at in [0, n / 2, n - 1] {
            for kind in 0..5 {
                let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
                let p = match kind {
                    0 => list(&|i| format!("\"k{i}\":[\"./{}\"]", if i == at { "yes" } else { "no" })),
                    1 => format!("\"k{at}\":[{}]", list(&|i| format!("\"./{}\"", if i >= at { "yes" } else { "gone" }))),
                    2 => list(&|i| format!("\"k{i}/*\":[\"./{}/*\"]", if i == at { "d" } else { "e" })),
                    3 => format!("\"*\":[\"./no\"],\"{}*\":[\"./yes\"],\"{}\":[\"./no\"]", "k".repeat(n), "k".repeat(n + 2)),
                    _ => format!("\"*\":[{}]", list(&|i| format!("\"./{}/*\"", if i == at { "d".into() } else { format!("gone{i}") }))),
                };
                let mut c = named(format!("paths {kind} {n} at {at}"));
                c.opts[0].tsconfig = Some("/w/tsconfig.json".into());
                c.file("/w/tsconfig.json", &format!("{{\"compilerOptions\":{{\"baseUrl\":\".\",\"paths\":{{{p}}}}}}}"));
                c.files(&["/w/yes.js", "/w/no.js", "/w/d/x.js", "/w/e/x.js", "/w/node_modules/x/index.js"]);
                c.files(&[format!("/w/d/{}.js", "k".repeat(n.min(200))), format!("/w/d{}/f.js", "/s".repeat(n))]);
                c.req("/w", &format!("k{at}")).req("/w", &format!("k{at}/x")).req("/w", &format!("k{n}/x")).req("/w", &format!("{}", "k".repeat(n))).req("/w", &format!("{}z", "k".repeat(n))).req("/w", &format!("{}", "k".repeat(n + 2)));
                c.req("/w", &format!("k{at}{}/f", "/s".repeat(n))).req("/w", "x").req("/w", &format!("{}f", "s/".repeat(n))).req(&format!("/w{}", "/q".repeat(n)), &format!("k{at}/x"));
                emit(c);
            }
        }
    }
}

/// C11: chains and circles of `extends`.
pub fn c11(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t).into_iter().filter(|n| *n <= if t == Tier::Quick { 130 } else { 260 }) {
        for kind in 0..7 {
            for warm in [false, true] {
                if warm && n > 66 {
                    continue;
                }
                let mut c = named(format!("extends {kind} {n} warm={warm}"));
                c.opts[0].tsconfig = Some("/w/t0.json".into());
                c.opts[0].ext = strs(&[".ts", ".json"]);
                let own = "\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"x\":[\"./a\"]}}";
                let at = |i: usize| if kind == 3 { format!("/w{}/t{i}.json", "/d".repeat(i)) } else { format!("/w/t{i}.json") };
                for i in 0..n {
                    let to = if kind == 3 { format!("./d/t{}", i + 1) } else { format!("./t{}", i + 1) };
                    let to = match kind {
                        1 if i + 1 == n => "./t0".into(),
                        2 if i + 1 == n => format!("./t{}", n / 2),
                        6 if i + 1 == n => format!("./t{i}.json"),
                        _ => to,
                    };
                    let opts = match kind {
                        4 => ",\"compilerOptions\":{\"strict\":true}".to_string(),
                        5 if i == n / 2 => format!(",{own}"),
                        1 | 2 | 6 if i == 0 => format!(",{own}"),
                        _ => String::new(),
                    };
                    c.file(&at(i), &format!("{{\"extends\":\"{to}\"{opts}}}"));
                }
                let last = if kind == 5 { "{\"compilerOptions\":{\"baseUrl\":\"./src\",\"paths\":{\"x\":[\"./b\"]}}}".to_string() } else { format!("{{{own}}}") };
                c.file(&at(n), &last);
                c.files(&["/w/a.ts", "/w/src/b.ts", "/w/src/a.ts", "/w/f.ts"]).files(&[format!("/w{}/a.ts", "/d".repeat(n))]);
                let ask = |c: &mut Case| _ = c.req("/w", "x").req("/w", "./f").req("/w", "f");
                ask(&mut c);
                if warm {
                    c.cold = false;
                    ask(&mut c);
                    for (i, text) in [(n, "{}"), (n, own), (n / 2, "{}"), (0, own)] {
                        c.ops.push(Op::Tick(3000));
                        c.ops.push(Op::Write(at(i), if text == "{}" { text.into() } else { format!("{{{text}}}") }));
                        ask(&mut c);
                    }
                }
                emit(c);
            }
        }
    }
}

/// C12: long queries and fragments.
pub fn c12(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t).into_iter().chain([1000, 1023, 1024, 1025, 4095, 4096, 5000]) {
        let mut c = named(format!("long {n}"));
        c.opts[0].alias = vec![("al".into(), Some("./f".into()))];
        c.files(&["/w/f.js", "/w/d/index.js", "/w/node_modules/m/index.js", "/w/node_modules/m/x.js"]);
        for u in ["x", "?", "#", "/", "../", "é", "a=b&", "%20", "?#"] {
            let s = u.repeat(n);
            for r in ["./f", "./d", "m", "m/x", "al", "./gone"] {
                c.req("/w", &format!("{r}?{s}")).req("/w", &format!("{r}#{s}")).req("/w", &format!("{r}?{s}#{s}"));
            }
        }
        emit(c);
    }
}

/// C13: chains of links to files and directories; links at every level of a deep path.
pub fn c13(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for kind in 0..6 {
            if kind == 5 && n > 60 {
                continue;
            }
            for sym in [true, false] {
                let mut c = named(format!("links {kind} {n} symlinks={sym}"));
                c.opts[0].symlinks = sym;
                c.files(&["/s/f.js", "/s/index.js", "/s/d/x.js"]);
                match kind {
                    // a chain to a file, to a directory; a circle; a chain to nothing
                    0..=3 => {
                        for i in 0..n {
                            let (suffix, end) = [(".js", "{R}/s/f.js"), ("", "{R}/s"), (".js", "l0.js"), (".js", "gone.js")][kind];
                            c.link(&format!("/w/l{i}{suffix}"), &if i + 1 == n { end.to_string() } else { format!("l{}{suffix}", i + 1) });
                        }
                    }
                    // every directory of a deep path is a link (few: the system gives up at 40)
                    4 => {
                        for i in 0..n {
                            c.link(&format!("/t{i}/n"), &format!("{{R}}/t{}", i + 1));
                        }
                        c.files(&[format!("/t{n}/f.js")]);
                        c.link("/w/l0", "{R}/t0");
                        c.req("/w", &format!("./l0{}/f", "/n".repeat(n))).req(&format!("/t0{}", "/n".repeat(n)), "./f").req(&format!("/t0{}", "/n".repeat(n)), "../f");
                    }
                    // installed packages that link to one another
                    _ => {
                        for i in 0..n {
                            c.link(&format!("/w/node_modules/p{i}"), &if i + 1 == n { "{R}/s".to_string() } else { format!("p{}", i + 1) });
                        }
                        c.file("/s/package.json", "{\"main\":\"./d/x\"}");
                        c.req("/w", "p0").req("/w", "p0/f").req("/w/node_modules/p0", "./f").req("/w/node_modules/p0/d", "../f");
                    }
                }
                for i in [0, n / 2, n - 1] {
                    c.req("/w", &format!("./l{i}")).req("/w", &format!("./l{i}.js")).req("/w", &format!("./l{i}/f")).req("/w", &format!("./l{i}/d/x")).req(&format!("/w/l{i}"), "./f").req(&format!("/w/l{i}/d"), "../f");
                }
                emit(c);
            }
        }
    }
}

/// C14, C16: pairs of long, nearly equal description files; many packages; many questions.
pub fn c14(t: Tier, emit: &mut dyn FnMut(Case)) {
    // padded to a size, differing at the start, in the middle or at the end
    let mut sizes = vec![8, 16, 30, 31, 32, 33, 60, 63, 64, 65, 120, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 4200, 5000, 8191, 8192, 8193, 10_000];
    if t == Tier::Thorough {
        sizes.extend([16_384, 20_000, 32_768, 65_535, 65_536, 70_000]);
    }
    for n in sizes {
        for field in 0..5 {
            for at in 0..3 {
                for same in [false, true] {
                    let mut c = named(format!("long pair {n} field={field} at={at} same directory={same}"));
                    c.cold = false;
                    c.opts[0].browser = field == 2;
                    let text = |yes: &str| {
                        let pad = |k: usize| format!("\"{}pad\":\"./{}.js\"", ["./", "#", "./", "", ""][field], "y".repeat(k));
                        let key = ["./a", "#a", "./index.js", "main", "main"][field];
                        let hit = format!("\"{key}\":\"./{yes}.js\"");
                        let inner = match at {
                            0 => format!("{hit},{}", pad(n)),
                            1 => format!("{},{hit},{}", pad(n / 2).replace("pad", "p"), pad(n / 2)),
                            _ => format!("{},{hit}", pad(n)),
                        };
                        match field {
                            0 => format!("{{\"exports\":{{{inner}}}}}"),
                            1 => format!("{{\"imports\":{{{inner}}}}}"),
                            2 => format!("{{\"browser\":{{{inner}}}}}"),
                            3 => format!("{{{inner}}}"),
                            // an escape makes the text longer than what it says
                            _ => format!("{{{}}}", inner.replacen("yy", "\\u0079y", 1)),
                        }
                    };
                    let two = ["/w/node_modules/a", "/w/node_modules/b"];
                    for (i, d) in two.iter().enumerate() {
                        if !same {
                            c.file(&format!("{d}/package.json"), &text(["x", "z"][i]));
                        } else {
                            c.file(&format!("{d}/package.json"), &text("x"));
                        }
                        c.files(&[format!("{d}/x.js"), format!("{d}/z.js"), format!("{d}/index.js")]);
                    }
                    let ask = |c: &mut Case| {
                        for d in two {
                            let name = &d[d.len() - 1..];
                            c.req("/w", name).req("/w", &format!("{name}/a")).req(d, "#a").req(d, ".");
                        }
                    };
                    ask(&mut c);
                    ask(&mut c);
                    if same {
                        for yes in ["z", "x", "z"] {
                            c.ops.push(Op::Tick(2000));
                            c.ops.push(Op::Write(format!("{}/package.json", two[0]), text(yes)));
                            ask(&mut c);
                        }
                    }
                    emit(c);
                }
            }
        }
    }
    // many packages, asked about once, twice, forwards and backwards
    for n in lengths(t).into_iter().chain([300, 600]) {
        for kind in 0..5 {
            let mut c = named(format!("many {kind} {n}"));
            c.cold = false;
            c.opts[0].browser = kind == 2;
            for i in 0..n {
                let d = format!("/w/node_modules/p{i}");
                let j = match kind {
                    0 => format!("{{\"exports\":{{\".\":\"./f{i}.js\"}},\"imports\":{{\"#a\":\"./f{i}.js\"}}}}"),
                    1 => "{\"exports\":{\".\":\"./f.js\"},\"imports\":{\"#a\":\"./f.js\"}}".to_string(),
                    2 => format!("{{\"browser\":{{\"./f.js\":\"./f{i}.js\",\"m\":false}},\"main\":\"./f\"}}"),
                    3 => format!("{{\"main\":\"./f{i}\",\"sideEffects\":{}}}", i % 2 == 0),
                    _ => String::new(),
                };
                if kind < 4 {
                    c.file(&format!("{d}/package.json"), &j);
                }
                c.files(&[format!("{d}/f.js"), format!("{d}/f{i}.js"), format!("{d}/index.js")]);
            }
            let mut ask = |i: usize| {
                let d = format!("/w/node_modules/p{i}");
                c.req("/w", &format!("p{i}")).req(&d, "#a").req(&d, "./f").req(&d, "m");
                c.ops.push(Op::Side(0, format!("{d}/f.js")));
            };
            (0..n).for_each(&mut ask);
            (0..n).rev().for_each(&mut ask);
            ask(0);
            emit(c);
        }
        // one question after n others that fail
        let mut c = named(format!("after failures {n}"));
        c.cold = false;
        c.files(&["/w/f.js", "/w/node_modules/m/index.js"]);
        c.file("/w/package.json", "{\"imports\":{\"#a\":\"./f.js\"}}");
        c.req("/w", "./f").req("/w", "m").req("/w", "#a");
        for i in 0..n {
            c.req("/w", &format!("./gone{i}")).req(&format!("/w/gone{i}"), "gone").req("/w", &format!("#gone{i}"));
        }
        c.req("/w", "./f").req("/w", "m").req("/w", "#a").req("/w", "./gone0");
        emit(c);
    }
}

/// C15: an edit after many questions, many edits, many files edited at once.
pub fn c15(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in short(t) {
        let d = "/w/node_modules/a";
        let text = |i: usize, kind: usize| match kind {
            0 => format!("{{\"exports\":{{\".\":\"./{}.js\"}},\"imports\":{{\"#a\":\"./{}.js\"}}}}", ["x", "y"][i % 2], ["y", "x"][i % 2]),
            1 => format!("{{\"main\":\"./{}\",\"browser\":{{\"m\":\"./{}.js\"}},\"sideEffects\":{}}}", ["x", "y"][i % 2], ["y", "x"][i % 2], i % 2 == 0),
            _ => ["{", "{\"main\":\"./y\"}", "", "{\"exports\":1}"][i % 4].to_string(),
        };
        let ask = |c: &mut Case, d: &str| {
            let name = d.rsplit('/').next().unwrap();
            c.req("/w", name).req(d, "#a").req(d, ".").req(d, "m");
            c.ops.push(Op::Side(0, format!("{d}/x.js")));
        };
        for kind in 0..3 {
            // the same file again and again
            let mut c = named(format!("edits {kind} {n}"));
            c.cold = false;
            c.opts[0].browser = kind == 1;
            c.file(&format!("{d}/package.json"), &text(0, kind)).files(&[format!("{d}/x.js"), format!("{d}/y.js"), format!("{d}/index.js")]);
            ask(&mut c, d);
            for i in 1..=n {
                c.ops.push(Op::Tick(2000));
                c.ops.push(Op::Write(format!("{d}/package.json"), text(i, kind)));
                ask(&mut c, d);
            }
            emit(c);
            // many files, all edited at once; and one edit after many questions
            let mut c = named(format!("many edited {kind} {n}"));
            c.cold = false;
            c.opts[0].browser = kind == 1;
            let dirs: Vec<String> = (0..n).map(|i| format!("/w/node_modules/p{i}")).collect();
            for d in &dirs {
                c.file(&format!("{d}/package.json"), &text(0, kind)).files(&[format!("{d}/x.js"), format!("{d}/y.js"), format!("{d}/index.js")]);
            }
            for d in &dirs {
                ask(&mut c, d);
            }
            c.ops.push(Op::Tick(2000));
            c.ops.push(Op::Write(format!("{}/package.json", dirs[n / 2]), text(1, kind)));
            for d in &dirs {
                ask(&mut c, d);
            }
            c.ops.push(Op::Tick(2000));
            for d in &dirs {
                c.ops.push(Op::Write(format!("{d}/package.json"), text(3, kind)));
            }
            for d in &dirs {
                ask(&mut c, d);
            }
            c.ops.push(Op::Tick(2000));
            for d in dirs.iter().step_by(2) {
                c.ops.push(Op::Remove(format!("{d}/package.json")));
            }
            for d in &dirs {
                ask(&mut c, d);
            }
            emit(c);
        }
    }
    // description files created and removed at any distance above the question
    for n in short(t) {
        for at in [0, n / 2, n] {
            let mut c = named(format!("above {n} at {at}"));
            c.cold = false;
            let dir = |i: usize| format!("/w{}", "/d".repeat(i));
            c.files(&[format!("{}/f.js", dir(n)), format!("{}/r.js", dir(at)), "/w/r.js".into()]);
            c.file("/w/package.json", "{\"imports\":{\"#r\":\"./r.js\"},\"sideEffects\":true}");
            let ask = |c: &mut Case| {
                c.req(&dir(n), "#r").req(&dir(n), "./f").req(&format!("{}/gone", dir(n)), "#r");
                c.ops.push(Op::Side(0, format!("{}/f.js", dir(n))));
            };
            ask(&mut c);
            for text in ["{\"imports\":{\"#r\":\"./r.js\"},\"sideEffects\":false}", "{\"imports\":{}}", "{"] {
                c.ops.push(Op::Tick(2000));
                c.ops.push(Op::Write(format!("{}/package.json", dir(at)), text.into()));
                ask(&mut c);
            }
            c.ops.push(Op::Tick(2000));
            c.ops.push(Op::Remove(format!("{}/package.json", dir(at))));
            ask(&mut c);
            emit(c);
        }
    }
}

/// C22: how far above the description file stands; how long the list is.
pub fn c22(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        for at in [0, n / 2, n] {
            let mut c = named(format!("side effects {n} at {at}"));
            let dir = |i: usize| format!("/w{}", "/d".repeat(i));
            c.dir(&dir(n));
            c.file("/w/package.json", "{\"sideEffects\":true}");
            let list: Vec<String> = (0..n).map(|i| format!("\"./{i}\"")).collect();
            c.file(&format!("{}/package.json", dir(at)), &format!("{{\"sideEffects\":[{}]}}", list.join(",")));
            for p in [dir(n), format!("{}/f.js", dir(n)), dir(at), dir(n / 3), format!("{}{}", dir(n), "/gone".repeat(n)), format!("{}{}", dir(n), "/..".repeat(n))] {
                c.ops.push(Op::Side(0, p));
            }
            emit(c);
        }
    }
}

/// C20: long requests and directories in the message.
pub fn c20(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t).into_iter().chain([1000, 3000]) {
        let mut c = named(format!("long {n}"));
        c.opts[0].alias = vec![("al".into(), Some("gone".into()))];
        c.dir("/w/d");
        for u in ["x", "x/", "../", "./", "é", "?", "@", "a b"] {
            let s = u.repeat(n);
            c.req("/w", &s).req("/w", &format!("./{s}")).req("/w", &format!("al{s}")).req(&format!("/w/{s}"), "gone").req(&format!("/w/{s}"), "./gone").req("/w/d", &format!("gone?{s}#{s}"));
        }
        emit(c);
    }
}

/// C24: description files of any name at any distance above.
pub fn c24(t: Tier, emit: &mut dyn FnMut(Case)) {
    for n in lengths(t) {
        let mut c = named(format!("description file far above {n}"));
        c.opts[0].desc = Some("x".repeat(n.min(200)) + ".json");
        let f = c.opts[0].desc.clone().unwrap();
        let d = "/d".repeat(n);
        c.file(&format!("/w/{f}"), "{\"imports\":{\"#a\":\"./a.js\"},\"sideEffects\":true}").file(&format!("/w{}/package.json", "/d".repeat(n / 2 + 1)), "{\"imports\":{\"#a\":\"./no.js\"},\"sideEffects\":false}");
        c.files(&["/w/a.js".to_string(), format!("/w{d}/no.js"), format!("/w{d}/f.js")]);
        c.req(&format!("/w{d}"), "#a").req(&format!("/w{d}"), "./f");
        c.ops.push(Op::Side(0, format!("/w{d}/f.js")));
        emit(c);
    }
}
