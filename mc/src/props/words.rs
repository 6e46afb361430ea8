//! Families over every word: keys, patterns, names and requests that are all the strings over a
//! small alphabet up to a length. What the maps of a package, an option or a tsconfig match must
//! not depend on how the words look.
use super::*;

/// Every string over `alpha` of `min` to `max` symbols.
pub fn words(alpha: &[&str], min: u32, max: u32) -> Vec<String> {
    let mut out = vec![];
    for l in min..=max {
        for i in 0..(alpha.len() as u64).pow(l) {
            let mut x = i;
            let mut s = String::new();
            for _ in 0..l {
                s.push_str(alpha[(x % alpha.len() as u64) as usize]);
                x /= alpha.len() as u64;
            }
            out.push(s);
        }
    }
    out
}

fn named(note: String) -> Case {
    Case { note, ..Default::default() }
}

fn more(t: Tier) -> u32 {
    (t == Tier::Thorough) as u32
}

/// files `dir/x.js` for short words x without a leading or trailing slash
fn targets(c: &mut Case, dir: &str, alpha: &[&str], ext: &str) {
    for w in words(alpha, 1, 3) {
        if !w.starts_with('/') && !w.ends_with('/') && !w.contains("//") && !w.split('/').any(|s| s == "." || s == "..") {
            c.file(&format!("{dir}/{w}{ext}"), "");
        }
    }
}

/// C10: one pattern with at most one star, asked for every word.
pub fn c10(t: Tier, emit: &mut dyn FnMut(Case)) {
    let a = ["a", "b", "@", "/"];
    let reqs = words(&a, 1, 4);
    let half = words(&a, 0, 2);
    let mut patterns = words(&a, 1, 3);
    for p in &half {
        for s in &half {
            patterns.push(format!("{p}*{s}"));
        }
    }
    for (i, p) in patterns.iter().enumerate() {
        let mut c = named(format!("word pattern {p}"));
        c.file("/w/tsconfig.json", &format!("{{\"compilerOptions\":{{\"baseUrl\":\".\",\"paths\":{{\"{p}\":[\"./h/*\",\"./any\"]}}}}}}"));
        c.opts[0].tsconfig = Some("/w/tsconfig.json".into());
        c.opts[0].ext = strs(&[".ts"]);
        c.files(&["/w/any.ts", "/w/h/a.ts", "/w/h/b.ts", "/w/h/ab.ts", "/w/h/a/b.ts", "/w/h/@.ts", "/w/h/@/a.ts", "/w/h/@a/b.ts", "/w/h/ba.ts", "/w/h/aa.ts", "/w/a.ts", "/w/ab.ts"]);
        c.files(&["/w/node_modules/a/index.ts", "/w/node_modules/a/b.ts", "/w/node_modules/@a/b/index.ts", "/w/node_modules/ab.ts"]);
        c.cold = i % 2 == 0;
        for r in &reqs {
            c.req("/w", r);
        }
        emit(c);
    }
    // two patterns: one that must not hide the other
    let two: Vec<String> = words(&a, 1, 1).iter().chain(&[String::new()]).flat_map(|p| words(&a, 0, 1).into_iter().map(move |s| format!("{p}*{s}"))).collect();
    for p in &two {
        for q in &two {
            if p == q {
                continue;
            }
            let mut c = named(format!("word patterns {p} {q}"));
            c.file("/w/tsconfig.json", &format!("{{\"compilerOptions\":{{\"baseUrl\":\".\",\"paths\":{{\"{p}\":[\"./h/*\"],\"{q}\":[\"./g/*\",\"./any\"]}}}}}}"));
            c.opts[0].tsconfig = Some("/w/tsconfig.json".into());
            c.opts[0].ext = strs(&[".ts"]);
            c.files(&["/w/any.ts", "/w/h/a.ts", "/w/h/b.ts", "/w/g/ab.ts", "/w/g/a/b.ts", "/w/g/a.ts", "/w/h/@.ts", "/w/h/ba.ts", "/w/node_modules/a/index.ts"]);
            c.cold = false;
            for r in words(&a, 1, 3 + more(t)) {
                c.req("/w", &r);
            }
            emit(c);
        }
    }
}

/// C04: exports keys — exact, with a star at the end, folders.
pub fn c04(t: Tier, emit: &mut dyn FnMut(Case)) {
    let a = ["a", "b", "/", "."];
    let reqs = words(&a, 1, 4);
    let mut keys = vec![];
    for w in words(&a, 0, 3) {
        // a key with a `.` or `..` segment, or an empty one, is left open
        if w.starts_with('/') || w.contains("//") || w.split('/').any(|s| s == "." || s == "..") {
            continue;
        }
        if !w.ends_with('/') && !w.is_empty() {
            keys.push(format!("./{w}"));
        }
        if w.ends_with('/') {
            keys.push(format!("./{w}"));
        }
        if w.is_empty() || w.ends_with('/') || w.len() == 1 {
            keys.push(format!("./{w}*"));
        }
    }
    let value = |k: &str, d: &str| if k.ends_with('*') { format!("[\"./{d}/*.js\",\"./any{d}.js\"]") } else if k.ends_with('/') { format!("\"./{d}/\"") } else { format!("\"./exact{d}.js\"") };
    let world = |c: &mut Case, dir: &str| {
        for d in ["h", "g"] {
            targets(c, &format!("{dir}/{d}"), &["a", "b", "/"], ".js");
            c.files(&[format!("{dir}/any{d}.js"), format!("{dir}/exact{d}.js"), format!("{dir}/{d}/a"), format!("{dir}/{d}/b.a")]);
        }
        c.files(&[format!("{dir}/a.js"), format!("{dir}/a/b.js"), format!("{dir}/index.js")]);
    };
    for k in &keys {
        let mut c = named(format!("word key {k}"));
        c.cold = false;
        c.file("/w/node_modules/m/package.json", &format!("{{\"exports\":{{\"{k}\":{}}}}}", value(k, "h")));
        world(&mut c, "/w/node_modules/m");
        for r in &reqs {
            c.req("/w", &format!("m/{r}"));
        }
        emit(c);
    }
    let n = if t == Tier::Quick { 34 } else { keys.len() };
    for k in &keys[..n.min(keys.len())] {
        for l in &keys[..n.min(keys.len())] {
            if k == l {
                continue;
            }
            let mut c = named(format!("word keys {k} {l}"));
            c.cold = false;
            c.file("/w/node_modules/m/package.json", &format!("{{\"exports\":{{\"{k}\":{},\"{l}\":{}}}}}", value(k, "h"), value(l, "g")));
            world(&mut c, "/w/node_modules/m");
            for r in words(&a[..3], 1, 3) {
                c.req("/w", &format!("m/{r}"));
            }
            emit(c);
        }
    }
}

/// C07: the same for imports.
pub fn c07(t: Tier, emit: &mut dyn FnMut(Case)) {
    let a = ["a", "b", "/", "#", "@"];
    let reqs = words(&a, 0, 3 + more(t));
    for w in words(&a, 1, 3) {
        if w.starts_with('/') || w.contains("//") {
            continue;
        }
        let mut keys = vec![];
        if w.ends_with('/') {
            keys.push(w.clone());
        } else {
            keys.push(w.clone());
        }
        if w.ends_with('/') || w.len() == 1 {
            keys.push(format!("{w}*"));
        }
        for k in keys {
            let mut c = named(format!("word import {k}"));
            c.cold = false;
            let v = if k.ends_with('*') { "\"./h/*.js\"" } else if k.ends_with('/') { "\"./h/\"" } else { "\"./e.js\"" };
            let p = if k.ends_with('*') { "\"m/*\"" } else if k.ends_with('/') { "\"m/\"" } else { "\"m\"" };
            for (d, v) in [("/w", v), ("/v", p)] {
                c.file(&format!("{d}/package.json"), &format!("{{\"imports\":{{\"#{k}\":{v}}}}}"));
                targets(&mut c, &format!("{d}/h"), &["a", "b", "/"], ".js");
                targets(&mut c, &format!("{d}/node_modules/m"), &["a", "b", "/"], ".js");
                c.files(&[format!("{d}/e.js"), format!("{d}/h/a"), format!("{d}/node_modules/m/index.js"), format!("{d}/h/@.js"), format!("{d}/h/a/@.js")]);
                for r in &reqs {
                    c.req(d, &format!("#{r}"));
                }
            }
            emit(c);
        }
    }
}

/// C08: keys and requests that are paths of any shape.
pub fn c08(t: Tier, emit: &mut dyn FnMut(Case)) {
    // names as files and as directories
    let names = ["a", "a.js", "index", "index.js", "b.x", "node_modules"];
    let mut forms: Vec<String> = vec![];
    for n in names {
        forms.push(format!("./{n}"));
        forms.push(n.to_string());
        for m in names {
            forms.push(format!("./{n}/{m}"));
        }
        forms.push(format!("./{n}/"));
        forms.push(format!("./{n}/../a"));
    }
    forms.extend(["./a.js.js", "./a.js/index.js/index.js", "./.", "./..", "../a", "./b", "./b.x.js", "a/a.js", "index/index"].map(String::from));
    for (i, k) in forms.iter().enumerate() {
        for layout in 0..6 {
            for v in ["\"./r.js\"", "false"] {
                if t == Tier::Quick && v == "false" && (i + layout) % 3 != 0 {
                    continue;
                }
                let mut c = named(format!("word key {k} {v} layout={layout}"));
                c.cold = i % 2 == 0;
                c.opts[0].browser = true;
                c.file("/w/p/package.json", &format!("{{\"browser\":{{\"{k}\":{v}}}}}")).files(&["/w/p/r.js", "/w/a.js", "/w/index.js"]);
                match layout {
                    // directories only
                    0 => drop(c.files(&["/w/p/a/index.js", "/w/p/a.js/index.js", "/w/p/b.x/index.js", "/w/p/index/index.js", "/w/p/index.js/index.js"])),
                    // files only
                    1 => drop(c.files(&["/w/p/a", "/w/p/a.js", "/w/p/b.x", "/w/p/b.x.js", "/w/p/index", "/w/p/index.js"])),
                    // a file with another extension, and directories
                    2 => drop(c.files(&["/w/p/a.js.js", "/w/p/a.js/index.js", "/w/p/b.x.js", "/w/p/b.x/index.js", "/w/p/a/a.js", "/w/p/a/index"])),
                    3 => drop(c.files(&["/w/p/a.json", "/w/p/a/index.json", "/w/p/a.js/index", "/w/p/index.json", "/w/p/b.x/a.js/index.js"])),
                    4 => drop(c.files(&["/w/p/node_modules/a/index.js", "/w/p/node_modules/a.js/index.js", "/w/p/node_modules/b.x/a.js", "/w/p/node_modules/index.js", "/w/p/a/node_modules/a.js"])),
                    _ => {}
                }
                for r in &forms {
                    c.req("/w/p", r);
                }
                c.req("/w/p/a", ".").req("/w/p/a", "./index").req("/w/p/a", "..").req("/w/p/a", "../a").req("/w/p/a.js", ".").req("/w/p/a.js", "./index.js").req("/w", "./p").req("/w", "./p/a");
                emit(c);
            }
        }
    }
}

/// C09: alias names and requests that are all words.
pub fn c09(t: Tier, emit: &mut dyn FnMut(Case)) {
    let a = ["a", "b", "/", "@", "."];
    let reqs = words(&a, 1, 3 + more(t));
    for from in words(&a, 1, 3) {
        for (i, to) in ["./h/x", "m", "./h/", "{R}/w/h/a", "a"].into_iter().enumerate() {
            if t == Tier::Quick && i > 2 && from.len() > 2 {
                continue;
            }
            let mut c = named(format!("word alias {from} {to}"));
            c.cold = false;
            c.opts[0].alias = vec![(from.clone(), Some(to.into()))];
            targets(&mut c, "/w/h", &["a", "b", "/"], ".js");
            c.files(&["/w/h/x.js", "/w/h/xa.js", "/w/h/x/a.js", "/w/h/xb/a.js", "/w/h/x.a", "/w/h/x@.js", "/w/a.js", "/w/node_modules/m/index.js", "/w/node_modules/m/a.js", "/w/node_modules/a/index.js", "/w/node_modules/ab.js", "/w/node_modules/b/a.js", "/w/node_modules/ma.js", "/w/node_modules/@/a.js"]);
            for r in &reqs {
                c.req("/w", r);
            }
            emit(c);
        }
    }
    for from in words(&a, 1, 2) {
        for other in words(&a, 1, 2) {
            let mut c = named(format!("word aliases {from} {other}"));
            c.cold = false;
            c.opts[0].alias = vec![(from.clone(), Some("./h/x".into())), (other.clone(), None)];
            c.files(&["/w/h/x.js", "/w/h/xa.js", "/w/h/x/a.js", "/w/h/xb.js", "/w/a.js", "/w/node_modules/a/index.js", "/w/node_modules/b/a.js"]);
            for r in words(&a, 1, 3) {
                c.req("/w", &r);
            }
            emit(c);
        }
    }
}

/// C06: what a package is called and what is asked for.
pub fn c06(_: Tier, emit: &mut dyn FnMut(Case)) {
    const NAMES: &[&str] = &[
        "m", "M", "mm", "MM", "m-x", "m_x", "m.x", "m.js", "@s/m", "@S/m", "@s/M", "@s", "@s/mm", "@s/m.js", "s/m", "m/x", "m/m", "é", "É", "e\u{301}", "lib", "LIB", "node_modules", "index", "x", "1", "package.json", "@", "@/m", "m@1",
    ];
    for own in NAMES {
        for installed in 0..4 {
            for extra in ["", ",\"version\":\"1.0.0\",\"private\":true", ",\"type\":\"module\",\"imports\":{\"#i\":\"./i.js\"}"] {
                let mut c = named(format!("own name {own} installed={installed} {extra}"));
                c.cold = installed % 2 == 0;
                c.file("/w/package.json", &format!("{{\"name\":\"{own}\",\"exports\":{{\".\":\"./own.js\",\"./x\":\"./own-x.js\"}}{extra}}}"));
                c.files(&["/w/own.js", "/w/own-x.js", "/w/x.js", "/w/index.js", "/w/i.js", "/w/src/f.js"]).dir("/w/node_modules");
                for (i, n) in NAMES.iter().enumerate() {
                    let d = format!("/w/node_modules/{n}");
                    match installed {
                        1 if n != own => drop(c.files(&[format!("{d}/index.js"), format!("{d}/x.js")])),
                        2 if n != own && i % 2 == 0 => drop(c.file(&format!("{d}/package.json"), &format!("{{\"name\":\"{own}\",\"exports\":{{\".\":\"./x.js\"}}}}")).file(&format!("{d}/x.js"), "")),
                        3 => drop(c.files(&[format!("/node_modules/{n}/index.js"), format!("/node_modules/{n}/x.js")])),
                        _ => {}
                    }
                    for s in ["", "/x", "/own.js", "/gone"] {
                        c.req("/w/src", &format!("{n}{s}"));
                    }
                }
                emit(c);
            }
        }
    }
}

/// C03: package directories and requests that are all words.
pub fn c03(t: Tier, emit: &mut dyn FnMut(Case)) {
    let a = ["a", "b", "/", "@", ".", "-"];
    let reqs = words(&a, 1, 3 + more(t));
    for n in words(&a, 1, 3) {
        if n.starts_with('/') || n.ends_with('/') || n.contains("//") || n.split('/').any(|s| s == "." || s == "..") {
            continue;
        }
        for k in 0..4 {
            let mut c = named(format!("word package {n} kind={k}"));
            c.cold = false;
            let d = format!("/w/node_modules/{n}");
            match k {
                0 => drop(c.files(&[format!("{d}/index.js"), format!("{d}/a.js"), format!("{d}/b/index.js")])),
                1 => drop(c.files(&[format!("{d}.js"), format!("/node_modules/{n}/index.js")])),
                2 => drop(c.file(&format!("{d}/package.json"), "{\"main\":\"./b\"}").files(&[format!("{d}/b.js"), format!("{d}/a")])),
                _ => drop(c.file(&format!("{d}/package.json"), "{\"exports\":{\".\":\"./b.js\",\"./a\":\"./b.js\"}}").files(&[format!("{d}/b.js"), format!("{d}/a.js")])),
            }
            for r in &reqs {
                c.req("/w/src", r);
            }
            emit(c);
        }
    }
}

/// C01: files and requests that are all words.
pub fn c01(t: Tier, emit: &mut dyn FnMut(Case)) {
    let a = ["a", "j", "/", ".", "-"];
    let reqs = words(&a, 0, 3 + more(t));
    for n in words(&a, 1, 3) {
        if n.starts_with('/') || n.ends_with('/') || n.contains("//") || n.split('/').any(|s| s == "." || s == "..") {
            continue;
        }
        for (k, ext) in [vec![".js"], vec![".j", ".a"], vec!["", "a"], vec![".j.a", ".a"], vec!["-a", "j"], vec![]].into_iter().enumerate() {
            let mut c = named(format!("word file {n} extensions={ext:?}"));
            c.cold = k % 2 == 0;
            c.opts[0].ext = strs(&ext);
            c.files(&[format!("/w/{n}"), format!("/w/{n}.js")]);
            c.dir("/w/-").dir("/w/d");
            c.opts[0].main_files = strs(&["a", "j", "index"]);
            for r in &reqs {
                c.req("/w", &format!("./{r}"));
                c.req("/w/d", &format!("../{r}"));
            }
            emit(c);
        }
    }
}

/// C12: requests with every mixture of the marks.
pub fn c12(t: Tier, emit: &mut dyn FnMut(Case)) {
    let a = ["f", "?", "#", "/", ".", "%"];
    let all = words(&a, 0, 5 + more(t));
    for head in ["", "./", "./f", "m", "m/", "al", "#", "#i", "{R}/w/f", "./d", "."] {
        for chunk in all.chunks(2000) {
            let mut c = named(format!("word request {head} {}..", chunk[0]));
            c.cold = false;
            c.opts[0].alias = vec![("al".into(), Some("./f".into()))];
            c.file("/w/package.json", "{\"imports\":{\"#i\":\"./f.js\",\"#f/*\":\"./d/*\",\"#if\":\"m\"}}");
            c.files(&["/w/f.js", "/w/d/index.js", "/w/d/f.js", "/w/f/f.js", "/w/node_modules/m/index.js", "/w/node_modules/m/f.js", "/w/node_modules/f/index.js", "/w/f%.js"]);
            for r in chunk {
                if head == "./f" || r.len() < 4 || head.is_empty() && t == Tier::Thorough {
                    c.req("/w", &format!("{head}{r}"));
                }
            }
            if !c.ops.is_empty() {
                emit(c);
            }
        }
    }
}

/// C05: conditions nested deeply, each level of one of a few shapes.
pub fn c05(t: Tier, emit: &mut dyn FnMut(Case)) {
    // X: what is inside; Tn: a target of this level
    const SHAPES: &[&str] = &[
        "{\"node\":X}", "{\"node\":X,\"default\":T}", "{\"default\":X}", "{\"off\":\"./no.js\",\"node\":X,\"default\":T}", "{\"node\":X,\"import\":T}", "{\"off\":{\"node\":\"./no.js\"},\"import\":X}",
    ];
    const INNER: &[&str] = &["\"./in.js\"", "{\"off\":\"./no.js\"}", "null", "{}", "[]", "{\"off\":{\"node\":\"./no.js\"},\"import\":{\"off\":\"./no.js\"}}"];
    let mut all: Vec<String> = INNER.iter().map(|s| s.to_string()).collect();
    let mut last: Vec<(String, usize)> = INNER.iter().map(|s| (s.to_string(), 0)).collect();
    for level in 0..4 + more(t) as usize {
        let shapes = if level == 4 { &SHAPES[..3] } else { SHAPES };
        let keep = if level >= 3 { 3 } else { INNER.len() };
        let mut next = vec![];
        for (x, inner) in &last {
            if *inner >= keep {
                continue;
            }
            for s in shapes {
                next.push((s.replace('X', x).replace('T', &format!("\"./t{level}.js\"")), *inner));
            }
        }
        all.extend(next.iter().map(|p| p.0.clone()));
        last = next;
    }
    for chunk in all.chunks(16) {
        let mut c = named(format!("nested {}..", chunk[0]));
        c.cold = false;
        c.opts[0].conds = strs(&["node", "import"]);
        let mut imports = vec![];
        for (i, v) in chunk.iter().enumerate() {
            c.file(&format!("/w/node_modules/m{i}/package.json"), &format!("{{\"exports\":{{\"./a\":{v},\".\":{v}}}}}"));
            c.files(&["in", "no", "t0", "t1", "t2", "t3", "t4"].map(|f| format!("/w/node_modules/m{i}/{f}.js")));
            imports.push(format!("\"#i{i}\":{v}"));
            c.req("/w", &format!("m{i}")).req("/w", &format!("m{i}/a")).req("/w", &format!("#i{i}"));
        }
        c.file("/w/package.json", &format!("{{\"imports\":{{{}}}}}", imports.join(",")));
        c.files(&["in", "no", "t0", "t1", "t2", "t3", "t4"].map(|f| format!("/w/{f}.js")));
        emit(c);
    }
}

/// C11: every way to write baseUrl, in a file at any place, extended in one step or two.
pub fn c11(_: Tier, emit: &mut dyn FnMut(Case)) {
    const BASES: &[&str] = &["src", "src/", "./src", "./src/", ".", "./", "..", "../", "../x", "x/../src", "src/sub", ".hid", "..d", "{R}/w/src", "{R}/w/conf/src/", "é", "src//", "a b", "node_modules/conf"];
    const AT: &[(&str, &str)] = &[
        ("./conf/base.json", "/w/conf/base.json"), ("./base.json", "/w/base.json"), ("conf", "/w/node_modules/conf/index.json"), ("../up.json", "/up.json"), ("./conf/deep/base.json", "/w/conf/deep/base.json"),
        ("@s/conf/ts.json", "/w/node_modules/@s/conf/ts.json"), ("{R}/v/base.json", "/v/base.json"),
    ];
    let paths = "\"paths\":{\"foo\":[\"./test.ts\"],\"x/*\":[\"./*\",\"../*\"]}";
    for b in BASES {
        for (ai, (e, at)) in AT.iter().enumerate() {
            for kind in 0..6 {
                let mut c = named(format!("word baseUrl {b} {e} kind={kind}"));
                c.opts[0].tsconfig = Some("/w/tsconfig.json".into());
                c.opts[0].ext = strs(&[".ts", ".json"]);
                c.cold = kind % 2 == 0;
                if b.starts_with("..") {
                    // it may lead beyond the root, which the scratch directory of a replay is not
                    c.seed = 2;
                }
                let dir = crate::spec::parent(at).unwrap();
                let dirs = ["/w".to_string(), dir.clone(), "/".into(), "/w/conf".into()];
                for d in &dirs {
                    let d = d.trim_end_matches('/');
                    for s in ["", "/src", "/src/sub", "/x", "/.hid", "/..d", "/é", "/a b", "/node_modules/conf"] {
                        let f = format!("{d}{s}/test.ts");
                        if !c.tree.iter().any(|(p, _)| *p == f) {
                            c.file(&f, "");
                        }
                    }
                }
                let (e2, at2) = AT[(ai + 1) % AT.len()];
                let abs2 = format!("{{R}}{at2}");
                let _ = e2;
                match kind {
                    // both in the extended file
                    0 => drop(c.file("/w/tsconfig.json", &format!("{{\"extends\":\"{e}\"}}")).file(at, &format!("{{\"compilerOptions\":{{\"baseUrl\":\"{b}\",{paths}}}}}"))),
                    // baseUrl inherited, paths own
                    1 => drop(c.file("/w/tsconfig.json", &format!("{{\"extends\":\"{e}\",\"compilerOptions\":{{{paths}}}}}")).file(at, &format!("{{\"compilerOptions\":{{\"baseUrl\":\"{b}\"}}}}"))),
                    // paths inherited, baseUrl own
                    2 => drop(c.file("/w/tsconfig.json", &format!("{{\"extends\":\"{e}\",\"compilerOptions\":{{\"baseUrl\":\"{b}\"}}}}")).file(at, &format!("{{\"compilerOptions\":{{{paths}}}}}"))),
                    // both have a baseUrl
                    3 => drop(c.file("/w/tsconfig.json", &format!("{{\"extends\":\"{e}\",\"compilerOptions\":{{\"baseUrl\":\"./src\",{paths}}}}}")).file(at, &format!("{{\"compilerOptions\":{{\"baseUrl\":\"{b}\"}}}}"))),
                    // two steps: from the middle, from the end
                    4 => drop(c.file("/w/tsconfig.json", &format!("{{\"extends\":\"{e}\"}}")).file(at, &format!("{{\"extends\":\"{abs2}\",\"compilerOptions\":{{{paths}}}}}")).file(at2, &format!("{{\"compilerOptions\":{{\"baseUrl\":\"{b}\"}}}}"))),
                    _ => drop(c.file("/w/tsconfig.json", &format!("{{\"extends\":\"{e}\"}}")).file(at, &format!("{{\"extends\":\"{abs2}\",\"compilerOptions\":{{\"baseUrl\":\"{b}\"}}}}")).file(at2, &format!("{{\"compilerOptions\":{{\"baseUrl\":\"./gone\",{paths}}}}}"))),
                }
                for r in ["foo", "x/test", "./test", "x/src/test", "x/gone", "test"] {
                    c.req("/w", r);
                }
                emit(c);
            }
        }
    }
}

/// C15: a description file at any kind of place, with any other fields in it, changes.
pub fn c15(t: Tier, emit: &mut dyn FnMut(Case)) {
    const PLACES: &[(&str, &str, &str)] = &[
        ("/w/node_modules/@s/m", "/w", "@s/m"), ("/w/node_modules/m", "/w", "m"), ("/w/node_modules/m/node_modules/n", "/w/node_modules/m", "n"), ("/w/node_modules/@s/m/node_modules/@t/n", "/w/node_modules/@s/m", "@t/n"),
        ("/w/node_modules/.pnpm/m@1.0.0/node_modules/m", "/w/node_modules/.pnpm/m@1.0.0/node_modules/x", "m"), ("/w/packages/@s/p", "/w", "./packages/@s/p"), ("/w/packages/p", "/w/packages/q", "../p"), ("/w/.hidden", "/w", "./.hidden"),
        ("/w/@s", "/w", "./@s"), ("/w/a b", "/w", "./a b"), ("/w/é", "/w", "./é"), ("/w/p.js", "/w", "./p.js"), ("/node_modules/m", "/w/d/d", "m"), ("/w", "/w", "."), ("/w/d/d/d/d/d/d", "/w", "./d/d/d/d/d/d"), ("/w/src", "/w", "./src"),
        ("/w/dist", "/w", "./dist"), ("/w/index", "/w", "./index"), ("/w/node_modules/M", "/w", "M"), ("/w/vendor/m-1.2.3", "/w", "./vendor/m-1.2.3"),
    ];
    const EXTRA: &[&str] = &[
        "", ",\"name\":\"m\"", ",\"name\":\"@s/m\"", ",\"version\":\"1.0.0\"", ",\"name\":\"@s/m\",\"version\":\"1.0.0\"", ",\"private\":true", ",\"type\":\"module\"", ",\"dependencies\":{\"x\":\"1\"},\"devDependencies\":{}", ",\"workspaces\":[\"p\"]",
        ",\"name\":\"m\",\"version\":\"1.0.0\",\"sideEffects\":false,\"module\":\"./x.js\",\"types\":\"./x.d.ts\"", ",\"name\":null,\"version\":1", ",\"exports\":{\".\":\"./y.js\",\"./z\":\"./z.js\"}", ",\"imports\":{\"#j\":\"./y.js\"}", ",\"browser\":{\"./q.js\":\"./y.js\"}", ",\"_resolved\":\"u\",\"dist\":{\"integrity\":\"1\"}",
    ];
    let text = |k: usize, extra: &str, field: usize| {
        let f = ["x", "y", "z"][k % 3];
        let main = match field {
            0 => format!("\"main\":\"./{f}.js\""),
            1 if !extra.contains("imports") => format!("\"imports\":{{\"#i\":\"./{f}.js\"}}"),
            2 if !extra.contains("browser") => format!("\"browser\":{{\"./x.js\":\"./{f}.js\"}}"),
            3 if !extra.contains("exports") => format!("\"exports\":{{\".\":\"./{f}.js\",\"./{f}\":\"./{f}.js\"}}"),
            _ if !extra.contains("sideEffects") => format!("\"sideEffects\":[\"{f}\"]"),
            _ => format!("\"main\":\"./{f}\""),
        };
        format!("{{{main}{extra}}}")
    };
    for (pi, (dir, base, req)) in PLACES.iter().enumerate() {
        for (ei, extra) in EXTRA.iter().enumerate() {
            for field in 0..5 {
                for kind in 0..4 {
                    if t == Tier::Quick && kind > 0 && (pi + ei + field) % 4 != kind {
                        continue;
                    }
                    let mut c = named(format!("place {dir} extra={extra} field={field} kind={kind}"));
                    c.cold = false;
                    c.opts[0].browser = field == 2;
                    c.opts[0].symlinks = kind != 1;
                    if kind == 2 {
                        // the same text elsewhere, which does not change
                        c.file("/o/package.json", &text(0, extra, field)).files(&["/o/x.js", "/o/y.js", "/o/index.js"]);
                        c.req("/", "./o").req("/o", "#i");
                    }
                    c.dir(base);
                    c.files(&["x.js", "y.js", "z.js", "index.js"].map(|f| format!("{dir}/{f}")));
                    let file = format!("{dir}/package.json");
                    let ask = |c: &mut Case| {
                        c.req(base, req).req(dir, "#i").req(dir, "./x").req(dir, ".").req(base, &format!("{req}/x.js")).req(base, &format!("{req}/y"));
                        c.ops.push(Op::Side(0, format!("{dir}/x.js")));
                    };
                    if kind != 3 {
                        c.file(&file, &text(0, extra, field));
                    }
                    ask(&mut c);
                    for k in [1, 2, 0] {
                        c.ops.push(Op::Tick(2000));
                        c.ops.push(Op::Write(file.clone(), text(k, extra, field)));
                        ask(&mut c);
                    }
                    c.ops.push(Op::Tick(2000));
                    c.ops.push(Op::Remove(file.clone()));
                    ask(&mut c);
                    c.ops.push(Op::Tick(2000));
                    c.ops.push(Op::Write(file.clone(), text(1, extra, field)));
                    ask(&mut c);
                    emit(c);
                }
            }
        }
    }
}
