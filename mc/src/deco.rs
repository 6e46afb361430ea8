//! Decorations: rewritings of a case whose outcome the reference model still decides. What a
//! property says must not depend on where the tree lies, how its files are written down, what
//! else they contain, or which unrelated options are set.
use crate::case::*;
use crate::engine::Tier;
use serde_json::{json, Map, Value};

pub const NAMES: &[&str] = &[
    "the tree lies below a deep directory with unusual names",
    "the tree lies inside an installed package of an outer project with its own description file",
    "a query is attached to every request",
    "a fragment is attached to every request",
    "symlinks is turned around",
    "every file is a link into a store",
    "every file is a link, and symlinks is turned around",
    "unrelated fields in every JSON object file",
    "other white space in every JSON file",
    "unrelated entries in every list-valued option",
    "enforce_extension is turned around",
    "prefer_relative is turned around",
    "browser_field is turned around",
    "a tsconfig without influence",
    "one resolver for all questions, each asked twice",
    "base directories with a trailing slash and '.' segments",
    "the base directory is reached through a link",
    "every name has look-alike neighbours",
    "aliases that lead nowhere",
    "the import conditions are listed in another order, with more that never occur",
    "seventy unrelated entries in front of every list-valued option",
    "seventy unrelated entries in front of every map in a description file or tsconfig",
    "the tree lies sixty directories deep",
    "the tree lies below very long names",
    "every description file is preceded by eight kilobytes of text",
    "relative requests are spelled with '.', '..' and duplicate separators",
    "relative requests are spelled as absolute ones",
    "every directory of the tree is reached through a link in its place",
    "sockets in places that are looked at",
    "links to nowhere and in circles in places that are looked at",
    "empty directories in places that are looked at",
    "every request is the target of an alias",
    "relative requests are the targets of tsconfig paths",
    "relative requests are the values of main fields",
    "every request is the value of a browser field",
    "bare requests are the targets of imports",
    "every request comes from a directory below that does not exist",
];

/// Properties whose spaces are run with decorations as well.
pub fn applies(id: &str) -> bool {
    matches!(id, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C18" | "C20" | "C22" | "C24" | "C26")
}

/// How many decorations each case gets in the quick tier.
fn share(id: &str) -> usize {
    match id {
        "C20" | "C26" => NAMES.len(),
        "C01" => 8,
        "C13" => 6,
        "C12" => 5,
        "C06" | "C22" => 4,
        "C11" | "C24" => 3,
        _ => 1,
    }
}

/// All cases of a space, with their decorations: in the quick tier case `i` with decoration
/// `i mod n` (and as many more, evenly spaced, as `share` says), in the thorough tier every case
/// with every decoration.
pub fn each(id: &str, gen: fn(Tier, &mut dyn FnMut(Case)), t: Tier, emit: &mut dyn FnMut(Case)) {
    // for a developer: cases of one kind only
    let note = std::env::var("MC_NOTE").ok();
    let emit = &mut |c: Case| {
        if note.as_ref().is_none_or(|n| c.note.contains(n)) {
            emit(c)
        }
    };
    if !applies(id) {
        return gen(t, emit);
    }
    let mut i = 0usize;
    // for a developer: one decoration of every case
    let only: i64 = std::env::var("MC_DECO").ok().and_then(|s| s.parse().ok()).unwrap_or(-1);
    gen(t, &mut |c| {
        i += 1;
        let n = NAMES.len();
        // walks through all residues also for spaces whose axes have a period of n
        let k = (i + i / n) % n;
        let m = share(id);
        for d in 0..n {
            if if only >= 0 { d == only as usize } else { t == Tier::Thorough || (0..m).any(|j| d == (k + j * n / m) % n) } {
                if let Some(x) = decorate(&c, d) {
                    emit(x);
                }
            }
        }
        emit(c);
    });
}

/// Moves every path of the case below `at`.
fn mount(c: &mut Case, at: &str) {
    let p = |s: &mut String| {
        if s.starts_with('/') {
            *s = if s == "/" { at.to_string() } else { format!("{at}{s}") }
        }
    };
    let r = |s: &mut String| {
        if s.contains("{R}") {
            *s = s.replace("{R}", &format!("{{R}}{at}"))
        }
    };
    for (k, n) in c.tree.iter_mut() {
        p(k);
        match n {
            Node::File(t) | Node::Link(t) => r(t),
            Node::Dir | Node::Special => {}
        }
    }
    for o in c.opts.iter_mut() {
        for (k, v) in o.alias.iter_mut() {
            r(k);
            if let Some(v) = v {
                r(v)
            }
        }
        if let Some(t) = &mut o.tsconfig {
            p(t)
        }
    }
    p(&mut c.cwd);
    for o in c.ops.iter_mut() {
        match o {
            Op::Resolve(_, b, q) => {
                p(b);
                r(q)
            }
            Op::Write(f, d) => {
                p(f);
                r(d)
            }
            Op::Link(f, d) => {
                p(f);
                r(d)
            }
            Op::Side(_, f) | Op::Remove(f) | Op::Mkdir(f) | Op::Touch(f, _) => p(f),
            _ => {}
        }
    }
}

/// Absolute link targets, and requests or alias targets that are absolute without a marker, keep
/// their meaning only where the tree is.
fn movable(c: &Case) -> bool {
    let abs = |s: &str| s.starts_with('/');
    !c.tree.iter().any(|(_, n)| matches!(n, Node::Link(t) if abs(t)))
}

fn is_json(s: &str) -> bool {
    s.trim_start().starts_with('{')
}

fn texts(c: &mut Case, f: impl Fn(&str) -> String) {
    for (_, n) in c.tree.iter_mut() {
        if let Node::File(t) = n {
            if is_json(t) {
                *t = f(t)
            }
        }
    }
    for o in c.ops.iter_mut() {
        if let Op::Write(_, t) = o {
            if is_json(t) {
                *t = f(t)
            }
        }
    }
}

fn noise(s: &str) -> String {
    let s = s.trim_start();
    let rest = &s[1..];
    let extra = "\"//\":\"main\",\"version\":\"1.0.0\",\"private\":true,\"type\":\"module\",\"types\":\"./zz.d.ts\",\"files\":[\"zz\",\"*\"],\"bin\":{\"zz\":\"./zz.js\"},\"dependencies\":{\"m\":\"*\",\"@s/m\":\"1\"},\"directories\":{\"lib\":\"./zz\"},\"zz\":{\"main\":\"./zz.js\",\"exports\":\"./zz.js\",\"paths\":{\"*\":[\"zz\"]}}";
    if rest.trim_start().starts_with('}') {
        format!("{{{extra}{rest}")
    } else {
        format!("{{{extra},{rest}")
    }
}

fn spaced(s: &str) -> String {
    let mut out = String::from("\r\n\t");
    let (mut inside, mut esc) = (false, false);
    for ch in s.chars() {
        if inside {
            out.push(ch);
            if esc {
                esc = false
            } else if ch == '\\' {
                esc = true
            } else if ch == '"' {
                inside = false
            }
            continue;
        }
        match ch {
            '"' => {
                inside = true;
                out.push(ch)
            }
            '{' | '[' | ',' => {
                out.push(ch);
                out.push_str("\r\n \t")
            }
            ':' => out.push_str(" : "),
            '}' | ']' => {
                out.push_str("\n");
                out.push(ch);
                out.push(' ')
            }
            _ => out.push(ch),
        }
    }
    out.push('\n');
    out
}

/// Seventy entries that match nothing in front of those of each map with an order.
fn crowded(s: &str) -> String {
    let Ok(mut v) = serde_json::from_str::<Value>(s) else { return s.to_string() };
    fn front(m: &mut Map<String, Value>, key: impl Fn(usize) -> String, val: impl Fn(usize) -> Value) {
        let old = std::mem::take(m);
        for i in 0..70 {
            m.insert(key(i), val(i));
        }
        m.extend(old);
    }
    fn conds(v: &mut Value) {
        match v {
            Value::Object(m) => {
                m.values_mut().for_each(conds);
                front(m, |i| format!("zz{i}"), |i| if i % 2 == 0 { Value::Null } else { json!(format!("./zz{i}.js")) });
            }
            Value::Array(a) => a.iter_mut().for_each(conds),
            _ => {}
        }
    }
    fn table(v: &mut Value, pre: &str) {
        if let Value::Object(m) = v {
            m.values_mut().for_each(conds);
            front(
                m,
                |i| match i % 4 {
                    0 => format!("{pre}zz{i}"),
                    1 => format!("{pre}zz{i}/"),
                    2 => format!("{pre}zz{i}*"),
                    _ => format!("{pre}zz{i}/a/*"),
                },
                |i| match i % 4 {
                    1 => json!(format!("./zz{i}/")),
                    2 => json!(format!("./zz{i}/*.js")),
                    _ => json!(format!("./zz{i}.js")),
                },
            );
        }
    }
    let Value::Object(top) = &mut v else { return s.to_string() };
    if let Some(e) = top.get_mut("exports") {
        match e {
            Value::Object(m) if m.is_empty() => {}
            Value::Object(m) if m.keys().next().unwrap().starts_with(['.', '/']) => table(e, "./"),
            e => conds(e),
        }
    }
    if let Some(e) = top.get_mut("imports") {
        table(e, "#");
    }
    if let Some(Value::Object(m)) = top.get_mut("browser") {
        front(m, |i| format!("./zz{i}"), |i| if i % 2 == 0 { json!(false) } else { json!("./zz.js") });
    }
    if let Some(Value::Array(a)) = top.get_mut("sideEffects") {
        for i in 0..70 {
            a.insert(i, json!(format!("zz{i}")));
        }
    }
    if let Some(Value::Object(m)) = v.pointer_mut("/compilerOptions/paths") {
        front(m, |i| format!("zz{i}{}", if i % 2 == 0 { "" } else { "/*" }), |i| json!([format!("zz{i}")]));
    }
    v.to_string()
}

fn opts(c: &mut Case, f: impl Fn(&mut Opts)) {
    c.opts.iter_mut().for_each(f)
}

fn suffix(c: &mut Case, with: &str) -> bool {
    let mut any = false;
    for o in c.ops.iter_mut() {
        if let Op::Resolve(_, _, q) = o {
            if !q.is_empty() && !q.chars().skip(1).any(|c| c == '?' || c == '#') && !q.starts_with('?') && q != "#" {
                q.push_str(with);
                any = true;
            }
        }
    }
    any
}

fn store(c: &mut Case) {
    let mut n = 0;
    let mut add = vec![];
    for (p, node) in c.tree.iter_mut() {
        if let Node::File(t) = node {
            n += 1;
            let s = format!("/zz-store/{n}/x");
            add.push((s.clone(), Node::File(t.clone())));
            let _ = p;
            *node = Node::Link(format!("{{R}}{s}"));
        }
    }
    c.tree.splice(0..0, add);
}

fn mutates(c: &Case) -> bool {
    c.ops.iter().any(|o| !matches!(o, Op::Resolve(..) | Op::Side(..) | Op::Norm(_) | Op::Builtin(_)))
}

pub fn decorate(c: &Case, d: usize) -> Option<Case> {
    let mut c = c.clone();
    c.note = format!("{} // {}", c.note, NAMES[d]);
    let special = !c.events.is_empty() || c.threads.is_some();
    let only_resolve = c.ops.iter().any(|o| matches!(o, Op::Resolve(..)));
    match d {
        0 if movable(&c) => mount(&mut c, "/usr/a b/@x.y/é/-/...."),
        1 if movable(&c) => {
            mount(&mut c, "/w0/node_modules/@s/zz/lib");
            c.file("/w0/node_modules/@s/zz/package.json", "{\"name\":\"@s/zz\",\"main\":\"./zz\",\"sideEffects\":[\"zz\"],\"browser\":{\"./lib/zz\":\"./zz\"}}");
            c.file("/w0/package.json", "{\"name\":\"zz\",\"exports\":\"./zz.js\",\"imports\":{\"#zz\":\"./zz.js\"}}");
            c.files(&["/w0/zz.js", "/w0/node_modules/zz.js", "/w0/node_modules/zz/index.js"]);
        }
        2 if !special && suffix(&mut c, "?q=./a/../b.js&x=%20") => {}
        3 if !special && suffix(&mut c, "#frag/../x?y") => {}
        4 => opts(&mut c, |o| o.symlinks = !o.symlinks),
        5 if !mutates(&c) => store(&mut c),
        6 if !mutates(&c) => {
            store(&mut c);
            opts(&mut c, |o| o.symlinks = !o.symlinks);
        }
        7 => texts(&mut c, noise),
        8 => texts(&mut c, spaced),
        9 => opts(&mut c, |o| {
            o.ext.push(".zz".into());
            o.ext.push(".js.zz".into());
            o.conds.push("zz".into());
            o.conds.push("./zz".into());
            o.main_fields.push("zz-main".into());
            o.main_files.push("zz".into());
            o.alias.push(("zz".into(), Some("./zz".into())));
            o.alias.push(("zzz".into(), None));
        }),
        10 if only_resolve => opts(&mut c, |o| o.enforce = if o.enforce == Some(true) { Some(false) } else { Some(true) }),
        11 if only_resolve => opts(&mut c, |o| o.prefer_relative = !o.prefer_relative),
        12 if only_resolve => opts(&mut c, |o| o.browser = !o.browser),
        13 if only_resolve && c.opts.iter().all(|o| o.tsconfig.is_none()) => {
            c.file("/zz-ts/tsconfig.json", "// zz\n{\"compilerOptions\":{\"baseUrl\":\"./zz\",\"paths\":{\"zz/*\":[\"./*\"],\"zz\":[\"zz\",],},},\"include\":[\"**/*\"],}");
            opts(&mut c, |o| o.tsconfig = Some("/zz-ts/tsconfig.json".into()));
        }
        14 if !mutates(&c) && !special => {
            c.cold = false;
            c.ops = c.ops.iter().chain(c.ops.iter().rev()).cloned().collect();
        }
        15 => {
            for (i, o) in c.ops.iter_mut().enumerate() {
                if let Op::Resolve(_, b, _) = o {
                    *b = match i % 4 {
                        0 => format!("{b}/"),
                        1 => format!("{b}/."),
                        2 => format!("{b}//"),
                        _ => format!("/.{b}/zz/.."),
                    };
                }
            }
        }
        16 if !mutates(&c) => {
            c.link("/zz-link", ".");
            for o in c.ops.iter_mut() {
                if let Op::Resolve(_, b, _) = o {
                    *b = format!("/zz-link{}", if *b == "/" { String::new() } else { b.clone() });
                }
            }
        }
        17 if !mutates(&c) => {
            let mut add = vec![];
            let have: std::collections::HashSet<&String> = c.tree.iter().map(|t| &t.0).collect();
            for (p, n) in &c.tree {
                if p == "/" || p.ends_with('/') || p.contains('\u{10FFFF}') {
                    continue;
                }
                let (d, f) = p.rsplit_once('/').unwrap();
                if *n == Node::Dir {
                    continue;
                }
                for q in [format!("{d}/{f}~"), format!("{d}/.{f}"), format!("{d}/{}", f.to_uppercase()), format!("{d}/zz-{f}")] {
                    if !have.contains(&q) && q.len() > d.len() + 1 && !q.ends_with("/.") && !q.ends_with("/..") && !add.contains(&q) {
                        add.push(q);
                    }
                }
            }
            let add: Vec<String> = add.into_iter().filter(|q| !have.iter().any(|h| h.starts_with(&format!("{q}/")))).collect();
            for q in add {
                c.file(&q, "{\"main\":\"./zz\",\"exports\":\"./zz.js\",\"name\":\"zz\",\"sideEffects\":true}");
            }
        }
        18 => opts(&mut c, |o| {
            // what they match resolves to nothing, so the request is resolved as it stands
            o.alias.insert(0, ("./".into(), Some("./zz-none/".into())));
            o.alias.push(("m".into(), Some("zz-none".into())));
            o.alias.push(("@s/".into(), Some("{R}/zz-none/".into())));
        }),
        19 => opts(&mut c, |o| {
            o.conds.reverse();
            for i in 0..12 {
                o.conds.insert(i % (o.conds.len() + 1), format!("zz{i}"));
            }
        }),
        20 => opts(&mut c, |o| {
            let pad = |v: &mut Vec<String>, f: &str| {
                let old = std::mem::take(v);
                *v = (0..70).map(|i| format!("{f}{i}")).chain(old).collect();
            };
            pad(&mut o.ext, ".zz");
            pad(&mut o.conds, "zz");
            pad(&mut o.main_fields, "zz");
            pad(&mut o.main_files, "zz");
            let old = std::mem::take(&mut o.alias);
            o.alias = (0..70).map(|i| (format!("zz{i}"), (i % 2 == 0).then(|| format!("./zz{i}")))).chain(old).collect();
        }),
        21 => texts(&mut c, crowded),
        22 if movable(&c) => mount(&mut c, &"/d".repeat(60)),
        23 if movable(&c) => mount(&mut c, &format!("/{}/{}.js/@{}/{}", "l".repeat(200), "m".repeat(240), "é".repeat(100), "node_module".repeat(20))),
        24 => texts(&mut c, |s| {
            let rest = &s.trim_start()[1..];
            let pad = format!("{{\"description\":\"{}\"", "lorem ipsum ".repeat(700));
            if rest.trim_start().starts_with('}') { format!("{pad}{rest}") } else { format!("{pad},{rest}") }
        }),
        25 => {
            for (i, o) in c.ops.iter_mut().enumerate() {
                if let Op::Resolve(_, _, q) = o {
                    if let Some(r) = q.strip_prefix("./") {
                        *q = match i % 4 {
                            0 => format!("././/{r}"),
                            1 => format!("./zz/../{r}"),
                            2 => format!("./zz/.././/{r}"),
                            _ => format!(".//{}", r.replace('/', "//")),
                        };
                    } else if q.starts_with("../") {
                        *q = format!("./{q}");
                    } else if !q.is_empty() && !q.starts_with(['.', '/', '#', '?']) && !q.starts_with("{R}") {
                        if let Some((a, b)) = q.clone().rsplit_once('/').filter(|(a, _)| !a.contains(['?', '#']) && !a.is_empty()) {
                            *q = match i % 3 {
                                0 => format!("{a}/./{b}"),
                                1 => format!("{a}//{b}"),
                                _ => format!("{a}/zz/../{b}"),
                            };
                        }
                    }
                }
            }
        }
        26 if !special => {
            for o in c.ops.iter_mut() {
                if let Op::Resolve(_, b, q) = o {
                    if b.starts_with('/') && (q.starts_with("./") || q.starts_with("../") || q == "." || q == "..") {
                        *q = format!("{{R}}{}/{q}", if b == "/" { "" } else { b.as_str() });
                    }
                }
            }
        }
        27 if !mutates(&c) && movable(&c) => {
            // /p/q/f becomes /p/q -> /zz/p/q, where only the last directory is a link
            let mut files: Vec<(String, Node)> = std::mem::take(&mut c.tree);
            let mut dirs = std::collections::BTreeSet::new();
            for (p, _) in &files {
                let mut p = p.as_str();
                while let Some((d, _)) = p.rsplit_once('/') {
                    if !d.is_empty() {
                        dirs.insert(d.to_string());
                    }
                    p = d;
                }
            }
            if files.iter().any(|(_, n)| matches!(n, Node::Link(_))) {
                return None;
            }
            let id = |d: &str| format!("/zz-dirs/{}", dirs.iter().position(|x| x == d).unwrap());
            let mut tree = vec![];
            for d in &dirs {
                tree.push((id(d), Node::Dir));
                let (up, name) = d.rsplit_once('/').unwrap();
                let at = if up.is_empty() { format!("/{name}") } else { format!("{}/{name}", id(up)) };
                tree.push((at, Node::Link(format!("{{R}}{}", id(d)))));
            }
            for (p, n) in files.drain(..) {
                let (d, f) = p.rsplit_once('/').unwrap();
                if n == Node::Dir && dirs.contains(&p) {
                    continue;
                }
                tree.push((if d.is_empty() { p.clone() } else { format!("{}/{f}", id(d)) }, n));
            }
            c.tree = tree;
        }
        28 if !mutates(&c) => places(&mut c, |_| Node::Special),
        29 if !mutates(&c) => places(&mut c, |p| if p.len() % 2 == 0 { Node::Link("zz-nowhere".into()) } else { Node::Link(p.rsplit_once('/').unwrap().1.into()) }),
        30 if !mutates(&c) => places(&mut c, |_| Node::Dir),
        31 if !special && indirect(&mut c, |c, i, _, q| {
            c.opts.iter_mut().for_each(|o| o.alias.insert(0, (format!("zz{i}!"), Some(q.to_string()))));
            Some((None, format!("zz{i}!")))
        }) => {}
        32 if !special && c.opts.iter().all(|o| o.tsconfig.is_none()) && indirect(&mut c, |_, _, b, q| {
            let rest = q.strip_prefix("./")?;
            (b.starts_with('/') && !b.contains('*')).then(|| (None, format!("zzT{}/{rest}", if b == "/" { "" } else { b })))
        }) => {
            c.file("/zz-ts/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"zzT/*\":[\"./none/*\",\"../*\"]}}}");
            opts(&mut c, |o| o.tsconfig = Some("/zz-ts/tsconfig.json".into()));
        }
        33 if !special && c.opts.iter().all(|o| o.desc.is_some()) && indirect(&mut c, |c, i, b, q| {
            if !q.starts_with("./") && !q.starts_with("../") || !b.starts_with('/') {
                return None;
            }
            describe(c, &format!("/zz-main{i}"), json!({"main": "./none", "zz-main": format!("./..{}/{q}", if b == "/" { "" } else { b })}));
            Some((None, format!("{{R}}/zz-main{i}")))
        }) => opts(&mut c, |o| o.main_fields.push("zz-main".into())),
        34 if !special && !mutates(&c) && c.opts.iter().all(|o| o.desc.is_some()) && indirect(&mut c, |c, i, b, q| {
            if !b.starts_with('/') || q.starts_with('#') || q.starts_with("{R}") || q.is_empty() || q == "." || q == ".." {
                return None;
            }
            let b = &crate::spec::norm(b);
            let at = format!("{}/zz-b{i}", if b == "/" { "" } else { b });
            if c.tree.iter().any(|(p, n)| *n != Node::Dir && b.starts_with(p.as_str()) && (b.len() == p.len() || b[p.len()..].starts_with('/'))) {
                return None; // the base directory is none
            }
            let to = if q.starts_with('.') { format!("../{q}") } else { q.to_string() };
            describe(c, &at, json!({"browser": {"./in": "./via", "./via": to}}));
            Some((Some(at), "./in".into()))
        }) => opts(&mut c, |o| o.browser = true),
        35 if !special && !mutates(&c) && c.opts.iter().all(|o| o.desc.is_some()) && indirect(&mut c, |c, i, b, q| {
            if !b.starts_with('/') || q.is_empty() || q.starts_with(['.', '/', '#']) || q.starts_with("{R}") || q.ends_with('/') || q.contains('*') {
                return None;
            }
            let b = &crate::spec::norm(b);
            let at = format!("{}/zz-i{i}", if b == "/" { "" } else { b });
            if c.tree.iter().any(|(p, n)| *n != Node::Dir && b.starts_with(p.as_str()) && (b.len() == p.len() || b[p.len()..].starts_with('/'))) {
                return None;
            }
            describe(c, &at, json!({"imports": {"#zz": q}}));
            Some((Some(at), "#zz".into()))
        }) => {}
        36 if c.ops.iter().any(|o| matches!(o, Op::Resolve(_, b, _) if b.starts_with('/'))) => {
            for o in c.ops.iter_mut() {
                if let Op::Resolve(_, b, q) = o {
                    if b.starts_with('/') && (q.starts_with("./") || q.starts_with("../") || q == "." || q == "..") {
                        *b = format!("{}/zz-none", if *b == "/" { "" } else { b.as_str() });
                        *q = format!("../{q}");
                    } else if b.starts_with('/') && !q.is_empty() && !q.starts_with('#') {
                        *b = format!("{}/zz-none/zz", if *b == "/" { "" } else { b.as_str() });
                    }
                }
            }
        }
        _ => return None,
    }
    Some(c)
}

/// Something without influence where files are looked for.
fn places(c: &mut Case, node: impl Fn(&str) -> Node) {
    if c.tree.len() > 120 {
        return; // the cost of a question grows with the cube of the depth
    }
    let mut add: Vec<String> = vec![];
    let mut dirs = std::collections::BTreeSet::new();
    for (p, n) in &c.tree {
        if p.contains('\u{10FFFF}') || p.ends_with('/') {
            continue;
        }
        let (d, f) = p.rsplit_once('/').unwrap();
        if *n != Node::Dir {
            if let Some((stem, _)) = f.rsplit_once('.').filter(|x| !x.0.is_empty() && x.0 != ".") {
                add.push(format!("{d}/{stem}"));
            }
            add.push(format!("{p}.js"));
        }
        let mut d = if *n == Node::Dir { p.as_str() } else { d };
        while !d.is_empty() {
            dirs.insert(d.to_string());
            d = d.rsplit_once('/').unwrap().0;
        }
    }
    for d in dirs {
        for f in ["/index", "/index.js", "/package.json", "/node_modules", ".js"] {
            add.push(format!("{d}{f}"));
        }
    }
    add.sort();
    add.dedup();
    let have: std::collections::BTreeSet<String> = c.tree.iter().map(|t| t.0.clone()).collect();
    let solid: std::collections::HashSet<String> = c.tree.iter().filter(|t| t.1 != Node::Dir).map(|t| t.0.clone()).collect();
    for p in add {
        // not where something is, below something that is no directory, or above something
        let below = |x: &str| {
            let mut x = x;
            while let Some((d, _)) = x.rsplit_once('/') {
                if solid.contains(d) {
                    return true;
                }
                x = d;
            }
            false
        };
        if !have.contains(&p) && !have.range(format!("{p}/")..).next().is_some_and(|h| h.starts_with(&format!("{p}/"))) && !below(&p) && p.rsplit_once('/').unwrap().1.len() < 256 {
            let n = node(&p);
            c.tree.push((p, n));
        }
    }
}

fn describe(c: &mut Case, dir: &str, v: Value) {
    let mut names: Vec<String> = c.opts.iter().filter_map(|o| o.desc.clone()).collect();
    names.sort();
    names.dedup();
    for n in names {
        c.file(&format!("{dir}/{n}"), &v.to_string());
    }
}

/// Replaces requests (without query and fragment) by others that lead to them.
fn indirect(c: &mut Case, f: impl Fn(&mut Case, usize, &str, &str) -> Option<(Option<String>, String)>) -> bool {
    let mut any = false;
    for i in 0..c.ops.len() {
        if let Op::Resolve(r, b, q) = c.ops[i].clone() {
            let cut = q.char_indices().skip(1).find(|x| x.1 == '?' || x.1 == '#').map_or(q.len(), |x| x.0);
            if q.starts_with('?') || q == "#" || q.is_empty() {
                continue;
            }
            let (head, tail) = q.split_at(cut);
            if let Some((nb, nq)) = f(c, i, &b, head) {
                c.ops[i] = Op::Resolve(r, nb.unwrap_or(b), format!("{nq}{tail}"));
                any = true;
            }
        }
    }
    any
}
