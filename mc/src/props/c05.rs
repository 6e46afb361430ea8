//! C05: conditions — first match in declaration order, `default` last, nested fallback, arrays.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"condition_alphabet": CONDS, "condition_sets": SETS.len(), "leaves": LEAVES.len(),
            "tree": "objects of 0..3 conditions, nested 2 deep, also inside arrays, under `.`, an exact, a wildcard and a folder key, in exports and imports",
            "sequences": format!("every object of 1..{} entries, each one of {} kinds of key and value, with and without default", longest(t), KINDS.len()),
            "wide": format!("objects of 2..12 conditions, every one or two of them active, as many others listed as 0, 3 or 8"),
            "thorough": t == Tier::Thorough}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const CONDS: &[&str] = &["node", "import", "x", "default"];
const SETS: &[&[&str]] = &[&[], &["node"], &["import"], &["import", "node"], &["x", "import"], &["default"]];
const LEAVES: &[&str] = &["S", "null", "[]", "[S,T]", "\"./gone\""];

/// All values of the given depth; `S` and `T` stand for two targets.
fn values(depth: usize, rich: bool) -> Vec<String> {
    let mut v: Vec<String> = LEAVES.iter().map(|s| s.to_string()).collect();
    if depth == 0 {
        return v;
    }
    let inner = if depth == 1 { values(0, rich) } else { values(depth - 1, false).into_iter().take(24).collect() };
    v.push("{}".into());
    for a in 0..CONDS.len() {
        for x in &inner {
            v.push(format!("{{\"{}\":{x}}}", CONDS[a]));
        }
    }
    let small: Vec<&String> = if rich { inner.iter().collect() } else { inner.iter().take(3).collect() };
    for a in 0..CONDS.len() {
        for b in 0..CONDS.len() {
            if a != b {
                for x in &small {
                    for y in &small {
                        v.push(format!("{{\"{}\":{x},\"{}\":{y}}}", CONDS[a], CONDS[b]));
                    }
                }
            }
        }
    }
    v
}

fn emit_for(v: &str, set: &[&str], emit: &mut dyn FnMut(Case)) {
    let on = |s: &str, t: &str| v.replace('S', s).replace('T', t);
    let mut c = Case::default();
    c.note = format!("value={v} conditions={set:?}");
    c.opts[0].conds = strs(set);
    let exp = format!(
        "{{\".\":{},\"./e\":{},\"./w/*\":{},\"./f/\":{}}}",
        on("\"./s.js\"", "\"./t.js\""),
        on("\"./s.js\"", "\"./t.js\""),
        on("\"./*/s.js\"", "\"./*/t.js\""),
        on("\"./d/\"", "\"./t/\"")
    );
    let imp = format!(
        "{{\"#e\":{},\"#w/*\":{},\"#f/\":{},\"#r\":{}}}",
        on("\"./s.js\"", "\"./t.js\""),
        on("\"./*/s.js\"", "\"./*/t.js\""),
        on("\"./d/\"", "\"./t/\""),
        on("\"#e\"", "\"./t.js\"")
    );
    c.file("/w/node_modules/m/package.json", &format!("{{\"exports\":{exp}}}"));
    c.file("/w/package.json", &format!("{{\"imports\":{imp}}}"));
    // the whole field is one value
    c.file("/w/node_modules/n/package.json", &format!("{{\"exports\":{}}}", on("\"./s.js\"", "\"./t.js\"")));
    for d in ["/w/node_modules/m", "/w", "/w/node_modules/n"] {
        c.files(&[format!("{d}/s.js"), format!("{d}/t.js"), format!("{d}/d/s.js"), format!("{d}/d/t.js"), format!("{d}/t/s.js"), format!("{d}/t/t.js")]);
    }
    for r in ["m", "m/e", "m/w/d", "m/f/t.js", "n", "n/s.js", "#e", "#w/d", "#f/t.js", "#r"] {
        c.req("/w", r);
    }
    emit(c);
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c04(t, &[1, 2, 3], emit);
    words::c05(t, emit);
    scale::c07(t, &[1, 2], emit);
    let one = values(1, true);
    let two = values(2, t == Tier::Thorough);
    for set in SETS {
        for v in &one {
            emit_for(v, set, emit);
            emit_for(&format!("[{v}]"), set, emit);
            emit_for(&format!("[{v},T]"), set, emit);
            emit_for(&format!("[\"./gone\",null,{v},S]"), set, emit);
        }
        for v in &two {
            emit_for(v, set, emit);
        }
        // three conditions in every order
        for a in 0..4 {
            for b in 0..4 {
                for c in 0..4 {
                    if a != b && b != c && a != c {
                        for (x, y, z) in [("S", "T", "null"), ("null", "S", "T"), ("{}", "S", "T"), ("{\"x\":S}", "{\"node\":T}", "S"), ("[]", "T", "S")] {
                            emit_for(&format!("{{\"{}\":{x},\"{}\":{y},\"{}\":{z}}}", CONDS[a], CONDS[b], CONDS[c]), set, emit);
                        }
                    }
                }
            }
        }
        // malformed values
        for v in ["1", "true", "[[S]]", "{\"node\":[[S]]}", "{\"node\":1}", "[1]", "{\"./a\":S,\"node\":T}", "{\"node\":{\"./a\":S}}"] {
            emit_for(v, set, emit);
        }
    }
    sequences(t, emit);
    wide(emit);
}

/// (active key, value): T is a target of its own for each position
const KINDS: &[(bool, &str)] = &[
    (false, "T"), (true, "T"), (true, "{}"), (true, "{\"off\":T}"), (true, "{\"on\":T}"), (true, "null"), (true, "[]"), (true, "{\"on\":{\"off\":T},\"off\":T}"), (true, "{\"off\":T,\"on\":{\"on\":T}}"),
    (true, "{\"on\":{\"off\":T},\"default\":T}"), (true, "[\"./gone\",T]"), (true, "[{\"off\":T}]"),
];
fn longest(t: Tier) -> usize {
    if t == Tier::Quick { 3 } else { 4 }
}
const ON: &[&str] = &["on", "c0", "c1", "c2", "c3", "c4", "c5"];

/// Every sequence of kinds of entries.
fn sequences(t: Tier, emit: &mut dyn FnMut(Case)) {
    let n = KINDS.len();
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..longest(t) {
        last = last.iter().flat_map(|v| (0..n).map(move |k| [&v[..], &[k]].concat())).collect();
        all.extend(last.iter().cloned());
    }
    // longer ones of the kinds that are not a target
    let blank = [0, 2, 3, 7];
    for a in blank {
        for b in blank {
            for c in blank {
                for d in blank {
                    all.push(vec![a, b, c, d]);
                    all.push(vec![a, b, c, d, 1, 1]);
                    all.push(vec![a, b, c, 1, d, 1]);
                }
            }
        }
    }
    for chunk in all.chunks(12) {
        for default in [None, Some("T"), Some("{\"off\":T}"), Some("{\"on\":T}"), Some("null")] {
            let mut c = Case::default();
            c.note = format!("sequences {:?}.. default={default:?}", chunk[0]);
            c.opts[0].conds = strs(ON);
            let mut imports = vec![];
            for (i, seq) in chunk.iter().enumerate() {
                let mut entries: Vec<String> = seq
                    .iter()
                    .enumerate()
                    .map(|(p, k)| {
                        let (on, v) = KINDS[*k];
                        format!("\"{}{p}\":{}", if on { "c" } else { "d" }, v.replace('T', &format!("\"./t{p}.js\"")))
                    })
                    .collect();
                if let Some(d) = default {
                    entries.push(format!("\"default\":{}", d.replace('T', "\"./t9.js\"")));
                }
                let v = format!("{{{}}}", entries.join(","));
                c.file(&format!("/w/node_modules/m{i}/package.json"), &format!("{{\"exports\":{{\"./a\":{v},\".\":{v}}}}}"));
                for p in [0, 1, 2, 3, 4, 5, 9] {
                    c.files(&[format!("/w/node_modules/m{i}/t{p}.js")]);
                }
                imports.push(format!("\"#i{i}\":{v}"));
                c.req("/w", &format!("m{i}")).req("/w", &format!("m{i}/a")).req("/w", &format!("#i{i}"));
            }
            c.file("/w/package.json", &format!("{{\"imports\":{{{}}}}}", imports.join(",")));
            for p in [0, 1, 2, 3, 4, 5, 9] {
                c.files(&[format!("/w/t{p}.js")]);
            }
            emit(c);
        }
    }
}

/// Many conditions, few of them active.
fn wide(emit: &mut dyn FnMut(Case)) {
    for n in [2usize, 4, 6, 7, 8, 9, 12] {
        for i in 0..n {
            for j in i..n {
                for others in [0, 3, 8] {
                    for default in [false, true] {
                        let mut c = Case::default();
                        c.note = format!("wide {n} active={i},{j} others={others} default={default}");
                        let key = |k: usize| format!("{}{k}", ["z", "b", "y", "node", "import"][k % 5]);
                        c.opts[0].conds = vec![key(j), key(i)];
                        c.opts[0].conds.extend((0..others).map(|k| format!("o{k}")));
                        let mut e: Vec<String> = (0..n).map(|k| format!("\"{}\":\"./t{k}.js\"", key(k))).collect();
                        let mut f: Vec<String> = (0..n).map(|k| format!("\"{}\":{}", key(k), if k == i { "{\"off\":\"./t0.js\"}".into() } else { format!("\"./t{k}.js\"") })).collect();
                        if default {
                            e.push("\"default\":\"./t99.js\"".into());
                            f.push("\"default\":\"./t99.js\"".into());
                        }
                        c.file("/w/node_modules/m/package.json", &format!("{{\"exports\":{{{}}}}}", e.join(",")));
                        c.file("/w/node_modules/n/package.json", &format!("{{\"exports\":{{\".\":{{{}}}}}}}", f.join(",")));
                        c.file("/w/package.json", &format!("{{\"imports\":{{\"#a\":{{{}}},\"#b\":{{{}}}}}}}", e.join(","), f.join(",")));
                        for k in (0..n).chain([99]) {
                            for d in ["/w", "/w/node_modules/m", "/w/node_modules/n"] {
                                c.files(&[format!("{d}/t{k}.js")]);
                            }
                        }
                        for r in ["m", "n", "#a", "#b"] {
                            c.req("/w", r);
                        }
                        emit(c);
                    }
                }
            }
        }
    }
}
