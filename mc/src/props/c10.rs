//! C10: tsconfig `paths` — which pattern wins, what it captures, the order of its targets, the fall-back.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"patterns": PATTERNS, "target_lists": TARGETS, "baseUrl": BASE_URLS, "requests": REQS, "bases": BASES,
            "patterns_per_config": if t == Tier::Quick { "1..2, and 3 of a reduced set; both orders" } else { "1..2, and 3 of a larger set; both orders" },
            "hash_seeds": SEEDS}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const PATTERNS: &[&str] = &["a", "a/*", "*", "a/b/*", "@/*", "a*c", "a/*/c", "#/*", "/v/*", "é*", "m", "m/*", "*/c"];
const TARGETS: &[&[&str]] = &[
    &["./one/*"],
    &["./gone/*", "./one/*"],
    &["./one/f.ts"],
    &["one/*", "two/*"],
    &["./two/*.ts"],
    &["./one/*/f"],
    &["{R}/w/two/*"],
    &["../w/one/*"],
    &[],
    &["./gone"],
    &["two"],
];
const BASE_URLS: &[Option<&str>] = &[Some("."), Some("./src"), None, Some("{R}/w/src"), Some("../w")];
const REQS: &[&str] = &[
    "a", "a/b", "a/b/c", "a/", "axc", "ac", "a/x/c", "@/x", "#/x", "/v/x", "éx", "é", "m", "m/x", "x/c", "f", "./a", "./a/b", "../w/f", "a/b?q#f", "bé", "a?q", "{R}/w/one/b",
];
const BASES: &[&str] = &["/w", "/w/src/two"];
const SEEDS: u64 = 2;

fn case(entries: &[(&str, &[&str])], bu: usize, base: &str, seed: u64, emit: &mut dyn FnMut(Case)) {
    let mut c = Case::default();
    c.note = format!("{entries:?} baseUrl={:?} base={base} seed={seed}", BASE_URLS[bu]);
    c.seed = seed;
    let paths: Vec<String> = entries
        .iter()
        .map(|(k, v)| format!("\"{k}\":[{}]", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")))
        .collect();
    let b = BASE_URLS[bu].map(|b| format!("\"baseUrl\":\"{b}\",")).unwrap_or_default();
    c.file("/w/tsconfig.json", &format!("{{\n  // comment\n  \"compilerOptions\":{{{b}\"paths\":{{{}}},}},\n}}", paths.join(",")));
    c.opts[0].tsconfig = Some("/w/tsconfig.json".into());
    c.opts[0].ext = strs(&[".ts"]);
    for d in ["/w", "/w/src"] {
        c.files(&[
            format!("{d}/one/b.ts"), format!("{d}/one/x.ts"), format!("{d}/one/f.ts"), format!("{d}/one/b/c.ts"), format!("{d}/two/b.ts"), format!("{d}/two/x.ts"),
            format!("{d}/two/a/index.ts"), format!("{d}/two/index.ts"), format!("{d}/one/x/f.ts"), format!("{d}/one/a.ts"), format!("{d}/two/c.ts"),
        ]);
    }
    c.files(&["/w/a.ts", "/w/a/b.ts", "/w/f.ts", "/w/node_modules/m/index.ts", "/w/node_modules/m/x.ts", "/w/node_modules/a/b.ts", "/w/node_modules/f.ts"]);
    for r in REQS {
        c.req(base, r);
    }
    emit(c);
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c10(t, emit);
    words::c10(t, emit);
    for bu in 0..BASE_URLS.len() {
        for b in BASES {
            for p in PATTERNS {
                for x in TARGETS {
                    case(&[(p, x)], bu, b, 1, emit);
                }
            }
        }
    }
    for (i, p) in PATTERNS.iter().enumerate() {
        for (j, q) in PATTERNS.iter().enumerate() {
            if i == j {
                continue;
            }
            for (k, x) in TARGETS.iter().enumerate() {
                for (l, y) in TARGETS.iter().enumerate() {
                    if t == Tier::Quick && (k > 6 && l > 6) {
                        continue;
                    }
                    for bu in 0..2 {
                        if t == Tier::Quick && bu != (i + k + l) % 2 {
                            continue;
                        }
                        case(&[(p, x), (q, y)], bu, BASES[(k + l) % 2], 1 + (l as u64) % SEEDS, emit);
                    }
                }
            }
        }
    }
    let n = if t == Tier::Quick { 6 } else { 9 };
    let m = if t == Tier::Quick { 3 } else { 5 };
    for p in 0..n {
        for q in 0..n {
            for r in 0..n {
                if p == q || q == r || p == r {
                    continue;
                }
                for x in 0..m {
                    for y in 0..m {
                        for z in 0..m {
                            case(&[(PATTERNS[p], TARGETS[x]), (PATTERNS[q], TARGETS[y]), (PATTERNS[r], TARGETS[z])], 0, BASES[0], 1, emit);
                        }
                    }
                }
            }
        }
    }
}
