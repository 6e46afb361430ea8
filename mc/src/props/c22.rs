//! C22: `load_side_effects` — the closest description file, what it declares, now.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"values": VALUES, "levels_with_a_description_file": "each of /, /w, /w/p, /w/p/src independently: none or one of the values", "paths": PATHS,
            "description_files": ["package.json", "other.json"], "edits": "rewrite, remove, create between questions on a warm resolver", "thorough": t == Tier::Thorough}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const VALUES: &[&str] = &[
    "{}", "{\"sideEffects\":true}", "{\"sideEffects\":false}", "{\"sideEffects\":[]}", "{\"sideEffects\":[\"./a.js\",\"*.css\"]}", "{\"sideEffects\":[\"./a.js\",1]}", "{\"sideEffects\":1}",
    "{\"sideEffects\":\"x\"}", "{", "[]", "{\"sideEffects\":{}}", "{\"sideEffects\":false,\"exports\":{\"./a\":\"./b\",\"c\":\"d\"}}", "{\"sideEffects\":false,\"sideEffects\":true}",
    "{\"sideEffects\":[\"é\",\"\"]}", "{\"name\":\"x\",\"version\":\"1\",\"sideEffects\":false,\"main\":1,\"browser\":1,\"imports\":{}}",
    "{\"type\":\"module\"}", "{\"name\":\"x\"}", "{\"name\":\"x\",\"type\":\"commonjs\",\"private\":true}", "{\"type\":\"module\",\"sideEffects\":true}", "{\"sideEffects\":null}",
    "{\"sideEffects\":[\"./a.js\",\"a.js\",\"./a.js\",\"./**/x\",\"\\\\x\",\" \"]}", "{\"sideEffects\":\"false\"}", "{\"sideeffects\":false}", "{\"sideEffects\":0}",
];
const PATHS: &[&str] = &["/w/p/src/a.js", "/w/p/src", "/w/p", "/w/p/", "/w", "/", "/w/p/gone/x.js", "/gone", "/w/p/src/../src/a.js", "/w/p/src/a.js/x", "/w/l/a.js", "/w/p/src/..", "/w/p/dir"];
const DIRS: &[&str] = &["/w/p/src", "/w/p", "/w", ""];

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c22(t, emit);
    let n = VALUES.len();
    let few = [0, 1, 2, 4, 6, 8, 13];
    let make = |at: [Option<usize>; 4], desc: &str, warm: bool, emit: &mut dyn FnMut(Case)| {
        let mut c = Case::default();
        c.note = format!("{at:?} {desc} warm={warm}");
        c.opts[0].desc = Some(desc.into());
        c.cold = !warm;
        for (d, v) in DIRS.iter().zip(at) {
            if let Some(v) = v {
                c.file(&format!("{d}/{desc}"), VALUES[v]);
            }
        }
        c.files(&["/w/p/src/a.js", "/w/p/src/index.js"]).dir("/w/p/dir/package.json").link("/w/l", "{R}/w/p/src");
        let ask = |c: &mut Case| {
            for p in PATHS {
                c.ops.push(Op::Side(0, p.to_string()));
            }
        };
        ask(&mut c);
        if warm {
            for (d, v) in DIRS.iter().zip(at) {
                let f = format!("{d}/{desc}");
                for e in 0..3 {
                    c.ops.push(Op::Tick(2000));
                    c.ops.push(match (e, v) {
                        (0, Some(v)) => Op::Write(f.clone(), VALUES[(v + 3) % n].into()),
                        (0, None) => Op::Write(f.clone(), VALUES[2].into()),
                        (1, _) => Op::Remove(f.clone()),
                        (_, Some(v)) => Op::Write(f.clone(), VALUES[v].into()),
                        (_, None) => Op::Mkdir(f.clone()),
                    });
                    ask(&mut c);
                }
            }
        }
        emit(c);
    };
    for desc in ["package.json", "other.json"] {
        for warm in [false, true] {
            for a in 0..=n {
                for b in 0..=n {
                    let o = |x: usize| (x < n).then_some(x);
                    make([o(a), o(b), None, Some(1)], desc, warm, emit);
                    make([None, o(a), o(b), None], desc, warm, emit);
                    for c in few {
                        for d in few {
                            if t == Tier::Quick && ((a + b + c + d) % 5 != 0 || desc != "package.json") {
                                continue;
                            }
                            make([o(a), o(b), Some(c), (d > 0).then_some(d)], desc, warm, emit);
                        }
                    }
                }
            }
        }
    }
}
