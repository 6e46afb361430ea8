//! C25: `normalize_path_without_link` is the lexical normal form, for every path over a small alphabet.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"alphabet": ALPHABET, "second_alphabet": MORE, "second_length": depth(t) - 2, "length": format!("every string of 0..{} symbols", depth(t)), "segments": SEGS, "segment_paths": format!("every path of 0..{} segments, absolute and relative, with and without a trailing slash", segs(t))}),
        rests_on: &["the expected value is computed by a second, string-based normaliser (mc/src/spec.rs, norm_any)"],
    }
}

const ALPHABET: &[&str] = &["a", "/", ".", "é"];
const MORE: &[&str] = &["a", "/", ".", " ", "\u{10FFFF}", "\\", ":", "*", "~"];
const SEGS: &[&str] = &["a", "bb", ".", "..", "...", ".a", "a.", "é", "a b", "..a", " ", "a ", "\u{10FFFF}", "C:", "\\", "A"];
fn depth(t: Tier) -> usize {
    if t == Tier::Quick { 7 } else { 9 }
}
fn segs(t: Tier) -> usize {
    if t == Tier::Quick { 4 } else { 5 }
}

fn words(set: &[&str], sep: &str, max: usize, f: &mut dyn FnMut(&str)) {
    fn go(set: &[&str], sep: &str, left: usize, at: &str, f: &mut dyn FnMut(&str)) {
        f(at);
        if left == 0 {
            return;
        }
        for s in set {
            let next = if at.is_empty() { s.to_string() } else { format!("{at}{sep}{s}") };
            go(set, sep, left - 1, &next, f);
        }
    }
    go(set, sep, max, "", f);
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    let mut c = Case::default();
    let mut push = |p: String, c: &mut Case| {
        if c.ops.len() == 64 {
            c.note = format!("{:?}..", c.ops[0]);
            emit(std::mem::take(c));
        }
        c.ops.push(Op::Norm(p));
    };
    words(ALPHABET, "", depth(t), &mut |p| push(p.into(), &mut c));
    words(MORE, "", depth(t) - 2, &mut |p| push(p.into(), &mut c));
    words(SEGS, "/", segs(t), &mut |p| {
        push(p.into(), &mut c);
        push(format!("/{p}"), &mut c);
        push(format!("{p}/"), &mut c);
        push(format!("//{p}//"), &mut c);
    });
    drop(push);
    c.note = "last".into();
    emit(c);
}
