//! C23: the table of built-in modules — every name of it, every neighbour of a name, every short string.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |t| json!({"names": crate::spec::BUILTINS.len(), "neighbours": "every deletion, substitution, insertion and transposition of one character of each name, each prefix, each name with a prefix or suffix",
            "alphabet": SET, "short_strings": format!("every string of 0..{} letters", if t == Tier::Quick { 4 } else { 5 })}),
        rests_on: &["the list of built-in modules of Node.js 16 in mc/src/spec.rs"],
    }
}

const SET: &str = "abcdefghijklmnopqrstuvwxyz_/0123456789";

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    let mut c = Case::default();
    let mut push = |p: String, c: &mut Case| {
        if c.ops.len() == 64 {
            c.note = format!("{:?}..", c.ops[0]);
            emit(std::mem::take(c));
        }
        c.ops.push(Op::Builtin(p));
    };
    for n in crate::spec::BUILTINS {
        push(n.to_string(), &mut c);
        for i in 0..n.len() {
            push(n[..i].into(), &mut c);
            push(format!("{}{}", &n[..i], &n[i + 1..]), &mut c);
            if i + 1 < n.len() {
                push(format!("{}{}{}{}", &n[..i], &n[i + 1..i + 2], &n[i..i + 1], &n[i + 2..]), &mut c);
            }
            for x in SET.chars().chain(",-. :?A".chars()) {
                push(format!("{}{x}{}", &n[..i], &n[i + 1..]), &mut c);
                push(format!("{}{x}{}", &n[..i], &n[i..]), &mut c);
            }
        }
        for x in ["/", "/index", "?q", "#f", " ", ".js", "s", "\0"] {
            push(format!("{n}{x}"), &mut c);
        }
        for x in ["node:", "./", "/", "@", " ", "_"] {
            push(format!("{x}{n}"), &mut c);
        }
        push(n.to_uppercase(), &mut c);
    }
    let letters: Vec<char> = SET.chars().take(if t == Tier::Quick { 26 } else { 28 }).collect();
    let max = if t == Tier::Quick { 4 } else { 5 };
    let mut words = vec![String::new()];
    for n in 0..=max {
        for w in &words {
            push(w.clone(), &mut c);
        }
        if n < max {
            words = words.iter().flat_map(|w| letters.iter().map(move |l| format!("{w}{l}"))).collect();
        }
    }
    drop(push);
    c.note = "last".into();
    emit(c);
}
