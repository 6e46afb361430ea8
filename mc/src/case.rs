//! A case: one point of an explored space. Everything a run depends on is in here, so that a
//! case written to disk reproduces the run.
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Node {
    File(String),
    Link(String),
    Dir,
    /// a socket
    Special,
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Opts {
    pub ext: Vec<String>,
    pub enforce: Option<bool>,
    pub alias: Vec<(String, Option<String>)>,
    pub prefer_relative: bool,
    pub symlinks: bool,
    pub desc: Option<String>,
    pub main_files: Vec<String>,
    pub main_fields: Vec<String>,
    pub browser: bool,
    pub conds: Vec<String>,
    pub tsconfig: Option<String>,
}

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            ext: strs(&[".js", ".json", ".node"]),
            enforce: None,
            alias: vec![],
            prefer_relative: false,
            symlinks: true,
            desc: Some("package.json".into()),
            main_files: strs(&["index"]),
            main_fields: strs(&["main"]),
            browser: false,
            conds: strs(&["node"]),
            tsconfig: None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Op {
    /// resolver index, base directory, request
    Resolve(usize, String, String),
    /// `load_side_effects`
    Side(usize, String),
    /// `normalize_path_without_link`
    Norm(String),
    /// `is_build_in_module`
    Builtin(String),
    Write(String, String),
    Remove(String),
    Link(String, String),
    Mkdir(String),
    /// advance the clock (ms)
    Tick(i64),
    /// set a file's mtime back or forward by ms relative to the clock
    Touch(String, i64),
    /// throw all resolvers (and their caches) away
    Fresh,
}

/// Something the environment does in the middle of an op.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Event {
    Fail(i32),
    Do(Op),
}

#[derive(Clone, Debug, Default, PartialEq, Hash)]
pub struct Threads {
    pub jobs: Vec<Vec<Op>>,
    pub prefix: Vec<u8>,
    pub bound: u32,
    pub fs_points: bool,
    /// every allocation and release is a decision point
    pub alloc_points: bool,
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Case {
    pub tree: Vec<(String, Node)>,
    pub opts: Vec<Opts>,
    /// the resolvers share one `ResolverCache`
    pub shared: bool,
    /// every op runs on brand-new resolvers
    pub cold: bool,
    pub cwd: String,
    pub seed: u64,
    pub ops: Vec<Op>,
    /// (op index, n-th file-system call of that op counted from 1, event)
    pub events: Vec<(usize, u64, Event)>,
    /// runs after `ops`
    pub threads: Option<Threads>,
    /// free-form note of the generator (which axis values produced the case)
    pub note: String,
}

impl Default for Case {
    fn default() -> Self {
        Case {
            tree: vec![],
            opts: vec![Opts::default()],
            shared: false,
            cold: true,
            cwd: "/".into(),
            seed: 1,
            ops: vec![],
            events: vec![],
            threads: None,
            note: String::new(),
        }
    }
}

impl Case {
    pub fn file(&mut self, p: &str, c: &str) -> &mut Self {
        self.tree.push((p.into(), Node::File(c.into())));
        self
    }
    pub fn files<S: AsRef<str>>(&mut self, ps: &[S]) -> &mut Self {
        for p in ps {
            self.file(p.as_ref(), "");
        }
        self
    }
    pub fn dir(&mut self, p: &str) -> &mut Self {
        self.tree.push((p.into(), Node::Dir));
        self
    }
    pub fn special(&mut self, p: &str) -> &mut Self {
        self.tree.push((p.into(), Node::Special));
        self
    }
    pub fn link(&mut self, p: &str, t: &str) -> &mut Self {
        self.tree.push((p.into(), Node::Link(t.into())));
        self
    }
    pub fn req(&mut self, base: &str, r: &str) -> &mut Self {
        self.ops.push(Op::Resolve(0, base.into(), r.into()));
        self
    }
    /// No faults, schedules or clock: can be replayed on a real file system as is.
    pub fn plain(&self) -> bool {
        self.events.is_empty()
            && self.threads.is_none()
            && !self.ops.iter().any(|o| matches!(o, Op::Tick(_) | Op::Touch(..)))
    }
}

fn op_json(o: &Op) -> Value {
    match o {
        Op::Resolve(r, b, q) => json!({"resolve": [r, b, q]}),
        Op::Side(r, p) => json!({"side": [r, p]}),
        Op::Norm(p) => json!({"normalize": p}),
        Op::Builtin(p) => json!({"builtin": p}),
        Op::Write(p, d) => json!({"write": [p, d]}),
        Op::Remove(p) => json!({"remove": p}),
        Op::Link(p, t) => json!({"link": [p, t]}),
        Op::Mkdir(p) => json!({"mkdir": p}),
        Op::Tick(n) => json!({"tick": n}),
        Op::Touch(p, n) => json!({"touch": [p, n]}),
        Op::Fresh => json!({"fresh": true}),
    }
}

fn s(v: &Value) -> String {
    v.as_str().unwrap_or_default().to_string()
}

fn op_from(v: &Value) -> Op {
    let (k, a) = v.as_object().unwrap().iter().next().unwrap();
    match k.as_str() {
        "resolve" => Op::Resolve(a[0].as_u64().unwrap() as usize, s(&a[1]), s(&a[2])),
        "side" => Op::Side(a[0].as_u64().unwrap() as usize, s(&a[1])),
        "normalize" => Op::Norm(s(a)),
        "builtin" => Op::Builtin(s(a)),
        "write" => Op::Write(s(&a[0]), s(&a[1])),
        "remove" => Op::Remove(s(a)),
        "link" => Op::Link(s(&a[0]), s(&a[1])),
        "mkdir" => Op::Mkdir(s(a)),
        "tick" => Op::Tick(a.as_i64().unwrap()),
        "touch" => Op::Touch(s(&a[0]), a[1].as_i64().unwrap()),
        _ => Op::Fresh,
    }
}

fn vs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default()
}

impl Opts {
    pub fn to_json(&self) -> Value {
        json!({
            "extensions": self.ext, "enforce_extension": self.enforce,
            "alias": self.alias.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
            "prefer_relative": self.prefer_relative, "symlinks": self.symlinks,
            "description_file": self.desc, "main_files": self.main_files,
            "main_fields": self.main_fields, "browser_field": self.browser,
            "condition_names": self.conds, "tsconfig": self.tsconfig,
        })
    }
    pub fn from_json(v: &Value) -> Opts {
        Opts {
            ext: vs(&v["extensions"]),
            enforce: v["enforce_extension"].as_bool(),
            alias: v["alias"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| (s(&p[0]), p[1].as_str().map(String::from)))
                .collect(),
            prefer_relative: v["prefer_relative"].as_bool().unwrap(),
            symlinks: v["symlinks"].as_bool().unwrap(),
            desc: v["description_file"].as_str().map(String::from),
            main_files: vs(&v["main_files"]),
            main_fields: vs(&v["main_fields"]),
            browser: v["browser_field"].as_bool().unwrap(),
            conds: vs(&v["condition_names"]),
            tsconfig: v["tsconfig"].as_str().map(String::from),
        }
    }
}

impl Case {
    pub fn to_json(&self) -> Value {
        json!({
            "note": self.note,
            "tree": self.tree.iter().map(|(p, n)| match n {
                Node::File(c) => json!([p, "file", c]),
                Node::Link(t) => json!([p, "link", t]),
                Node::Dir => json!([p, "dir"]),
                Node::Special => json!([p, "special"]),
            }).collect::<Vec<_>>(),
            "resolvers": self.opts.iter().map(Opts::to_json).collect::<Vec<_>>(),
            "shared_cache": self.shared, "fresh_resolver_per_op": self.cold,
            "cwd": self.cwd, "seed": self.seed,
            "ops": self.ops.iter().map(op_json).collect::<Vec<_>>(),
            "events": self.events.iter().map(|(o, n, e)| match e {
                Event::Fail(x) => json!({"op": o, "call": n, "errno": x}),
                Event::Do(d) => json!({"op": o, "call": n, "do": op_json(d)}),
            }).collect::<Vec<_>>(),
            "threads": self.threads.as_ref().map(|t| json!({
                "jobs": t.jobs.iter().map(|j| j.iter().map(op_json).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "schedule": t.prefix, "preemption_bound": t.bound, "fs_points": t.fs_points, "alloc_points": t.alloc_points,
            })),
        })
    }
    pub fn from_json(v: &Value) -> Case {
        let ops = |v: &Value| -> Vec<Op> { v.as_array().unwrap().iter().map(op_from).collect() };
        Case {
            note: s(&v["note"]),
            tree: v["tree"]
                .as_array()
                .unwrap()
                .iter()
                .map(|n| {
                    (
                        s(&n[0]),
                        match n[1].as_str().unwrap() {
                            "file" => Node::File(s(&n[2])),
                            "link" => Node::Link(s(&n[2])),
                            "special" => Node::Special,
                            _ => Node::Dir,
                        },
                    )
                })
                .collect(),
            opts: v["resolvers"].as_array().unwrap().iter().map(Opts::from_json).collect(),
            shared: v["shared_cache"].as_bool().unwrap(),
            cold: v["fresh_resolver_per_op"].as_bool().unwrap(),
            cwd: s(&v["cwd"]),
            seed: v["seed"].as_u64().unwrap(),
            ops: ops(&v["ops"]),
            events: v["events"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| {
                    (
                        e["op"].as_u64().unwrap() as usize,
                        e["call"].as_u64().unwrap(),
                        match e["errno"].as_i64() {
                            Some(x) => Event::Fail(x as i32),
                            None => Event::Do(op_from(&e["do"])),
                        },
                    )
                })
                .collect(),
            threads: v["threads"].as_object().map(|t| Threads {
                jobs: t["jobs"].as_array().unwrap().iter().map(ops).collect(),
                prefix: t["schedule"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
                bound: t["preemption_bound"].as_u64().unwrap() as u32,
                fs_points: t["fs_points"].as_bool().unwrap(),
                alloc_points: t["alloc_points"].as_bool().unwrap_or(false),
            }),
        }
    }
}
