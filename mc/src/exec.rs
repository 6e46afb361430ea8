//! Runs a case on the real crate: inside the file-system model (`run_vfs`), or on the real file
//! system below a scratch directory (`run_real`, used to bind the model to reality).
use crate::case::*;
use crate::interpose::{self, Env, Verdict};
use crate::sched;
use crate::spec::{Exp, Side, Spec};
use crate::vfs::{Vfs, T0};
use nodejs_resolver::{AliasMap, ResolveResult, Resolver, ResolverCache, ResolverOptions, SideEffects};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Info { path: String, query: String, fragment: String, join: String },
    Ignored,
    Err(String),
    Side(Option<(String, Option<Side>)>),
    SideErr(String),
    Panic(String),
    Text(String),
    Skipped,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub exp: Exp,
    pub act: Act,
    /// file-system calls the op made (model runs)
    pub calls: u64,
    /// which of them open a file (indexes counted from 1)
    pub opens: Vec<u64>,
    /// the job (thread) it belongs to; None = sequential part
    pub job: Option<usize>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {at}")));
    }));
}

pub fn options(o: &Opts, cache: Option<Arc<ResolverCache>>, root: &str) -> ResolverOptions {
    ResolverOptions {
        extensions: o.ext.clone(),
        enforce_extension: o.enforce,
        alias: o
            .alias
            .iter()
            .map(|(k, v)| {
                (
                    sub(k, root),
                    match v {
                        Some(t) => AliasMap::Target(sub(t, root)),
                        None => AliasMap::Ignored,
                    },
                )
            })
            .collect(),
        prefer_relative: o.prefer_relative,
        external_cache: cache,
        symlinks: o.symlinks,
        description_file: o.desc.clone(),
        main_files: o.main_files.clone(),
        main_fields: o.main_fields.clone(),
        browser_field: o.browser,
        condition_names: o.conds.iter().cloned().collect(),
        tsconfig: o.tsconfig.as_ref().map(|t| PathBuf::from(format!("{root}{t}"))),
    }
}

/// U+10FFFF stands for a byte that is not UTF-8.
pub fn raw(s: &str) -> Vec<u8> {
    if !s.contains('\u{10FFFF}') {
        return s.as_bytes().to_vec();
    }
    let mut v = vec![];
    for c in s.chars() {
        if c == '\u{10FFFF}' {
            v.push(0xff)
        } else {
            v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes())
        }
    }
    v
}
/// The inverse: a byte that is no text comes back as the stand-in.
fn unraw(p: &Path) -> String {
    use std::os::unix::ffi::OsStrExt;
    let mut s = String::new();
    for c in p.as_os_str().as_bytes().utf8_chunks() {
        s.push_str(c.valid());
        for b in c.invalid() {
            s.push(if *b == 0xff { '\u{10FFFF}' } else { '\u{FFFD}' });
        }
    }
    s
}
fn raw_path(s: &str) -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    PathBuf::from(std::ffi::OsString::from_vec(raw(s)))
}

pub fn sub(s: &str, root: &str) -> String {
    if s.contains("{R}") {
        s.replace("{R}", root)
    } else {
        s.to_string()
    }
}

pub fn resolvers(case: &Case, root: &str) -> Vec<Arc<Resolver>> {
    let cache = if case.shared { Some(Arc::new(ResolverCache::default())) } else { None };
    case.opts.iter().map(|o| Arc::new(Resolver::new(options(o, cache.clone(), root)))).collect()
}

fn guard(f: impl FnOnce() -> Act) -> Act {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(a) => a,
        Err(_) => Act::Panic(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

fn text(p: &Path, root: &str) -> String {
    strip(&p.to_string_lossy(), root)
}

fn strip(s: &str, root: &str) -> String {
    if root.is_empty() {
        s.to_string()
    } else {
        s.replace(root, "")
    }
}

fn abs(p: &str, root: &str) -> String {
    if p.starts_with('/') {
        format!("{root}{p}")
    } else {
        p.to_string()
    }
}

pub fn do_resolve(r: &Resolver, base: &str, req: &str, root: &str) -> Act {
    let base = abs(base, root);
    let req = sub(req, root);
    guard(|| match r.resolve(&raw_path(&base), &req) {
        Ok(ResolveResult::Info(i)) => Act::Info {
            path: text(&i.path, root),
            query: i.request.query.to_string(),
            fragment: i.request.fragment.to_string(),
            join: text(&i.join(), root),
        },
        Ok(ResolveResult::Ignored) => Act::Ignored,
        Err(e) => Act::Err(strip(&e, root)),
    })
}

pub fn do_pure(op: &Op) -> Act {
    guard(|| match op {
        Op::Norm(p) => Act::Text(unraw(&Resolver::normalize_path_without_link(&raw_path(p)))),
        Op::Builtin(p) => Act::Text(Resolver::is_build_in_module(p).to_string()),
        _ => Act::Skipped,
    })
}

pub fn do_side(r: &Resolver, p: &str, root: &str) -> Act {
    let p = abs(p, root);
    guard(|| match r.load_side_effects(&raw_path(&p)) {
        Ok(None) => Act::Side(None),
        Ok(Some((f, s))) => Act::Side(Some((
            text(&f, root),
            s.map(|s| match s {
                SideEffects::Bool(b) => Side::Bool(b),
                SideEffects::Array(v) => Side::List(v),
            }),
        ))),
        Err(e) => Act::SideErr(strip(&e, root)),
    })
}

// ---- model ---------------------------------------------------------------------------

pub fn build(case: &Case) -> Vfs {
    let mut v = Vfs::new();
    for (p, n) in &case.tree {
        put(&mut v, p, n);
    }
    v.cwd = v.mkdirs(case.cwd.as_bytes());
    v
}

fn put(v: &mut Vfs, p: &str, n: &Node) {
    match n {
        Node::File(c) => v.put_file(&raw(p), Arc::new(raw(&sub(c, "")))),
        Node::Link(t) => v.put_link(&raw(p), &raw(&sub(t, ""))),
        Node::Special => v.put_special(&raw(p)),
        Node::Dir => {
            v.mkdirs(&raw(p));
        }
    }
}

pub fn mutate(v: &mut Vfs, op: &Op) {
    match op {
        Op::Write(p, d) => put(v, p, &Node::File(d.clone())),
        Op::Link(p, t) => put(v, p, &Node::Link(t.clone())),
        Op::Mkdir(p) => put(v, p, &Node::Dir),
        Op::Remove(p) => v.remove(p.as_bytes()),
        Op::Tick(ms) => v.now += ms * 1_000_000,
        Op::Touch(p, ms) => {
            let t = v.now + ms * 1_000_000;
            v.set_mtime(p.as_bytes(), t);
        }
        _ => {}
    }
}

/// The space does not look at the expected outcome.
pub static NO_SPEC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn expect(v: &Vfs, opts: &[Opts], op: &Op) -> Exp {
    if NO_SPEC.load(Relaxed) {
        return Exp::Any;
    }
    match op {
        Op::Resolve(r, b, q) => Spec { fs: v, o: &opts[*r] }.resolve(b, &sub(q, "")),
        Op::Side(r, p) => Spec { fs: v, o: &opts[*r] }.side_effects(p),
        Op::Norm(p) => Exp::Text(crate::spec::norm_any(p)),
        Op::Builtin(p) => Exp::Text(crate::spec::BUILTINS.contains(&p.as_str()).to_string()),
        _ => Exp::Any,
    }
}

fn perform(rs: &[Arc<Resolver>], op: &Op) -> Act {
    match op {
        Op::Resolve(r, b, q) => do_resolve(&rs[*r], b, q, ""),
        Op::Side(r, p) => do_side(&rs[*r], p, ""),
        op => do_pure(op),
    }
}

pub fn sub_opts(case: &Case) -> Vec<Opts> {
    case.opts
        .iter()
        .map(|o| {
            let mut o = o.clone();
            for (k, v) in o.alias.iter_mut() {
                *k = sub(k, "");
                if let Some(v) = v {
                    *v = sub(v, "");
                }
            }
            o
        })
        .collect()
}

pub struct Ran {
    pub steps: Vec<Step>,
    pub points: Vec<sched::Point>,
}

pub fn run_vfs(case: &Case) -> Ran {
    if case.seed > 1 {
        // a fresh thread draws its hash keys from the seed
        interpose::HASH_SEED.store(case.seed, SeqCst);
        let c = case.clone();
        let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || run_vfs_here(&c)).unwrap().join().unwrap();
        interpose::HASH_SEED.store(1, SeqCst);
        return r;
    }
    run_vfs_here(case)
}

fn run_vfs_here(case: &Case) -> Ran {
    let opts = sub_opts(case);
    let mut env = Box::new(Env::new(build(case)));
    let mut rs: Vec<Arc<Resolver>> = vec![];
    let mut steps = Vec::with_capacity(case.ops.len());
    for (i, op) in case.ops.iter().enumerate() {
        match op {
            Op::Resolve(..) | Op::Side(..) => {
                let exp = expect(&env.vfs, &opts, op);
                if case.cold || rs.is_empty() {
                    rs = resolvers(case, "");
                }
                env.calls = 0;
                env.opens.clear();
                let evs: Vec<(u64, Event)> =
                    case.events.iter().filter(|e| e.0 == i).map(|e| (e.1, e.2.clone())).collect();
                if !evs.is_empty() {
                    env.hook = Some(Box::new(move |v, n, _, _| {
                        let mut verdict = Verdict::Go;
                        for (at, e) in &evs {
                            if *at == n {
                                match e {
                                    Event::Fail(x) => verdict = Verdict::Fail(*x),
                                    Event::Do(op) => mutate(v, op),
                                }
                            }
                        }
                        verdict
                    }));
                }
                let (act, e) = interpose::with_env(env, || perform(&rs, op));
                env = e;
                env.hook = None;
                let leaked = env.open.iter().filter(|o| o.is_some()).count();
                env.open.clear();
                let act = if leaked > 0 { Act::Panic(format!("{leaked} files left open")) } else { act };
                steps.push(Step { op: op.clone(), exp, act, calls: env.calls, opens: std::mem::take(&mut env.opens), job: None });
            }
            Op::Norm(_) | Op::Builtin(_) => {
                steps.push(Step { op: op.clone(), exp: expect(&env.vfs, &opts, op), act: do_pure(op), calls: 0, opens: vec![], job: None });
            }
            Op::Fresh => rs.clear(),
            op => mutate(&mut env.vfs, op),
        }
    }
    let mut points = vec![];
    if let Some(t) = &case.threads {
        if rs.is_empty() {
            rs = resolvers(case, "");
        }
        let out: Arc<Mutex<Vec<(usize, Op, Act)>>> = Arc::default();
        let start = &env.vfs;
        let exps: Vec<Vec<Exp>> =
            t.jobs.iter().map(|j| j.iter().map(|o| expect(start, &opts, o)).collect()).collect();
        let jobs: Vec<Box<dyn FnOnce() + Send>> = t
            .jobs
            .iter()
            .enumerate()
            .map(|(j, ops)| {
                let (ops, rs, out) = (ops.clone(), rs.clone(), out.clone());
                Box::new(move || {
                    for op in ops {
                        let act = match &op {
                            Op::Resolve(..) | Op::Side(..) => perform(&rs, &op),
                            o => {
                                sched::point();
                                interpose::env(|e| mutate(&mut e.vfs, o));
                                Act::Skipped
                            }
                        };
                        sched::bypass(|| out.lock().unwrap().push((j, op, act)));
                    }
                    sched::bypass(|| drop(rs));
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        env.calls = 0;
        let (run, mut e) = interpose::with_env(env, || sched::run(jobs, &t.prefix, t.bound, t.fs_points, t.alloc_points));
        e.open.clear();
        points = run.trace;
        let mut seen = vec![0; t.jobs.len()];
        for (j, op, act) in out.lock().unwrap().drain(..) {
            let exp = exps[j][seen[j]].clone();
            seen[j] += 1;
            steps.push(Step { op, exp, act, calls: 0, opens: vec![], job: Some(j) });
        }
        // what a later, sequential question on the same resolvers sees
        let calls = e.calls;
        env = e;
        for j in &t.jobs {
            for op in j {
                if matches!(op, Op::Resolve(..) | Op::Side(..)) {
                    let exp = expect(&env.vfs, &opts, op);
                    let (act, e) = interpose::with_env(env, || perform(&rs, op));
                    env = e;
                    steps.push(Step { op: op.clone(), exp, act, calls, opens: vec![], job: None });
                }
            }
        }
    }
    Ran { steps, points }
}

// ---- real file system ----------------------------------------------------------------

fn set_mtime(p: &Path, t: i64) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    let ts = libc::timespec { tv_sec: t.div_euclid(1_000_000_000), tv_nsec: t.rem_euclid(1_000_000_000) };
    unsafe {
        libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [ts, ts].as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
    }
}

fn real_put(root: &str, p: &str, n: &Node, now: i64) -> std::io::Result<()> {
    let path = raw_path(&format!("{root}{p}"));
    std::fs::create_dir_all(path.parent().unwrap())?;
    match n {
        Node::File(c) => std::fs::write(&path, raw(&sub(c, root)))?,
        Node::Link(t) => std::os::unix::fs::symlink(raw_path(&sub(t, root)), &path)?,
        Node::Dir => std::fs::create_dir_all(&path)?,
        Node::Special => {
            use std::os::unix::ffi::OsStrExt;
            let c = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
            if unsafe { libc::mknod(c.as_ptr(), libc::S_IFSOCK | 0o600, 0) } != 0 {
                return Err(std::io::Error::last_os_error());
            }
        }
    }
    if matches!(n, Node::File(_)) {
        set_mtime(&path, now);
    }
    Ok(())
}

/// `root` must not exist; it is created and removed.
pub fn run_real(case: &Case, root: &str) -> std::io::Result<Vec<Step>> {
    std::fs::create_dir_all(root)?;
    let r = run_real_in(case, root);
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(root);
    r
}

fn run_real_in(case: &Case, root: &str) -> std::io::Result<Vec<Step>> {
    let opts = sub_opts(case);
    let mut v = build(case);
    for (p, n) in &case.tree {
        real_put(root, p, n, T0)?;
    }
    std::fs::create_dir_all(format!("{root}{}", case.cwd))?;
    std::env::set_current_dir(format!("{root}{}", case.cwd))?;
    let mut rs: Vec<Arc<Resolver>> = vec![];
    let mut steps = vec![];
    for op in &case.ops {
        match op {
            Op::Resolve(r, p, q) => {
                let exp = expect(&v, &opts, op);
                if case.cold || rs.is_empty() {
                    rs = resolvers(case, root);
                }
                let act = do_resolve(&rs[*r], p, q, root);
                steps.push(Step { op: op.clone(), exp, act, calls: 0, opens: vec![], job: None });
            }
            Op::Side(r, p) => {
                let exp = expect(&v, &opts, op);
                if case.cold || rs.is_empty() {
                    rs = resolvers(case, root);
                }
                let act = do_side(&rs[*r], p, root);
                steps.push(Step { op: op.clone(), exp, act, calls: 0, opens: vec![], job: None });
            }
            Op::Norm(_) | Op::Builtin(_) => {
                steps.push(Step { op: op.clone(), exp: expect(&v, &opts, op), act: do_pure(op), calls: 0, opens: vec![], job: None });
            }
            Op::Fresh => rs.clear(),
            op => {
                mutate(&mut v, op);
                let now = v.now;
                match op {
                    Op::Write(p, d) => real_put(root, p, &Node::File(d.clone()), now)?,
                    Op::Link(p, t) => real_put(root, p, &Node::Link(t.clone()), now)?,
                    Op::Mkdir(p) => real_put(root, p, &Node::Dir, now)?,
                    Op::Remove(p) => {
                        let p = PathBuf::from(format!("{root}{p}"));
                        match std::fs::symlink_metadata(&p) {
                            Ok(m) if m.is_dir() => std::fs::remove_dir_all(&p)?,
                            Ok(_) => std::fs::remove_file(&p)?,
                            Err(_) => {}
                        }
                    }
                    Op::Touch(p, ms) => set_mtime(Path::new(&format!("{root}{p}")), now + ms * 1_000_000),
                    _ => {}
                }
            }
        }
    }
    Ok(steps)
}

// ---- comparison ----------------------------------------------------------------------

/// Does what happened match what should?
pub fn conforms(exp: &Exp, act: &Act) -> bool {
    match (exp, act) {
        (_, Act::Panic(_)) => false,
        (Exp::Any, _) => true,
        (_, Act::Skipped) => true,
        (
            Exp::Info { path, query, fragment },
            Act::Info { path: p, query: q, fragment: f, join },
        ) => path == p && query == q && fragment == f && *join == format!("{p}{q}{f}"),
        (Exp::Ignored, Act::Ignored) => true,
        (Exp::Fail(None), Act::Err(_)) => true,
        (Exp::Fail(Some(m)), Act::Err(e)) => m == e,
        (Exp::Text(a), Act::Text(b)) => a == b,
        (Exp::Side(a), Act::Side(b)) => a == b,
        (Exp::SideErr, Act::SideErr(_)) => true,
        _ => false,
    }
}

pub fn check_all(steps: &[Step]) -> Result<(), String> {
    for s in steps {
        if !conforms(&s.exp, &s.act) {
            return Err(describe(s));
        }
    }
    Ok(())
}

pub fn describe(s: &Step) -> String {
    format!("{:?}: expected {:?}, got {:?}", s.op, s.exp, s.act)
}

pub fn steps_json(steps: &[Step]) -> Value {
    Value::Array(
        steps
            .iter()
            .map(|s| {
                json!({
                    "op": format!("{:?}", s.op), "expected": format!("{:?}", s.exp),
                    "got": format!("{:?}", s.act), "thread": s.job,
                    "conforms": conforms(&s.exp, &s.act),
                })
            })
            .collect(),
    )
}
