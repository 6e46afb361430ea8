//! Distributes an explored space over forked worker processes, survives crashes, hangs and
//! deadlocks of the code under test, confirms every violation in a fresh process and writes the
//! evidence.
use crate::case::*;
use crate::exec::*;
use crate::{deco, interpose, props, sched};
use serde_json::{json, Value};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type Oracle = fn(&Case, &Ran) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(Tier, &mut dyn FnMut(Case)),
    /// Runs everything that one generated case stands for.
    pub explore: fn(&Case, &mut Runner),
    pub oracle: Oracle,
    pub bounds: fn(Tier) -> Value,
    pub rests_on: &'static [&'static str],
}

pub fn spec_oracle(_: &Case, ran: &Ran) -> Result<(), String> {
    check_all(&ran.steps)
}
pub fn once(c: &Case, r: &mut Runner) {
    r.run(c);
}

const EXIT_LIMIT: i32 = 42;
const EXIT_DEADLOCK: i32 = 43;
const EXIT_NOCONFORM: i32 = 44;

pub fn on_limit() -> ! {
    unsafe { libc::_exit(EXIT_LIMIT) }
}
pub fn on_deadlock() -> ! {
    unsafe { libc::_exit(EXIT_DEADLOCK) }
}

#[repr(C)]
pub struct Slot {
    /// index of the case being run + 1
    cur: AtomicU64,
    beat: AtomicU64,
    patch_len: AtomicU64,
    patch: [u8; 16384],
}

struct Shared {
    slots: *mut Slot,
    violations: *const AtomicU64,
}

fn mmap<T>(n: usize) -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>() * n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub cases: u64,
    pub runs: u64,
    pub ops: u64,
    pub fs_calls: u64,
    pub schedules: u64,
    pub faults: u64,
    pub real: u64,
    pub found: u64,
    pub ignored: u64,
    pub failed: u64,
    pub violations: u64,
    pub unfaithful: u64,
    pub capped: u64,
    pub max_points: u64,
    pub samples: Vec<Value>,
}

impl Stats {
    fn json(&self) -> Value {
        json!([self.cases, self.runs, self.ops, self.fs_calls, self.schedules, self.faults, self.real,
            self.found, self.ignored, self.failed, self.violations, self.unfaithful, self.capped, self.max_points, self.samples])
    }
    fn add(&mut self, v: &Value) {
        let n = |i: usize| v[i].as_u64().unwrap_or(0);
        self.cases += n(0);
        self.runs += n(1);
        self.ops += n(2);
        self.fs_calls += n(3);
        self.schedules += n(4);
        self.faults += n(5);
        self.real += n(6);
        self.found += n(7);
        self.ignored += n(8);
        self.failed += n(9);
        self.violations += n(10);
        self.unfaithful += n(11);
        self.capped += n(12);
        self.max_points = self.max_points.max(n(13));
        if let Some(a) = v[14].as_array() {
            self.samples.extend(a.iter().cloned());
        }
    }
}

pub struct Runner<'a> {
    pub tier: Tier,
    prop: &'a Prop,
    slot: Option<&'a Slot>,
    shared: Option<&'a Shared>,
    pub stats: Stats,
    states: std::collections::HashSet<u64>,
    dir: PathBuf,
    worker: usize,
    real_every: u64,
    real_mode: bool,
    out: Vec<(Case, String)>,
    deadline: Option<Instant>,
}

impl Runner<'_> {
    fn patch(&self, c: &Case) {
        let Some(s) = self.slot else { return };
        s.beat.fetch_add(1, Relaxed);
        if c.events.is_empty() && c.threads.is_none() {
            s.patch_len.store(0, Release);
            return;
        }
        let j = c.to_json();
        let p = json!({"events": j["events"], "threads": j["threads"], "ops": j["ops"]}).to_string();
        let b = p.as_bytes();
        if b.len() <= s.patch.len() {
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), s.patch.as_ptr() as *mut u8, b.len()) };
            s.patch_len.store(b.len() as u64, Release);
        }
    }

    pub fn over(&self) -> bool {
        self.deadline.is_some_and(|d| Instant::now() > d)
    }

    fn account(&mut self, c: &Case, ran: &Ran) {
        self.stats.runs += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        use std::hash::{Hash, Hasher};
        (&c.tree, &c.opts, c.shared, c.cold, &c.cwd, c.seed).hash(&mut h);
        (&c.events, &c.threads).hash(&mut h);
        self.states.insert(h.finish());
        for op in &c.ops {
            if c.cold {
                let mut h = h.clone();
                op.hash(&mut h);
                self.states.insert(h.finish());
                if !matches!(op, Op::Resolve(..) | Op::Side(..)) {
                    op.hash(&mut { h });
                }
            } else {
                op.hash(&mut h);
                self.states.insert(h.finish());
            }
        }
        if c.ops.is_empty() || c.threads.is_some() {
            self.states.insert(h.finish());
        }
        self.stats.max_points = self.stats.max_points.max(ran.points.len() as u64);
        for s in &ran.steps {
            self.stats.ops += 1;
            self.stats.fs_calls += s.calls;
            match &s.act {
                Act::Info { .. } | Act::Side(_) | Act::Text(_) => self.stats.found += 1,
                Act::Ignored => self.stats.ignored += 1,
                _ => self.stats.failed += 1,
            }
        }
    }

    /// Runs one fully specified case, judges it, and returns what happened.
    pub fn run(&mut self, c: &Case) -> Ran {
        self.patch(c);
        let plain = c.plain() && c.seed <= 1;
        if self.real_mode && plain {
            if let Some(ran) = self.run_on_disk(c) {
                self.account(c, &ran);
                if let Err(m) = (self.prop.oracle)(c, &ran) {
                    self.violation(c, m);
                }
                return ran;
            }
        }
        let ran = run_vfs(c);
        self.account(c, &ran);
        let n = self.stats.runs;
        match (self.prop.oracle)(c, &ran) {
            Ok(()) => {
                if plain && self.real_every > 0 && n % self.real_every == 1 % self.real_every {
                    if let Some(real) = self.run_on_disk(c) {
                        if let Err(m) = (self.prop.oracle)(c, &real) {
                            self.violation(c, format!("on a real file system: {m}"));
                        }
                    }
                }
                if self.stats.samples.len() < 2 && (n == 3 || n % 977 == 50) {
                    let v = json!({"case": c.to_json(), "outcome": steps_json(&ran.steps)});
                    if v.to_string().len() < 12_000 {
                        self.stats.samples.push(v);
                    }
                }
            }
            Err(m) => {
                let real_ok = plain
                    && c.seed <= 1
                    && self.run_on_disk(c).is_some_and(|real| (self.prop.oracle)(c, &real).is_ok());
                if real_ok {
                    // the model of the environment does not fit this build: use the disk
                    self.stats.unfaithful += 1;
                    self.real_mode = true;
                } else {
                    self.violation(c, m);
                }
            }
        }
        ran
    }

    fn run_on_disk(&mut self, c: &Case) -> Option<Ran> {
        let root = self.dir.join(format!("r{}", self.worker));
        let root = root.to_string_lossy().into_owned();
        dashmap::mc::SINGLE_SHARD.store(0, SeqCst);
        let r = run_real(c, &root).ok();
        dashmap::mc::SINGLE_SHARD.store(1, SeqCst);
        self.stats.real += 1;
        r.map(|steps| Ran { steps, points: vec![] })
    }

    fn violation(&mut self, c: &Case, m: String) {
        self.stats.violations += 1;
        if let Some(s) = self.shared {
            let n = unsafe { (*s.violations).fetch_add(1, SeqCst) };
            if n >= cap() {
                return;
            }
        }
        self.out.push((c.clone(), m));
    }

    /// All schedules of a threaded case, up to its preemption bound.
    pub fn all_schedules(&mut self, c: &Case, cap: u64) {
        let mut c = c.clone();
        let bound = c.threads.as_ref().unwrap().bound;
        let mut n = 0;
        let before = self.stats.violations;
        loop {
            let ran = self.run(&c);
            self.stats.schedules += 1;
            n += 1;
            if self.stats.violations > before + 2 {
                return;
            }
            match sched::next_prefix(&ran.points, bound) {
                Some(p) => c.threads.as_mut().unwrap().prefix = p,
                None => return,
            }
            if n >= cap || (n % 64 == 0 && self.over()) {
                self.stats.capped += 1;
                if triage() {
                    eprintln!("capped after {n}: {}", c.note);
                }
                return;
            }
        }
    }
}

/// Violations after which an exploration stops (MC_TRIAGE=1: look at all of them).
fn cap() -> u64 {
    if triage() { 20_000 } else { 40 }
}
fn triage() -> bool {
    std::env::var_os("MC_TRIAGE").is_some()
}

/// Groups violations that look alike, for a developer working through them.
fn print_triage(found: &[(Case, String)]) {
    let mut groups = std::collections::BTreeMap::<String, Vec<(&Case, &String)>>::new();
    for (c, m) in found {
        let word = |s: &str| s.split([' ', '{', '(', ',']).next().unwrap_or("").to_string();
        let e = m.split("expected ").nth(1).map(|s| word(s)).unwrap_or_default();
        let g = m.split("got ").nth(1).unwrap_or(m);
        let g = if g.starts_with("Panic") { g.rsplit(" at ").next().unwrap().to_string() } else { word(g) };
        let note: Vec<&str> = c.note.split(' ').take(1).collect();
        groups.entry(format!("{e} -> {g} [{}]", note.join(" "))).or_default().push((c, m));
    }
    for (k, v) in &mut groups {
        v.sort_by_key(|(c, m)| m.len() + c.note.len());
        println!("## {k}: {}", v.len());
        for (c, m) in v.iter().take(std::env::var("MC_TRIAGE").unwrap().parse().unwrap_or(1)) {
            println!("   {} || {m}", c.note);
        }
    }
}

fn hash(i: u64) -> u64 {
    let mut z = i.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 32)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ (z >> 29)
}

pub fn verif() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

struct Plan {
    workers: usize,
    deadline: Instant,
    real_every: u64,
}

fn worker(prop: &Prop, tier: Tier, w: usize, from: u64, plan: &Plan, sh: &Shared, dir: &std::path::Path) -> Stats {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(w % 8, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
    let slot = unsafe { &*sh.slots.add(w) };
    crate::interpose::BEAT.store(&slot.beat as *const _ as *mut _, Relaxed);
    let mut r = Runner {
        tier,
        prop,
        slot: Some(slot),
        shared: Some(sh),
        stats: Stats::default(),
        states: Default::default(),
        dir: dir.to_path_buf(),
        worker: w,
        real_every: plan.real_every,
        real_mode: false,
        out: vec![],
        deadline: Some(plan.deadline),
    };
    let mut i = 0u64;
    let mut stop = false;
    deco::each(prop.id, prop.gen, tier, &mut |c| {
        i += 1;
        if stop || i <= from || hash(i) % plan.workers as u64 != w as u64 {
            return;
        }
        if r.stats.cases % 64 == 0
            && (Instant::now() > plan.deadline || unsafe { (*sh.violations).load(Relaxed) } > cap())
        {
            r.stats.capped += 1;
            stop = true;
            return;
        }
        slot.cur.store(i, Release);
        r.stats.cases += 1;
        (prop.explore)(&c, &mut r);
    });
    slot.cur.store(0, Release);
    for (k, (c, m)) in r.out.iter().enumerate() {
        let f = dir.join(format!("v{w}-{from}-{k}.json"));
        let v = json!({"property": prop.id, "message": m, "case": c.to_json()});
        std::fs::write(f, v.to_string()).unwrap();
    }
    let mut b = Vec::with_capacity(r.states.len() * 8);
    for h in &r.states {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("h{w}-{from}.bin")), b).unwrap();
    r.stats
}

fn nth_case(prop: &Prop, tier: Tier, n: u64) -> Option<Case> {
    let mut i = 0;
    let mut got = None;
    deco::each(prop.id, prop.gen, tier, &mut |c| {
        i += 1;
        if i == n {
            got = Some(c);
        }
    });
    got
}

/// How a run in a fresh process ends.
#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Ok,
    Violates,
    Killed(String),
}

pub fn fork_run(secs: u64, f: impl FnOnce() -> i32) -> End {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::setpgid(0, 0);
            quiet();
            let r = f();
            libc::_exit(r);
        }
        let t = Instant::now();
        loop {
            let mut st = 0;
            if libc::waitpid(pid, &mut st, libc::WNOHANG) == pid {
                return end_of(st);
            }
            if t.elapsed() > Duration::from_secs(secs) {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                return End::Killed(format!("no answer within {secs} s (hang or blow-up)"));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
}

fn end_of(st: i32) -> End {
    if libc::WIFSIGNALED(st) {
        return End::Killed(match libc::WTERMSIG(st) {
            libc::SIGABRT => "process aborted (stack overflow or abort)".into(),
            libc::SIGSEGV => "process crashed (SIGSEGV)".into(),
            s => format!("process killed by signal {s}"),
        });
    }
    match libc::WEXITSTATUS(st) {
        0 => End::Ok,
        EXIT_LIMIT => End::Killed("does not terminate: file-system call budget exceeded".into()),
        EXIT_DEADLOCK => End::Killed("deadlock: every thread waits for a lock".into()),
        EXIT_NOCONFORM => End::Violates,
        n => End::Killed(format!("exit code {n}")),
    }
}

fn quiet() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR, 0);
        libc::dup2(fd, 2);
    }
}

/// Replays a case; prints nothing. `real`: on the real file system.
pub fn judge(prop: &Prop, c: &Case, real: bool) -> Result<(), String> {
    if real {
        let root = format!("/tmp/mc-replay-{}", std::process::id());
        let steps = run_real(c, &root).map_err(|e| e.to_string())?;
        (prop.oracle)(c, &Ran { steps, points: vec![] })
    } else {
        let ran = run_vfs(c);
        (prop.oracle)(c, &ran)
    }
}

fn confirm(prop: &Prop, c: &Case) -> Option<String> {
    let go = |real: bool| fork_run(60, || if judge(prop, c, real).is_ok() { 0 } else { EXIT_NOCONFORM });
    let a = go(false);
    let text = |e: &End| match e {
        End::Killed(m) => m.clone(),
        _ => "wrong outcome".into(),
    };
    if !c.plain() || c.seed > 1 {
        return (a != End::Ok).then(|| text(&a));
    }
    // the file-system model and the disk must agree that it fails
    let b = go(true);
    (b != End::Ok).then(|| if a != End::Ok { text(&a) } else { text(&b) })
}

struct Known {
    signature: String,
    what: String,
    case: Option<Case>,
}

fn known(id: &str) -> Vec<Known> {
    let f = verif().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(f) else { return vec![] };
    let Ok(v) = serde_json::from_str::<Value>(&t) else { return vec![] };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|k| k["property"] == id && k["status"] == "open")
                .map(|k| Known {
                    signature: k["signature"].as_str().unwrap_or("").to_string(),
                    what: k["what"].as_str().unwrap_or("").to_string(),
                    case: k["case"].is_object().then(|| Case::from_json(&k["case"])),
                })
                .collect()
        })
        .unwrap_or_default()
}

pub fn check(id: &str, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let Some(prop) = props::get(id) else {
        println!("unknown property {id}");
        return 2;
    };
    let tier_name = if tier == Tier::Quick { "quick" } else { "thorough" };
    let secs: u64 = std::env::var("MC_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240,
        Tier::Thorough => 3000,
    });
    let mut total = 0u64;
    deco::each(prop.id, prop.gen, tier, &mut |_| total += 1);
    let plan = Plan {
        workers: std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        deadline: t0 + Duration::from_secs(secs),
        real_every: (total / 2000).max(7) | 1,
    };
    let dir = PathBuf::from(format!("/tmp/mc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let sh = Shared { slots: mmap::<Slot>(plan.workers), violations: mmap::<AtomicU64>(1) };
    let spawn = |w: usize, from: u64| -> i32 {
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            quiet();
            let st = worker(&prop, tier, w, from, &plan, &sh, &dir);
            std::fs::write(dir.join(format!("s{w}-{from}.json")), st.json().to_string()).unwrap();
            unsafe { libc::_exit(0) };
        }
        pid
    };
    let mut pids: Vec<i32> = (0..plan.workers).map(|w| spawn(w, 0)).collect();
    let mut last: Vec<(u64, u64, Instant)> = vec![(0, 0, Instant::now()); plan.workers];
    let mut crashes: Vec<(Case, String)> = vec![];
    let mut ncrash = 0;
    while pids.iter().any(|p| *p > 0) {
        for w in 0..plan.workers {
            if pids[w] <= 0 {
                continue;
            }
            let slot = unsafe { &*sh.slots.add(w) };
            let mut st = 0;
            let mut dead: Option<String> = None;
            if unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) } == pids[w] {
                match end_of(st) {
                    End::Ok => {
                        pids[w] = 0;
                        continue;
                    }
                    End::Killed(m) => dead = Some(m),
                    End::Violates => dead = Some("unexpected exit".into()),
                }
            } else {
                let (c, b) = (slot.cur.load(Acquire), slot.beat.load(Relaxed));
                if (c, b) != (last[w].0, last[w].1) {
                    last[w] = (c, b, Instant::now());
                } else if c != 0 && last[w].2.elapsed() > Duration::from_secs(if triage() { 4 } else { 30 }) {
                    unsafe {
                        libc::kill(pids[w], libc::SIGKILL);
                        libc::waitpid(pids[w], &mut st, 0);
                    }
                    dead = Some("no progress for 30 s (hang or blow-up)".into());
                }
            }
            if let Some(m) = dead {
                let at = slot.cur.load(Acquire);
                pids[w] = 0;
                if at == 0 {
                    println!("worker {w} ended outside a case: {m}");
                    continue;
                }
                ncrash += 1;
                if let Some(mut c) = nth_case(&prop, tier, at) {
                    let n = slot.patch_len.load(Acquire) as usize;
                    if n > 0 {
                        let p: Value = serde_json::from_slice(&slot.patch[..n]).unwrap();
                        let mut j = c.to_json();
                        for k in ["events", "threads", "ops"] {
                            j[k] = p[k].clone();
                        }
                        c = Case::from_json(&j);
                    }
                    crashes.push((c, m));
                }
                unsafe { (*sh.violations).fetch_add(1, SeqCst) };
                if ncrash < cap() {
                    slot.cur.store(0, Release);
                    slot.patch_len.store(0, Release);
                    last[w] = (0, 0, Instant::now());
                    pids[w] = spawn(w, at);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    // collect
    let mut stats = Stats::default();
    let mut states = std::collections::HashSet::<u64>::new();
    let mut found: Vec<(Case, String)> = crashes;
    let mut names: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for f in names {
        let name = f.file_name().unwrap().to_string_lossy().into_owned();
        if name.ends_with(".bin") {
            for c in std::fs::read(&f).unwrap().chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
            continue;
        }
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        if name.starts_with('s') {
            stats.add(&v);
        } else {
            found.push((Case::from_json(&v["case"]), v["message"].as_str().unwrap().to_string()));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    if triage() {
        print_triage(&found);
        println!("{} cases, {} runs, resolved {} ignored {} failed {}, {} violations", stats.cases, stats.runs, stats.found, stats.ignored, stats.failed, stats.violations);
        return 0;
    }
    // known findings, then confirmation of the rest
    let known = known(id);
    for k in &known {
        if let Some(c) = &k.case {
            if confirm(&prop, c).is_some() {
                println!("KNOWN-FINDING: property={id} {}", k.what);
            }
        }
    }
    let mut code = 0;
    let mut confirmed = vec![];
    let mut unconfirmed = 0;
    let mut tried = 0;
    for (c, m) in &found {
        if known.iter().any(|k| k.signature == *m) {
            continue;
        }
        if confirmed.len() >= 5 || tried >= 25 {
            break;
        }
        tried += 1;
        match confirm(&prop, c) {
            Some(how) => {
                let dir = verif().join("replay");
                std::fs::create_dir_all(&dir).unwrap();
                let path = dir.join(format!("{id}-{}.json", confirmed.len() + 1));
                let v = json!({"property": id, "message": m, "ended": how, "case": c.to_json()});
                std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                println!("{m}\n  case: {}", c.note);
                println!("VIOLATION property={id} replay={}", path.display());
                confirmed.push(v);
                code = 1;
            }
            None => unconfirmed += 1,
        }
    }
    if unconfirmed > 0 {
        println!("{unconfirmed} suspected violation(s) did not reproduce in a fresh process and are not reported");
    }
    stats.samples.truncate(6);
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = json!({
        "states": states.len(),
        "transitions": stats.ops,
        "traces_validated_against_impl": stats.runs,
        "generated_cases": stats.cases,
        "cases_in_space": total,
        "file_system_calls": stats.fs_calls,
        "replayed_on_real_file_system": stats.real,
        "outcomes": {"resolved": stats.found, "ignored": stats.ignored, "error": stats.failed},
        "exhaustive": stats.capped == 0 && stats.cases == total,
        "bounds": (prop.bounds)(tier),
        "model_unfaithful_cases": stats.unfaithful,
        "samples": stats.samples,
    });
    if stats.schedules > 0 {
        cov["schedules"] = json!(stats.schedules);
        cov["longest_schedule"] = json!(stats.max_points);
    }
    if stats.faults > 0 {
        cov["fault_points"] = json!(stats.faults);
    }
    // what the same exploration covered in a build with debug assertions
    if let Some(v) = std::env::var("MC_MERGE").ok().and_then(|f| std::fs::read_to_string(f).ok()) {
        if let Ok(mut v) = serde_json::from_str::<Value>(&v) {
            v["coverage"].as_object_mut().map(|o| o.remove("samples"));
            cov["debug_assertions_build"] = v["coverage"].clone();
        }
    }
    let ev = json!({
        "property": id,
        "tier": tier_name,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": prop.rests_on,
        "wall_s": wall,
        "violations": confirmed.len(),
    });
    let evdir = verif().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    let file = std::env::var("MC_EVIDENCE").map(PathBuf::from).unwrap_or(evdir.join(format!("{id}.json")));
    std::fs::write(file, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id} {tier_name}: {} of {total} cases, {} runs, {} operations, {} fs calls, {} schedules, {} on disk, {} violations, {:.1} s{}",
        stats.cases, stats.runs, stats.ops, stats.fs_calls, stats.schedules, stats.real,
        found.len(), wall, if stats.capped > 0 { " (stopped early)" } else { "" }
    );
    code
}

pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let prop = props::get(v["property"].as_str().unwrap()).unwrap();
    let c = Case::from_json(&v["case"]);
    let end = fork_run(60, || {
        let ran = run_vfs(&c);
        println!("{}", serde_json::to_string_pretty(&steps_json(&ran.steps)).unwrap());
        match (prop.oracle)(&c, &ran) {
            Ok(()) => 0,
            Err(m) => {
                println!("{m}");
                EXIT_NOCONFORM
            }
        }
    });
    println!("in the model: {end:?}");
    if c.plain() && c.seed <= 1 {
        let end = fork_run(60, || {
            let r = judge(&prop, &c, true);
            if let Err(m) = &r {
                println!("{m}");
            }
            if r.is_ok() { 0 } else { EXIT_NOCONFORM }
        });
        println!("on disk: {end:?}");
    }
    (end != End::Ok) as i32
}

pub fn init() {
    // short-lived threads share the arena of the main one
    unsafe { libc::mallopt(libc::M_ARENA_MAX, 1) };
    install_panic_hook();
    dashmap::mc::set_hook(sched::dashmap_hook);
    dashmap::mc::SINGLE_SHARD.store(1, SeqCst);
    interpose::ON_LIMIT.store(on_limit as *const () as usize, SeqCst);
    sched::ON_DEADLOCK.store(on_deadlock as *const () as usize, SeqCst);
}
