//! The oracle: an independent, cache-free statement of what a resolution should return, written
//! against the file-system model. It shares no code with the crate: exports/imports keys are
//! matched by a linear scan instead of a path tree, packages are re-read on every question.
//!
//! `Exp::Any` marks inputs whose result is deliberately left open (the run must still end
//! normally).
use crate::case::Opts;
use crate::vfs::Vfs;
use serde_json::{Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Info { path: String, query: String, fragment: String },
    Ignored,
    /// the request cannot be resolved; `Some(m)`: and the error is exactly `m`
    Fail(Option<String>),
    Side(Option<(String, Option<Side>)>),
    SideErr,
    /// outcome of a pure function
    Text(String),
    Any,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Side {
    Bool(bool),
    List(Vec<String>),
}

/// Outcome of a step: found, ignored, not here (keep looking), or a definite failure.
#[derive(Clone, Debug, PartialEq)]
enum R {
    Found(String, String, String),
    Ignored,
    Miss,
    Fail,
}
use R::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Rel,
    Abs,
    Hash,
    Bare,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub t: String,
    pub q: String,
    pub f: String,
}

pub struct Pkg {
    pub dir: String,
    pub json: Value,
}

/// The path part is everything before the first `?` or a `#` that is not the very first
/// character; the query runs to the first `#` after it; the rest is the fragment.
pub fn parse(r: &str) -> Req {
    let skip = if r.starts_with('#') { 1 } else { 0 };
    let end = r[skip..].find(['?', '#']).map(|i| i + skip).unwrap_or(r.len());
    let rest = &r[end..];
    let (q, f) = match rest.find('#') {
        Some(i) => (&rest[..i], &rest[i..]),
        None => (rest, ""),
    };
    Req { t: r[..end].into(), q: q.into(), f: f.into() }
}

pub fn kind(t: &str) -> K {
    if t.is_empty() || t == "." || t == ".." || t.starts_with("./") || t.starts_with("../") {
        return K::Rel;
    }
    let b = t.as_bytes();
    if b[0] == b'#' {
        K::Hash
    } else if b[0] == b'/' {
        K::Abs
    } else if b.len() >= 2
        && b[0].is_ascii_alphabetic()
        && b[1] == b':'
        && (b.len() == 2 || b[2] == b'/' || b[2] == b'\\')
    {
        K::Abs
    } else {
        K::Bare
    }
}

pub fn join(a: &str, b: &str) -> String {
    if b.starts_with('/') {
        b.into()
    } else if a.ends_with('/') || a.is_empty() {
        format!("{a}{b}")
    } else {
        format!("{a}/{b}")
    }
}

/// Lexical normal form of an absolute path.
pub fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

/// Lexical normal form of any path: a relative one keeps the leading `..` it cannot resolve.
pub fn norm_any(p: &str) -> String {
    if p.starts_with('/') {
        return norm(p);
    }
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." if out.last().is_some_and(|l| *l != "..") => drop(out.pop()),
            c => out.push(c),
        }
    }
    out.join("/")
}

/// The modules built into Node.js 16.
pub const BUILTINS: &[&str] = &[
    "_http_agent", "_http_client", "_http_common", "_http_incoming", "_http_outgoing", "_http_server", "_stream_duplex", "_stream_passthrough",
    "_stream_readable", "_stream_transform", "_stream_wrap", "_stream_writable", "_tls_common", "_tls_wrap", "assert", "assert/strict", "async_hooks",
    "buffer", "child_process", "cluster", "console", "constants", "crypto", "dgram", "diagnostics_channel", "dns", "dns/promises", "domain", "events",
    "fs", "fs/promises", "http", "http2", "https", "inspector", "module", "net", "os", "path", "path/posix", "path/win32", "perf_hooks", "process",
    "punycode", "querystring", "readline", "repl", "stream", "stream/consumers", "stream/promises", "stream/web", "string_decoder", "sys", "timers",
    "timers/promises", "tls", "trace_events", "tty", "url", "util", "util/types", "v8", "vm", "wasi", "worker_threads", "zlib",
];

pub fn parent(p: &str) -> Option<String> {
    if p == "/" {
        return None;
    }
    let i = p.rfind('/')?;
    Some(if i == 0 { "/".into() } else { p[..i].into() })
}

fn ancestors(p: &str) -> Vec<String> {
    let mut v = vec![norm(p)];
    while let Some(q) = parent(v.last().unwrap()) {
        v.push(q);
    }
    v
}

pub struct Spec<'a> {
    pub fs: &'a Vfs,
    pub o: &'a Opts,
}

impl<'a> Spec<'a> {
    pub fn is_file(&self, p: &str) -> bool {
        self.fs.is_file(p.as_bytes())
    }
    pub fn is_dir(&self, p: &str) -> bool {
        self.fs.is_dir(p.as_bytes())
    }
    fn exists(&self, p: &str) -> bool {
        self.fs.exists(p.as_bytes())
    }

    fn cond(&self, c: &str) -> bool {
        self.o.conds.iter().any(|x| x == c)
    }

    fn enforce(&self) -> bool {
        self.o.enforce.unwrap_or_else(|| self.o.ext.iter().any(|e| e.is_empty()))
    }

    pub fn resolve(&self, base: &str, request: &str) -> Exp {
        if !base.starts_with('/') {
            return Exp::Any;
        }
        let req = parse(request);
        let r = match &self.o.tsconfig {
            Some(ts) => match self.tsconfig(ts, &mut vec![]) {
                Ok(json) => self.with_tsconfig(base, &req, ts, &json),
                Err(e) => return e,
            },
            None => self.resolve_in(base, &req, &[]),
        };
        match r {
            Found(p, q, f) => {
                let path = if self.o.symlinks {
                    match self.fs.realpath(p.as_bytes()) {
                        Ok(b) => String::from_utf8_lossy(&b).into_owned(),
                        Err(_) => return Exp::Fail(None),
                    }
                } else {
                    norm(&p)
                };
                Exp::Info { path, query: q, fragment: f }
            }
            Ignored => Exp::Ignored,
            Miss => Exp::Fail(Some(format!("Resolve '{request}' failed in '{base}'"))),
            Fail => Exp::Fail(None),
        }
    }

    fn resolve_in(&self, base: &str, req: &Req, used: &[usize]) -> R {
        // alias option
        if !base.contains("node_modules") {
            for (i, (from, to)) in self.o.alias.iter().enumerate() {
                if !req.t.starts_with(from.as_str()) {
                    continue;
                }
                match to {
                    None => return Ignored,
                    Some(to) => {
                        if req.t.starts_with(to.as_str()) || used.contains(&i) {
                            continue;
                        }
                        let t = format!("{to}{}", &req.t[from.len()..]);
                        let mut used = used.to_vec();
                        used.push(i);
                        match self.resolve_in(base, &Req { t, ..req.clone() }, &used) {
                            Miss | Fail => {}
                            r => return r,
                        }
                    }
                }
            }
        }
        // prefer_relative
        if self.o.prefer_relative && matches!(kind(&req.t), K::Bare | K::Hash) {
            let t = format!("./{}", req.t);
            match self.resolve_in(base, &Req { t, ..req.clone() }, used) {
                Miss | Fail => {}
                r => return r,
            }
        }
        let mut path = base.to_string();
        let mut req = req.clone();
        let from = match kind(&req.t) {
            K::Bare | K::Hash => base.to_string(),
            _ => self.at(base, &req.t),
        };
        let pkg = match self.nearest(&from) {
            Ok(p) => p,
            Err(()) => return Fail,
        };
        if let Some(pkg) = &pkg {
            if kind(&req.t) == K::Hash {
                match self.imports(pkg, &req, 0) {
                    Ok(None) => {}
                    Ok(Some(r)) => {
                        path = pkg.dir.clone();
                        req = r;
                    }
                    Err(()) => return Fail,
                }
            }
            match self.browser(pkg, &path, &req) {
                Ok(None) => {}
                Ok(Some(t)) => {
                    path = pkg.dir.clone();
                    req.t = t;
                }
                Err(()) => return Ignored,
            }
        }
        match kind(&req.t) {
            K::Rel | K::Abs => self.file_or_dir(&path, &req, &[]),
            _ => self.modules(&path, &req, &[]),
        }
    }

    fn at(&self, base: &str, t: &str) -> String {
        let p = if t.is_empty() || t == "." { base.into() } else { join(base, t) };
        if !p.split('/').any(|c| c == "..") {
            return p;
        }
        // `a/..` is where `a` is, even if `a` is a link or missing; what ends like a directory is one
        match norm(&p) {
            n if n != "/" && (p.ends_with('/') || p.split('/').rfind(|c| !matches!(*c, "" | ".")) == Some("..")) => n + "/",
            n => n,
        }
    }

    // ---- files and directories -------------------------------------------------------

    fn file(&self, p: &str) -> Option<String> {
        if !self.enforce() && self.is_file(p) {
            return Some(p.into());
        }
        self.o.ext.iter().map(|e| format!("{p}{e}")).find(|p| self.is_file(p))
    }

    fn file_or_dir(&self, base: &str, req: &Req, visited: &[String]) -> R {
        let p = self.at(base, &req.t);
        match self.file(&p) {
            Some(f) => Found(f, req.q.clone(), req.f.clone()),
            None => self.dir(&p, req, visited),
        }
    }

    fn dir(&self, d: &str, req: &Req, visited: &[String]) -> R {
        if !self.is_dir(d) {
            return Miss;
        }
        let pkg = match self.nearest(d) {
            Ok(p) => p,
            Err(()) => return Fail,
        };
        if let Some(pkg) = &pkg {
            let real = self.fs.realpath(d.as_bytes()).unwrap_or_default();
            let real = String::from_utf8_lossy(&real).into_owned();
            let d = norm(d);
            if pkg.dir == d && !visited.contains(&real) {
                let mut visited = visited.to_vec();
                visited.push(real);
                for name in &self.o.main_fields {
                    let Some(m) = pkg.json.get(name).and_then(|v| v.as_str()) else { continue };
                    if m == "." || m == "./" {
                        break;
                    }
                    let t = if m.starts_with("./") { m.to_string() } else { format!("./{m}") };
                    let mut r = Req { t, ..req.clone() };
                    match self.browser(pkg, &d, &r) {
                        Ok(None) => {}
                        Ok(Some(t)) => r.t = t,
                        Err(()) => return Ignored,
                    }
                    let got = if kind(&r.t) == K::Bare {
                        self.replaced(&pkg.dir, &r, &visited)
                    } else {
                        self.file_or_dir(&pkg.dir, &r, &visited)
                    };
                    match got {
                        Miss | Fail => {}
                        r => return r,
                    }
                }
            }
        }
        for f in &self.o.main_files {
            let mut r = Req { t: format!("./{f}"), ..req.clone() };
            let mut at = d.to_string();
            if let Some(pkg) = &pkg {
                match self.browser(pkg, d, &r) {
                    Ok(None) => {}
                    Ok(Some(t)) => {
                        at = pkg.dir.clone();
                        r.t = t;
                    }
                    Err(()) => return Ignored,
                }
            }
            if kind(&r.t) == K::Bare {
                match self.replaced(&at, &r, visited) {
                    Miss | Fail => continue,
                    r => return r,
                }
            }
            if let Some(f) = self.file(&self.at(&at, &r.t)) {
                return Found(f, req.q.clone(), req.f.clone());
            }
        }
        Miss
    }

    // ---- package.json ----------------------------------------------------------------

    /// The closest description file at or above `p`. Err: it is unusable.
    pub fn nearest(&self, p: &str) -> Result<Option<Pkg>, ()> {
        let Some(name) = &self.o.desc else { return Ok(None) };
        for d in ancestors(p) {
            if !self.is_dir(&d) {
                continue;
            }
            if self.is_file(&join(&d, name)) {
                return self.load(&d, name).map(Some);
            }
        }
        Ok(None)
    }

    fn load(&self, d: &str, name: &str) -> Result<Pkg, ()> {
        let data = self.fs.read(join(d, name).as_bytes()).map_err(|_| ())?;
        let text = std::str::from_utf8(&data).map_err(|_| ())?;
        let json: Value = serde_json::from_str(text).map_err(|_| ())?;
        if let Some(e) = json.get("exports") {
            if !e.is_null() {
                check_value(e)?;
                if let Value::Object(m) = e {
                    let subs = m.keys().filter(|k| k.starts_with('.') || k.starts_with('/')).count();
                    if subs != 0 && subs != m.len() {
                        return Err(());
                    }
                    if subs != 0 && m.keys().any(|k| k.len() > 1 && !k.starts_with("./")) {
                        return Err(());
                    }
                }
            }
        }
        if let Some(i) = json.get("imports") {
            if !i.is_null() {
                check_value(i)?;
                let Value::Object(m) = i else { return Err(()) };
                if m.keys().any(|k| !k.starts_with('#') || k.len() == 1 || k.starts_with("#/")) {
                    return Err(());
                }
            }
        }
        match json.get("sideEffects") {
            None | Some(Value::Bool(_)) => {}
            Some(Value::Array(a)) if a.iter().all(|v| v.is_string()) => {}
            _ => return Err(()),
        }
        Ok(Pkg { dir: d.into(), json })
    }

    pub fn side_effects(&self, p: &str) -> Exp {
        match self.nearest(p) {
            Err(()) => Exp::SideErr,
            Ok(None) => Exp::Side(None),
            Ok(Some(pkg)) => Exp::Side(Some((
                join(&pkg.dir, self.o.desc.as_ref().unwrap()),
                match pkg.json.get("sideEffects") {
                    Some(Value::Bool(b)) => Some(Side::Bool(*b)),
                    Some(Value::Array(a)) => Some(Side::List(
                        a.iter().map(|v| v.as_str().unwrap().to_string()).collect(),
                    )),
                    _ => None,
                },
            ))),
        }
    }

    /// `browser` map: Ok(None) = no entry, Ok(Some(t)) = replaced by t (relative to the package
    /// directory), Err = ignored.
    fn browser(&self, pkg: &Pkg, path: &str, req: &Req) -> Result<Option<String>, ()> {
        if !self.o.browser {
            return Ok(None);
        }
        let Some(Value::Object(map)) = pkg.json.get("browser") else { return Ok(None) };
        let usable = |v: &Value| v.is_string() || *v == Value::Bool(false);
        let bare = kind(&req.t) == K::Bare;
        let here = norm(&self.at(path, &req.t));
        let hit = map.iter().filter(|(_, v)| usable(v)).find(|(k, _)| {
            if bare {
                **k == req.t
            } else {
                let k = norm(&join(&pkg.dir, k));
                k == here || self.o.ext.iter().any(|e| k == format!("{here}{e}"))
            }
        });
        let Some((k, mut v)) = hit else { return Ok(None) };
        let mut seen = vec![k.clone()];
        loop {
            let Some(s) = v.as_str() else { return Err(()) };
            if seen.iter().any(|x| x == s) {
                return Ok(Some(s.into()));
            }
            match map.get(s).filter(|v| usable(v)) {
                Some(n) => {
                    seen.push(s.into());
                    v = n;
                }
                None => return Ok(Some(s.into())),
            }
        }
    }

    // ---- exports / imports -----------------------------------------------------------

    /// Chosen targets for `key` (without its "./" or "#"); Err = malformed.
    fn table(&self, map: &Map<String, Value>, prefix: &str, key: &str, exports: bool) -> Result<Vec<String>, ()> {
        let mut best: Option<(&Value, usize, bool)> = None; // value, prefix length, wildcard
        for (k, v) in map {
            let Some(k) = k.strip_prefix(prefix) else { continue };
            if k == key {
                if !k.ends_with('*') && !k.ends_with('/') && !k.is_empty() {
                    return self.pick(v, None, exports);
                }
            }
            let (p, wild) = if let Some(p) = k.strip_suffix('*') {
                (p, true)
            } else if k.ends_with('/') || k.is_empty() {
                (k, false)
            } else {
                continue;
            };
            if key.starts_with(p) {
                let better = match best {
                    None => true,
                    Some((_, n, w)) => p.len() > n || (p.len() == n && wild && !w),
                };
                if better {
                    best = Some((v, p.len(), wild));
                }
            }
        }
        match best {
            None => Ok(vec![]),
            Some((v, n, wild)) => self.pick(v, Some((&key[n..], wild)), exports),
        }
    }

    fn pick(&self, v: &Value, rest: Option<(&str, bool)>, exports: bool) -> Result<Vec<String>, ()> {
        match v {
            Value::Null => Ok(vec![]),
            Value::String(s) => self.target(s, rest, exports).map(|t| vec![t]),
            Value::Array(a) => {
                let mut out = vec![];
                for x in a {
                    match x {
                        Value::Null => {}
                        x => out.extend(self.pick(x, rest, exports)?),
                    }
                }
                Ok(out)
            }
            Value::Object(m) => match self.select(m)? {
                Some(v) => self.pick(v, rest, exports),
                None => Ok(vec![]),
            },
            _ => Err(()),
        }
    }

    /// First matching condition in declaration order, entering nested objects, with "default"
    /// always matching (and only allowed last).
    fn select<'v>(&self, m: &'v Map<String, Value>) -> Result<Option<&'v Value>, ()> {
        for (i, (c, v)) in m.iter().enumerate() {
            if c == "default" && i + 1 != m.len() {
                return Err(());
            }
            if c == "default" || self.cond(c) {
                match v {
                    Value::Object(inner) => {
                        if let Some(v) = self.select(inner)? {
                            return Ok(Some(v));
                        }
                    }
                    v => return Ok(Some(v)),
                }
            }
        }
        Ok(None)
    }

    fn target(&self, t: &str, rest: Option<(&str, bool)>, exports: bool) -> Result<String, ()> {
        if exports && (t.len() < 2 || t.starts_with('/') || (t.starts_with('.') && !t.starts_with("./"))) {
            return Err(());
        }
        let folder = t.ends_with('/');
        match rest {
            None if folder => Err(()),
            None => Ok(t.into()),
            Some((_, true)) if folder => Err(()),
            Some((r, true)) => Ok(t.replace('*', r)),
            Some((r, false)) if folder => Ok(format!("{t}{r}")),
            Some(_) => Err(()),
        }
    }

    /// Does `t`, read relative to a package, stay inside it?
    pub fn inside(t: &str) -> bool {
        let mut depth = 0i32;
        for c in t.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    depth -= 1;
                    if depth < 0 {
                        return false;
                    }
                }
                _ => depth += 1,
            }
        }
        true
    }

    /// Ok(None): the package has no imports field.
    fn imports(&self, pkg: &Pkg, req: &Req, depth: u32) -> Result<Option<Req>, ()> {
        let Some(Value::Object(map)) = pkg.json.get("imports") else { return Ok(None) };
        let t = &req.t;
        if t.len() == 1 || t.starts_with("#/") || t.ends_with('/') || depth > map.len() as u32 {
            return Err(());
        }
        let list = self.table(map, "#", &t[1..], false)?;
        let Some(first) = list.first() else { return Err(()) };
        // the query is the target's own
        let r = parse(first);
        match kind(&r.t) {
            K::Hash => self.imports(pkg, &r, depth + 1).and_then(|r| r.ok_or(())).map(Some),
            K::Bare => Ok(Some(r)),
            _ => {
                if self.is_file(&self.at(&pkg.dir, &r.t)) && Self::inside(&r.t) {
                    Ok(Some(r))
                } else {
                    Err(())
                }
            }
        }
    }

    fn exports(&self, pkg: &Pkg, sub: &str, req: &Req) -> Result<Req, ()> {
        let ex = &pkg.json["exports"];
        let key = if req.q.is_empty() && req.f.is_empty() {
            sub.to_string()
        } else {
            let s = if sub == "." { "./" } else { sub };
            format!("{s}{}{}", req.q, req.f)
        };
        let list = if key == "." {
            match ex {
                Value::Object(m) if m.keys().next().is_some_and(|k| k.starts_with('.')) => match m.get(".") {
                    Some(v) => self.pick(v, None, true)?,
                    None => vec![],
                },
                v => self.pick(v, None, true)?,
            }
        } else {
            if key.ends_with('/') {
                return Err(());
            }
            match ex {
                Value::Object(m) if m.keys().next().is_some_and(|k| k.starts_with('.')) => {
                    self.table(m, "./", &key[2..], true)?
                }
                _ => vec![],
            }
        };
        for t in list {
            let r = parse(&t);
            if self.is_file(&self.at(&pkg.dir, &r.t)) && Self::inside(&r.t) {
                return Ok(r);
            }
        }
        Err(())
    }

    // ---- node_modules ----------------------------------------------------------------

    fn name_of(t: &str) -> (&str, &str) {
        let n = if t.starts_with('@') { 2 } else { 1 };
        match t.match_indices('/').nth(n - 1) {
            Some((i, _)) => (&t[..i], &t[i..]),
            None => (t, ""),
        }
    }

    fn has_exports(p: &Pkg) -> bool {
        p.json.get("exports").is_some_and(|e| !e.is_null())
    }

    /// A module that took the place of a file of `base`.
    fn replaced(&self, base: &str, req: &Req, visited: &[String]) -> R {
        let key = format!("{base} {}", req.t);
        if visited.contains(&key) {
            return Miss;
        }
        self.modules(base, req, &[visited, &[key]].concat())
    }

    fn modules(&self, base: &str, req: &Req, visited: &[String]) -> R {
        for d in ancestors(base) {
            let nm = join(&d, "node_modules");
            if !self.is_dir(&nm) {
                continue;
            }
            let r = self.module_at(&nm, req, visited);
            if r != Miss {
                return r;
            }
        }
        Miss
    }

    fn module_at(&self, nm: &str, req: &Req, visited: &[String]) -> R {
        let (name, rest) = Self::name_of(&req.t);
        let at = join(nm, name);
        let full = self.at(nm, &req.t);
        let pkg = match self.nearest(&full) {
            Ok(p) => p,
            Err(()) => return Fail,
        };
        let sub = if rest.is_empty() { ".".to_string() } else { format!(".{rest}") };
        let owner = if self.is_dir(&at) {
            match self.o.desc.as_ref() {
                Some(f) if self.is_file(&join(&at, f)) => match self.load(&norm(&at), f) {
                    Ok(p) => Some(p),
                    Err(()) => return Fail,
                },
                _ => None,
            }
        } else {
            // a package may refer to itself by name
            match self.nearest(nm) {
                Ok(p) => p.filter(|p| p.json.get("name").and_then(|n| n.as_str()) == Some(name)),
                Err(()) => return Fail,
            }
        };
        if let Some(owner) = owner.filter(Self::has_exports) {
            let mut r = match self.exports(&owner, &sub, req) {
                Ok(r) => r,
                Err(()) => return Fail,
            };
            // a target without "./" still names a file of the package
            if kind(&r.t) == K::Bare {
                r.t = format!("./{}", r.t);
            }
            return self.mapped(&Some(owner), None, &mut r, visited);
        }
        if !self.is_dir(&at) {
            return match self.file(&full) {
                Some(f) => Found(f, req.q.clone(), req.f.clone()),
                None => Miss,
            };
        }
        let mut r = Req { t: format!("./{}", req.t), ..req.clone() };
        self.mapped(&pkg, Some(nm), &mut r, visited)
    }

    fn mapped(&self, pkg: &Option<Pkg>, at: Option<&str>, r: &mut Req, visited: &[String]) -> R {
        let mut path = at.map(String::from).unwrap_or_else(|| pkg.as_ref().unwrap().dir.clone());
        if let Some(pkg) = pkg {
            match self.browser(pkg, &path, r) {
                Ok(None) => {}
                Ok(Some(t)) => {
                    path = pkg.dir.clone();
                    r.t = t;
                    if kind(&r.t) == K::Bare {
                        return self.replaced(&path, r, visited);
                    }
                }
                Err(()) => return Ignored,
            }
        }
        self.file_or_dir(&path, r, visited)
    }

    // ---- tsconfig --------------------------------------------------------------------

    fn with_tsconfig(&self, base: &str, req: &Req, ts: &str, json: &Value) -> R {
        let c = json.get("compilerOptions");
        let base_url = match c.and_then(|c| c.get("baseUrl")) {
            None | Some(Value::Null) => None,
            Some(Value::String(s)) => Some(s.clone()),
            Some(_) => return Fail,
        };
        let mut entries: Vec<(String, Vec<String>)> = vec![];
        match c.and_then(|c| c.get("paths")) {
            None | Some(Value::Null) => {}
            Some(Value::Object(m)) => {
                for (k, v) in m {
                    let Value::Array(a) = v else { return Fail };
                    if !a.iter().all(|x| x.is_string()) {
                        return Fail;
                    }
                    entries.push((k.clone(), a.iter().map(|x| x.as_str().unwrap().into()).collect()));
                }
            }
            Some(_) => return Fail,
        }
        if let (Some(b), true) = (base_url, kind(&req.t) != K::Rel) {
            let root = join(&parent(ts).unwrap(), &b);
            let rank = |k: &str| k.find('*').unwrap_or(usize::MAX);
            let mut hits: Vec<(&String, &Vec<String>, String)> = entries
                .iter()
                .filter_map(|(k, v)| {
                    if *k == req.t {
                        return Some((k, v, String::new()));
                    }
                    let i = k.find('*')?;
                    let (a, b) = (&k[..i], &k[i + 1..]);
                    if req.t.len() >= k.len().max(a.len() + b.len()) && req.t.starts_with(a) && req.t.ends_with(b) {
                        Some((k, v, req.t[a.len()..req.t.len() - b.len()].to_string()))
                    } else if k == "*" {
                        Some((k, v, req.t.clone()))
                    } else {
                        None
                    }
                })
                .collect();
            hits.sort_by(|x, y| {
                (*y.0 == req.t).cmp(&(*x.0 == req.t)).then(rank(y.0).cmp(&rank(x.0))).then(y.0.len().cmp(&x.0.len()))
            });
            for (_, targets, star) in hits {
                for t in targets {
                    let p = join(&root, t).replace('*', &star);
                    let r = Req { t: String::new(), q: req.q.clone(), f: req.f.clone() };
                    match self.resolve_in(&p, &r, &[]) {
                        Miss | Fail => {}
                        r => return r,
                    }
                }
            }
        }
        self.resolve_in(base, req, &[])
    }

    /// A tsconfig with everything it extends merged under it.
    fn tsconfig(&self, ts: &str, chain: &mut Vec<String>) -> Result<Value, Exp> {
        let real = self.fs.realpath(ts.as_bytes()).map_err(|_| Exp::Fail(None))?;
        let real = String::from_utf8_lossy(&real).into_owned();
        if chain.contains(&real) {
            return Err(Exp::Fail(None));
        }
        chain.push(real);
        let data = self.fs.read(ts.as_bytes()).map_err(|_| Exp::Fail(None))?;
        let text = std::str::from_utf8(&data).map_err(|_| Exp::Fail(None))?;
        let mut json = jsonc(text).ok_or(Exp::Fail(None))?;
        if let Some(Value::String(s)) = json.get("extends") {
            let r = parse(s);
            match self.resolve_in(&parent(ts).unwrap(), &r, &[]) {
                Found(p, _, _) => {
                    let mut up = self.tsconfig(&p, chain)?;
                    if let Some(Value::String(b)) = up.pointer_mut("/compilerOptions/baseUrl") {
                        *b = join(&parent(&p).unwrap(), b);
                    }
                    merge(&mut json, up);
                }
                Ignored => return Err(Exp::Fail(None)),
                _ => return Err(Exp::Any),
            }
        }
        chain.pop();
        Ok(json)
    }
}

fn merge(a: &mut Value, b: Value) {
    match (a, b) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in b {
                merge(a.entry(k).or_insert(Value::Null), v);
            }
        }
        (a @ Value::Null, b) => *a = b,
        _ => {}
    }
}

/// JSON with comments and trailing commas.
pub fn jsonc(s: &str) -> Option<Value> {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            '"' => {
                out.push('"');
                i += 1;
                while i < b.len() {
                    out.push(b[i]);
                    if b[i] == '\\' && i + 1 < b.len() {
                        out.push(b[i + 1]);
                        i += 1;
                    } else if b[i] == '"' {
                        break;
                    }
                    i += 1;
                }
                i += 1;
            }
            '/' if b.get(i + 1) == Some(&'/') => {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
            }
            '/' if b.get(i + 1) == Some(&'*') => {
                i += 2;
                while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                    i += 1;
                }
                i += 2;
            }
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    // trailing commas
    let c: Vec<char> = out.chars().collect();
    let mut out = String::new();
    let mut in_str = false;
    let mut i = 0;
    while i < c.len() {
        if in_str {
            if c[i] == '\\' {
                out.push(c[i]);
                i += 1;
            } else if c[i] == '"' {
                in_str = false;
            }
        } else if c[i] == '"' {
            in_str = true;
        } else if c[i] == ',' {
            let mut j = i + 1;
            while j < c.len() && c[j].is_whitespace() {
                j += 1;
            }
            if j < c.len() && (c[j] == '}' || c[j] == ']') {
                i += 1;
                continue;
            }
        }
        if i < c.len() {
            out.push(c[i]);
        }
        i += 1;
    }
    serde_json::from_str(&out).ok()
}

/// Values an exports/imports field may hold: strings, null, condition objects, and arrays of
/// strings, nulls and condition objects.
fn check_value(v: &Value) -> Result<(), ()> {
    match v {
        Value::String(_) | Value::Null => Ok(()),
        Value::Object(m) => m.values().try_for_each(check_value),
        Value::Array(a) => a.iter().try_for_each(|x| if x.is_array() { Err(()) } else { check_value(x) }),
        _ => Err(()),
    }
}
