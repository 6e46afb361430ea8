//! In-memory file-system model: the environment the real resolver runs in while it is being
//! explored. Path walking follows the kernel's rules (symlinks before "..", ENOTDIR, ELOOP,
//! ENAMETOOLONG, trailing slashes). It is bound to the real file system by the conformance
//! replays in exec.rs.
use std::collections::BTreeMap;
use std::sync::Arc;

pub const ENOENT: i32 = 2;
pub const EIO: i32 = 5;
pub const ENXIO: i32 = 6;
pub const EACCES: i32 = 13;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENAMETOOLONG: i32 = 36;
pub const ELOOP: i32 = 40;

pub enum Kind {
    Dir(BTreeMap<Box<[u8]>, u32>),
    File(Arc<Vec<u8>>),
    Link(Vec<u8>),
    /// a socket: neither file nor directory, cannot be opened
    Special,
}

pub struct Node {
    pub parent: u32,
    pub name: Box<[u8]>,
    pub kind: Kind,
    pub mtime: i64,
}

pub struct Vfs {
    pub nodes: Vec<Node>,
    pub cwd: u32,
    pub now: i64,
}

/// An arbitrary fixed "now": 2022-07-21.
pub const T0: i64 = 1_658_361_600_000_000_000;

impl Vfs {
    pub fn new() -> Self {
        Vfs {
            nodes: vec![Node {
                parent: 0,
                name: Box::default(),
                kind: Kind::Dir(BTreeMap::new()),
                mtime: T0,
            }],
            cwd: 0,
            now: T0,
        }
    }

    fn child(&self, dir: u32, name: &[u8]) -> Option<u32> {
        match &self.nodes[dir as usize].kind {
            Kind::Dir(m) => m.get(name).copied(),
            _ => None,
        }
    }

    pub fn is_dir_node(&self, n: u32) -> bool {
        matches!(self.nodes[n as usize].kind, Kind::Dir(_))
    }

    pub fn walk(&self, path: &[u8], follow_last: bool) -> Result<u32, i32> {
        self.walk_from(self.cwd, path, follow_last, &mut 0)
    }

    pub fn walk_at(&self, dir: u32, path: &[u8], follow_last: bool) -> Result<u32, i32> {
        self.walk_from(dir, path, follow_last, &mut 0)
    }

    fn walk_from(
        &self,
        start: u32,
        path: &[u8],
        follow_last: bool,
        links: &mut u32,
    ) -> Result<u32, i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' { 0 } else { start };
        let mut i = 0;
        let n = path.len();
        loop {
            while i < n && path[i] == b'/' {
                i += 1;
            }
            if i >= n {
                break;
            }
            let s = i;
            while i < n && path[i] != b'/' {
                i += 1;
            }
            let comp = &path[s..i];
            let trailing = i < n; // a slash follows
            let last = !path[i..].iter().any(|b| *b != b'/');
            if !self.is_dir_node(cur) {
                return Err(ENOTDIR);
            }
            if comp == b"." {
                continue;
            }
            if comp == b".." {
                cur = self.nodes[cur as usize].parent;
                continue;
            }
            if comp.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let next = self.child(cur, comp).ok_or(ENOENT)?;
            let next = if let Kind::Link(t) = &self.nodes[next as usize].kind {
                if !last || follow_last || trailing {
                    *links += 1;
                    if *links > 40 {
                        return Err(ELOOP);
                    }
                    self.walk_from(cur, t, true, links)?
                } else {
                    next
                }
            } else {
                next
            };
            if trailing && !self.is_dir_node(next) {
                return Err(ENOTDIR);
            }
            cur = next;
        }
        Ok(cur)
    }

    pub fn path_of(&self, mut n: u32) -> Vec<u8> {
        if n == 0 {
            return b"/".to_vec();
        }
        let mut parts: Vec<&[u8]> = vec![];
        while n != 0 {
            parts.push(&self.nodes[n as usize].name);
            n = self.nodes[n as usize].parent;
        }
        let mut out = vec![];
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        out
    }

    pub fn is_file(&self, path: &[u8]) -> bool {
        matches!(self.walk(path, true), Ok(n) if matches!(self.nodes[n as usize].kind, Kind::File(_)))
    }
    pub fn is_dir(&self, path: &[u8]) -> bool {
        matches!(self.walk(path, true), Ok(n) if self.is_dir_node(n))
    }
    pub fn exists(&self, path: &[u8]) -> bool {
        self.walk(path, true).is_ok()
    }
    pub fn read(&self, path: &[u8]) -> Result<Arc<Vec<u8>>, i32> {
        let n = self.walk(path, true)?;
        match &self.nodes[n as usize].kind {
            Kind::File(d) => Ok(d.clone()),
            Kind::Dir(_) => Err(EISDIR),
            Kind::Link(_) => Err(ELOOP),
            Kind::Special => Err(ENXIO),
        }
    }
    pub fn realpath(&self, path: &[u8]) -> Result<Vec<u8>, i32> {
        Ok(self.path_of(self.walk(path, true)?))
    }

    fn add(&mut self, dir: u32, name: &[u8], kind: Kind) -> u32 {
        let id = self.nodes.len() as u32;
        let now = self.now;
        self.nodes.push(Node {
            parent: dir,
            name: name.into(),
            kind,
            mtime: now,
        });
        if let Kind::Dir(m) = &mut self.nodes[dir as usize].kind {
            m.insert(name.into(), id);
        }
        id
    }

    /// Creates missing directories along an absolute path (no symlinks followed).
    pub fn mkdirs(&mut self, path: &[u8]) -> u32 {
        let mut cur = 0;
        for c in path.split(|b| *b == b'/').filter(|c| !c.is_empty()) {
            cur = match self.child(cur, c) {
                Some(n) => n,
                None => self.add(cur, c, Kind::Dir(BTreeMap::new())),
            };
        }
        cur
    }

    fn split(path: &[u8]) -> (&[u8], &[u8]) {
        let i = path.iter().rposition(|b| *b == b'/').unwrap();
        (&path[..i], &path[i + 1..])
    }

    pub fn put_file(&mut self, path: &[u8], data: Arc<Vec<u8>>) {
        let (d, name) = Self::split(path);
        let dir = self.mkdirs(d);
        if let Some(n) = self.child(dir, name) {
            let now = self.now;
            let node = &mut self.nodes[n as usize];
            if let Kind::File(f) = &mut node.kind {
                *f = data;
                node.mtime = now;
                return;
            }
        }
        self.add(dir, name, Kind::File(data));
    }

    pub fn put_link(&mut self, path: &[u8], target: &[u8]) {
        let (d, name) = Self::split(path);
        let dir = self.mkdirs(d);
        self.add(dir, name, Kind::Link(target.to_vec()));
    }

    pub fn put_special(&mut self, path: &[u8]) {
        let (d, name) = Self::split(path);
        let dir = self.mkdirs(d);
        self.add(dir, name, Kind::Special);
    }

    pub fn set_mtime(&mut self, path: &[u8], t: i64) {
        if let Ok(n) = self.walk(path, false) {
            self.nodes[n as usize].mtime = t;
        }
    }

    /// Unlinks a file, link or whole directory.
    pub fn remove(&mut self, path: &[u8]) {
        let (d, name) = Self::split(path);
        if let Ok(dir) = self.walk(if d.is_empty() { b"/" } else { d }, true) {
            if let Kind::Dir(m) = &mut self.nodes[dir as usize].kind {
                m.remove(name);
            }
        }
    }
}
