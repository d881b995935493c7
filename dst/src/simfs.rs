//! In-memory file system under /simfs, with injected errors and concurrent changes.
use crate::core::*;
use crate::net::{Obj, R};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Node { Dir, File(usize), Link(String) }
#[derive(Clone, Debug)]
pub struct Inode { pub data: Vec<u8>, pub mode: u32 }
/// A change made to the tree by "another process".
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Change { Truncate(String, u64), Append(String, u64, u64), Overwrite(String, u64, u64), Replace(String, u64, u64), Unlink(String), MakeDir(String) }

pub struct Fs {
    pub nodes: BTreeMap<String, Node>,
    pub inodes: Vec<Inode>,
    pub handles: Vec<Option<(usize, u64, String)>>, // inode (usize::MAX = directory), position, path
    pub ops: u64,
    pub script: Vec<(u64, Change)>, // applied right before file operation number n
    /// every content a path had, with the time it got it
    pub versions: Vec<(u64, String, Option<Vec<u8>>)>,
    pub log: Vec<(u64, String)>,
    pub enabled: bool,
}
impl Fs {
    pub fn new() -> Fs { Fs { nodes: BTreeMap::new(), inodes: vec![], handles: vec![], ops: 0, script: vec![], versions: vec![], log: vec![], enabled: false } }
    pub fn close(&mut self, h: usize) { self.handles[h] = None; }
    pub fn mkdir(&mut self, p: &str) { self.nodes.insert(p.into(), Node::Dir); }
    pub fn put(&mut self, now: u64, p: &str, data: Vec<u8>) {
        self.inodes.push(Inode { data: data.clone(), mode: 0o644 });
        self.nodes.insert(p.into(), Node::File(self.inodes.len() - 1));
        self.versions.push((now, p.into(), Some(data)));
    }
    pub fn link(&mut self, p: &str, target: &str) { self.nodes.insert(p.into(), Node::Link(target.into())); }
    fn inode_of(&self, p: &str) -> Option<usize> { match self.nodes.get(p) { Some(Node::File(i)) => Some(*i), _ => None } }
    pub fn apply(&mut self, now: u64, c: &Change) -> bool {
        use crate::rng::blob;
        let (p, newv) = match c {
            Change::Truncate(p, n) => { let Some(i) = self.inode_of(p) else { return false }; let d = &mut self.inodes[i].data; let l = d.len(); d.truncate((*n as usize).min(l)); (p, Some(d.clone())) }
            Change::Append(p, s, n) => { let Some(i) = self.inode_of(p) else { return false }; let d = &mut self.inodes[i].data; d.extend(blob(*s, *n as usize)); (p, Some(d.clone())) }
            Change::Overwrite(p, s, n) => { let Some(i) = self.inode_of(p) else { return false }; self.inodes[i].data = blob(*s, *n as usize); (p, Some(self.inodes[i].data.clone())) }
            Change::Replace(p, s, n) => { if !self.nodes.contains_key(p) { return false } let d = blob(*s, *n as usize); self.inodes.push(Inode { data: d.clone(), mode: 0o644 }); let i = self.inodes.len() - 1; self.nodes.insert(p.clone(), Node::File(i)); (p, Some(d)) }
            Change::Unlink(p) => { if self.nodes.remove(p).is_none() { return false } (p, None) }
            Change::MakeDir(p) => { self.nodes.insert(p.clone(), Node::Dir); (p, None) }
        };
        self.versions.push((now, p.clone(), newv));
        true
    }
    /// Resolves to a canonical path. `last`: follow a final symlink.
    pub fn resolve(&self, path: &str, last: bool) -> R<String> {
        if path.as_bytes().contains(&0) { return Err(libc::EINVAL); }
        let mut todo: Vec<String> = path.split('/').rev().map(|s| s.to_string()).collect();
        let must_dir = path.ends_with('/') || path.ends_with("/.");
        let mut cur = String::new();
        let mut hops = 0;
        while let Some(c) = todo.pop() {
            if c.is_empty() || c == "." { continue; }
            if c == ".." { match cur.rfind('/') { Some(i) => cur.truncate(i), None => cur.clear() } continue; }
            if c.len() > 255 { return Err(libc::ENAMETOOLONG); }
            if !cur.is_empty() { match self.nodes.get(&cur) { Some(Node::Dir) => {} Some(_) => return Err(libc::ENOTDIR), None => return Err(libc::ENOENT) } }
            let next = format!("{cur}/{c}");
            match self.nodes.get(&next) {
                Some(Node::Link(t)) if last || todo.iter().any(|x| !x.is_empty()) => {
                    hops += 1; if hops > 20 { return Err(libc::ELOOP); }
                    if t.starts_with('/') { cur.clear(); }
                    for x in t.split('/').rev() { todo.push(x.to_string()); }
                }
                Some(_) => cur = next,
                None => { if todo.iter().all(|x| x.is_empty()) || true { return Err(libc::ENOENT); } }
            }
        }
        if cur.is_empty() { cur = "/".into(); }
        if must_dir && !matches!(self.nodes.get(&cur), Some(Node::Dir)) { return Err(libc::ENOTDIR); }
        Ok(cur)
    }
}
pub fn is_sim_path(p: &str) -> bool { p == "/simfs" || p.starts_with("/simfs/") || p == "/outside" || p.starts_with("/outside/") }

impl Sim {
    fn fs_op(&mut self, what: &str, path: &str) {
        self.fs.ops += 1;
        let n = self.fs.ops; let now = self.now;
        let due: Vec<Change> = self.fs.script.iter().filter(|c| c.0 == n).map(|c| c.1.clone()).collect();
        for c in due { if self.fs.apply(now, &c) { self.count_fault(F::FileChanged); self.tr(|| format!("file change before op {n}: {c:?}")); } }
        self.note(40, n);
        self.fs.log.push((now, format!("{what} {path}")));
        self.tr(|| format!("fs op {n}: {what} {path}"));
    }
    fn file_err(&mut self, which: F) -> R<()> {
        if self.fault(which) { let e = [libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM][self.choose(K_MISC, 4, |r| r.below(4) as u32) as usize]; return Err(e); }
        Ok(())
    }
    pub fn file_open(&mut self, path: &str, flags: i32) -> R<i32> {
        self.fs_op("open", path);
        self.file_err(F::FileOpenErr)?;
        if flags & libc::O_ACCMODE != libc::O_RDONLY { return Err(libc::EROFS); }
        let p = self.fs.resolve(path, flags & libc::O_NOFOLLOW == 0)?;
        let i = match self.fs.nodes.get(&p) { Some(Node::File(i)) => *i, Some(Node::Dir) => usize::MAX, Some(Node::Link(_)) => return Err(libc::ELOOP), None => return Err(libc::ENOENT) };
        if flags & libc::O_DIRECTORY != 0 && i != usize::MAX { return Err(libc::ENOTDIR); }
        self.fs.handles.push(Some((i, 0, p)));
        let h = self.fs.handles.len() - 1;
        self.new_fd(Obj::File { h })
    }
    pub fn file_read(&mut self, h: usize, buf: &mut [u8], at: Option<u64>) -> R<usize> {
        let (i, pos, path) = self.fs.handles[h].clone().ok_or(libc::EBADF)?;
        self.fs_op("read", &path);
        if self.fault(F::FileReadEintr) { return Err(libc::EINTR); }
        if self.fault(F::FileReadEio) { return Err(libc::EIO); }
        if i == usize::MAX { return Err(libc::EISDIR); }
        let mut n = buf.len();
        if n > 1 && self.fault(F::FileReadShort) { n = 1 + self.choose(K_SEG, (n - 1).min(65536) as u32, |r| r.below(n as u64 - 1) as u32) as usize; }
        let p0 = at.unwrap_or(pos);
        let d = &self.fs.inodes[i].data;
        let from = (p0 as usize).min(d.len()); let to = (from + n).min(d.len());
        buf[..to - from].copy_from_slice(&d[from..to]);
        if at.is_none() { self.fs.handles[h].as_mut().unwrap().1 = to as u64; }
        Ok(to - from)
    }
    pub fn file_seek(&mut self, fd: i32, off: i64, whence: i32) -> R<i64> {
        let h = match self.desc(fd)?.obj { Obj::File { h } => h, _ => return Err(libc::ESPIPE) };
        let (i, pos, _) = self.fs.handles[h].clone().ok_or(libc::EBADF)?;
        let len = if i == usize::MAX { 0 } else { self.fs.inodes[i].data.len() as i64 };
        let n = match whence { libc::SEEK_SET => off, libc::SEEK_CUR => pos as i64 + off, libc::SEEK_END => len + off, _ => return Err(libc::EINVAL) };
        if n < 0 { return Err(libc::EINVAL); }
        self.fs.handles[h].as_mut().unwrap().1 = n as u64;
        Ok(n)
    }
    /// (mode, size, inode)
    pub fn file_stat(&mut self, path: &str, follow: bool) -> R<(u32, u64, u64)> {
        self.fs_op("stat", path);
        self.file_err(F::StatErr)?;
        let p = self.fs.resolve(path, follow)?;
        Ok(match self.fs.nodes.get(&p) { Some(Node::File(i)) => (libc::S_IFREG | self.fs.inodes[*i].mode, self.fs.inodes[*i].data.len() as u64, *i as u64 + 2), Some(Node::Dir) | None => (libc::S_IFDIR | 0o755, 4096, 1), Some(Node::Link(t)) => (libc::S_IFLNK | 0o777, t.len() as u64, 1) })
    }
    pub fn file_fstat(&mut self, fd: i32) -> R<(u32, u64, u64)> {
        let h = match self.desc(fd)?.obj { Obj::File { h } => h, _ => return Ok((libc::S_IFSOCK | 0o777, 0, 9)) };
        let (i, _, p) = self.fs.handles[h].clone().ok_or(libc::EBADF)?;
        self.fs_op("fstat", &p);
        self.file_err(F::StatErr)?;
        Ok(if i == usize::MAX { (libc::S_IFDIR | 0o755, 4096, 1) } else { (libc::S_IFREG | self.fs.inodes[i].mode, self.fs.inodes[i].data.len() as u64, i as u64 + 2) })
    }
    pub fn file_realpath(&mut self, path: &str) -> R<String> { self.fs_op("realpath", path); self.file_err(F::StatErr)?; self.fs.resolve(path, true) }
}
