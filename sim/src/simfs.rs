//! In-memory file system behind the interposed system calls.
use std::collections::{BTreeMap, BTreeSet};

pub const FD_BASE: i32 = 20_000;
pub const CWD: &str = "/sim";

#[derive(Clone)]
pub struct OpenFile {
    pub inode: usize,
    pub pos: u64,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub dir: bool,
    pub path: String,
}

#[derive(Default, Clone)]
pub struct SimFs {
    pub names: BTreeMap<String, usize>,
    pub dirs: BTreeSet<String>,
    pub inodes: Vec<Vec<u8>>,
    pub open: BTreeMap<i32, OpenFile>,
    pub next_fd: i32,
    /// Files which may not be opened for writing / at all.
    pub readonly: BTreeSet<String>,
    pub denied: BTreeSet<String>,
    /// Total bytes of all files may not exceed this.
    pub cap: Option<u64>,
    pub max_open: Option<usize>,
    pub bad_fd_uses: u64,
}

impl SimFs {
    pub fn new() -> SimFs {
        let mut f = SimFs::default();
        f.next_fd = FD_BASE;
        f.dirs.insert("/".into());
        f.dirs.insert(CWD.into());
        f
    }
    pub fn norm(&self, p: &[u8]) -> String {
        // Keep arbitrary bytes apart by a lossless escape.
        let mut s = String::new();
        for &b in p {
            if b < 0x80 {
                s.push(b as char)
            } else {
                s.push_str(&format!("\u{1}{:02x}", b))
            }
        }
        let full = if s.starts_with('/') { s } else { format!("{}/{}", CWD, s) };
        let mut out: Vec<&str> = Vec::new();
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        format!("/{}", out.join("/"))
    }
    fn parent_ok(&self, p: &str) -> bool {
        match p.rfind('/') {
            Some(0) => true,
            Some(i) => self.dirs.contains(&p[..i]),
            None => false,
        }
    }
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let p = self.norm(path.as_bytes());
        match self.names.get(&p) {
            Some(&i) => self.inodes[i] = data.to_vec(),
            None => {
                self.inodes.push(data.to_vec());
                self.names.insert(p, self.inodes.len() - 1);
            }
        }
    }
    pub fn mkdirs(&mut self, path: &str) {
        let p = self.norm(path.as_bytes());
        let mut acc = String::new();
        for c in p.split('/').skip(1) {
            acc.push('/');
            acc.push_str(c);
            self.dirs.insert(acc.clone());
        }
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        self.names.get(&self.norm(path.as_bytes())).map(|&i| &self.inodes[i])
    }
    pub fn total(&self) -> u64 {
        let mut live: BTreeSet<usize> = self.names.values().cloned().collect();
        live.extend(self.open.values().map(|o| o.inode));
        live.iter().filter(|&&i| i != usize::MAX).map(|&i| self.inodes[i].len() as u64).sum()
    }
    pub fn open(&mut self, path: &[u8], flags: i32) -> Result<i32, i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.split(|&b| b == b'/').any(|c| c.len() > 255) {
            return Err(libc::ENAMETOOLONG);
        }
        let p = self.norm(path);
        if let Some(m) = self.max_open {
            if self.open.len() >= m {
                return Err(libc::EMFILE);
            }
        }
        let acc = flags & libc::O_ACCMODE;
        let (r, w) = match acc {
            libc::O_RDONLY => (true, false),
            libc::O_WRONLY => (false, true),
            _ => (true, true),
        };
        let dir = self.dirs.contains(&p);
        let inode = if dir {
            if w {
                return Err(libc::EISDIR);
            }
            usize::MAX
        } else {
            if self.denied.contains(&p) || (w && self.readonly.contains(&p)) {
                return Err(libc::EACCES);
            }
            if path.ends_with(b"/") {
                return Err(if self.names.contains_key(&p) { libc::ENOTDIR } else if flags & libc::O_CREAT != 0 { libc::EISDIR } else { libc::ENOENT });
            }
            match self.names.get(&p) {
                Some(&i) => {
                    if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                        return Err(libc::EEXIST);
                    }
                    if flags & libc::O_TRUNC != 0 && w {
                        self.inodes[i].clear();
                    }
                    i
                }
                None => {
                    if flags & libc::O_CREAT == 0 {
                        return Err(libc::ENOENT);
                    }
                    if !self.parent_ok(&p) {
                        return Err(libc::ENOENT);
                    }
                    self.inodes.push(Vec::new());
                    self.names.insert(p.clone(), self.inodes.len() - 1);
                    self.inodes.len() - 1
                }
            }
        };
        let fd = self.next_fd;
        self.next_fd += 1;
        self.open.insert(fd, OpenFile { inode, pos: 0, read: r, write: w, append: flags & libc::O_APPEND != 0, dir, path: p });
        Ok(fd)
    }
    pub fn close(&mut self, fd: i32) -> Result<(), i32> {
        match self.open.remove(&fd) {
            Some(_) => Ok(()),
            None => {
                self.bad_fd_uses += 1;
                Err(libc::EBADF)
            }
        }
    }
    fn of(&mut self, fd: i32) -> Result<&mut OpenFile, i32> {
        if !self.open.contains_key(&fd) {
            self.bad_fd_uses += 1;
        }
        self.open.get_mut(&fd).ok_or(libc::EBADF)
    }
    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> Result<usize, i32> {
        let o = self.of(fd)?;
        if o.dir {
            return Err(libc::EISDIR);
        }
        if !o.read {
            return Err(libc::EBADF);
        }
        let (ino, pos) = (o.inode, at.unwrap_or(o.pos));
        let d = &self.inodes[ino];
        let start = (pos as usize).min(d.len());
        let n = buf.len().min(d.len() - start);
        buf[..n].copy_from_slice(&d[start..start + n]);
        if at.is_none() {
            self.of(fd)?.pos += n as u64;
        }
        Ok(n)
    }
    pub fn write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> Result<usize, i32> {
        let total = self.total();
        let cap = self.cap;
        let o = self.of(fd)?;
        if !o.write {
            return Err(libc::EBADF);
        }
        let (ino, mut pos, app) = (o.inode, at.unwrap_or(o.pos), o.append);
        let d = &mut self.inodes[ino];
        if app {
            pos = d.len() as u64;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if pos > (1 << 26) {
            return Err(libc::EFBIG);
        }
        let mut n = buf.len();
        if let Some(c) = cap {
            let grow = (pos + n as u64).saturating_sub(d.len() as u64);
            let avail = c.saturating_sub(total);
            if grow > avail {
                let keep = (n as u64).saturating_sub(grow - avail);
                if keep == 0 {
                    return Err(libc::ENOSPC);
                }
                n = keep as usize;
            }
        }
        let end = pos as usize + n;
        if d.len() < end {
            d.resize(end, 0);
        }
        d[pos as usize..end].copy_from_slice(&buf[..n]);
        if at.is_none() {
            self.of(fd)?.pos = end as u64;
        }
        Ok(n)
    }
    pub fn lseek(&mut self, fd: i32, off: i64, whence: i32) -> Result<u64, i32> {
        let o = self.of(fd)?;
        let (ino, pos, dir) = (o.inode, o.pos, o.dir);
        let size = if dir { 0 } else { self.inodes[ino].len() as i64 };
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => pos as i64,
            libc::SEEK_END => size,
            _ => return Err(libc::EINVAL),
        };
        let n = base.checked_add(off).ok_or(libc::EINVAL)?;
        if n < 0 {
            return Err(libc::EINVAL);
        }
        self.of(fd)?.pos = n as u64;
        Ok(n as u64)
    }
    pub fn truncate(&mut self, fd: i32, len: i64) -> Result<(), i32> {
        let total = self.total();
        let cap = self.cap;
        let o = self.of(fd)?;
        if !o.write {
            return Err(libc::EINVAL);
        }
        let ino = o.inode;
        if len < 0 {
            return Err(libc::EINVAL);
        }
        if len > (1 << 26) {
            return Err(libc::EFBIG);
        }
        let d = &mut self.inodes[ino];
        if let Some(c) = cap {
            let grow = (len as u64).saturating_sub(d.len() as u64);
            if total + grow > c && grow > 0 {
                return Err(libc::ENOSPC);
            }
        }
        d.resize(len as usize, 0);
        Ok(())
    }
    /// (mode, size)
    pub fn stat_fd(&mut self, fd: i32) -> Result<(u32, u64), i32> {
        let o = self.of(fd)?;
        if o.dir {
            return Ok((libc::S_IFDIR | 0o755, 0));
        }
        let i = o.inode;
        Ok((libc::S_IFREG | 0o644, self.inodes[i].len() as u64))
    }
    pub fn stat_path(&mut self, path: &[u8]) -> Result<(u32, u64), i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let p = self.norm(path);
        if self.dirs.contains(&p) {
            return Ok((libc::S_IFDIR | 0o755, 0));
        }
        match self.names.get(&p) {
            Some(&i) => Ok((libc::S_IFREG | 0o644, self.inodes[i].len() as u64)),
            None => Err(libc::ENOENT),
        }
    }
    pub fn unlink(&mut self, path: &[u8]) -> Result<(), i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let p = self.norm(path);
        if self.dirs.contains(&p) {
            return Err(libc::EISDIR);
        }
        if path.ends_with(b"/") {
            return Err(if self.names.contains_key(&p) { libc::ENOTDIR } else { libc::ENOENT });
        }
        if self.denied.contains(&p) || self.readonly.contains(&p) {
            return Err(libc::EACCES);
        }
        self.names.remove(&p).map(|_| ()).ok_or(libc::ENOENT)
    }
    pub fn mkdir(&mut self, path: &[u8]) -> Result<(), i32> {
        let p = self.norm(path);
        if self.dirs.contains(&p) || self.names.contains_key(&p) {
            return Err(libc::EEXIST);
        }
        if self.denied.contains(&p) {
            return Err(libc::EACCES);
        }
        if !self.parent_ok(&p) {
            return Err(libc::ENOENT);
        }
        self.dirs.insert(p);
        Ok(())
    }
    pub fn rename(&mut self, a: &[u8], b: &[u8]) -> Result<(), i32> {
        let (pa, pb) = (self.norm(a), self.norm(b));
        let i = *self.names.get(&pa).ok_or(libc::ENOENT)?;
        if self.dirs.contains(&pb) {
            return Err(libc::EISDIR);
        }
        if !self.parent_ok(&pb) {
            return Err(libc::ENOENT);
        }
        self.names.remove(&pa);
        self.names.insert(pb, i);
        Ok(())
    }
}
