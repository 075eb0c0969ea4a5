//! In-memory POSIX-like file system: the simulated kernel's storage.
//!
//! Everything the server process does to "disk" ends here.  The file system
//! belongs to the simulated machine, not to the simulated process: it survives
//! a process crash, while open descriptors do not.

use std::collections::BTreeMap;

pub const FD_BASE: i32 = 1_000_000;

pub type Ino = u64;

#[derive(Clone, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<Vec<u8>, Ino>),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub parent: Ino,
    pub nlink: u32,
    pub opens: u32,
    pub mode: u32,
    pub mtime_ns: i128,
    pub atime_ns: i128,
    pub ctime_ns: i128,
    pub btime_ns: i128,
}

#[derive(Clone, Debug)]
pub struct Fd {
    pub ino: Ino,
    pub pos: u64,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub is_dir: bool,
    /// path used to open, for diagnostics and fault targeting
    pub path: String,
}

#[derive(Debug)]
pub struct DirStream {
    pub fd: i32,
    pub ino: Ino,
    pub cookie: u64,
    pub batch: Vec<(Vec<u8>, Ino, u8)>,
    pub idx: usize,
    pub done: bool,
}

pub struct SimFs {
    pub inodes: BTreeMap<Ino, Inode>,
    pub next_ino: Ino,
    pub fds: BTreeMap<i32, Fd>,
    pub dirs: BTreeMap<usize, DirStream>,
    pub next_dir: usize,
    pub cwd: String,
    pub root_ino: Ino,
    pub used: u64,
    pub capacity: u64,
    pub dir_seed: u64,
    pub dir_batch: usize,
    pub dt_unknown: bool,
    pub now_ns: i128,
    /// granularity of the times of files
    pub tick_ns: u64,
    pub no_btime: bool,
    /// number of mutating operations (any change of names or bytes)
    pub mutations: u64,
    pub max_fds: usize,
    /// refusals because of the descriptor limit / a full disk
    pub no_fds: u64,
    pub no_space: u64,
}

pub type R<T> = Result<T, i32>;

pub fn hash64(seed: u64, data: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for &b in data {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

#[derive(Clone, Debug)]
pub struct Stat {
    pub ino: Ino,
    pub is_dir: bool,
    pub size: u64,
    pub mode: u32,
    pub nlink: u32,
    pub mtime_ns: i128,
    pub atime_ns: i128,
    pub ctime_ns: i128,
    pub btime_ns: i128,
}

impl SimFs {
    pub fn new() -> Self {
        let mut fs = SimFs {
            inodes: BTreeMap::new(),
            next_ino: 2,
            fds: BTreeMap::new(),
            dirs: BTreeMap::new(),
            next_dir: 0,
            cwd: "/srv".into(),
            root_ino: 1,
            used: 0,
            capacity: u64::MAX,
            dir_seed: 0,
            dir_batch: usize::MAX,
            dt_unknown: false,
            now_ns: 0,
            tick_ns: 0,
            no_btime: false,
            mutations: 0,
            max_fds: 4096,
            no_fds: 0,
            no_space: 0,
        };
        fs.inodes.insert(
            1,
            Inode {
                node: Node::Dir(BTreeMap::new()),
                parent: 1,
                nlink: 1,
                opens: 0,
                mode: 0o755,
                mtime_ns: 0,
                atime_ns: 0,
                ctime_ns: 0,
                btime_ns: 0,
            },
        );
        fs
    }

    fn alloc(&mut self, node: Node, parent: Ino, mode: u32) -> Ino {
        let ino = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(
            ino,
            Inode {
                node,
                parent,
                nlink: 1,
                opens: 0,
                mode,
                mtime_ns: self.now_ns,
                atime_ns: self.now_ns,
                ctime_ns: self.now_ns,
                btime_ns: self.now_ns,
            },
        );
        ino
    }

    fn dir(&self, ino: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match self.inodes.get(&ino).ok_or(libc::ENOENT)?.node {
            Node::Dir(ref d) => Ok(d),
            Node::File(_) => Err(libc::ENOTDIR),
        }
    }

    fn dir_mut(&mut self, ino: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        let now = self.now_ns;
        let i = self.inodes.get_mut(&ino).unwrap();
        i.mtime_ns = now;
        i.ctime_ns = now;
        match i.node {
            Node::Dir(ref mut d) => d,
            Node::File(_) => unreachable!(),
        }
    }

    fn is_dir(&self, ino: Ino) -> bool {
        matches!(self.inodes[&ino].node, Node::Dir(_))
    }

    fn start(&self, dirfd: i32, path: &[u8]) -> R<Ino> {
        if path.first() == Some(&b'/') {
            return Ok(self.root_ino);
        }
        if dirfd == libc::AT_FDCWD {
            return self.walk_all(self.root_ino, self.cwd.clone().as_bytes());
        }
        let fd = self.fds.get(&dirfd).ok_or(libc::EBADF)?;
        if !fd.is_dir {
            return Err(libc::ENOTDIR);
        }
        Ok(fd.ino)
    }

    fn comps(path: &[u8]) -> R<Vec<&[u8]>> {
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let v: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
        Ok(v)
    }

    fn step(&self, cur: Ino, c: &[u8]) -> R<Ino> {
        let d = self.dir(cur)?;
        if c.len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        if c == b"." {
            return Ok(cur);
        }
        if c == b".." {
            return Ok(self.inodes[&cur].parent);
        }
        d.get(c).copied().ok_or(libc::ENOENT)
    }

    fn walk_all(&self, from: Ino, path: &[u8]) -> R<Ino> {
        let mut cur = from;
        for c in Self::comps(path)? {
            cur = self.step(cur, c)?;
        }
        if path.last() == Some(&b'/') && !self.is_dir(cur) {
            return Err(libc::ENOTDIR);
        }
        Ok(cur)
    }

    /// resolve to (parent dir, last component, existing target)
    fn walk_parent(&self, dirfd: i32, path: &[u8]) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let from = self.start(dirfd, path)?;
        let comps = Self::comps(path)?;
        let (last, init) = match comps.split_last() {
            Some(x) => x,
            None => return Err(libc::EEXIST), // "/"
        };
        let mut cur = from;
        for c in init {
            cur = self.step(cur, c)?;
        }
        let _ = self.dir(cur)?;
        if *last == b"." || *last == b".." {
            let t = self.step(cur, last)?;
            return Ok((cur, last.to_vec(), Some(t)));
        }
        match self.step(cur, last) {
            Ok(t) => {
                if path.last() == Some(&b'/') && !self.is_dir(t) {
                    return Err(libc::ENOTDIR);
                }
                Ok((cur, last.to_vec(), Some(t)))
            }
            Err(libc::ENOENT) => Ok((cur, last.to_vec(), None)),
            Err(e) => Err(e),
        }
    }

    pub fn lookup(&self, dirfd: i32, path: &[u8]) -> R<Ino> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let from = self.start(dirfd, path)?;
        self.walk_all(from, path)
    }

    pub fn abs_path(&self, ino: Ino) -> String {
        let mut parts: Vec<String> = vec![];
        let mut cur = ino;
        while cur != self.root_ino {
            let p = match self.inodes.get(&cur) {
                Some(i) => i.parent,
                None => return "<gone>".into(),
            };
            let name = match self.dir(p) {
                Ok(d) => d
                    .iter()
                    .find(|(_, i)| **i == cur)
                    .map(|(n, _)| String::from_utf8_lossy(n).into_owned()),
                Err(_) => None,
            };
            match name {
                Some(n) => parts.push(n),
                None => {
                    parts.push("<unlinked>".into());
                    break;
                }
            }
            cur = p;
        }
        parts.reverse();
        format!("/{}", parts.join("/"))
    }

    pub fn resolve_str(&self, dirfd: i32, path: &[u8]) -> String {
        let p = String::from_utf8_lossy(path).into_owned();
        if p.starts_with('/') {
            return p;
        }
        let base = if dirfd == libc::AT_FDCWD {
            self.cwd.clone()
        } else {
            match self.fds.get(&dirfd) {
                Some(f) => self.abs_path(f.ino),
                None => "<badfd>".into(),
            }
        };
        format!("{}/{}", base, p)
    }

    fn drop_ref(&mut self, ino: Ino) {
        let gone = match self.inodes.get(&ino) {
            Some(i) => i.nlink == 0 && i.opens == 0,
            None => false,
        };
        if gone {
            if let Some(i) = self.inodes.remove(&ino) {
                if let Node::File(f) = i.node {
                    self.used -= f.len() as u64;
                }
            }
        }
    }

    pub fn new_fd(&mut self, ino: Ino, flags: i32, is_dir: bool, path: String) -> R<i32> {
        if self.fds.len() >= self.max_fds {
            self.no_fds += 1;
            return Err(libc::EMFILE);
        }
        let acc = flags & libc::O_ACCMODE;
        let mut n = FD_BASE;
        while self.fds.contains_key(&n) {
            n += 1;
        }
        self.inodes.get_mut(&ino).unwrap().opens += 1;
        self.fds.insert(
            n,
            Fd {
                ino,
                pos: 0,
                read: acc == libc::O_RDONLY || acc == libc::O_RDWR,
                write: acc == libc::O_WRONLY || acc == libc::O_RDWR,
                append: flags & libc::O_APPEND != 0,
                is_dir,
                path,
            },
        );
        Ok(n)
    }

    pub fn open(&mut self, dirfd: i32, path: &[u8], flags: i32, mode: u32) -> R<i32> {
        let full = self.resolve_str(dirfd, path);
        if self.fds.len() >= self.max_fds {
            self.no_fds += 1;
            return Err(libc::EMFILE);
        }
        let acc = flags & libc::O_ACCMODE;
        let want_write = acc != libc::O_RDONLY;
        if flags & libc::O_CREAT == 0 {
            let ino = self.lookup(dirfd, path)?;
            let d = self.is_dir(ino);
            if d && want_write {
                return Err(libc::EISDIR);
            }
            if !d && flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if !d && flags & libc::O_TRUNC != 0 {
                self.truncate_ino(ino, 0)?;
            }
            return self.new_fd(ino, flags, d, full);
        }
        if path.last() == Some(&b'/') {
            return Err(libc::EISDIR);
        }
        let (parent, name, existing) = match self.walk_parent(dirfd, path) {
            Ok(x) => x,
            Err(libc::EEXIST) => return Err(libc::EISDIR),
            Err(e) => return Err(e),
        };
        if let Some(ino) = existing {
            if flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            let d = self.is_dir(ino);
            if d {
                return Err(libc::EISDIR);
            }
            if flags & libc::O_TRUNC != 0 {
                self.truncate_ino(ino, 0)?;
            }
            return self.new_fd(ino, flags, false, full);
        }
        if self.used >= self.capacity {
            self.no_space += 1;
            return Err(libc::ENOSPC);
        }
        if self.inodes[&parent].nlink == 0 {
            return Err(libc::ENOENT);
        }
        let ino = self.alloc(Node::File(vec![]), parent, mode & 0o777);
        self.dir_mut(parent).insert(name, ino);
        self.mutations += 1;
        self.new_fd(ino, flags, false, full)
    }

    pub fn close(&mut self, fd: i32) -> R<()> {
        let f = self.fds.remove(&fd).ok_or(libc::EBADF)?;
        self.inodes.get_mut(&f.ino).unwrap().opens -= 1;
        self.drop_ref(f.ino);
        Ok(())
    }

    pub fn dup(&mut self, fd: i32) -> R<i32> {
        let f = self.fds.get(&fd).ok_or(libc::EBADF)?.clone();
        if self.fds.len() >= self.max_fds {
            self.no_fds += 1;
            return Err(libc::EMFILE);
        }
        let mut n = FD_BASE;
        while self.fds.contains_key(&n) {
            n += 1;
        }
        self.inodes.get_mut(&f.ino).unwrap().opens += 1;
        self.fds.insert(n, f);
        Ok(n)
    }

    pub fn truncate_ino(&mut self, ino: Ino, len: u64) -> R<()> {
        let now = self.now_ns;
        let i = self.inodes.get_mut(&ino).ok_or(libc::EBADF)?;
        match i.node {
            Node::File(ref mut f) => {
                let old = f.len() as u64;
                if len > old && self.used + (len - old) > self.capacity {
                    return Err(libc::ENOSPC);
                }
                f.resize(len as usize, 0);
                self.used = self.used - old + len;
                i.mtime_ns = now;
                i.ctime_ns = now;
                self.mutations += 1;
                Ok(())
            }
            Node::Dir(_) => Err(libc::EISDIR),
        }
    }

    pub fn read_at(&mut self, ino: Ino, pos: u64, len: usize) -> R<&[u8]> {
        let now = self.now_ns;
        let i = self.inodes.get_mut(&ino).ok_or(libc::EBADF)?;
        match i.node {
            Node::File(ref f) => {
                // "relatime"
                if i.atime_ns <= i.mtime_ns {
                    i.atime_ns = now;
                }
                let s = (pos as usize).min(f.len());
                let e = s.saturating_add(len).min(f.len());
                Ok(&f[s..e])
            }
            Node::Dir(_) => Err(libc::EISDIR),
        }
    }

    /// returns the number of bytes written (may be short on a full disk)
    pub fn write_at(&mut self, ino: Ino, pos: u64, data: &[u8]) -> R<usize> {
        let now = self.now_ns;
        let cap = self.capacity;
        let used = self.used;
        let i = self.inodes.get_mut(&ino).ok_or(libc::EBADF)?;
        match i.node {
            Node::File(ref mut f) => {
                let mut n = data.len();
                let end = pos as usize + n;
                if end > f.len() {
                    let grow = (end - f.len()) as u64;
                    let room = cap.saturating_sub(used);
                    if grow > room {
                        let over = (grow - room) as usize;
                        if over >= n {
                            return Err(libc::ENOSPC);
                        }
                        n -= over;
                    }
                }
                let end = pos as usize + n;
                if end > f.len() {
                    self.used += (end - f.len()) as u64;
                    f.resize(end, 0);
                }
                f[pos as usize..end].copy_from_slice(&data[..n]);
                i.mtime_ns = now;
                i.ctime_ns = now;
                self.mutations += 1;
                Ok(n)
            }
            Node::Dir(_) => Err(libc::EISDIR),
        }
    }

    pub fn stat_ino(&self, ino: Ino) -> R<Stat> {
        let i = self.inodes.get(&ino).ok_or(libc::ENOENT)?;
        Ok(Stat {
            ino,
            is_dir: matches!(i.node, Node::Dir(_)),
            size: match i.node {
                Node::File(ref f) => f.len() as u64,
                Node::Dir(_) => 4096,
            },
            mode: i.mode
                | match i.node {
                    Node::File(_) => libc::S_IFREG,
                    Node::Dir(_) => libc::S_IFDIR,
                },
            nlink: i.nlink,
            mtime_ns: i.mtime_ns,
            atime_ns: i.atime_ns,
            ctime_ns: i.ctime_ns,
            btime_ns: i.btime_ns,
        })
    }

    pub fn mkdir(&mut self, dirfd: i32, path: &[u8], mode: u32) -> R<()> {
        let (parent, name, existing) = self.walk_parent(dirfd, path)?;
        if existing.is_some() {
            return Err(libc::EEXIST);
        }
        if self.used >= self.capacity {
            self.no_space += 1;
            return Err(libc::ENOSPC);
        }
        if self.inodes[&parent].nlink == 0 {
            return Err(libc::ENOENT);
        }
        let ino = self.alloc(Node::Dir(BTreeMap::new()), parent, mode & 0o777);
        self.dir_mut(parent).insert(name, ino);
        self.mutations += 1;
        Ok(())
    }

    pub fn unlink(&mut self, dirfd: i32, path: &[u8]) -> R<()> {
        let (parent, name, existing) = match self.walk_parent(dirfd, path) {
            Err(libc::EEXIST) => return Err(libc::EISDIR),
            x => x?,
        };
        let ino = existing.ok_or(libc::ENOENT)?;
        if self.is_dir(ino) {
            return Err(libc::EISDIR);
        }
        self.dir_mut(parent).remove(&name);
        let i = self.inodes.get_mut(&ino).unwrap();
        i.nlink -= 1;
        self.mutations += 1;
        self.drop_ref(ino);
        Ok(())
    }

    pub fn rmdir(&mut self, dirfd: i32, path: &[u8]) -> R<()> {
        let (parent, name, existing) = match self.walk_parent(dirfd, path) {
            Err(libc::EEXIST) => return Err(libc::EBUSY),
            x => x?,
        };
        let ino = existing.ok_or(libc::ENOENT)?;
        if name == b"." {
            return Err(libc::EINVAL);
        }
        if name == b".." {
            return Err(libc::ENOTEMPTY);
        }
        if !self.dir(ino)?.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        self.dir_mut(parent).remove(&name);
        self.inodes.get_mut(&ino).unwrap().nlink = 0;
        self.mutations += 1;
        self.drop_ref(ino);
        Ok(())
    }

    pub fn rename(&mut self, ofd: i32, old: &[u8], nfd: i32, new: &[u8], noreplace: bool) -> R<()> {
        let (op, on, oi) = self.walk_parent(ofd, old)?;
        let oi = oi.ok_or(libc::ENOENT)?;
        let (np, nn, ni) = self.walk_parent(nfd, new)?;
        let o_dir = self.is_dir(oi);
        for n in [&on, &nn] {
            if n.as_slice() == b"." || n.as_slice() == b".." {
                return Err(libc::EBUSY);
            }
        }
        if !o_dir && new.last() == Some(&b'/') {
            return Err(libc::ENOTDIR);
        }
        if self.inodes[&np].nlink == 0 {
            return Err(libc::ENOENT);
        }
        if o_dir {
            let mut c = np;
            loop {
                if c == oi {
                    return Err(libc::EINVAL);
                }
                if c == self.root_ino {
                    break;
                }
                c = self.inodes[&c].parent;
            }
        }
        if let Some(ni) = ni {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if ni == oi {
                return Ok(());
            }
            let n_dir = self.is_dir(ni);
            match (o_dir, n_dir) {
                (true, false) => return Err(libc::ENOTDIR),
                (false, true) => return Err(libc::EISDIR),
                (true, true) => {
                    if !self.dir(ni)?.is_empty() {
                        return Err(libc::ENOTEMPTY);
                    }
                }
                (false, false) => {}
            }
            self.dir_mut(np).remove(&nn);
            let i = self.inodes.get_mut(&ni).unwrap();
            if n_dir {
                i.nlink = 0;
            } else {
                i.nlink -= 1;
            }
            self.drop_ref(ni);
        }
        self.dir_mut(op).remove(&on);
        self.dir_mut(np).insert(nn, oi);
        let now = self.now_ns;
        let i = self.inodes.get_mut(&oi).unwrap();
        i.parent = np;
        i.ctime_ns = now;
        self.mutations += 1;
        Ok(())
    }

    pub fn link(&mut self, ofd: i32, old: &[u8], nfd: i32, new: &[u8]) -> R<()> {
        let oi = self.lookup(ofd, old)?;
        if self.is_dir(oi) {
            return Err(libc::EPERM);
        }
        let (np, nn, ni) = self.walk_parent(nfd, new)?;
        if ni.is_some() {
            return Err(libc::EEXIST);
        }
        self.dir_mut(np).insert(nn, oi);
        self.inodes.get_mut(&oi).unwrap().nlink += 1;
        self.mutations += 1;
        Ok(())
    }

    pub fn opendir_fd(&mut self, fd: i32) -> R<usize> {
        let f = self.fds.get(&fd).ok_or(libc::EBADF)?;
        if !f.is_dir {
            return Err(libc::ENOTDIR);
        }
        let ino = f.ino;
        let id = self.next_dir;
        self.next_dir += 1;
        self.dirs.insert(
            id,
            DirStream {
                fd,
                ino,
                cookie: 0,
                batch: vec![],
                idx: 0,
                done: false,
            },
        );
        Ok(id)
    }

    /// fill the next batch ("getdents"); entries come in an order that is a
    /// per-run pseudo-random but stable function of the name
    pub fn dir_fill(&mut self, id: usize) -> R<()> {
        let (ino, cookie) = {
            let d = self.dirs.get(&id).ok_or(libc::EBADF)?;
            (d.ino, d.cookie)
        };
        let mut ents: Vec<(u64, Vec<u8>, Ino, u8)> = vec![];
        if let Ok(d) = self.dir(ino) {
            for (n, i) in d {
                let h = (hash64(self.dir_seed, n) >> 1) + 1;
                if h > cookie {
                    let t = if self.dt_unknown {
                        libc::DT_UNKNOWN
                    } else if self.is_dir(*i) {
                        libc::DT_DIR
                    } else {
                        libc::DT_REG
                    };
                    ents.push((h, n.clone(), *i, t));
                }
            }
        }
        ents.sort();
        let more = ents.len() > self.dir_batch;
        ents.truncate(self.dir_batch);
        let d = self.dirs.get_mut(&id).unwrap();
        if let Some(l) = ents.last() {
            d.cookie = l.0;
        }
        d.done = !more;
        d.batch = ents.into_iter().map(|(_, n, i, t)| (n, i, t)).collect();
        d.idx = 0;
        Ok(())
    }

    /// the process died: all descriptors are closed by the kernel
    pub fn process_died(&mut self) {
        let fds: Vec<i32> = self.fds.keys().copied().collect();
        for f in fds {
            let _ = self.close(f);
        }
        self.dirs.clear();
    }

    // ---- harness-side helpers (never go through the fault layer) ----

    pub fn h_mkdir_p(&mut self, path: &str) {
        let mut cur = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            cur.push('/');
            cur.push_str(c);
            let _ = self.mkdir(libc::AT_FDCWD, cur.as_bytes(), 0o755);
        }
    }

    pub fn h_write(&mut self, path: &str, data: &[u8]) {
        let cap = self.capacity;
        self.capacity = u64::MAX;
        let fd = self
            .open(
                libc::AT_FDCWD,
                path.as_bytes(),
                libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY,
                0o644,
            )
            .unwrap();
        let ino = self.fds[&fd].ino;
        self.write_at(ino, 0, data).unwrap();
        self.close(fd).unwrap();
        self.capacity = cap;
    }

    /// every path in the tree: dirs end in '/'
    pub fn h_tree(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        let mut out = BTreeMap::new();
        let mut stack = vec![(self.root_ino, String::from("/"))];
        while let Some((ino, p)) = stack.pop() {
            if let Ok(d) = self.dir(ino) {
                for (n, i) in d {
                    let name = String::from_utf8_lossy(n).into_owned();
                    match self.inodes[i].node {
                        Node::File(ref f) => {
                            out.insert(format!("{p}{name}"), Some(f.clone()));
                        }
                        Node::Dir(_) => {
                            out.insert(format!("{p}{name}/"), None);
                            stack.push((*i, format!("{p}{name}/")));
                        }
                    }
                }
            }
        }
        out
    }

    pub fn realpath(&self, path: &[u8]) -> R<String> {
        let ino = self.lookup(libc::AT_FDCWD, path)?;
        Ok(self.abs_path(ino))
    }
}
