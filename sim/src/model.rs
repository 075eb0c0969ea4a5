//! Reference model: every object, bucket and upload is a small sequential
//! machine; recorded histories are checked for linearizability against it.

use crate::plan::*;
use crate::wire::md5_hex;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::Hash;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct ObjObs {
    pub status: u16,
    pub len: u64,
    /// None for HEAD
    pub body: Option<Rc<Vec<u8>>>,
    pub etag: Option<String>,
    pub meta: BTreeMap<String, String>,
    pub content_range: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Unit,
    Etag(String),
    Object(ObjObs),
    List(Vec<(String, u64)>),
    Buckets(Vec<String>),
    Deleted(Vec<String>, Vec<(String, String)>),
    Upload(String),
    Err(u16, String),
    /// answered successfully, content not interpreted
    Other(u16),
    /// no (complete) answer
    None,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Eff {
    Model,
    /// must be refused, no effect
    Reject,
    /// may be refused or executed
    Either,
    /// anything, no effect on the model
    Any,
    NoServerError,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub client: usize,
    pub step: usize,
    pub op: Op,
    pub inv: u64,
    pub end: u64,
    pub obs: Obs,
    pub eff: Eff,
    /// a fault that can make this request fail fired while it ran
    pub faulted: bool,
    /// the client itself broke the exchange off, or the server died
    pub broken: bool,
    /// resolved upload id (Part, Complete)
    pub id: Option<String>,
    /// etag list sent with Complete
    pub etags: Vec<Option<String>>,
    pub t_ms: u64,
    /// server clock when it was sent and when it was answered, unix us
    pub t0: i64,
    pub t1: i64,
    pub times: Vec<crate::times::Seen>,
}

impl Rec {
    pub fn show(&self) -> String {
        format!(
            "[{}..{}] c{}#{} {} -> {}{}{}",
            self.inv,
            if self.end == u64::MAX { "?".into() } else { self.end.to_string() },
            self.client,
            self.step,
            show_op(&self.op),
            show_obs(&self.obs),
            if self.faulted { " (fault)" } else { "" },
            if self.eff == Eff::Model { String::new() } else { format!(" [{:?}]", self.eff) },
        )
    }
}

fn show_op(o: &Op) -> String {
    let s = format!("{o:?}");
    if s.len() > 260 {
        format!("{}...", s.chars().take(260).collect::<String>())
    } else {
        s
    }
}

fn show_obs(o: &Obs) -> String {
    match o {
        Obs::Object(o) => format!(
            "object status {} len {} md5 {} etag {:?} meta {:?} content-range {:?} head {:?}",
            o.status,
            o.len,
            o.body.as_ref().map_or("-".into(), |b| md5_hex(b)),
            o.etag,
            o.meta,
            o.content_range,
            o.body.as_ref().map(|b| String::from_utf8_lossy(&b[..b.len().min(16)]).into_owned())
        ),
        o => format!("{o:?}"),
    }
}

pub struct Atom<S> {
    pub inv: u64,
    pub end: u64,
    pub optional: bool,
    /// does not change the state
    pub pure: bool,
    pub f: Rc<dyn Fn(&S) -> Vec<S>>,
    pub what: String,
}

type Bits = [u64; 6];
fn bit(b: &Bits, i: usize) -> bool {
    b[i / 64] >> (i % 64) & 1 == 1
}

/// Wing & Gong search with memoisation; Ok(true) = linearizable, Err = gave up
pub fn linearize<S: Clone + Eq + Hash>(init: S, atoms: &[Atom<S>]) -> Result<bool, String> {
    // the requests that came one after the other before all others have one order only
    let mut order: Vec<&Atom<S>> = atoms.iter().collect();
    order.sort_by_key(|a| a.inv);
    let mut start = vec![init];
    let mut alone = 0;
    while let Some(a) = order.get(alone) {
        if a.optional || order.get(alone + 1).is_some_and(|n| n.inv <= a.end) {
            break;
        }
        let mut next: Vec<S> = vec![];
        for s in start.iter().flat_map(|s| (a.f)(s)) {
            if !next.contains(&s) {
                next.push(s);
            }
        }
        start = next;
        if start.is_empty() {
            return Ok(false);
        }
        alone += 1;
    }
    let atoms = &order[alone..];
    if atoms.len() > 384 {
        return Err(format!("history too long for the checker: {}", atoms.len()));
    }
    let mut seen: HashSet<(Bits, S)> = HashSet::new();
    let mut stack: Vec<(Bits, S)> = start.into_iter().map(|s| ([0; 6], s)).collect();
    let mut work = 0u64;
    // taking this atom would rule out an optional one that is still open
    let late = |i: usize, set: &Bits| atoms.iter().enumerate().any(|(j, o)| o.optional && !bit(set, j) && o.end < atoms[i].inv);
    while let Some((mut set, st)) = stack.pop() {
        // greedily take pure atoms that hold here
        loop {
            let lim = frontier(atoms, &set);
            let mut took = false;
            for (i, a) in atoms.iter().enumerate() {
                if a.pure && !bit(&set, i) && a.inv < lim && !a.optional && !late(i, &set) && !(a.f)(&st).is_empty() {
                    set[i / 64] |= 1 << (i % 64);
                    took = true;
                }
            }
            if !took {
                break;
            }
        }
        if !seen.insert((set, st.clone())) {
            continue;
        }
        work += 1;
        if work > 400_000 {
            return Err("checker budget exhausted".into());
        }
        let lim = frontier(atoms, &set);
        if lim == u64::MAX && atoms.iter().enumerate().all(|(i, a)| bit(&set, i) || a.optional) {
            return Ok(true);
        }
        let max_inv = atoms.iter().enumerate().filter(|(i, _)| bit(&set, *i)).map(|(_, a)| a.inv).max().unwrap_or(0);
        for (i, a) in atoms.iter().enumerate() {
            if bit(&set, i) || a.inv >= lim || (a.pure && !late(i, &set)) {
                continue;
            }
            if a.optional && max_inv > a.end {
                continue;
            }
            for n in (a.f)(&st) {
                let mut s2 = set;
                s2[i / 64] |= 1 << (i % 64);
                stack.push((s2, n));
            }
        }
    }
    Ok(false)
}

fn frontier<S>(atoms: &[&Atom<S>], set: &Bits) -> u64 {
    let mut lim = u64::MAX;
    for (i, a) in atoms.iter().enumerate() {
        if !bit(set, i) && !a.optional {
            lim = lim.min(a.end);
        }
    }
    lim
}

/// names whose storage a file-backed server may refuse
pub fn odd(k: &str) -> bool {
    k.is_empty()
        || k.len() > 1024
        || k.chars().any(|c| matches!(c, '\0'..='\x08' | '\x0b' | '\x0c' | '\x0e'..='\x1f' | '\u{fffe}' | '\u{ffff}'))
        || k.contains('\\')
        || k.split('/').any(|s| s.is_empty() || s == "." || s == ".." || s.len() > 255)
}

/// not tracked by the model at all
pub fn untracked(k: &str) -> bool {
    k.ends_with('/')
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Ver {
    md5: String,
    meta: Vec<(String, String)>,
}

type KState = (bool, Option<usize>);
type UState = Option<BTreeMap<i64, String>>;

pub fn norm_meta(m: &Meta) -> Vec<(String, String)> {
    let mut b: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in m {
        let k = k.to_ascii_lowercase();
        match b.get_mut(&k) {
            Some(x) => {
                x.push(',');
                x.push_str(v);
            }
            None => {
                b.insert(k, v.clone());
            }
        }
    }
    b.into_iter().collect()
}

pub struct Checker<'a> {
    pub recs: &'a [Rec],
    /// initial state: nothing exists
    contents: HashMap<String, Rc<Vec<u8>>>,
    vers: Vec<Ver>,
    /// (bucket, key) named anywhere
    keys: BTreeSet<(String, String)>,
    buckets: BTreeSet<String>,
    /// (bucket, key) -> versions that could ever be written to it
    may: BTreeMap<(String, String), BTreeSet<Ver>>,
    uploads: BTreeMap<String, (usize, String, String)>,
    pub bad: Vec<(String, String)>,
    pub strict_sorted: bool,
    pub meta_checked: bool,
    /// tell histories that only the errors contradict from others
    pub errors_apart: bool,
}

fn key_of(b: &str, k: &str) -> (String, String) {
    (b.to_owned(), k.to_owned())
}

fn is5(s: u16) -> bool {
    s >= 500 && s != 501
}

impl<'a> Checker<'a> {
    pub fn new(recs: &'a [Rec]) -> Self {
        let mut c = Checker {
            recs,
            contents: HashMap::new(),
            vers: vec![],
            keys: BTreeSet::new(),
            buckets: BTreeSet::new(),
            may: BTreeMap::new(),
            uploads: BTreeMap::new(),
            bad: vec![],
            strict_sorted: true,
            meta_checked: true,
            errors_apart: false,
        };
        c.collect();
        c
    }

    fn content(&mut self, b: Vec<u8>) -> String {
        let m = md5_hex(&b);
        self.contents.entry(m.clone()).or_insert_with(|| Rc::new(b));
        m
    }

    fn ver(&mut self, v: &Ver) -> usize {
        if let Some(i) = self.vers.iter().position(|x| x == v) {
            return i;
        }
        self.vers.push(v.clone());
        self.vers.len() - 1
    }

    fn name(&mut self, b: &str, k: &str) {
        self.buckets.insert(b.to_owned());
        if !untracked(k) {
            self.keys.insert(key_of(b, k));
        }
    }

    /// could the request have had its effect?
    fn possible(r: &Rec) -> bool {
        match r.eff {
            Eff::Model | Eff::Either => true,
            _ => false,
        }
    }

    fn collect(&mut self) {
        let recs = self.recs;
        let mut parts: BTreeMap<(String, i64), BTreeSet<String>> = BTreeMap::new();
        for (i, r) in recs.iter().enumerate() {
            match &r.op {
                Op::CreateBucket { b } | Op::DeleteBucket { b } | Op::HeadBucket { b } | Op::Location { b } | Op::List { b, .. } => {
                    self.buckets.insert(b.clone());
                }
                Op::Put { b, k, body, meta, .. } | Op::Form { b, k, body, meta, .. } => {
                    self.name(b, k);
                    if Self::possible(r) {
                        let md5 = self.content(body.bytes());
                        let v = Ver { md5, meta: norm_meta(meta) };
                        self.may.entry(key_of(b, k)).or_default().insert(v);
                    }
                }
                Op::Get { b, k, .. } | Op::Head { b, k } | Op::Delete { b, k } => self.name(b, k),
                Op::Copy { sb, sk, db, dk, .. } => {
                    self.name(sb, sk);
                    self.name(db, dk);
                }
                Op::Batch { b, keys, .. } => {
                    self.buckets.insert(b.clone());
                    for k in keys {
                        self.name(b, k);
                    }
                }
                Op::CreateUpload { b, k, .. } => {
                    self.name(b, k);
                    if let Obs::Upload(id) = &r.obs {
                        if self.uploads.insert(id.clone(), (i, b.clone(), k.clone())).is_some() {
                            self.bad.push(("upload-id".into(), format!("upload id {id} was handed out twice: {}", r.show())));
                        }
                    }
                }
                Op::Part { b, k, n, body, .. } => {
                    self.name(b, k);
                    if let (Some(id), Ok(n), true) = (&r.id, n.parse::<i64>(), Self::possible(r)) {
                        let md5 = self.content(body.bytes());
                        parts.entry((id.clone(), n)).or_default().insert(md5);
                    }
                }
                Op::Complete { b, k, .. } => self.name(b, k),
                _ => {}
            }
        }
        // what completions can write
        for r in recs {
            if let (Op::Complete { b, k, parts: sel, .. }, Some(id), true) = (&r.op, &r.id, Self::possible(r)) {
                let (ci, ub, uk) = match self.uploads.get(id) {
                    Some(x) => x.clone(),
                    None => continue,
                };
                if (&ub, &uk) != (b, k) {
                    continue;
                }
                let meta = match &recs[ci].op {
                    Op::CreateUpload { meta, .. } => norm_meta(meta),
                    _ => vec![],
                };
                let mut opts: Vec<Vec<u8>> = vec![vec![]];
                let mut dead = sel.is_empty();
                for p in sel {
                    let c: Vec<String> = parts.get(&(id.clone(), p.n)).map(|s| s.iter().cloned().collect()).unwrap_or_default();
                    if c.is_empty() {
                        dead = true;
                        break;
                    }
                    let mut next = vec![];
                    for o in &opts {
                        for m in &c {
                            if next.len() < 64 {
                                let mut x = o.clone();
                                x.extend(self.contents[m].iter());
                                next.push(x);
                            }
                        }
                    }
                    opts = next;
                }
                if dead {
                    continue;
                }
                for o in opts {
                    let md5 = self.content(o);
                    self.may.entry(key_of(b, k)).or_default().insert(Ver { md5, meta: meta.clone() });
                }
            }
        }
        // copies spread versions
        loop {
            let mut grew = false;
            for r in recs {
                if let (Op::Copy { sb, sk, db, dk, replace, .. }, true) = (&r.op, Self::possible(r)) {
                    let src: Vec<Ver> = self.may.get(&key_of(sb, sk)).map(|s| s.iter().cloned().collect()).unwrap_or_default();
                    for mut v in src {
                        if let Some(m) = replace {
                            v.meta = norm_meta(m);
                        }
                        grew |= self.may.entry(key_of(db, dk)).or_default().insert(v);
                    }
                }
            }
            if !grew {
                break;
            }
        }
        let all: Vec<Ver> = self.may.values().flatten().cloned().collect();
        for v in all {
            self.ver(&v);
        }
    }

    fn conflict(&self, b: &str, k: &str) -> bool {
        self.keys.iter().any(|(b2, k2)| b2 == b && k2 != k && (k2.starts_with(&format!("{k}/")) || k.starts_with(&format!("{k2}/"))))
    }

    fn flag(&mut self, class: &str, msg: String) {
        self.bad.push((class.into(), msg));
    }

    /// checks of single responses, independent of the history
    fn single(&mut self) {
        let recs = self.recs;
        for r in recs {
            match (&r.eff, &r.obs) {
                (Eff::Reject, Obs::None) | (Eff::Any, _) => continue,
                (Eff::Reject, Obs::Err(..)) => continue,
                (Eff::Reject, _) => {
                    self.flag("accepted", format!("a request that must be refused was accepted: {}", r.show()));
                    continue;
                }
                (Eff::NoServerError, Obs::Err(s, c)) if is5(*s) && !r.faulted => {
                    self.flag("server-error", format!("server error {s} {c} without any fault: {}", r.show()));
                    continue;
                }
                (Eff::NoServerError, _) => continue,
                _ => {}
            }
            if r.obs == Obs::None && !r.broken && !r.faulted {
                self.flag("unanswered", format!("connection closed without an answer: {}", r.show()));
                continue;
            }
            if let Obs::Err(s, c) = &r.obs {
                let may_fail = match &r.op {
                    Op::Put { b, k, .. } | Op::Form { b, k, .. } | Op::CreateUpload { b, k, .. } | Op::Part { b, k, .. } | Op::Complete { b, k, .. } | Op::Delete { b, k } | Op::Get { b, k, .. } | Op::Head { b, k } => odd(k) || untracked(k) || self.conflict(b, k),
                    Op::Copy { sb, sk, db, dk, .. } => odd(sk) || odd(dk) || untracked(sk) || untracked(dk) || self.conflict(db, dk) || self.conflict(sb, sk),
                    _ => false,
                };
                if is5(*s) && !r.faulted && !may_fail {
                    self.flag("server-error", format!("server error {s} {c} without any fault: {}", r.show()));
                }
            }
            if let (Op::Put { body, .. } | Op::Form { body, .. } | Op::Part { body, .. }, Obs::Etag(e)) = (&r.op, &r.obs) {
                let want = format!("\"{}\"", md5_hex(&body.bytes()));
                if *e != want {
                    self.flag("etag", format!("ETag {e} instead of {want}: {}", r.show()));
                }
            }
            if let (Op::Put { k, .. } | Op::Part { k, .. }, Obs::Unit) = (&r.op, &r.obs) {
                if !untracked(k) {
                    self.flag("etag", format!("successful upload without an ETag: {}", r.show()));
                }
            }
            if let Obs::Object(o) = &r.obs {
                if o.body.is_some() && o.etag.is_none() {
                    self.flag("etag", format!("read without an ETag: {}", r.show()));
                }
            }
            if let (Op::List { b, prefix, .. }, Obs::List(l)) = (&r.op, &r.obs) {
                let mut prev: Option<&String> = None;
                for (k, _) in l {
                    if let Some(p) = prev {
                        if p.as_bytes() >= k.as_bytes() {
                            self.flag("list-order", format!("listing not in strictly ascending order ({p:?} before {k:?}): {}", r.show()));
                            break;
                        }
                    }
                    prev = Some(k);
                }
                for (k, _) in l {
                    if !untracked(k) && !self.keys.contains(&key_of(b, k)) {
                        self.flag("list-alien", format!("listing shows {k:?}, which no client ever named: {}", r.show()));
                        break;
                    }
                    if let Some(p) = prefix {
                        if !k.starts_with(p.as_str()) {
                            self.flag("list-prefix", format!("listing shows {k:?} outside prefix {p:?}: {}", r.show()));
                            break;
                        }
                    }
                }
            }
            if let Obs::Buckets(l) = &r.obs {
                for b in l {
                    if !self.buckets.contains(b) {
                        self.flag("bucket-alien", format!("bucket list shows {b:?}, which no client ever named: {}", r.show()));
                    }
                }
                let s: BTreeSet<&String> = l.iter().collect();
                if s.len() != l.len() {
                    self.flag("bucket-dup", format!("bucket listed twice: {}", r.show()));
                }
            }
            if let (Op::Batch { keys, quiet, .. }, Obs::Deleted(d, e)) = (&r.op, &r.obs) {
                let want: BTreeSet<&String> = keys.iter().collect();
                let ds: BTreeSet<&String> = d.iter().collect();
                let es: BTreeSet<&String> = e.iter().map(|x| &x.0).collect();
                let count = |k: &String| d.iter().filter(|x| *x == k).count() + e.iter().filter(|x| x.0 == *k).count();
                if want.iter().any(|k| count(k) > keys.iter().filter(|x| x == k).count()) {
                    self.flag("batch", format!("a key is reported twice: {}", r.show()));
                }
                if ds.union(&es).any(|k| !want.contains(*k)) {
                    self.flag("batch", format!("a key is reported that was not asked for: {}", r.show()));
                }
                if *quiet == Some(true) {
                    if !d.is_empty() {
                        self.flag("batch", format!("quiet mode reports successes: {}", r.show()));
                    }
                } else if want.iter().any(|k| !ds.contains(*k) && !es.contains(*k)) {
                    self.flag("batch", format!("a listed key is not reported: {}", r.show()));
                }
                if !r.faulted {
                    let b = match &r.op {
                        Op::Batch { b, .. } => b.clone(),
                        _ => unreachable!(),
                    };
                    for k in es {
                        // a bucket deleted meanwhile is judged by the history of the object
                        let gone = e.iter().all(|x| x.0 != *k || x.1 == "NoSuchBucket");
                        if !gone && !odd(k) && !untracked(k) && !self.conflict(&b, k) {
                            self.flag("batch", format!("deletion of {k:?} failed without a fault: {}", r.show()));
                        }
                    }
                }
            }
        }
    }

    fn bucket_atoms(&self, b: &str, v: &mut Vec<Atom<KState>>) {
        for r in self.recs {
            let mk = |optional: bool, pure: bool, f: Box<dyn Fn(&KState) -> Vec<KState>>| Atom {
                inv: r.inv,
                end: r.end,
                optional,
                pure,
                f: f.into(),
                what: r.show(),
            };
            let create: Box<dyn Fn(&KState) -> Vec<KState>> = Box::new(|s| if s.0 { vec![] } else { vec![(true, None)] });
            let delete: Box<dyn Fn(&KState) -> Vec<KState>> = Box::new(|s| if s.0 { vec![(false, None)] } else { vec![] });
            match &r.op {
                Op::CreateBucket { b: x } if x == b => match (&r.eff, &r.obs) {
                    (Eff::Model | Eff::Either, Obs::Unit) => v.push(mk(false, false, create)),
                    (Eff::Model | Eff::Either, Obs::None) => v.push(mk(true, false, create)),
                    (Eff::Model, Obs::Err(s, _)) if is5(*s) => v.push(mk(true, false, create)),
                    (Eff::Model, Obs::Err(..)) => v.push(mk(false, true, Box::new(|s| if s.0 { vec![*s] } else { vec![] }))),
                    _ => {}
                },
                Op::DeleteBucket { b: x } if x == b => match (&r.eff, &r.obs) {
                    (Eff::Model | Eff::Either, Obs::Unit) => v.push(mk(false, false, delete)),
                    (Eff::Model | Eff::Either, Obs::None) => v.push(mk(true, false, delete)),
                    (Eff::Model, Obs::Err(s, _)) if is5(*s) => v.push(mk(true, false, delete)),
                    (Eff::Model, Obs::Err(..)) => v.push(mk(false, true, Box::new(|s| if s.0 { vec![] } else { vec![*s] }))),
                    _ => {}
                },
                _ => {}
            }
        }
    }

    fn exists_atom(&self, r: &Rec, yes: bool) -> Atom<KState> {
        Atom {
            inv: r.inv,
            end: r.end,
            optional: false,
            pure: true,
            f: Rc::new(move |s| if s.0 == yes { vec![*s] } else { vec![] }),
            what: r.show(),
        }
    }

    fn check_bucket(&mut self, b: &str) {
        let mut v = vec![];
        self.bucket_atoms(b, &mut v);
        for r in self.recs {
            if r.eff != Eff::Model {
                continue;
            }
            let on = |x: &String| x == b;
            match (&r.op, &r.obs) {
                (Op::HeadBucket { b: x } | Op::Location { b: x }, Obs::Unit) if on(x) => v.push(self.exists_atom(r, true)),
                (Op::HeadBucket { b: x } | Op::Location { b: x } | Op::List { b: x, .. } | Op::Batch { b: x, .. }, Obs::Err(s, c)) if on(x) && !is5(*s) => {
                    // more keys than the protocol allows may be refused as a whole
                    if matches!(&r.op, Op::Batch { keys, .. } if keys.len() > 1000) && *s == 400 {
                        continue;
                    }
                    if *s != 404 || !(c == "NoSuchBucket" || matches!(r.op, Op::HeadBucket { .. })) {
                        let m = format!("refused with {s} {c}: {}", r.show());
                        self.bad.push(("refused".into(), m));
                    } else {
                        v.push(self.exists_atom(r, false));
                    }
                }
                (Op::List { b: x, .. }, Obs::List(_)) if on(x) => v.push(self.exists_atom(r, true)),
                (Op::Batch { b: x, .. }, Obs::Deleted(..)) if on(x) => v.push(self.exists_atom(r, true)),
                (Op::CreateUpload { b: x, .. }, Obs::Upload(_)) if on(x) => v.push(self.exists_atom(r, true)),
                (Op::CreateUpload { b: x, k, .. }, Obs::Err(s, c)) if on(x) && !is5(*s) => {
                    if *s == 404 && c == "NoSuchBucket" {
                        v.push(self.exists_atom(r, false));
                    } else if !odd(k) && !untracked(k) {
                        let m = format!("refused with {s} {c}: {}", r.show());
                        self.bad.push(("refused".into(), m));
                    }
                }
                (Op::ListBuckets, Obs::Buckets(l)) => {
                    let yes = l.iter().any(|x| x == b);
                    v.push(self.exists_atom(r, yes));
                }
                _ => {}
            }
        }
        self.run_machine("bucket", &format!("bucket {b:?}"), (false, None), v);
    }

    fn run_machine<S: Clone + Eq + Hash>(&mut self, class: &str, name: &str, init: S, atoms: Vec<Atom<S>>) {
        match linearize(init.clone(), &atoms) {
            Ok(true) => {}
            Err(e) if e.contains("budget") => {}
            Err(e) => self.flag("harness", e),
            Ok(false) => {
                // shortest prefix (by end of operations) that already fails
                let mut ends: Vec<u64> = atoms.iter().filter(|a| !a.optional).map(|a| a.end).collect();
                ends.sort_unstable();
                ends.dedup();
                let mut shown = String::new();
                // is it the errors alone that cannot be explained?
                let told: Vec<Atom<S>> = atoms
                    .iter()
                    .filter(|a| !a.what.contains(" -> Err("))
                    .map(|a| Atom {
                        inv: a.inv,
                        end: a.end,
                        optional: a.optional,
                        pure: a.pure,
                        f: a.f.clone(),
                        what: a.what.clone(),
                    })
                    .collect();
                let class = if self.errors_apart && linearize(init.clone(), &told) == Ok(true) { "wrong-error" } else { class };
                for e in ends {
                    let sub: Vec<Atom<S>> = atoms
                        .iter()
                        .filter(|a| a.inv < e)
                        .map(|a| Atom {
                            inv: a.inv,
                            end: a.end,
                            optional: a.optional || a.end > e,
                            pure: a.pure,
                            f: a.f.clone(),
                            what: a.what.clone(),
                        })
                        .collect();
                    if let Ok(false) = linearize(init.clone(), &sub) {
                        let mut l: Vec<&Atom<S>> = sub.iter().collect();
                        l.sort_by_key(|a| a.inv);
                        let skip = l.len().saturating_sub(14);
                        for a in &l[skip..] {
                            let _ = write!(shown, "\n    {}", a.what);
                        }
                        break;
                    }
                }
                self.flag(class, format!("no order of the requests explains the answers for {name}:{shown}"));
            }
        }
    }

    fn range_ok(range: &str, o: &ObjObs, c: &[u8]) -> bool {
        // reference arithmetic for "bytes=a-b", "bytes=a-", "bytes=-n"
        let n = c.len() as u64;
        let sel = match parse_range(range, n) {
            Some(Some(x)) => x,
            _ => return false,
        };
        let (a, b) = sel;
        let want = &c[a as usize..=b as usize];
        o.status == 206
            && o.len == want.len() as u64
            && o.body.as_ref().map_or(true, |x| x.as_slice() == want)
            && o.content_range.as_deref() == Some(&format!("bytes {a}-{b}/{n}"))
    }

    fn check_key(&mut self, b: &str, k: &str) {
        let mut v: Vec<Atom<KState>> = vec![];
        self.bucket_atoms(b, &mut v);
        let vers: Rc<Vec<Ver>> = Rc::new(self.vers.clone());
        let lens: Rc<HashMap<String, u64>> = Rc::new(self.contents.iter().map(|(a, c)| (a.clone(), c.len() as u64)).collect());
        let contents: Rc<HashMap<String, Rc<Vec<u8>>>> = Rc::new(self.contents.clone());
        let weird = odd(k) || self.conflict(b, k);
        let meta_checked = self.meta_checked;
        let recs = self.recs;
        let mut bad = vec![];
        for r in recs {
            let mk = |optional: bool, pure: bool, f: Box<dyn Fn(&KState) -> Vec<KState>>| Atom {
                inv: r.inv,
                end: r.end,
                optional,
                pure,
                f: f.into(),
                what: r.show(),
            };
            let pure = |f: Box<dyn Fn(&KState) -> bool>| mk(false, true, Box::new(move |s| if f(s) { vec![*s] } else { vec![] }));
            let write = |cands: Vec<usize>, optional: bool| mk(optional, false, Box::new(move |s: &KState| if s.0 { cands.iter().map(|c| (true, Some(*c))).collect() } else { vec![] }));
            let is = |x: &String, y: &String| x == b && y == k;
            let maybe = matches!(r.obs, Obs::None) && matches!(r.eff, Eff::Model | Eff::Either);
            let model = r.eff == Eff::Model;
            let runs = matches!(r.eff, Eff::Model | Eff::Either);
            // an error answer to an upload-like request
            let refused_write = |s: u16, c: &str, bad: &mut Vec<(String, String)>| -> Option<Atom<KState>> {
                if is5(s) {
                    return None;
                }
                if s == 404 && c == "NoSuchBucket" {
                    return Some(pure(Box::new(|s| !s.0)));
                }
                if !weird {
                    bad.push(("refused".into(), format!("a valid request was refused with {s} {c}: {}", r.show())));
                }
                None
            };
            match &r.op {
                Op::Put { b: x, k: y, body, meta, .. } | Op::Form { b: x, k: y, body, meta, .. } if is(x, y) => {
                    let ver = Ver {
                        md5: md5_hex(&body.bytes()),
                        meta: norm_meta(meta),
                    };
                    let id = vers.iter().position(|z| *z == ver);
                    match &r.obs {
                        Obs::Etag(_) | Obs::Unit if runs => v.push(write(id.into_iter().collect(), false)),
                        Obs::None if maybe => v.push(write(id.into_iter().collect(), true)),
                        Obs::Err(s, c) if model => v.extend(refused_write(*s, c, &mut bad)),
                        _ => {}
                    }
                }
                Op::Complete { b: x, k: y, .. } if is(x, y) => {
                    let all: Vec<usize> = self
                        .may
                        .get(&key_of(b, k))
                        .map(|s| s.iter().filter_map(|z| vers.iter().position(|q| q == z)).collect())
                        .unwrap_or_default();
                    match &r.obs {
                        Obs::Etag(e) if runs => {
                            let cands: Vec<usize> = all.into_iter().filter(|i| format!("\"{}\"", vers[*i].md5) == *e).collect();
                            let meta = r
                                .id
                                .as_ref()
                                .and_then(|id| self.uploads.get(id))
                                .map(|(ci, _, _)| match &recs[*ci].op {
                                    Op::CreateUpload { meta, .. } => norm_meta(meta),
                                    _ => vec![],
                                })
                                .unwrap_or_default();
                            let cands: Vec<usize> = cands.into_iter().filter(|i| vers[*i].meta == meta).collect();
                            v.push(write(cands, false));
                        }
                        Obs::None if maybe => v.push(write(all, true)),
                        Obs::Err(s, c) if model && *s == 404 && c == "NoSuchBucket" => v.push(pure(Box::new(|s| !s.0))),
                        _ => {}
                    }
                }
                Op::Copy { sb, sk, db, dk, replace, .. } => {
                    let src_vers: Vec<usize> = self
                        .may
                        .get(&key_of(sb, sk))
                        .map(|s| s.iter().filter_map(|z| vers.iter().position(|q| q == z)).collect())
                        .unwrap_or_default();
                    let target = |from: &[usize]| -> Vec<usize> {
                        let mut o: Vec<usize> = from
                            .iter()
                            .filter_map(|i| {
                                let mut z = vers[*i].clone();
                                if let Some(m) = replace {
                                    z.meta = norm_meta(m);
                                }
                                vers.iter().position(|q| *q == z)
                            })
                            .collect();
                        o.dedup();
                        o
                    };
                    match &r.obs {
                        Obs::Etag(e) if runs => {
                            let e2 = e.clone();
                            let vv = vers.clone();
                            if is(sb, sk) {
                                v.push(pure(Box::new(move |s| s.1.map_or(false, |i| format!("\"{}\"", vv[i].md5) == e2))));
                            }
                            if is(db, dk) {
                                let from: Vec<usize> = src_vers.iter().copied().filter(|i| format!("\"{}\"", vers[*i].md5) == *e).collect();
                                v.push(write(target(&from), false));
                            }
                        }
                        Obs::None if maybe && is(db, dk) => v.push(write(target(&src_vers), true)),
                        Obs::Err(s, c) if model && !is5(*s) => {
                            if *s == 404 && c == "NoSuchKey" {
                                if is(sb, sk) {
                                    v.push(pure(Box::new(|s| s.1.is_none())));
                                }
                            } else if *s == 404 && c == "NoSuchBucket" {
                                // one of the two buckets was missing; checked when they are one
                                if is(sb, sk) && sb == db {
                                    v.push(pure(Box::new(|s| !s.0)));
                                }
                            } else if !(odd(sk) || odd(dk) || untracked(sk) || untracked(dk) || self.conflict(db, dk) || self.conflict(sb, sk)) && is(db, dk) {
                                // copying an object onto itself without changes may be refused
                                let selfcopy = sb == db && sk == dk && replace.is_none() && *s == 400;
                                if !selfcopy {
                                    bad.push(("refused".into(), format!("a valid request was refused with {s} {c}: {}", r.show())));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                Op::Delete { b: x, k: y } if is(x, y) => {
                    let del: Box<dyn Fn(&KState) -> Vec<KState>> = Box::new(|s| if s.0 { vec![(true, None)] } else { vec![] });
                    match &r.obs {
                        Obs::Unit if runs => v.push(mk(false, false, del)),
                        Obs::None if maybe => v.push(mk(true, false, del)),
                        Obs::Err(s, _) if runs && is5(*s) => v.push(mk(true, false, del)),
                        Obs::Err(s, c) if model => v.extend(refused_write(*s, c, &mut bad)),
                        _ => {}
                    }
                }
                Op::Batch { b: x, keys, quiet } if x == b && keys.iter().any(|y| y == k) => {
                    let del: Box<dyn Fn(&KState) -> Vec<KState>> = Box::new(|s| if s.0 { vec![(true, None)] } else { vec![] });
                    match &r.obs {
                        Obs::Deleted(d, e) if runs => {
                            let err = e.iter().any(|z| z.0 == *k);
                            if d.iter().any(|x| x == k) || (*quiet == Some(true) && !err) {
                                v.push(mk(false, false, del));
                            } else if err && e.iter().all(|z| z.0 != *k || z.1 == "NoSuchBucket") {
                                v.push(pure(Box::new(|s| !s.0)));
                            } else {
                                v.push(mk(true, false, del));
                            }
                        }
                        Obs::None if maybe => v.push(mk(true, false, del)),
                        Obs::Err(s, _) if runs && is5(*s) => v.push(mk(true, false, del)),
                        _ => {}
                    }
                }
                Op::Get { b: x, k: y, range } if is(x, y) && model => match &r.obs {
                    Obs::Object(o) => {
                        let o = o.clone();
                        let vv = vers.clone();
                        let cc = contents.clone();
                        let range = range.clone();
                        let omd5 = o.body.as_ref().map(|x| md5_hex(x));
                        let om: Vec<(String, String)> = o.meta.clone().into_iter().collect();
                        v.push(pure(Box::new(move |s| {
                            let ver = match s.1 {
                                Some(i) if s.0 => &vv[i],
                                _ => return false,
                            };
                            if o.etag.as_deref() != Some(&format!("\"{}\"", ver.md5)) {
                                return false;
                            }
                            if meta_checked && ver.meta != om {
                                return false;
                            }
                            match &range {
                                None => o.status == 200 && omd5.as_ref() == Some(&ver.md5) && o.content_range.is_none(),
                                Some(rg) => match parse_range(rg, cc[&ver.md5].len() as u64) {
                                    // a malformed range may be ignored
                                    None => o.status == 200 && omd5.as_ref() == Some(&ver.md5),
                                    _ => Self::range_ok(rg, &o, &cc[&ver.md5]),
                                },
                            }
                        })));
                    }
                    Obs::Err(404, c) => {
                        let c = c.clone();
                        v.push(pure(Box::new(move |s| if c == "NoSuchBucket" { !s.0 } else { s.1.is_none() })));
                    }
                    Obs::Err(416, _) if range.is_some() => {
                        let vv = vers.clone();
                        let ll = lens.clone();
                        let rg = range.clone().unwrap();
                        v.push(pure(Box::new(move |s| match s.1 {
                            Some(i) => s.0 && !matches!(parse_range(&rg, ll[&vv[i].md5]), Some(Some(_))),
                            None => false,
                        })));
                    }
                    Obs::Err(s, c) if !is5(*s) => {
                        // a malformed range may be refused; an unstorable name as well
                        if range.as_deref().map_or(false, |g| parse_range(g, 1 << 40).is_none()) {
                        } else if weird {
                            v.push(pure(Box::new(|s| s.1.is_none())));
                        } else {
                            bad.push(("refused".into(), format!("a valid request was refused with {s} {c}: {}", r.show())));
                        }
                    }
                    _ => {}
                },
                Op::Head { b: x, k: y } if is(x, y) && model => match &r.obs {
                    Obs::Object(o) => {
                        let o = o.clone();
                        let vv = vers.clone();
                        let ll = lens.clone();
                        let om: Vec<(String, String)> = o.meta.clone().into_iter().collect();
                        v.push(pure(Box::new(move |s| {
                            let ver = match s.1 {
                                Some(i) if s.0 => &vv[i],
                                _ => return false,
                            };
                            (!meta_checked || ver.meta == om) && ll[&ver.md5] == o.len && o.etag.as_ref().map_or(true, |e| *e == format!("\"{}\"", ver.md5))
                        })));
                    }
                    Obs::Err(404, _) => v.push(pure(Box::new(|s| !s.0 || s.1.is_none()))),
                    Obs::Err(s, c) if !is5(*s) => {
                        if weird {
                            v.push(pure(Box::new(|s| s.1.is_none())));
                        } else {
                            bad.push(("refused".into(), format!("a valid request was refused with {s} {c}: {}", r.show())));
                        }
                    }
                    _ => {}
                },
                Op::List { b: x, prefix, .. } if x == b && model => {
                    if let Obs::List(l) = &r.obs {
                        if prefix.as_ref().map_or(true, |p| k.starts_with(p.as_str())) {
                            let hit = l.iter().find(|z| z.0 == k).map(|z| z.1);
                            let vv = vers.clone();
                            let ll = lens.clone();
                            v.push(pure(Box::new(move |s| match (hit, s.1) {
                                (None, None) => true,
                                (Some(n), Some(i)) => ll[&vv[i].md5] == n,
                                _ => false,
                            })));
                        }
                    }
                }
                _ => {}
            }
        }
        self.bad.extend(bad);
        self.run_machine("object", &format!("object {b:?}/{k:?}"), (false, None), v);
    }

    fn check_upload(&mut self, id: &str) {
        let (ci, b, k) = self.uploads[id].clone();
        let recs = self.recs;
        let mut v: Vec<Atom<UState>> = vec![];
        let mut bad = vec![];
        let contents: Rc<HashMap<String, Rc<Vec<u8>>>> = Rc::new(self.contents.clone());
        for (i, r) in recs.iter().enumerate() {
            let mk = |optional: bool, pure: bool, f: Box<dyn Fn(&UState) -> Vec<UState>>| Atom {
                inv: r.inv,
                end: r.end,
                optional,
                pure,
                f: f.into(),
                what: r.show(),
            };
            if i == ci {
                v.push(mk(false, false, Box::new(|s: &UState| if s.is_none() { vec![Some(BTreeMap::new())] } else { vec![] })));
                continue;
            }
            let runs = matches!(r.eff, Eff::Model | Eff::Either);
            let maybe = runs && r.obs == Obs::None;
            match &r.op {
                Op::DeleteBucket { b: x } if *x == b && runs => {
                    let f: Box<dyn Fn(&UState) -> Vec<UState>> = Box::new(|_| vec![None]);
                    match &r.obs {
                        Obs::Unit => v.push(mk(false, false, f)),
                        Obs::None => v.push(mk(true, false, f)),
                        Obs::Err(s, _) if is5(*s) => v.push(mk(true, false, f)),
                        _ => {}
                    }
                }
                Op::Part { b: x, k: y, n, body, .. } if r.id.as_deref() == Some(id) => {
                    let mine = *x == b && *y == k;
                    let num = n.parse::<i64>().ok().filter(|n| (1..=10000).contains(n));
                    let md5 = md5_hex(&body.bytes());
                    match &r.obs {
                        Obs::Etag(_) | Obs::Unit if runs => match (mine, num) {
                            (true, Some(n)) => v.push(mk(
                                false,
                                false,
                                Box::new(move |s: &UState| {
                                    s.iter()
                                        .map(|m| {
                                            let mut m = m.clone();
                                            m.insert(n, md5.clone());
                                            Some(m)
                                        })
                                        .collect()
                                }),
                            )),
                            _ => bad.push(("accepted".into(), format!("a part for a foreign upload or with an invalid number was accepted: {}", r.show()))),
                        },
                        Obs::None if maybe && mine => {
                            if let Some(n) = num {
                                v.push(mk(
                                    true,
                                    false,
                                    Box::new(move |s: &UState| {
                                        s.iter()
                                            .map(|m| {
                                                let mut m = m.clone();
                                                m.insert(n, md5.clone());
                                                Some(m)
                                            })
                                            .collect()
                                    }),
                                ));
                            }
                        }
                        Obs::Err(s, c) if r.eff == Eff::Model && !is5(*s) && mine && num.is_some() => {
                            if *s == 404 {
                                v.push(mk(false, true, Box::new(|s: &UState| if s.is_none() { vec![s.clone()] } else { vec![] })));
                            } else {
                                bad.push(("refused".into(), format!("a valid part was refused with {s} {c}: {}", r.show())));
                            }
                        }
                        _ => {}
                    }
                }
                Op::Complete { b: x, k: y, parts, .. } if r.id.as_deref() == Some(id) => {
                    let mine = *x == b && *y == k;
                    let sel: Vec<(i64, Option<String>)> = parts.iter().zip(r.etags.iter()).map(|(p, e)| (p.n, e.clone())).collect();
                    let valid = move |m: &BTreeMap<i64, String>| -> Option<Vec<String>> {
                        if sel.is_empty() {
                            return None;
                        }
                        let mut last = 0;
                        let mut o = vec![];
                        for (n, e) in &sel {
                            if *n <= last {
                                return None;
                            }
                            last = *n;
                            let md5 = m.get(n)?;
                            if let Some(e) = e {
                                if e.trim_matches('"') != md5 {
                                    return None;
                                }
                            }
                            o.push(md5.clone());
                        }
                        Some(o)
                    };
                    let cc = contents.clone();
                    let concat = move |l: &[String]| -> String {
                        let mut o = vec![];
                        for m in l {
                            o.extend(cc[m].iter());
                        }
                        md5_hex(&o)
                    };
                    match &r.obs {
                        Obs::Etag(e) if runs => {
                            if !mine {
                                bad.push(("accepted".into(), format!("a foreign upload was completed: {}", r.show())));
                                continue;
                            }
                            let e = e.clone();
                            v.push(mk(
                                false,
                                false,
                                Box::new(move |s: &UState| match s {
                                    Some(m) => match valid(m) {
                                        Some(l) if format!("\"{}\"", concat(&l)) == e => vec![None],
                                        _ => vec![],
                                    },
                                    None => vec![],
                                }),
                            ));
                        }
                        Obs::None if maybe && mine => v.push(mk(
                            true,
                            false,
                            Box::new(move |s: &UState| match s {
                                Some(m) if valid(m).is_some() => vec![None],
                                _ => vec![],
                            }),
                        )),
                        Obs::Err(st, code) if r.eff == Eff::Model && !is5(*st) && mine && !self.conflict(&b, &k) && !odd(&k) => {
                            let gone = code == "NoSuchUpload";
                            v.push(mk(
                            false,
                            true,
                            Box::new(move |s: &UState| match s {
                                Some(_) if gone => vec![],
                                Some(m) if valid(m).is_some() => vec![],
                                _ => vec![s.clone()],
                            }),
                        ))}
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        self.bad.extend(bad);
        self.run_machine("upload", &format!("upload {id} for {b:?}/{k:?}"), None, v);
    }

    pub fn run(mut self) -> Vec<(String, String)> {
        self.single();
        // parts and completions with an id the server never handed out
        for r in self.recs {
            if let (Op::Part { .. } | Op::Complete { .. }, Eff::Model | Eff::Either) = (&r.op, &r.eff) {
                let known = r.id.as_ref().map_or(false, |i| self.uploads.contains_key(i));
                // an id whose CreateUpload answer was lost cannot be known to a client
                if !known && matches!(r.obs, Obs::Etag(_) | Obs::Unit) {
                    self.bad.push(("accepted".into(), format!("an unknown upload id was accepted: {}", r.show())));
                }
            }
        }
        for b in self.buckets.clone() {
            self.check_bucket(&b);
        }
        for (b, k) in self.keys.clone() {
            self.check_key(&b, &k);
        }
        let ids: Vec<String> = self.uploads.keys().cloned().collect();
        for id in ids {
            self.check_upload(&id);
        }
        self.bad
    }
}


/// None: not a valid single range; Some(None): selects nothing
pub fn parse_range(r: &str, len: u64) -> Option<Option<(u64, u64)>> {
    let s = r.strip_prefix("bytes=")?;
    let (a, b) = s.split_once('-')?;
    let num = |x: &str| -> Option<u64> {
        if x.is_empty() || !x.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        x.parse().ok()
    };
    if a.is_empty() {
        let n = num(b)?;
        if n == 0 || len == 0 {
            return Some(None);
        }
        return Some(Some((len.saturating_sub(n), len - 1)));
    }
    let a = num(a)?;
    let b = if b.is_empty() { u64::MAX } else { num(b)? };
    if b < a {
        return None;
    }
    if a >= len {
        return Some(None);
    }
    Some(Some((a, b.min(len - 1))))
}
