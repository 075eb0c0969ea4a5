//! A plan is everything that decides one simulated run; it is generated from
//! (seed, property, index), shrunk, and stored as the replay file.

use crate::core::net::{NetCfg, ReadMode, Seg};
use crate::core::sched::{Fault, Sched};
use crate::core::simfs::mix;
use crate::wire::{Enc, Pay};
use serde::{Deserialize, Serialize};

pub type Meta = Vec<(String, String)>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Body {
    pub len: u32,
    pub tag: u64,
    #[serde(default)]
    pub kind: u8,
}

impl Body {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.len as usize);
        let head = format!("<{:08x}>", self.tag as u32);
        v.extend(head.as_bytes());
        let mut s = mix(self.tag ^ 0xb0d7);
        while v.len() < self.len as usize {
            s = mix(s);
            match self.kind {
                0 => v.extend(s.to_le_bytes()),
                1 => v.push(b'z'),
                2 => v.extend(if s & 1 == 0 { &b"\r\n"[..] } else if s & 2 == 0 { &b"\r"[..] } else if s & 4 == 0 { &b"\n--"[..] } else { &b"x"[..] }),
                // looks like the form boundary
                3 => {
                    let b = b"\r\n--SimBoundary7MA4";
                    let n = 1 + (s % (b.len() as u64)) as usize;
                    v.extend(&b[..n]);
                    if s & 0x1000 != 0 {
                        v.push(b'q');
                    }
                }
                // looks like chunk headers
                4 => v.extend(if s & 1 == 0 { &b"0;chunk-signature="[..] } else { &b"\r\n10;c"[..] }),
                _ => v.extend(b"lorem ipsum "),
            }
        }
        v.truncate(self.len as usize);
        // never contain the complete delimiter
        if self.kind == 3 {
            let d = b"\r\n--SimBoundary7MA4YWxkTrZu0gW";
            while let Some(i) = crate::core::net::find(&v, d) {
                v[i + 4] = b'*';
            }
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Md5Hdr {
    None,
    Good,
    Bad,
    Garbage,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SrcStyle {
    Encoded,
    Slash,
    Raw,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EtagSel {
    /// the ETag the server returned for the latest acknowledged upload of the part
    Latest,
    None,
    Wrong,
    /// without the quotes
    Bare,
    /// only this many characters of it
    Prefix(u32),
    /// all but this many characters of it
    Suffix(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PartSel {
    pub n: i64,
    pub etag: EtagSel,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FormMut {
    None,
    /// byte flip in the policy after signing
    PolicyFlip,
    SigFlip,
    UnknownKey,
    NoPolicy,
    NoKey,
    /// policy condition on the key that the key does not meet
    CondKey,
    CondPrefix,
    CondBucket,
    CondLen,
    CondField,
    /// a form field that no condition covers
    ExtraField,
    /// expiration this many seconds before now
    Expired(u32),
    /// closing boundary missing (body complete as declared)
    NoClose,
    /// cut inside the file content (body complete as declared)
    CutFile(u32),
    /// cut anywhere, per mille of the body
    CutAt(u32),
    NoFile,
    BadCred,
    WrongDateField,
    /// only this many characters of the signature
    SigTrunc(u32),
    /// the signature with characters appended
    SigExtend,
    /// the credential names another date / service / terminator
    ScopeDate,
    ScopeService,
    ScopeTerm,
    ScopeRegion,
    /// posted to an object instead of its bucket, with this query
    OnObject(String),
    /// one of the fields of the signature garbled
    Warp(u32),
    /// further conditions and fields that the form meets
    PolicyOk(u32),
    /// further conditions that the form does not meet
    PolicyBad(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    CreateBucket { b: String },
    DeleteBucket { b: String },
    HeadBucket { b: String },
    Location { b: String },
    ListBuckets,
    Put { b: String, k: String, body: Body, meta: Meta, #[serde(default = "no_md5")] md5: Md5Hdr },
    Get { b: String, k: String, #[serde(default)] range: Option<String> },
    Head { b: String, k: String },
    Delete { b: String, k: String },
    Copy { sb: String, sk: String, db: String, dk: String, #[serde(default)] replace: Option<Meta>, style: SrcStyle },
    List {
        b: String,
        prefix: Option<String>,
        v2: bool,
        /// encoding-type: none, url, something else
        #[serde(default)]
        enc: u8,
    },
    Batch { b: String, keys: Vec<String>, quiet: Option<bool> },
    CreateUpload { b: String, k: String, meta: Meta, slot: String },
    Part { b: String, k: String, slot: String, n: String, body: Body, #[serde(default = "no_md5")] md5: Md5Hdr },
    Complete { b: String, k: String, slot: String, parts: Vec<PartSel> },
    Form { b: String, k: String, body: Body, meta: Meta, fmut: FormMut, filename: String },
    /// any other request; body is text
    Raw { method: String, path: String, query: Vec<(String, Option<String>)>, headers: Vec<(String, String)>, body: String },
    /// raw bytes on the wire (latin-1 in JSON)
    Bytes { hex: String },
    /// re-send the exact bytes of an earlier request of this client (network-level replay)
    Again { back: u32 },
    Sleep { us: u64 },
    Jump { s: i64 },
}

fn no_md5() -> Md5Hdr {
    Md5Hdr::None
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Auth {
    None,
    Header { pay: Pay, t_off: i64, extra: bool },
    Presign { t_off: i64, expires: u64 },
}

/// alterations of a correctly signed request
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tamper {
    WrongSecret,
    UnknownKey,
    NoAuth,
    SigFlip(u32),
    /// only this many characters of the signature
    SigTrunc(u32),
    SigExtend,
    /// the credential names another date / service / terminator
    ScopeDate,
    ScopeService,
    ScopeTerm,
    /// the signing algorithm is named differently
    Algorithm,
    Method,
    Path,
    PathEscape,
    QueryAdd,
    QueryDrop,
    QueryChange,
    HeaderChange,
    /// an x-amz-* header that was not signed
    AmzAdd(u32),
    HeaderDrop,
    BodyFlip(u32),
    BodyDrop,
    DateShift,
    RegionSwap,
    ChunkFlip(u32),
    ChunkDrop(u32),
    ChunkDup(u32),
    ChunkSwap(u32),
    ChunkNoFinal,
    ChunkSizeLie(u32),
    ChunkSigFlip(u32),
    ChunkSigTrunc(u32),
    /// the encoded stream ends after this many per mille of its bytes
    ChunkCut(u32),
    /// bytes after the final chunk
    ChunkTrailing(u32),
    /// the line end after a chunk's data garbled
    ChunkDelim(u32),
    /// a character of a chunk header garbled
    ChunkWarp(u32),
    /// a chunk header with an enormous size
    ChunkHuge(u32),
    UnsignedInsteadOfSigned,
    /// x-amz-decoded-content-length smaller / larger than the content
    PresignExtend,
    /// host header swapped for another
    HostSwap,
    /// no secret at all, of the known or an unknown key
    EmptySecret(bool),
    /// the signature does not cover the host
    NoHost,
    /// the parameter of the signature again, in lower case
    QueryCase,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CutHow {
    /// half-close
    Fin,
    Reset,
    /// stay silent until all other clients are done, then reset
    Stall,
    /// stay silent until all other clients are done, then send the rest
    StallResume,
    /// send everything, read nothing until the others are done, then reset
    NoRead,
    /// send everything, reset immediately afterwards
    SendReset,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cut {
    /// per mille of the body bytes sent before the cut; heads are sent whole
    /// unless `head`
    pub at: u32,
    pub head: bool,
    pub how: CutHow,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Wire {
    #[serde(default)]
    pub seg: Seg,
    #[serde(default)]
    pub read: ReadMode,
    /// use a new connection
    #[serde(default)]
    pub fresh: bool,
    /// how many of the following steps are sent together with this one
    #[serde(default)]
    pub pipe: u8,
    #[serde(default)]
    pub te: Option<u32>,
    #[serde(default = "aws")]
    pub enc: Enc,
    #[serde(default)]
    pub cut: Option<Cut>,
    #[serde(default)]
    pub pause: u32,
    /// declare this many bytes more (positive) than are sent before FIN
    #[serde(default)]
    pub over: u32,
}

fn aws() -> Enc {
    Enc::Aws
}

impl Default for Wire {
    fn default() -> Self {
        Wire {
            seg: Seg::default(),
            read: ReadMode::default(),
            fresh: false,
            pipe: 0,
            te: None,
            enc: Enc::Aws,
            cut: None,
            pause: 0,
            over: 0,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Expect {
    /// the reference model decides
    Model,
    /// must be refused and have no effect
    Reject,
    /// any answer; must have no effect on anything the model tracks
    Any,
    /// any answer below 500 (or 501)
    NoServerError,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub op: Op,
    #[serde(default)]
    pub wire: Wire,
    #[serde(default = "auth_none")]
    pub auth: Auth,
    #[serde(default)]
    pub tamper: Option<Tamper>,
    #[serde(default = "model")]
    pub expect: Expect,
    /// further query parameters, without meaning for the operation
    #[serde(default)]
    pub xq: Vec<(String, Option<String>)>,
    /// further headers, signed and without meaning for the operation
    #[serde(default)]
    pub xh: Vec<(String, String)>,
    /// wait until this many steps of the whole run have been answered
    #[serde(default)]
    pub after: u32,
    /// whose key signs the request
    #[serde(default)]
    pub who: u8,
}

fn auth_none() -> Auth {
    Auth::None
}
fn model() -> Expect {
    Expect::Model
}

pub fn st(op: Op) -> Step {
    Step {
        op,
        wire: Wire::default(),
        auth: Auth::None,
        tamper: None,
        expect: Expect::Model,
        xq: vec![],
        xh: vec![],
        after: 0,
        who: 0,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Env {
    pub auth: bool,
    pub pool: usize,
    pub dt_unknown: bool,
    pub batch: usize,
    pub capacity: Option<u64>,
    pub max_fds: Option<u32>,
    pub short_pct: u32,
    pub epoch_s: i64,
    /// granularity of the times of files
    #[serde(default)]
    pub tick_ns: u64,
    /// the file system knows no times of creation
    #[serde(default)]
    pub no_btime: bool,
    /// the authentication provider takes up to this long
    #[serde(default)]
    pub auth_delay_us: u64,
    /// and fails this often
    #[serde(default)]
    pub auth_fail_pct: u32,
    /// bytes in the pipe between a task and the thread that reads or writes
    /// its file; 0: the 8 MiB of the crate
    #[serde(default)]
    pub pipe: u32,
    pub net: NetCfg,
}

impl Default for Env {
    fn default() -> Self {
        Env {
            auth: false,
            pool: 500,
            dt_unknown: false,
            batch: 1000,
            capacity: None,
            max_fds: None,
            short_pct: 0,
            epoch_s: 1_700_000_000,
            tick_ns: 0,
            no_btime: false,
            auth_delay_us: 0,
            auth_fail_pct: 0,
            pipe: 0,
            net: NetCfg::default(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub index: u64,
    /// derived values inside the run (delays, hash order, uuids)
    pub seed: u64,
    pub scenario: String,
    pub env: Env,
    pub sched: Sched,
    pub faults: Vec<Fault>,
    pub setup: Vec<Step>,
    pub clients: Vec<Vec<Step>>,
    /// run again with a plain delivery and compare (delivery independence)
    #[serde(default)]
    pub compare: bool,
    /// run a fault-free round after the faults: same ops must work
    #[serde(default)]
    pub after: Vec<Step>,
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(mix(s ^ 0xabcdef))
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn n(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (self.u() >> 11) % n
        }
    }
    pub fn r(&mut self, a: u64, b: u64) -> u64 {
        a + self.n(b - a + 1)
    }
    pub fn p(&mut self, pct: u64) -> bool {
        self.n(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
