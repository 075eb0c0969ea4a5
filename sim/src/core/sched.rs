//! The simulator: one OS thread, one seed, every interleaving, delay and fault
//! decided here.

use super::simfs::{hash64, mix, SimFs};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

thread_local! {
    static SIM: Cell<*mut Sim> = const { Cell::new(std::ptr::null_mut()) };
}

pub fn in_sim() -> bool {
    SIM.try_with(|s| !s.get().is_null()).unwrap_or(false)
}

#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim {
    let p = SIM.with(|s| s.get());
    assert!(!p.is_null(), "not in a simulation");
    unsafe { &mut *p }
}

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Ready,
    /// waiting for its waker
    Wait,
    /// blocked in a futex on this address
    Futex(usize),
    /// blocked until an event makes it ready
    Blocked,
    Done,
}

pub enum Body {
    Co(Coroutine<(), (), (), DefaultStack>),
    Fut(Pin<Box<dyn Future<Output = ()>>>),
    None,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Client,
    Conn,
    Pool,
    Harness,
}

pub struct Thread {
    pub name: String,
    pub role: Role,
    pub body: Body,
    pub st: St,
    pub flag: Arc<Flag>,
    pub rand_ctr: u64,
    pub prio: u64,
    /// spawn-order-independent key used for per-thread derived values
    pub key: u64,
}

struct Ev {
    at: u64,
    seq: u64,
    f: Box<dyn FnOnce()>,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Ev {}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    /// every scheduling point uniformly random
    Uniform,
    /// keep running the same thread with probability p/100
    Sticky(u32),
    /// random fixed priorities with change points every ~n steps
    Prio(u32),
    /// default (last thread if it can run, else the oldest)
    Fifo,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub policy: Policy,
    pub seed: u64,
    /// explicit deviations (step, thread) from the default choice; when
    /// present the policy is not consulted
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub devs: Option<Vec<(u64, usize)>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum OpKind {
    Open,
    Create,
    Read,
    Write,
    Stat,
    Readdir,
    Mkdir,
    Rmdir,
    Unlink,
    Rename,
    Link,
    Copy,
    Truncate,
    Sync,
    Chmod,
    /// matches every kind
    Any,
    /// matches every kind that changes the disk
    Mutating,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// fail with this errno
    Err(i32),
    /// transfer at most n bytes
    Short(u32),
    /// slow disk: stall the calling thread (simulated microseconds)
    Delay(u64),
    /// the server process dies before / after the operation takes effect
    CrashBefore,
    CrashAfter,
    /// a write is torn: only n per mille of it reaches the file, then the process dies
    CrashTorn(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub op: OpKind,
    /// fires on the nth matching operation (0-based) after arming
    pub nth: u32,
    /// how many consecutive matching operations it hits
    pub count: u32,
    /// only operations on a path containing this text
    #[serde(default)]
    pub path: String,
    pub act: Act,
}

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub fs_ops: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub max_ready: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Quiescent,
    StepLimit,
}

pub struct Sim {
    pub fs: SimFs,
    pub seed: u64,
    pub now: u64,
    pub epoch_s: i64,
    pub jump_us: i64,
    pub threads: Vec<Thread>,
    /// the threads which are not done, in ascending order
    live: Vec<usize>,
    pub current: Option<usize>,
    yielder: *const Yielder<(), ()>,
    pub jobs: VecDeque<async_task::Runnable>,
    pub pool_limit: usize,
    pub pool_active: usize,
    pub pool_seq: u64,
    events: BinaryHeap<Ev>,
    ev_seq: u64,
    pub sched: Sched,
    rng: u64,
    pub devs: Vec<(u64, usize)>,
    dev_idx: usize,
    last: Option<usize>,
    pub dead: bool,
    pub crash_pending: bool,
    pub crashes: u64,
    pub faults: Vec<Fault>,
    fault_cnt: Vec<u32>,
    pub armed: bool,
    pub short_io_pct: u32,
    pub stats: Stats,
    pub step: u64,
    pub step_cap: u64,
    pub trace_hash: u64,
    pub trace: Option<Vec<String>>,
    pub trace_steps: bool,
    pub panics: Vec<String>,
    pub seq: u64,
    pub on_crash: Option<Box<dyn FnMut()>>,
    pub rand_ctr: u64,
    io_ctr: u64,
    pub dead_ops: u64,
    pub incarnation: u64,
    /// directory the server may touch; anything else it touches while armed is recorded
    pub jail: String,
    pub outside: BTreeSet<String>,
    /// files the disk refused to remove
    pub undeletable: BTreeSet<String>,
}

static STACKS: Mutex<Vec<DefaultStack>> = Mutex::new(Vec::new());

fn take_stack() -> DefaultStack {
    let s = STACKS.lock().unwrap_or_else(|e| e.into_inner()).pop();
    s.unwrap_or_else(|| DefaultStack::new(1024 * 1024).expect("stack"))
}

fn give_stack(s: DefaultStack) {
    STACKS.lock().unwrap_or_else(|e| e.into_inner()).push(s);
}

impl Sim {
    pub fn new(seed: u64, sched: Sched) -> Box<Sim> {
        let mut rng = mix(sched.seed ^ 0x5eed);
        if rng == 0 {
            rng = 1;
        }
        Box::new(Sim {
            fs: SimFs::new(),
            seed,
            now: 0,
            epoch_s: 1_700_000_000,
            jump_us: 0,
            threads: vec![],
            live: vec![],
            current: None,
            yielder: std::ptr::null(),
            jobs: VecDeque::new(),
            pool_limit: 500,
            pool_active: 0,
            pool_seq: 0,
            events: BinaryHeap::new(),
            ev_seq: 0,
            sched,
            rng,
            devs: vec![],
            dev_idx: 0,
            last: None,
            dead: false,
            crash_pending: false,
            crashes: 0,
            faults: vec![],
            fault_cnt: vec![],
            armed: false,
            short_io_pct: 0,
            stats: Stats::default(),
            step: 0,
            step_cap: 3_000_000,
            trace_hash: 0,
            trace: None,
            trace_steps: std::env::var_os("S3SIM_STEPS").is_some(),
            panics: vec![],
            seq: 0,
            on_crash: None,
            rand_ctr: 0,
            io_ctr: 0,
            dead_ops: 0,
            incarnation: 0,
            jail: String::new(),
            outside: BTreeSet::new(),
            undeletable: BTreeSet::new(),
        })
    }

    /// run `f` inside this simulation (on the current OS thread)
    pub fn enter<T>(self: &mut Box<Sim>, f: impl FnOnce() -> T) -> T {
        let p: *mut Sim = &mut **self;
        SIM.with(|s| {
            assert!(s.get().is_null());
            s.set(p);
        });
        let r = f();
        SIM.with(|s| s.set(std::ptr::null_mut()));
        r
    }

    pub fn set_faults(&mut self, f: Vec<Fault>) {
        self.fault_cnt = vec![0; f.len()];
        self.faults = f;
    }

    fn rnd(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.rng)
    }

    pub fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            let cur = match self.current {
                Some(c) => self.threads[c].name.clone(),
                None => "-".into(),
            };
            t.push(format!("{:>8}us #{:<6} {:<10} {}", self.now, self.step, cur, s()));
        }
    }

    pub fn mix_trace(&mut self, v: u64) {
        self.trace_hash = mix(self.trace_hash.rotate_left(5) ^ v);
    }

    pub fn probe(&mut self, name: &str) {
        *self.stats.probes.entry(name.to_owned()).or_insert(0) += 1;
    }

    pub fn fired(&mut self, name: &str) {
        *self.stats.faults.entry(name.to_owned()).or_insert(0) += 1;
    }

    // ---- time ----

    pub fn at(&mut self, at: u64, f: impl FnOnce() + 'static) {
        self.ev_seq += 1;
        let seq = self.ev_seq;
        self.events.push(Ev {
            at,
            seq,
            f: Box::new(f),
        });
    }

    pub fn realtime_ns(&self) -> i128 {
        i128::from(self.epoch_s) * 1_000_000_000 + (i128::from(self.now) + i128::from(self.jump_us)) * 1000
    }

    pub fn unix_s(&self) -> i64 {
        (self.realtime_ns() / 1_000_000_000) as i64
    }

    // ---- threads ----

    fn add_thread(&mut self, name: String, role: Role, body: Body) -> usize {
        let id = self.threads.len();
        let key = hash64(self.seed, name.as_bytes());
        let prio = mix(key ^ self.sched.seed);
        self.live.push(id);
        self.threads.push(Thread {
            name,
            role,
            body,
            st: St::Ready,
            flag: Arc::new(Flag(AtomicBool::new(false))),
            rand_ctr: 0,
            prio,
            key,
        });
        id
    }

    pub fn spawn_fut(&mut self, name: &str, role: Role, f: impl Future<Output = ()> + 'static) -> usize {
        self.add_thread(name.to_owned(), role, Body::Fut(Box::pin(f)))
    }

    pub fn spawn_co(&mut self, name: &str, role: Role, f: impl FnOnce() + 'static) -> usize {
        let f: Box<dyn FnOnce()> = Box::new(f);
        let co = Coroutine::with_stack(take_stack(), move |y: &Yielder<(), ()>, ()| {
            sim().yielder = y;
            f();
        });
        self.add_thread(name.to_owned(), role, Body::Co(co))
    }

    /// a coroutine that drives one future, like a runtime worker would
    pub fn spawn_task<F: Future<Output = ()> + 'static>(&mut self, name: &str, role: Role, f: F) -> usize {
        let id = self.threads.len();
        self.spawn_co(name, role, move || {
            let mut f = Box::pin(f);
            let flag = sim().threads[id].flag.clone();
            let waker = Waker::from(flag);
            loop {
                if sim().dead {
                    break;
                }
                let mut cx = Context::from_waker(&waker);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut cx)));
                match r {
                    Ok(Poll::Ready(())) => break,
                    Err(_) => break,
                    Ok(Poll::Pending) => {
                        if sim().dead {
                            break;
                        }
                        suspend(St::Wait);
                    }
                }
            }
            // dropping may panic as well; a real server's task would contain it
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
        })
    }

    fn start_pool_jobs(&mut self) {
        while self.pool_active < self.pool_limit {
            let job = match self.jobs.pop_front() {
                Some(j) => j,
                None => break,
            };
            self.pool_active += 1;
            self.pool_seq += 1;
            let name = format!("pool{}", self.pool_seq);
            self.spawn_co(&name, Role::Pool, move || {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job.run()));
            });
        }
    }

    fn ready_list(&mut self) -> Vec<usize> {
        let mut v = vec![];
        let threads = &mut self.threads;
        self.live.retain(|&i| threads[i].st != St::Done);
        for &i in &self.live {
            let t = &mut self.threads[i];
            if t.st == St::Wait && t.flag.0.swap(false, Ordering::SeqCst) {
                t.st = St::Ready;
            }
            if t.st == St::Ready {
                v.push(i);
            }
        }
        v
    }

    fn choose(&mut self, ready: &[usize]) -> usize {
        let dflt = match self.last {
            Some(l) if ready.contains(&l) => l,
            _ => ready[0],
        };
        if ready.len() == 1 {
            return ready[0];
        }
        if let Some(devs) = self.sched.devs.as_ref() {
            while self.dev_idx < devs.len() && devs[self.dev_idx].0 < self.step {
                self.dev_idx += 1;
            }
            if self.dev_idx < devs.len() && devs[self.dev_idx].0 == self.step {
                let want = devs[self.dev_idx].1;
                if ready.contains(&want) {
                    if want != dflt {
                        self.devs.push((self.step, want));
                    }
                    return want;
                }
            }
            return dflt;
        }
        let c = match self.sched.policy {
            Policy::Fifo => dflt,
            Policy::Uniform => {
                let r = self.rnd();
                ready[(r % ready.len() as u64) as usize]
            }
            Policy::Sticky(p) => {
                let r = self.rnd();
                if r % 100 < u64::from(p) {
                    dflt
                } else {
                    ready[((r >> 32) % ready.len() as u64) as usize]
                }
            }
            Policy::Prio(n) => {
                let r = self.rnd();
                if r % u64::from(n.max(1)) == 0 {
                    // demote a random ready thread
                    let k = ready[((r >> 32) % ready.len() as u64) as usize];
                    self.threads[k].prio = self.rnd() >> 8;
                }
                let mut best = ready[0];
                for &i in ready {
                    if self.threads[i].prio > self.threads[best].prio {
                        best = i;
                    }
                }
                best
            }
        };
        if c != dflt {
            self.devs.push((self.step, c));
        }
        c
    }

    // No `&mut self` in functions during which other code may use `sim()`:
    // the compiler may assume such a reference is not aliased.
    fn resume(id: usize) {
        let mut body = std::mem::replace(&mut sim().threads[id].body, Body::None);
        sim().current = Some(id);
        let _ = super::mem::serve(matches!(sim().threads[id].role, Role::Conn | Role::Pool));
        let done = match body {
            Body::Co(ref mut co) => {
                // the yielder is stored by the coroutine itself at each suspend
                match co.resume(()) {
                    CoroutineResult::Yield(()) => false,
                    CoroutineResult::Return(()) => true,
                }
            }
            Body::Fut(ref mut f) => {
                let waker = Waker::from(sim().threads[id].flag.clone());
                let mut cx = Context::from_waker(&waker);
                match f.as_mut().poll(&mut cx) {
                    Poll::Ready(()) => true,
                    Poll::Pending => {
                        sim().threads[id].st = St::Wait;
                        false
                    }
                }
            }
            Body::None => panic!("thread {} resumed without a body", sim().threads[id].name),
        };
        let _ = super::mem::serve(false);
        sim().current = None;
        sim().yielder = std::ptr::null();
        if done {
            sim().threads[id].st = St::Done;
            if sim().threads[id].role == Role::Pool {
                sim().pool_active -= 1;
            }
            if let Body::Co(co) = body {
                give_stack(co.into_stack());
            }
        } else {
            sim().threads[id].body = body;
        }
    }

    /// run until nothing can happen any more
    pub fn run() -> End {
        loop {
            sim().step += 1;
            sim().stats.steps += 1;
            if sim().step > sim().step_cap {
                return End::StepLimit;
            }
            while sim().events.peek().map_or(false, |e| e.at <= sim().now) {
                let e = sim().events.pop().unwrap();
                (e.f)();
            }
            if sim().crash_pending {
                Sim::crash();
            }
            sim().start_pool_jobs();
            let ready = sim().ready_list();
            if ready.is_empty() {
                match sim().events.peek() {
                    None => return End::Quiescent,
                    Some(e) => {
                        sim().now = sim().now.max(e.at);
                        continue;
                    }
                }
            }
            sim().stats.max_ready = sim().stats.max_ready.max(ready.len() as u64);
            let c = sim().choose(&ready);
            if sim().last != Some(c) {
                sim().stats.switches += 1;
            }
            sim().mix_trace(c as u64);
            if sim().trace_steps {
                sim().note(|| format!("step of {} ready", ready.len()));
            }
            sim().last = Some(c);
            sim().now += 1 + mix(sim().seed ^ sim().step) % 7;
            let tick = i128::from(sim().fs.tick_ns.max(1));
            sim().fs.now_ns = sim().realtime_ns() / tick * tick;
            Sim::resume(c);
        }
    }

    // ---- process crash ----

    /// kill the server process: no further effect of any server code reaches
    /// the disk or the network
    pub fn crash() {
        sim().crash_pending = false;
        sim().crashes += 1;
        sim().dead = true;
        sim().dead_ops = 0;
        sim().note(|| "CRASH of the server process".into());
        let mut guard = 0u64;
        loop {
            let mut progressed = false;
            let n = sim().threads.len();
            for i in 0..n {
                let t = &sim().threads[i];
                if matches!(t.role, Role::Conn | Role::Pool) && t.st != St::Done {
                    sim().threads[i].st = St::Ready;
                    Sim::resume(i);
                    progressed = true;
                }
            }
            while let Some(job) = sim().jobs.pop_front() {
                sim().pool_active += 1;
                sim().spawn_co("deadjob", Role::Pool, move || {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job.run()));
                });
                progressed = true;
            }
            guard += 1;
            if !progressed {
                break;
            }
            if guard > 10_000 {
                sim().panics.push("dead server threads would not unwind".into());
                // leak them
                for t in sim().threads.iter_mut() {
                    if matches!(t.role, Role::Conn | Role::Pool) && t.st != St::Done {
                        t.st = St::Done;
                        let b = std::mem::replace(&mut t.body, Body::None);
                        std::mem::forget(b);
                    }
                }
                break;
            }
        }
        if let Some(mut f) = sim().on_crash.take() {
            f();
            sim().on_crash = Some(f);
        }
        while let Some(job) = sim().jobs.pop_front() {
            sim().pool_active += 1;
            let id = sim().spawn_co("deadjob", Role::Pool, move || {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job.run()));
            });
            Sim::resume(id);
        }
        sim().fs.process_died();
        sim().pool_active = 0;
        sim().dead = false;
        sim().incarnation += 1;
    }

    // ---- the fault layer, called before every simulated system call ----

    pub fn gate(kind: OpKind, path: &str) -> Gate {
        if sim().dead {
            sim().dead_ops += 1;
            if sim().dead_ops > 200_000 {
                suspend_forced(St::Blocked);
            }
            return Gate::Fail(libc::EIO);
        }
        sim().stats.fs_ops += 1;
        sim().mix_trace(kind as u64 + 1000);
        if sim().current.is_some() {
            suspend(St::Ready);
            if sim().dead {
                return Gate::Fail(libc::EIO);
            }
        }
        let mutating = matches!(
            kind,
            OpKind::Create
                | OpKind::Write
                | OpKind::Mkdir
                | OpKind::Rmdir
                | OpKind::Unlink
                | OpKind::Rename
                | OpKind::Link
                | OpKind::Copy
                | OpKind::Truncate
        );
        sim().note(|| format!("{kind:?} {path}"));
        if sim().armed && !sim().jail.is_empty() {
            if let Some(c) = sim().current {
                if matches!(sim().threads[c].role, Role::Conn | Role::Pool) {
                    for p in path.split(" -> ") {
                        let n = lexical(p);
                        let ok = n == sim().jail || n.starts_with(&format!("{}/", sim().jail)) || n == "/etc/localtime" || n.starts_with("<") || n.starts_with("/<unlinked>");
                        if !ok {
                            sim().outside.insert(format!("{kind:?} {p}"));
                        }
                    }
                }
            }
        }
        if !sim().armed || sim().current.is_none() {
            return Gate::Go;
        }
        let mut hit = None;
        for (i, f) in sim().faults.iter().enumerate() {
            let m = f.op == kind || f.op == OpKind::Any || (f.op == OpKind::Mutating && mutating);
            if !m || !(f.path.is_empty() || path.contains(&f.path)) {
                continue;
            }
            let n = sim().fault_cnt[i];
            sim().fault_cnt[i] += 1;
            if n >= f.nth && n - f.nth < f.count && hit.is_none() {
                hit = Some(f.act.clone());
            }
        }
        match hit {
            None => {}
            Some(Act::Err(e)) => {
                let n = format!("errno_{}", errno_name(e));
                sim().fired(&n);
                sim().note(|| format!("  fault: {n}"));
                if kind == OpKind::Unlink {
                    sim().undeletable.insert(path.to_owned());
                }
                return Gate::Fail(e);
            }
            Some(Act::Short(n)) => {
                if matches!(kind, OpKind::Read | OpKind::Write | OpKind::Copy) {
                    sim().fired("short_io");
                    return Gate::Short(n.max(1) as usize);
                }
            }
            Some(Act::Delay(us)) => {
                if let Some(cur) = sim().current {
                    sim().fired("slow_disk");
                    sim().note(|| format!("  fault: slow disk {us}us"));
                    let at = sim().now + us;
                    sim().at(at, move || {
                        let t = &mut sim().threads[cur];
                        if t.st == St::Blocked {
                            t.st = St::Ready;
                        }
                    });
                    suspend(St::Blocked);
                    if sim().dead {
                        return Gate::Fail(libc::EIO);
                    }
                }
            }
            Some(Act::CrashBefore) => {
                if sim().current.is_some() {
                    sim().fired("crash_before_op");
                    sim().crash_pending = true;
                    suspend(St::Ready);
                    return Gate::Fail(libc::EIO);
                }
            }
            Some(Act::CrashAfter) => {
                if sim().current.is_some() {
                    sim().fired("crash_after_op");
                    return Gate::ThenCrash;
                }
            }
            Some(Act::CrashTorn(pm)) => {
                if sim().current.is_some() {
                    sim().fired(if kind == OpKind::Write {
                        "crash_torn_write"
                    } else {
                        "crash_after_op"
                    });
                    return if matches!(kind, OpKind::Write | OpKind::Copy) {
                        Gate::TornCrash(pm)
                    } else {
                        Gate::ThenCrash
                    };
                }
            }
        }
        if sim().short_io_pct > 0 && matches!(kind, OpKind::Read | OpKind::Write | OpKind::Copy) {
            sim().io_ctr += 1;
            let h = mix(sim().seed ^ sim().io_ctr.wrapping_mul(0x1234_5677));
            if h % 100 < u64::from(sim().short_io_pct) {
                sim().fired("short_io");
                return Gate::Short(1 + ((h >> 20) % 3000) as usize);
            }
        }
        Gate::Go
    }

    /// what is left of a run that ended early cannot be unwound safely: leak it
    pub fn teardown(&mut self) -> bool {
        let mut clean = true;
        for t in self.threads.iter_mut() {
            if t.st != St::Done {
                clean = false;
            }
            let b = std::mem::replace(&mut t.body, Body::None);
            std::mem::forget(b);
        }
        for j in self.jobs.drain(..) {
            std::mem::forget(j);
        }
        while let Some(e) = self.events.pop() {
            std::mem::forget(e);
        }
        clean
    }

    /// called after the effect of a `ThenCrash` operation
    pub fn crash_now() {
        sim().crash_pending = true;
        suspend(St::Ready);
    }
}

pub enum Gate {
    Go,
    Fail(i32),
    Short(usize),
    ThenCrash,
    TornCrash(u32),
}

/// resolve dot segments by text
pub fn lexical(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    format!("/{}", v.join("/"))
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EMFILE => "EMFILE",
        libc::EACCES => "EACCES",
        libc::ENOMEM => "ENOMEM",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::EINTR => "EINTR",
        _ => "OTHER",
    }
}

/// give control back to the scheduler (no-op outside a coroutine, while
/// unwinding, or in a dead process)
pub fn suspend(st: St) {
    if sim().dead || std::thread::panicking() {
        return;
    }
    suspend_forced(st);
}

fn suspend_forced(st: St) {
    let s = sim();
    let y = s.yielder;
    if y.is_null() {
        return;
    }
    let cur = match s.current {
        Some(c) => c,
        None => return,
    };
    s.threads[cur].st = st;
    // SAFETY: the yielder lives as long as its coroutine, which is suspended here
    let mine = super::mem::serve(false);
    unsafe { (*y).suspend(()) };
    let _ = super::mem::serve(mine);
    let s = sim();
    s.yielder = y;
}

/// sleep for simulated microseconds (harness futures)
pub fn sleep(us: u64) -> impl Future<Output = ()> {
    struct S {
        us: Option<u64>,
        done: Arc<AtomicBool>,
    }
    impl Future for S {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if let Some(us) = self.us.take() {
                let d = self.done.clone();
                let w = cx.waker().clone();
                let at = sim().now + us;
                sim().at(at, move || {
                    d.store(true, Ordering::SeqCst);
                    w.wake();
                });
            }
            if self.done.load(Ordering::SeqCst) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
    S {
        us: Some(us),
        done: Arc::new(AtomicBool::new(false)),
    }
}

pub fn blocking_hook(r: async_task::Runnable) {
    if in_sim() {
        sim().jobs.push_back(r);
    } else {
        std::mem::forget(r);
    }
}

/// a dead process' thread waiting for a lock: let the others unwind first
pub fn suspend_dead() {
    if !std::thread::panicking() {
        suspend_forced(St::Ready);
    }
}
