//! Minimise a failing plan: clients, steps, faults, delivery, bodies, schedule.

use crate::exec::Outcome;
use crate::harness::Exec;
use crate::plan::*;
use std::time::Instant;

struct Pool {
    v: Vec<Exec>,
}

impl Pool {
    fn run(&mut self, c: &[Plan]) -> Vec<Outcome> {
        std::thread::scope(|s| {
            let hs: Vec<_> = self.v.iter_mut().zip(c.iter()).map(|(e, p)| s.spawn(move || e.run(p))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    }
}

fn candidates(p: &Plan) -> Vec<Plan> {
    let mut v: Vec<Plan> = vec![];
    // whole clients
    for i in 0..p.clients.len() {
        if !p.clients[i].is_empty() {
            let mut q = p.clone();
            q.clients[i].clear();
            v.push(q);
        }
    }
    if !p.after.is_empty() {
        let mut q = p.clone();
        q.after.clear();
        v.push(q);
    }
    if p.faults.len() > 1 {
        let mut q = p.clone();
        q.faults.clear();
        v.push(q);
    }
    for i in 0..p.faults.len() {
        let mut q = p.clone();
        q.faults.remove(i);
        v.push(q);
        if p.faults[i].count > 1 {
            let mut q = p.clone();
            q.faults[i].count = 1;
            v.push(q);
        }
    }
    // halves, then single steps
    for i in 0..p.clients.len() {
        let n = p.clients[i].len();
        if n >= 4 {
            for half in 0..2 {
                let mut q = p.clone();
                if half == 0 {
                    q.clients[i].truncate(n / 2);
                } else {
                    q.clients[i].drain(..n / 2);
                }
                v.push(q);
            }
        }
        for j in (0..n).rev() {
            let mut q = p.clone();
            q.clients[i].remove(j);
            v.push(q);
        }
    }
    for j in (0..p.setup.len()).rev() {
        if matches!(p.setup[j].op, Op::CreateBucket { .. }) {
            continue;
        }
        let mut q = p.clone();
        q.setup.remove(j);
        v.push(q);
    }
    for j in (0..p.after.len()).rev() {
        let mut q = p.clone();
        q.after.remove(j);
        v.push(q);
    }
    // environment
    let d = Env::default();
    let mut e = vec![];
    let b = &p.env;
    let mut one = |f: &dyn Fn(&mut Env)| {
        let mut x = b.clone();
        f(&mut x);
        if x != *b {
            e.push(x);
        }
    };
    one(&|x| {
        let (a, ep) = (x.auth, x.epoch_s);
        *x = d.clone();
        x.auth = a;
        x.epoch_s = ep;
    });
    one(&|x| x.pool = d.pool);
    one(&|x| x.dt_unknown = false);
    one(&|x| x.tick_ns = 0);
    one(&|x| x.no_btime = false);
    one(&|x| x.auth_delay_us = 0);
    one(&|x| x.auth_fail_pct = 0);
    one(&|x| x.batch = d.batch);
    one(&|x| x.short_pct = 0);
    one(&|x| x.capacity = None);
    one(&|x| x.max_fds = None);
    one(&|x| x.net = d.net.clone());
    one(&|x| x.epoch_s = d.epoch_s);
    for x in e {
        let mut q = p.clone();
        q.env = x;
        v.push(q);
    }
    // delivery
    let dw = Wire::default();
    let plain = |w: &Wire| Wire {
        cut: w.cut.clone(),
        enc: w.enc,
        ..Wire::default()
    };
    {
        let mut q = p.clone();
        for c in q.clients.iter_mut().chain([&mut q.setup, &mut q.after]) {
            for s in c.iter_mut() {
                s.wire = plain(&s.wire);
                s.after = 0;
            }
        }
        v.push(q);
    }
    for i in 0..p.clients.len() {
        for j in 0..p.clients[i].len() {
            let s = &p.clients[i][j];
            let mut alt = vec![];
            if s.wire != plain(&s.wire) {
                let mut t = s.clone();
                t.wire = plain(&s.wire);
                alt.push(t);
            }
            if s.wire.cut.is_some() {
                let mut t = s.clone();
                t.wire.cut = None;
                alt.push(t);
            }
            if s.wire.enc != dw.enc {
                let mut t = s.clone();
                t.wire.enc = dw.enc;
                alt.push(t);
            }
            for k in 0..s.xq.len() {
                let mut t = s.clone();
                t.xq.remove(k);
                alt.push(t);
            }
            for k in 0..s.xh.len() {
                let mut t = s.clone();
                t.xh.remove(k);
                alt.push(t);
            }
            for k in 0..6 {
                let mut t = s.clone();
                match k {
                    0 => t.wire.seg = dw.seg.clone(),
                    1 => t.wire.read = dw.read.clone(),
                    2 => t.wire.pipe = 0,
                    3 => t.wire.te = None,
                    4 => t.wire.pause = 0,
                    _ => t.after = 0,
                }
                alt.push(t);
            }
            if let Some(b) = body_of(&s.op) {
                for n in [0, 1, 12, b.len / 2, b.len.saturating_sub(1)] {
                    if n < b.len {
                        let mut t = s.clone();
                        set_body(&mut t.op, n, b.kind);
                        alt.push(t);
                    }
                }
                if b.kind != 0 {
                    let mut t = s.clone();
                    set_body(&mut t.op, b.len, 0);
                    alt.push(t);
                }
            }
            for t in op_alts(&s.op) {
                let mut u = s.clone();
                u.op = t;
                alt.push(u);
            }
            for t in alt {
                if t != *s {
                    let mut q = p.clone();
                    q.clients[i][j] = t;
                    v.push(q);
                }
            }
        }
    }
    v.retain(|q| q != p);
    v
}

fn body_of(o: &Op) -> Option<Body> {
    match o {
        Op::Put { body, .. } | Op::Part { body, .. } | Op::Form { body, .. } => Some(body.clone()),
        _ => None,
    }
}

fn set_body(o: &mut Op, n: u32, kind: u8) {
    match o {
        Op::Put { body, .. } | Op::Part { body, .. } | Op::Form { body, .. } => {
            body.len = n;
            body.kind = kind;
        }
        _ => {}
    }
}

fn op_alts(o: &Op) -> Vec<Op> {
    let mut v = vec![];
    match o {
        Op::Batch { keys, .. } => {
            for i in 0..keys.len() {
                let mut x = o.clone();
                if let Op::Batch { keys, .. } = &mut x {
                    keys.remove(i);
                }
                v.push(x);
            }
        }
        Op::Complete { parts, .. } => {
            for i in 0..parts.len() {
                let mut x = o.clone();
                if let Op::Complete { parts, .. } = &mut x {
                    parts.remove(i);
                }
                v.push(x);
            }
        }
        Op::Put { meta, .. } | Op::Form { meta, .. } | Op::CreateUpload { meta, .. } => {
            for i in 0..meta.len() {
                let mut x = o.clone();
                if let Op::Put { meta, .. } | Op::Form { meta, .. } | Op::CreateUpload { meta, .. } = &mut x {
                    meta.remove(i);
                }
                v.push(x);
            }
        }
        Op::Get { b, k, range: Some(_) } => v.push(Op::Get {
            b: b.clone(),
            k: k.clone(),
            range: None,
        }),
        Op::Raw { query, headers, body, .. } => {
            for i in 0..query.len() {
                let mut x = o.clone();
                if let Op::Raw { query, .. } = &mut x {
                    query.remove(i);
                }
                v.push(x);
            }
            for i in 0..headers.len() {
                let mut x = o.clone();
                if let Op::Raw { headers, .. } = &mut x {
                    headers.remove(i);
                }
                v.push(x);
            }
            if !body.is_empty() {
                let mut x = o.clone();
                if let Op::Raw { body, .. } = &mut x {
                    body.clear();
                }
                v.push(x);
            }
        }
        _ => {}
    }
    v
}

pub type Ok3 = (Plan, String, String);

pub fn shrink(p: &Plan, class: &str, devs: &[(u64, usize)], deadline: Instant, nw: usize, fresh: &dyn Fn(&str, &str) -> bool) -> Option<Ok3> {
    let mut pool = Pool {
        v: (0..nw.max(1)).map(|_| Exec::new()).collect(),
    };
    let hit = |o: &Outcome| -> Option<String> { o.bad.iter().find(|(c, m)| c == class && fresh(c, m)).map(|(_, m)| m.clone()) };
    let o = pool.run(std::slice::from_ref(p)).pop()?;
    let mut msg = hit(&o)?;
    let mut best = p.clone();
    let mut tried = 1u64;
    let size0: usize = p.clients.iter().map(Vec::len).sum();
    // first see whether the plain schedule already shows it
    {
        let mut q = best.clone();
        q.sched.devs = Some(vec![]);
        let o = pool.run(std::slice::from_ref(&q)).pop()?;
        if let Some(m) = hit(&o) {
            best = q;
            msg = m;
        }
    }
    let mut again = true;
    while again && Instant::now() < deadline {
        again = false;
        let c = candidates(&best);
        // with a random schedule, each candidate is tried under several schedules
        let mut list: Vec<Plan> = vec![];
        for q in c {
            if q.sched.devs.is_none() {
                for k in 0..3u64 {
                    let mut x = q.clone();
                    x.sched.seed = x.sched.seed.wrapping_add(k * 7919) & 0xffff_ffff_ffff;
                    list.push(x);
                }
            } else {
                list.push(q);
            }
        }
        let mut i = 0;
        while i < list.len() && Instant::now() < deadline {
            let n = nw.max(1).min(list.len() - i);
            let os = pool.run(&list[i..i + n]);
            tried += n as u64;
            let mut took = None;
            for (k, o) in os.iter().enumerate() {
                if let Some(m) = hit(o) {
                    took = Some((i + k, m));
                    break;
                }
            }
            if let Some((k, m)) = took {
                best = list[k].clone();
                msg = m;
                again = true;
                break;
            }
            i += n;
        }
    }
    // schedule: from the recorded deviations to a minimal subset
    if best.sched.devs.is_none() {
        let o = pool.run(std::slice::from_ref(&best)).pop()?;
        let d0 = if o.devs.is_empty() { devs.to_vec() } else { o.devs.clone() };
        let mut q = best.clone();
        q.sched.devs = Some(d0);
        let o = pool.run(std::slice::from_ref(&q)).pop()?;
        if let Some(m) = hit(&o) {
            best = q;
            msg = m;
            let mut chunk = best.sched.devs.as_ref().map_or(0, |d| d.len());
            while chunk >= 1 && Instant::now() < deadline {
                let mut i = 0;
                let mut removed = false;
                loop {
                    let d = best.sched.devs.clone().unwrap_or_default();
                    if i >= d.len() || Instant::now() >= deadline {
                        break;
                    }
                    let mut cand = vec![];
                    let mut j = i;
                    while j < d.len() && cand.len() < nw.max(1) {
                        let mut e = d.clone();
                        e.drain(j..(j + chunk).min(d.len()));
                        let mut q = best.clone();
                        q.sched.devs = Some(e);
                        cand.push(q);
                        j += chunk;
                    }
                    let os = pool.run(&cand);
                    tried += cand.len() as u64;
                    let k = os.iter().position(|o| hit(o).is_some());
                    match k {
                        Some(k) => {
                            msg = hit(&os[k]).unwrap();
                            best = cand[k].clone();
                            i += k * chunk;
                            removed = true;
                        }
                        None => i = j,
                    }
                }
                if !removed || chunk > 1 {
                    if chunk == 1 {
                        break;
                    }
                    chunk = (chunk / 2).max(1);
                }
            }
        }
    }
    let size: usize = best.clients.iter().map(Vec::len).sum();
    let nd = best.sched.devs.as_ref().map_or(0, |d| d.len());
    let note = format!(
        "minimised from {size0} to {size} steps of {} clients, {} faults, {} schedule deviations; {tried} candidate runs",
        best.clients.iter().filter(|c| !c.is_empty()).count(),
        best.faults.len(),
        nd
    );
    Some((best, msg, note))
}
