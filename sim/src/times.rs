//! Times of modification and creation, judged against the server's clock.

use crate::core::net::Resp;
use crate::model::{Eff, Obs, Rec};
use crate::plan::*;
use crate::xml;
use std::collections::BTreeMap;

const S: i64 = 1_000_000;

#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    /// "bucket/key", or "bucket" for the creation of a bucket
    pub what: String,
    pub text: String,
    /// the HTTP form, which tells no fractions
    pub http: bool,
    pub len: Option<u64>,
}

fn days(y: i64, m: i64, d: i64) -> i64 {
    // days since 1970-01-01 of the Gregorian calendar
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

fn num(s: &str, n: usize) -> Option<i64> {
    if s.len() == n && s.bytes().all(|c| c.is_ascii_digit()) {
        s.parse().ok()
    } else {
        None
    }
}

fn hms(s: &str) -> Option<i64> {
    let v: Vec<&str> = s.split(':').collect();
    if v.len() != 3 {
        return None;
    }
    let (h, m, x) = (num(v[0], 2)?, num(v[1], 2)?, num(v[2], 2)?);
    if h > 23 || m > 59 || x > 60 {
        return None;
    }
    Some(h * 3600 + m * 60 + x)
}

/// IMF-fixdate, RFC 7231 section 7.1.1.1
fn http_date(s: &str) -> Option<i64> {
    let v: Vec<&str> = s.split(' ').collect();
    if v.len() != 6 || v[5] != "GMT" {
        return None;
    }
    const M: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    const W: [&str; 7] = ["Thu,", "Fri,", "Sat,", "Sun,", "Mon,", "Tue,", "Wed,"];
    let m = M.iter().position(|x| *x == v[2])? as i64 + 1;
    let d = days(num(v[3], 4)?, m, num(v[1], 2)?);
    if W[d.rem_euclid(7) as usize] != v[0] {
        return None;
    }
    Some((d * 86_400 + hms(v[4])?) * S)
}

/// RFC 3339
fn rfc3339(s: &str) -> Option<i64> {
    let (d, t) = s.split_once('T')?;
    let v: Vec<&str> = d.split('-').collect();
    if v.len() != 3 {
        return None;
    }
    let day = days(num(v[0], 4)?, num(v[1], 2)?, num(v[2], 2)?);
    let at = t.find(|c| matches!(c, 'Z' | '+' | '-'))?;
    let (clock, zone) = t.split_at(at);
    let off = if zone == "Z" {
        0
    } else {
        let (h, m) = zone[1..].split_once(':')?;
        let o = num(h, 2)? * 3600 + num(m, 2)? * 60;
        if zone.starts_with('-') {
            -o
        } else {
            o
        }
    };
    let (clock, frac) = clock.split_once('.').map_or((clock, ""), |x| x);
    if frac.len() > 9 || !frac.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let us: i64 = format!("{frac:0<9}").parse::<i64>().ok()? / 1000;
    Some((day * 86_400 + hms(clock)? - off) * S + us)
}

/// the times an answer tells
pub fn seen(op: &Op, r: &Resp) -> Result<Vec<Seen>, String> {
    let mut v = vec![];
    match op {
        Op::Get { b, k, .. } | Op::Head { b, k } => {
            v.push(Seen {
                what: format!("{b}/{k}"),
                text: r.header("last-modified").ok_or("answer without Last-Modified")?.to_owned(),
                http: true,
                len: if r.status == 200 { r.header("content-length").and_then(|x| x.parse().ok()) } else { None },
            });
        }
        Op::Copy { db, dk, .. } => {
            let e = xml::parse(&r.body)?;
            v.push(Seen {
                what: format!("{db}/{dk}"),
                text: e.t("LastModified").ok_or("copy answer without LastModified")?.to_owned(),
                http: false,
                len: None,
            });
        }
        Op::List { b, .. } => {
            let e = xml::parse(&r.body)?;
            for c in e.all("Contents") {
                let k = c.t("Key").unwrap_or("");
                let k = if e.t("EncodingType").is_some() { crate::exec::unescape(k).unwrap_or_default() } else { k.to_owned() };
                v.push(Seen {
                    what: format!("{b}/{k}"),
                    text: c.t("LastModified").ok_or("entry without LastModified")?.to_owned(),
                    http: false,
                    len: c.t("Size").and_then(|x| x.parse().ok()),
                });
            }
        }
        Op::ListBuckets => {
            let e = xml::parse(&r.body)?;
            if let Some(bs) = e.get("Buckets") {
                for b in bs.all("Bucket") {
                    v.push(Seen {
                        what: b.t("Name").unwrap_or("").to_owned(),
                        text: b.t("CreationDate").ok_or("bucket without CreationDate")?.to_owned(),
                        http: false,
                        len: None,
                    });
                }
            }
        }
        _ => {}
    }
    Ok(v)
}

/// may the request have changed anything
fn took(r: &Rec) -> bool {
    !matches!(r.eff, Eff::Reject) && !matches!(r.obs, Obs::Err(400..=499, _))
}

fn acked(r: &Rec) -> bool {
    !matches!(r.obs, Obs::Err(..) | Obs::None)
}

/// what a request stores: the name, the content if it is known
fn stores(op: &Op) -> Option<(String, Option<&Body>)> {
    match op {
        Op::Put { b, k, body, .. } | Op::Form { b, k, body, .. } => Some((format!("{b}/{k}"), Some(body))),
        Op::Copy { db, dk, .. } => Some((format!("{db}/{dk}"), None)),
        Op::Complete { b, k, .. } => Some((format!("{b}/{k}"), None)),
        Op::CreateBucket { b } => Some((b.clone(), None)),
        _ => None,
    }
}

fn removes(op: &Op, what: &str) -> bool {
    match op {
        Op::Delete { b, k } => format!("{b}/{k}") == what,
        Op::Batch { b, keys, .. } => keys.iter().any(|k| format!("{b}/{k}") == what),
        Op::DeleteBucket { b } => what == b || what.starts_with(&format!("{b}/")),
        _ => false,
    }
}

pub struct Clock<'a> {
    /// server clock right before and after each jump: (seq, unix us)
    pub jumps: &'a [(u64, i64)],
    pub tick_ns: u64,
    pub no_btime: bool,
}

pub fn check(recs: &[Rec], c: &Clock<'_>) -> Vec<(String, String)> {
    let mut bad = vec![];
    let tick = (c.tick_ns / 1000) as i64 + 1;
    // the range of the server's clock while a request ran
    let range = |r: &Rec| -> (i64, i64) {
        let mut lo = r.t0.min(r.t1);
        let mut hi = r.t0.max(r.t1);
        let open = r.obs == Obs::None;
        for (q, v) in c.jumps {
            if *q >= r.inv && (open || *q <= r.end) {
                lo = lo.min(*v);
                hi = hi.max(*v);
            }
        }
        (lo - tick, hi)
    };
    let mut by: BTreeMap<&str, Vec<(&Rec, &Seen, i64)>> = BTreeMap::new();
    for r in recs {
        for s in &r.times {
            let t = if s.http { http_date(&s.text) } else { rfc3339(&s.text) };
            match t {
                Some(t) => by.entry(&s.what).or_default().push((r, s, t)),
                None => bad.push(("time".into(), format!("{:?} is no time: answer to {}", s.text, r.show()))),
            }
        }
    }
    for (what, list) in by {
        let bucket = !what.contains('/');
        let writes: Vec<&Rec> = recs.iter().filter(|w| took(w) && stores(&w.op).map_or(false, |x| x.0 == what)).collect();
        let changes: Vec<&Rec> = recs.iter().filter(|w| took(w) && (stores(&w.op).map_or(false, |x| x.0 == what) || removes(&w.op, what))).collect();
        if writes.is_empty() || bucket && c.no_btime {
            continue;
        }
        for (r, s, t) in &list {
            let (a, b) = if s.http { (*t, *t + S - 1) } else { (*t, *t) };
            let own = matches!(r.op, Op::Copy { .. });
            let mut n = 0;
            let fits = writes.iter().any(|w| {
                if own != std::ptr::eq(*w, *r) && own {
                    return false;
                }
                if !own {
                    if w.inv > r.end || std::ptr::eq(*w, *r) {
                        return false;
                    }
                    if writes.iter().any(|x| acked(x) && x.inv > w.end && x.end < r.inv) {
                        return false;
                    }
                    if let (Some((_, Some(body))), Some(len)) = (stores(&w.op), s.len) {
                        if u64::from(body.len) != len {
                            return false;
                        }
                        if let (Op::Get { .. }, Obs::Object(o)) = (&r.op, &r.obs) {
                            if o.body.as_ref().map_or(false, |x| x[..] != body.bytes()[..]) {
                                return false;
                            }
                        }
                    }
                }
                n += 1;
                let (lo, hi) = range(w);
                // a version stored within the same tick as the previous one is dated a second later
                let hi = if bucket { hi } else { hi + S };
                b >= lo && a <= hi
            });
            // content nobody stored is for the model to report
            if !fits && n > 0 {
                bad.push((
                    "time".into(),
                    format!("{what} is dated {:?}, when none of the {n} requests ran that may have stored it: answer to {}", s.text, r.show()),
                ));
            }
        }
        for (i, (r, s, t)) in list.iter().enumerate() {
            for (r2, s2, t2) in &list[i + 1..] {
                let (x, y) = (r.inv.min(r2.inv), r.end.max(r2.end));
                if changes.iter().any(|w| !std::ptr::eq(*w, *r) && !std::ptr::eq(*w, *r2) && w.inv < y && w.end > x) {
                    continue;
                }
                // a copy tells the time of what it stores
                if matches!(r2.op, Op::Copy { .. }) && !std::ptr::eq(*r, *r2) {
                    continue;
                }
                if matches!(r.op, Op::Copy { .. }) && r.end > r2.inv {
                    continue;
                }
                let same = if s.http || s2.http { t.div_euclid(S) == t2.div_euclid(S) } else { t == t2 };
                if !same {
                    bad.push((
                        "time".into(),
                        format!("{what} is dated {:?} and {:?} though nothing was stored in between: answers to {} and {}", s.text, s2.text, r.show(), r2.show()),
                    ));
                }
            }
        }
    }
    bad.truncate(3);
    bad
}
