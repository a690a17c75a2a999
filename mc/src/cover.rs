//! Which situations the explored histories reach: for every accepted, predicted transition the values of
//! features of its state and arguments, and all pairs of them. Written to the file named by MC_COVER;
//! it shows where scenarios are blind, and decides nothing.
use crate::{
    env::{self, Env, DAY},
    explore::Node,
    model::{Act, Per},
};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const KINDS: [&str; 11] = ["dep", "wd", "ext", "chd", "slash", "pen", "fill", "dist", "claim", "close", "init"];
const F: &[(&str, &[&str])] = &[
    ("time", &["midnight", "first second", "during", "last second"]),
    ("distributed today", &["no", "yes"]),
    ("distributions so far", &["0", "1", "2-9", "10-99", "100+"]),
    ("days since distribution", &["none", "0", "1", "2-30", "31-364", "365+"]),
    ("days to end", &["past", "today", "1", "2-9", "10-99", "100+"]),
    ("undistributed", &["0", "<days", "<1000", "<2^32", "more"]),
    ("pool due", &["0", "1", "2+"]),
    ("pool days", &["0", "1", "2-9", "10-49", "50+"]),
    ("pool weight", &["0", "<1000", "<2^32", "more"]),
    ("own", &["0", "<1000", "<2^32", "more"]),
    ("received", &["0", "<1000", "<2^32", "more"]),
    ("due", &["0", "1", "2+"]),
    ("days", &["0", "1", "2-9", "10-49", "50"]),
    ("unclaimed", &["0", ">0"]),
    ("unsettled distributions", &["0", "1", "2-9", "10+"]),
    ("delegates to others", &["no", "yes"]),
    ("penalised", &["no", "yes"]),
    ("amount", &["0", "1", "<1000", "<2^32", "more"]),
    ("period", &["flex", "3m", "6m", "1y"]),
    ("delegate", &["none", "other"]),
    ("delegate own", &["0", ">0"]),
    ("delegate received", &["0", ">0"]),
    ("delegate due", &["0", "1", "2+"]),
    ("delegate unsettled", &["0", "1", "2+"]),
    ("delegate unclaimed", &["0", ">0"]),
    ("stake", &["pending", "expired today", "expired", "flexible pending", "flexible expired"]),
    ("stake age", &["same day", "1 day", "more"]),
    ("part", &["nothing", "part", "all"]),
    ("same day entry", &["no", "yes"]),
    ("old delegate", &["none", "other"]),
    ("old delegate due", &["0", "1+"]),
    ("old delegate unsettled", &["0", "1+"]),
    ("claimable", &["0", "1", "more"]),
    ("additional", &["0", "<1000", "more"]),
    ("others", &["0", "1", "2+"]),
    ("date given", &["no", "yes"]),
];
const W: usize = 6;
const N: usize = 36 * W;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU64 = AtomicU64::new(0);
static BITS: [AtomicU64; 11 * N * N / 64 + 1] = [ZERO; 11 * N * N / 64 + 1];

pub fn on() -> bool {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ON.get_or_init(|| std::env::var("MC_COVER").is_ok())
}
fn cls(v: u64, b: &[u64]) -> usize {
    b.iter().position(|x| v <= *x).unwrap_or(b.len())
}
const BIG: u64 = 1 << 32;

struct Feats(Vec<usize>);
impl Feats {
    fn set(&mut self, n: &str, v: usize) {
        let f = F.iter().position(|x| x.0 == n).unwrap();
        assert!(v < F[f].1.len(), "{n} {v}");
        self.0.push(f * W + v);
    }
}

pub fn note(e: &Env, pre: &Node, act: &Act) {
    let (m, now) = (&pre.m, pre.m.now);
    let today = now - now % DAY;
    let st = |id: &u16| m.stakes.iter().find(|s| s.id == *id).unwrap();
    let (kind, user) = match act {
        Act::Dep(u, ..) => (0, Some(*u)),
        Act::Wd(s, _) => (1, Some(st(s).owner)),
        Act::Ext(s, ..) => (2, Some(st(s).owner)),
        Act::ChD(s, _) => (3, Some(st(s).owner)),
        Act::Sl(s, ..) => (4, Some(st(s).owner)),
        Act::Pen(u, _) => (5, Some(*u)),
        Act::Fill(..) => (6, None),
        Act::Dist => (7, None),
        Act::Claim(u) => (8, Some(*u)),
        Act::Close(u) => (9, Some(*u)),
        Act::Init(u) => (10, Some(*u)),
        _ => return,
    };
    let mut f = Feats(vec![]);
    let tod = now % DAY;
    f.set("time", if tod == 0 { 0 } else if tod == 1 { 1 } else if tod == DAY - 1 { 3 } else { 2 });
    let hist = env::read_hist(&pre.w, &e.p.pool);
    f.set("distributed today", (m.last_dist == Some(today)) as usize);
    f.set("distributions so far", cls(hist.len() as u64, &[0, 1, 9, 99]));
    f.set("days since distribution", m.last_dist.map_or(0, |d| 1 + cls((today - d) / DAY, &[0, 1, 30, 364])));
    let days = m.ends.saturating_sub(now) / DAY;
    f.set("days to end", if m.ends < today { 0 } else { 1 + cls(days, &[0, 1, 9, 99]) });
    f.set("undistributed", if m.avail == 0 { 0 } else if m.avail < days { 1 } else { 2 + cls(m.avail, &[999, BIG - 1]) });
    let pt = env::pool_tree(pre.w.get(&e.p.pool).unwrap().bytes());
    f.set("pool due", cls(pt.iter().filter(|x| x.0 <= today).count() as u64, &[0, 1]));
    f.set("pool days", cls(pt.len() as u64, &[0, 1, 9, 49]));
    f.set("pool weight", cls(m.pool.now, &[0, 999, BIG - 1]));
    f.set("others", cls(m.u.iter().filter(|u| u.live && (u.w.now > 0 || u.sfo > 0)).count() as u64, &[0, 1]));
    let mining = |u: u8| {
        let b = pre.w.get(&e.users[u as usize].mining)?.bytes();
        if b.len() != env::MINING_LEN {
            return None;
        }
        let h = env::mining_head(b);
        let t = env::mining_tree(b);
        let due = t.iter().filter(|x| x.0 <= today).count() as u64;
        let uns = hist.iter().filter(|x| x.1 > h.index).count() as u64;
        Some((h, t, due, uns))
    };
    if let Some((h, t, due, uns)) = user.and_then(mining) {
        let u = user.unwrap() as usize;
        f.set("own", cls(m.u[u].w.now, &[0, 999, BIG - 1]));
        f.set("received", cls(h.sfo, &[0, 999, BIG - 1]));
        f.set("due", cls(due, &[0, 1]));
        f.set("days", cls(t.len() as u64, &[0, 1, 9, 49]));
        f.set("unclaimed", (h.unclaimed > 0) as usize);
        f.set("unsettled distributions", cls(uns, &[0, 1, 9]));
        f.set("delegates to others", m.stakes.iter().any(|s| s.owner as usize == u && s.del as usize != u) as usize);
        f.set("penalised", m.u[u].penalised as usize);
        if let Some(Ok(c)) = pre.probe.get(u) {
            f.set("claimable", cls(*c, &[0, 1]));
        }
        let (amt, per, del, old) = match act {
            Act::Dep(_, a, p, d) => (Some(*a), Some(*p), Some(*d), None),
            Act::Wd(s, a) => (Some(*a), Some(st(s).per), Some(st(s).del), None),
            Act::Ext(s, _, p, add) => {
                f.set("additional", cls(*add, &[0, 999]));
                (Some(st(s).amt), Some(*p), Some(st(s).del), None)
            }
            Act::ChD(s, d) => (Some(st(s).amt), Some(st(s).per), Some(*d), Some(st(s).del)),
            Act::Sl(s, a, d) => {
                f.set("date given", d.is_some() as usize);
                (Some(*a), Some(st(s).per), None, None)
            }
            Act::Pen(_, n) => {
                f.set("part", if *n == 0 { 0 } else if *n < m.u[u].w.now { 1 } else { 2 });
                (Some(*n), None, None, None)
            }
            _ => (None, None, None, None),
        };
        if let Some(a) = amt {
            f.set("amount", cls(a, &[0, 1, 999, BIG - 1]));
        }
        if let Some(p) = per {
            f.set("period", p as usize);
            if matches!(act, Act::Dep(..)) {
                f.set("same day entry", t.iter().any(|x| x.0 == today + p.days() * DAY) as usize);
            }
        }
        if let Some(d) = del {
            f.set("delegate", (d as usize != u) as usize);
            if d as usize != u {
                if let Some((h, _, due, uns)) = mining(d) {
                    f.set("delegate own", (m.u[d as usize].w.now > 0) as usize);
                    f.set("delegate received", (h.sfo > 0) as usize);
                    f.set("delegate due", cls(due, &[0, 1]));
                    f.set("delegate unsettled", cls(uns, &[0, 1]));
                    f.set("delegate unclaimed", (h.unclaimed > 0) as usize);
                }
            }
        }
        if let Some(d) = old {
            f.set("old delegate", (d as usize != u) as usize);
            if d as usize != u {
                if let Some((_, _, due, uns)) = mining(d) {
                    f.set("old delegate due", (due > 0) as usize);
                    f.set("old delegate unsettled", (uns > 0) as usize);
                }
            }
        }
        if let Act::Wd(s, _) | Act::Ext(s, ..) | Act::ChD(s, _) | Act::Sl(s, ..) = act {
            let s = st(s);
            f.set("stake", match (s.per == Per::Flex, s.exp > now) {
                (true, true) => 3,
                (true, false) => 4,
                (false, true) => 0,
                (false, false) => if s.exp == today { 1 } else { 2 },
            });
            f.set("stake age", cls((today - (s.start - s.start % DAY)) / DAY, &[0, 1]));
            if let Act::Wd(_, a) | Act::Sl(_, a, _) = act {
                f.set("part", if *a == 0 { 0 } else if *a < s.amt { 1 } else { 2 });
            }
        }
    }
    for a in &f.0 {
        for b in &f.0 {
            let i = (kind * N + a) * N + b;
            BITS[i / 64].fetch_or(1 << (i % 64), Relaxed);
        }
    }
}

pub fn dump() {
    let Ok(p) = std::env::var("MC_COVER") else { return };
    let bit = |i: usize| BITS[i / 64].load(Relaxed) >> (i % 64) & 1 == 1;
    let mut s = String::new();
    for k in 0..11 {
        for (fa, (na, va)) in F.iter().enumerate() {
            for (x, vx) in va.iter().enumerate() {
                for (fb, (nb, vb)) in F.iter().enumerate().skip(fa) {
                    for (y, vy) in vb.iter().enumerate() {
                        if bit((k * N + fa * W + x) * N + fb * W + y) {
                            s += &format!("{}|{na}={vx}|{nb}={vy}\n", KINDS[k]);
                        }
                    }
                }
            }
        }
    }
    let _ = std::fs::write(p, s);
}
