//! Exhaustive exploration of operation sequences on the real program, with the reference model
//! in lock-step. Depth-first with iterative deepening (so the first counterexample is a shortest
//! one), pruned only by exact state hashes, split over threads.
use crate::{
    env::{run, token_amount, Env, DAY},
    model::{Act, Exp, Model, Per, Sid},
    rt::{hash128, TxErr, World},
};
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone)]
pub struct Node {
    pub w: World,
    pub m: Model,
    pub probe: Vec<Result<u64, TxErr>>,
}
impl Node {
    pub fn key(&self) -> u128 {
        let mut b = [0u8; 24];
        b[..16].copy_from_slice(&self.w.hash().to_le_bytes());
        b[16..].copy_from_slice(&self.m.hash().to_le_bytes());
        hash128(&b, 3)
    }
}

/// What an oracle sees of one transition.
pub struct Cx<'a> {
    pub env: &'a Env,
    pub pre: &'a Node,
    pub act: &'a Act,
    pub exp: Exp,
    pub ok: bool,
    pub err: Option<TxErr>,
    pub ret: Option<Vec<u8>>,
    pub post: &'a Node,
}

pub type Oracle = fn(&Cx) -> Result<(), String>;

#[derive(Clone, Debug)]
pub enum Tm {
    /// exactly the start of the next day
    Midnight,
    Plus(u64),
    /// next expiry of a stake plus this many seconds
    Expiry(i64),
    /// from the start time, to each of so many days
    Day { start: u64, days: u64 },
}

/// Raw operations between users 0 and 1.
#[derive(Clone, Debug, Default)]
pub struct Lattice {
    pub dep: Vec<u64>,
    pub wd: Vec<u64>,
    pub chd: Vec<u64>,
    pub pen: Vec<u64>,
    /// slashes: native, weighted
    pub sl: (Vec<u64>, Vec<u64>),
    /// extensions: base, additional
    pub ext: (Vec<u64>, Vec<u64>),
    pub pers: Vec<Per>,
    pub fill: Vec<u64>,
    pub ends: Vec<u64>,
    /// extra dates for extensions and slashes
    pub dates: Vec<u64>,
}
impl Lattice {
    fn acts(&self, m: &Model, v: &mut Vec<Act>) {
        let dels = [0u8, 1];
        for a in &self.dep {
            for p in &self.pers {
                for d in dels {
                    v.push(Act::Dep(0, *a, *p, d));
                }
            }
        }
        for a in &self.wd {
            for d in dels {
                v.push(Act::WdRaw(0, *a, d));
            }
        }
        for a in &self.chd {
            v.push(Act::ChDRaw(0, 0, 1, *a));
            v.push(Act::ChDRaw(0, 1, 0, *a));
        }
        for a in &self.pen {
            v.push(Act::Pen(0, *a));
        }
        let mut dates: Vec<Option<u64>> = vec![None];
        dates.extend(m.u[0].w.sched.iter().map(|x| Some(x.0 + 5)));
        dates.extend(self.dates.iter().map(|d| Some(*d)));
        for n in &self.sl.0 {
            for w in &self.sl.1 {
                for d in &dates {
                    v.push(Act::SlRaw(0, *n, *w, *d));
                }
            }
        }
        let mut starts: Vec<u64> = m.stakes.iter().map(|s| s.start).chain([m.now]).chain(self.dates.iter().copied()).collect();
        starts.sort();
        starts.dedup();
        for b in &self.ext.0 {
            for a in &self.ext.1 {
                for p in &self.pers {
                    for d in dels {
                        v.push(Act::ExtRaw(0, 1, *p, 0, *b, *a, d));
                        for o in 2..=4 {
                            for s in &starts {
                                v.push(Act::ExtRaw(0, o, *p, *s, *b, *a, d));
                            }
                        }
                    }
                }
            }
        }
        for a in &self.fill {
            for e in &self.ends {
                v.push(Act::Fill(*a, *e));
            }
        }
    }
}

/// What may happen next in a scenario.
#[derive(Clone, Debug, Default)]
pub struct Alpha {
    /// (user, amount, period, delegate)
    pub dep: Vec<(u8, u64, Per, u8)>,
    pub max_stakes: usize,
    /// 1: withdraw everything, 2: also half
    pub wd: u8,
    /// (new period, additional)
    pub ext: Vec<(Per, u64)>,
    /// offer extension of expired stakes both ways the old period can be declared
    pub chd: Vec<u8>,
    /// 1: slash all, 2: half, 3: both
    pub slash: u8,
    /// also slash with exact midnight as date
    pub slash_dates: Vec<u64>,
    /// penalties: absolute, and fractions (1: all, 2: half, 3: third) of the current own weight
    pub pen: Vec<u64>,
    pub pen_frac: Vec<u64>,
    /// (amount, days from now to the end)
    pub fill: Vec<(u64, u64)>,
    pub dist: bool,
    pub claim: Vec<u8>,
    pub close: bool,
    pub time: Vec<Tm>,
    pub max_time: u64,
    /// lamports sent to minings (users, and 255 for the pool), tokens sent to the vault
    pub gift: Vec<(u8, u64)>,
    pub tip: Vec<u64>,
    /// the vault may be emptied into the fill source
    pub back: bool,
    /// slashes of flexible stakes carry a date too
    pub flex_dates: bool,
    /// raw operations over these amounts and dates
    pub lattice: Option<Lattice>,
    /// actions on single stakes only for these (and for stakes made since)
    pub only: Option<(Vec<Sid>, Sid)>,
    /// actions that must be refused
    pub bad: Vec<&'static str>,
    /// instead of all of the above: after the prefix one of the first list, then one of the second, ...
    pub stages: Vec<Vec<Act>>,
}

impl Alpha {
    /// what is offered `done` operations after the prefix
    pub fn acts(&self, n: &Node, done: usize) -> Vec<Act> {
        if !self.stages.is_empty() {
            let l = self.stages.get(done).cloned().unwrap_or_default();
            return l.into_iter().filter(|a| !matches!(a, Act::T(t) if *t <= n.m.now)).collect();
        }
        let m = &n.m;
        let mut v = vec![];
        if m.stakes.len() < self.max_stakes {
            for (u, a, p, d) in &self.dep {
                if m.u[*u as usize].live && m.u[*d as usize].live {
                    v.push(Act::Dep(*u, *a, *p, *d));
                }
            }
        }
        for s in &m.stakes {
            if self.only.as_ref().map_or(false, |o| s.id < o.1 && !o.0.contains(&s.id)) {
                continue;
            }
            let expired = m.now >= s.exp;
            if self.wd > 0 && (expired || s.per == Per::Flex) {
                v.push(Act::Wd(s.id, s.amt));
                if self.wd > 1 && s.amt > 1 {
                    v.push(Act::Wd(s.id, s.amt / 2));
                }
            }
            for (p, add) in &self.ext {
                if expired {
                    v.push(Act::Ext(s.id, true, *p, *add));
                    if s.per != Per::Flex {
                        v.push(Act::Ext(s.id, false, *p, *add));
                    }
                } else {
                    v.push(Act::Ext(s.id, s.per == Per::Flex, *p, *add));
                }
            }
            for d in &self.chd {
                if *d != s.del && m.u[*d as usize].live {
                    v.push(Act::ChD(s.id, *d));
                }
            }
            if self.slash > 0 {
                let mut am = vec![];
                if self.slash & 1 != 0 {
                    am.push(s.amt)
                }
                if self.slash & 2 != 0 && s.amt > 1 {
                    am.push(s.amt / 2)
                }
                for a in am {
                    if expired || s.per == Per::Flex {
                        v.push(Act::Sl(s.id, a, None));
                    }
                    if !expired && (s.per != Per::Flex || self.flex_dates) {
                        for d in &self.slash_dates {
                            v.push(Act::Sl(s.id, a, Some(*d)));
                        }
                    }
                }
            }
        }
        for (i, u) in m.u.iter().enumerate() {
            if u.live && u.w.now > 0 {
                let mut a: Vec<u64> = self.pen.iter().copied().filter(|x| *x <= u.w.now).collect();
                for f in &self.pen_frac {
                    a.push((u.w.now / f).max(1));
                }
                a.sort();
                a.dedup();
                for a in a {
                    v.push(Act::Pen(i as u8, a));
                }
            }
        }
        for (a, d) in &self.fill {
            let e = m.now + d * DAY;
            if e - e % DAY >= m.ends {
                v.push(Act::Fill(*a, e));
            } else {
                v.push(Act::Fill(*a, m.ends));
            }
        }
        if self.dist && m.pool.now > 0 {
            v.push(Act::Dist);
        }
        for u in &self.claim {
            if m.u[*u as usize].live {
                v.push(Act::Claim(*u));
            }
        }
        if self.close {
            for (i, u) in m.u.iter().enumerate() {
                if !u.live {
                    v.push(Act::Init(i as u8));
                } else if u.w.now == 0 {
                    v.push(Act::Close(i as u8));
                }
            }
        }
        for t in &self.time {
            let x = match t {
                Tm::Midnight => m.now - m.now % DAY + DAY,
                Tm::Plus(s) => m.now + s,
                Tm::Expiry(d) => match m.next_expiry() {
                    Some(e) => (e as i64 + d) as u64,
                    None => continue,
                },
                Tm::Day { start, days } => {
                    if m.stakes.is_empty() && m.now == *start {
                        v.extend((1..*days).map(|k| Act::T(m.now + k * DAY)));
                    }
                    continue;
                }
            };
            if x > m.now && x <= self.max_time && !v.contains(&Act::T(x)) {
                v.push(Act::T(x));
            }
        }
        for (u, n) in &self.gift {
            v.push(Act::Gift(*u, *n));
        }
        if self.back {
            v.push(Act::Back);
        }
        for n in &self.tip {
            v.push(Act::Tip(*n));
        }
        if let Some(l) = &self.lattice {
            l.acts(m, &mut v);
        }
        for b in &self.bad {
            self.bad_acts(b, m, &mut v);
        }
        v
    }
    fn bad_acts(&self, kind: &str, m: &Model, v: &mut Vec<Act>) {
        match kind {
            "slash" => {
                for (i, u) in m.u.iter().enumerate() {
                    let i = i as u8;
                    v.push(Act::SlRaw(i, 1, u.w.now + 1, None));
                    for (d, s) in &u.w.sched {
                        // drop larger than scheduled at that day
                        if u.w.now > *s {
                            v.push(Act::SlRaw(i, 0, s + 1, Some(*d + 77)));
                            // no entry on the next day
                            if !u.w.sched.iter().any(|x| x.0 == d + DAY) {
                                v.push(Act::SlRaw(i, 0, 1, Some(d + DAY)));
                            }
                            // weighted below native
                            v.push(Act::SlRaw(i, 2, 1, Some(*d)));
                        }
                    }
                    // dates without an entry: the ends of time, around now, and what others have
                    let today = m.now - m.now % DAY;
                    let mut dates = vec![0, 1, DAY - 1, DAY, today, m.now, m.now + DAY, today + 5 * DAY, u64::MAX - DAY, u64::MAX];
                    dates.extend(m.pool.sched.iter().map(|x| x.0));
                    for d in dates {
                        if u.w.now > 1 && !u.w.sched.iter().any(|x| x.0 == d - d % DAY) {
                            v.push(Act::SlRaw(i, 1, 2, Some(d)));
                        }
                    }
                }
            }
            "slash-expired" => {
                // a drop that is no longer pending cannot be lowered, whatever is still recorded
                for s in &m.stakes {
                    if m.now >= s.exp && s.per != Per::Flex {
                        for a in [s.amt, s.amt / 2] {
                            if a > 0 {
                                v.push(Act::SlRaw(s.owner, a, a.saturating_mul(s.per.mult()), Some(s.exp + 9)));
                                v.push(Act::SlRaw(s.owner, a, a + 1, Some(s.exp)));
                            }
                        }
                    }
                }
            }
            "pen" => {
                for (i, u) in m.u.iter().enumerate().filter(|(_, u)| u.live) {
                    v.push(Act::Pen(i as u8, u.w.now + 1));
                    v.push(Act::Pen(i as u8, u64::MAX));
                    v.push(Act::Pen(i as u8, 0));
                }
            }
            "none" => {
                for i in 0..m.u.len() {
                    v.push(Act::DepNone(i as u8, 1));
                    v.push(Act::DepNone(i as u8, 0));
                }
                for s in &m.stakes {
                    v.push(Act::ExtNone(s.id, 1));
                    v.push(Act::ExtNone(s.id, 0));
                    // the old period is none
                    v.push(Act::ExtRaw(s.owner, 0, s.per, s.start, s.amt, 0, s.del));
                    v.push(Act::ExtRaw(s.owner, 0, Per::Y1, 0, s.amt, 3, s.del));
                }
            }
            "wd" => {
                for (i, u) in m.u.iter().enumerate() {
                    v.push(Act::WdOver(i as u8, u.w.now + 1));
                }
            }
            "chd" => {
                for s in &m.stakes {
                    v.push(Act::ChDSame(s.id));
                    if s.del != s.owner {
                        let x = m.u[s.del as usize].sfo;
                        v.push(Act::ChDOver(s.owner, s.del, x + 1));
                    }
                    // a delegate to whom less has been delegated
                    for (i, u) in m.u.iter().enumerate() {
                        let i = i as u8;
                        if i != s.owner && u.live && u.sfo < s.amt {
                            let old = if m.now < s.exp { s.per.lp() } else { 1 };
                            v.push(Act::WdRaw(s.owner, s.amt, i));
                            v.push(Act::ExtRaw(s.owner, old, s.per, s.start, s.amt, 0, i));
                            v.extend((0..m.u.len() as u8).filter(|n| *n != i && m.u[*n as usize].live).map(|n| Act::ChDRaw(s.owner, i, n, s.amt)));
                        }
                    }
                }
            }
            "dist" => {
                if m.pool.now == 0 {
                    v.push(Act::Dist);
                }
            }
            "close" => {
                for (i, u) in m.u.iter().enumerate() {
                    if u.live && u.w.now == 0 {
                        v.push(Act::Close(i as u8));
                    }
                }
            }
            "init" => {
                for i in 0..m.u.len() {
                    v.push(Act::Init(i as u8));
                }
            }
            "fill" => {
                let d = m.now - m.now % DAY;
                // times between the starts of days, the current one and later
                for t in [d, d + 1, m.now.saturating_sub(1), m.now, d + DAY - 1, d + DAY, m.ends, m.ends.saturating_add(1), m.ends.saturating_add(DAY - 1), m.ends.saturating_add(DAY), d + 10_000 * DAY] {
                    v.push(Act::Fill(3, t));
                }
                for (a, t) in [
                    (0, m.ends.max(d)),
                    (5, d.wrapping_sub(1)),
                    (5, d.wrapping_sub(DAY)),
                    (5, 0),
                    (5, m.ends.wrapping_sub(1)),
                    (m.src.wrapping_add(1), m.ends.max(d)),
                ] {
                    v.push(Act::Fill(a, t));
                }
            }
            _ => {}
        }
        let mut seen = vec![];
        v.retain(|a| {
            let k = !seen.contains(a);
            if k {
                seen.push(a.clone());
            }
            k
        });
    }
}

#[derive(Clone)]
pub struct Scen {
    pub name: &'static str,
    pub users: usize,
    pub t0: u64,
    pub src: u64,
    /// one key is all of the pool's authorities, the payer and the first staker
    pub one_key: bool,
    /// the prefix is not judged (it is in other checks)
    pub lazy: bool,
    pub prefix: Vec<Act>,
    pub alpha: Alpha,
    pub quick: usize,
    pub thorough: usize,
}

pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub histories: u64,
    pub rejected: u64,
    pub diverged: u64,
    pub completed_depth: usize,
    pub samples: Vec<Vec<String>>,
}

pub struct Violation {
    pub scen: String,
    pub path: Vec<Act>,
    pub msg: String,
}

/// Performs one action. Returns the successor, or None if the branch ends here.
pub fn step(env: &Env, pre: &Node, act: &Act, oracle: Oracle, probe: bool) -> (Result<(), String>, Option<Node>, bool, bool) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step_(env, pre, act, oracle, probe))) {
        Ok(r) => r,
        // the account state is such that it cannot even be read or judged
        Err(p) => (Err(format!("after {act:?}: state cannot be judged: {}", crate::report::panic_text(p))), None, false, false),
    }
}
fn step_(env: &Env, pre: &Node, act: &Act, oracle: Oracle, probe: bool) -> (Result<(), String>, Option<Node>, bool, bool) {
    let mut m = pre.m.clone();
    let mut exp = m.step(act);
    // closing also requires that nothing is left to claim, which only the program knows exactly
    if let (Act::Close(u), Exp::Ok | Exp::May) = (act, exp) {
        let c = if pre.probe.is_empty() { env.claimable(&pre.w)[*u as usize].clone() } else { pre.probe[*u as usize].clone() };
        match c {
            Ok(0) => {}
            Ok(_) => {
                exp = Exp::Err;
                m = pre.m.clone();
            }
            Err(_) => exp = Exp::Any,
        }
    }
    // what its owner has taken out of the vault cannot be paid
    if let (Act::Claim(u), Exp::Ok, true) = (act, exp, m.emptied) {
        let c = if pre.probe.is_empty() { env.claimable(&pre.w)[*u as usize].clone() } else { pre.probe[*u as usize].clone() };
        if c.map_or(false, |n| n > token_amount(&pre.w, &env.p.vault)) {
            exp = Exp::Err;
            m = pre.m.clone();
        }
    }
    let (ok, err, ret, w) = match act {
        Act::T(t) => {
            let mut w = pre.w.clone();
            w.now = *t as i64;
            (true, None, None, w)
        }
        Act::Gift(u, n) => {
            let mut w = pre.w.clone();
            w.give(if *u == 255 { &env.p.pool } else { &env.users[*u as usize].mining }, *n);
            (true, None, None, w)
        }
        Act::Tip(n) => {
            let mut w = pre.w.clone();
            w.set_tokens(&env.p.vault, token_amount(&pre.w, &env.p.vault) + n);
            (true, None, None, w)
        }
        Act::Back => {
            let mut w = pre.w.clone();
            let n = token_amount(&w, &env.p.vault);
            let Some(src) = m.src.checked_add(n) else { return (Ok(()), None, false, false) };
            m.src = src;
            m.tips -= n as i128;
            m.emptied = true;
            w.set_tokens(&env.p.src, token_amount(&w, &env.p.src) + n);
            w.set_tokens(&env.p.vault, 0);
            (true, None, None, w)
        }
        _ => match act.ix(env, &pre.m) {
            None => return (Ok(()), None, false, false),
            Some(ix) => match run(&pre.w, &ix) {
                Ok((w, ret)) => (true, None, ret, w),
                Err(e) => (false, Some(e), None, pre.w.clone()),
            },
        },
    };
    let pr = if !probe {
        vec![]
    } else if ok {
        env.claimable(&w)
    } else {
        pre.probe.clone()
    };
    let post = Node { w, m: if ok { m } else { pre.m.clone() }, probe: pr };
    let cx = Cx { env, pre, act, exp, ok, err, ret, post: &post };
    let r = oracle(&cx);
    let follow = ok && matches!(exp, Exp::Ok | Exp::May);
    if follow && crate::cover::on() {
        crate::cover::note(env, pre, act);
    }
    let div = (ok && exp == Exp::Err) || (!ok && exp == Exp::Ok);
    (r, if follow { Some(post) } else { None }, !ok, div)
}

pub fn root(s: &Scen) -> (Env, Node) {
    let mut env = Env::keys("P", s.users, &[]);
    if s.one_key {
        env.one_key();
    }
    let w = env.start(s.t0, s.src);
    let m = Model::new(s.users, s.t0, s.src);
    let probe = env.claimable(&w);
    (env, Node { w, m, probe })
}

struct Shared {
    visited: Vec<Mutex<HashMap<u128, u8>>>,
    transitions: AtomicU64,
    histories: AtomicU64,
    rejected: AtomicU64,
    diverged: AtomicU64,
    stop: AtomicBool,
    viol: Mutex<Option<Violation>>,
    samples: Mutex<Vec<Vec<String>>>,
    deadline: Instant,
}

#[allow(clippy::too_many_arguments)]
fn dfs(sh: &Shared, s: &Scen, env: &Env, n: &Node, path: &mut Vec<Act>, left: usize, oracle: Oracle, probe: bool) {
    if sh.stop.load(Ordering::Relaxed) {
        return;
    }
    if left == 0 {
        let c = sh.histories.fetch_add(1, Ordering::Relaxed);
        if c % 4099 == 0 {
            let mut g = sh.samples.lock().unwrap();
            if g.len() < 5 {
                g.push(path.iter().map(|a| format!("{a:?}")).collect());
            }
        }
        return;
    }
    if Instant::now() > sh.deadline {
        sh.stop.store(true, Ordering::Relaxed);
        return;
    }
    let acts = s.alpha.acts(n, path.len() - s.prefix.len());
    for a in acts {
        if sh.stop.load(Ordering::Relaxed) {
            return;
        }
        sh.transitions.fetch_add(1, Ordering::Relaxed);
        let (r, next, rej, div) = step(env, n, &a, oracle, probe);
        path.push(a);
        if let Err(msg) = r {
            let mut g = sh.viol.lock().unwrap();
            if g.is_none() {
                *g = Some(Violation { scen: s.name.to_string(), path: path.clone(), msg });
            }
            sh.stop.store(true, Ordering::Relaxed);
            path.pop();
            return;
        }
        if rej {
            sh.rejected.fetch_add(1, Ordering::Relaxed);
        }
        if div {
            sh.diverged.fetch_add(1, Ordering::Relaxed);
        }
        if let Some(nx) = next {
            let k = nx.key();
            let first = {
                let mut g = sh.visited[(k as usize) & 255].lock().unwrap();
                let e = g.entry(k).or_insert(255);
                if *e != 255 && *e as usize >= left - 1 {
                    false
                } else {
                    *e = (left - 1) as u8;
                    true
                }
            };
            if first {
                dfs(sh, s, env, &nx, path, left - 1, oracle, probe);
            }
        }
        path.pop();
    }
}

/// replays a path; returns the node reached or the violation met
pub fn replay(s: &Scen, path: &[Act], oracle: Oracle, probe: bool) -> Result<(Env, Node), (usize, String)> {
    let (env, mut n) = root(s);
    if !probe {
        n.probe.clear();
    }
    let oracle = if s.lazy { |_: &Cx| Ok(()) } else { oracle };
    for (i, a) in path.iter().enumerate() {
        let (r, nx, _, _) = step(&env, &n, a, oracle, probe);
        if let Err(m) = r {
            return Err((i, m));
        }
        match nx {
            Some(x) => n = x,
            None => return Err((i, format!("__diverged at {a:?}"))),
        }
    }
    Ok((env, n))
}

pub fn explore(s: &Scen, depth: usize, oracle: Oracle, probe: bool, deadline: Instant, threads: usize) -> (Stats, Option<Violation>) {
    let mut st = Stats { states: 0, transitions: 0, histories: 0, rejected: 0, diverged: 0, completed_depth: 0, samples: vec![] };
    // the prefix itself is checked first
    let (env, base) = match replay(s, &s.prefix, oracle, probe) {
        Ok(x) => {
            st.transitions += s.prefix.len() as u64;
            x
        }
        Err((i, m)) if m.starts_with("__diverged") => {
            // the program does not follow the prefix history (a defect outside this property)
            st.diverged += 1;
            st.samples.push(vec![format!("prefix step {i}: {m}")]);
            return (st, None);
        }
        Err((i, m)) => return (st, Some(Violation { scen: s.name.into(), path: s.prefix[..=i].to_vec(), msg: m })),
    };
    let (env, base) = (&env, &base);
    let from = if s.alpha.stages.is_empty() { 1 } else { depth };
    for d in from..=depth {
        let sh = Shared {
            visited: (0..256).map(|_| Mutex::new(HashMap::new())).collect(),
            transitions: AtomicU64::new(0),
            histories: AtomicU64::new(0),
            rejected: AtomicU64::new(0),
            diverged: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            viol: Mutex::new(None),
            samples: Mutex::new(vec![]),
            deadline,
        };
        // split on the first action (and the second, when deep)
        let mut tasks: Vec<Vec<Act>> = vec![vec![]];
        if d <= 2 {
            tasks = s.alpha.acts(base, 0).into_iter().map(|a| vec![a]).collect();
        } else if d > 2 {
            for a in s.alpha.acts(base, 0) {
                let mut any = false;
                if let (_, Some(x), _, _) = step(env, base, &a, oracle, probe) {
                    for b in s.alpha.acts(&x, 1) {
                        any = true;
                        tasks.push(vec![a.clone(), b]);
                    }
                }
                if !any {
                    tasks.push(vec![a]);
                }
            }
            tasks.remove(0);
        }
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads.min(tasks.len()) {
                sc.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= tasks.len() || sh.stop.load(Ordering::Relaxed) {
                            return;
                        }
                        let mut path = s.prefix.clone();
                        let mut n = base.clone();
                        let mut left = d;
                        let mut alive = true;
                        for a in &tasks[i] {
                            let (r, nx, _, _) = step(env, &n, a, oracle, probe);
                            sh.transitions.fetch_add(1, Ordering::Relaxed);
                            path.push(a.clone());
                            left -= 1;
                            if let Err(msg) = r {
                                let mut g = sh.viol.lock().unwrap();
                                if g.is_none() {
                                    *g = Some(Violation { scen: s.name.into(), path: path.clone(), msg });
                                }
                                sh.stop.store(true, Ordering::Relaxed);
                                alive = false;
                                break;
                            }
                            match nx {
                                Some(x) => {
                                    let k = x.key();
                                    let mut g = sh.visited[(k as usize) & 255].lock().unwrap();
                                    let e = g.entry(k).or_insert(255);
                                    if *e == 255 {
                                        *e = 0;
                                    }
                                    n = x
                                }
                                None => {
                                    alive = false;
                                    break;
                                }
                            }
                        }
                        if alive {
                            dfs(&sh, s, env, &n, &mut path, left, oracle, probe);
                        }
                    }
                });
            }
        });
        st.transitions += sh.transitions.load(Ordering::Relaxed);
        st.rejected += sh.rejected.load(Ordering::Relaxed);
        st.diverged += sh.diverged.load(Ordering::Relaxed);
        let v = sh.viol.lock().unwrap().take();
        let stopped = sh.stop.load(Ordering::Relaxed);
        st.states = st.states.max(sh.visited.iter().map(|m| m.lock().unwrap().len() as u64).sum::<u64>());
        st.histories += sh.histories.load(Ordering::Relaxed);
        let sm = sh.samples.into_inner().unwrap();
        if !sm.is_empty() {
            st.samples = sm;
        }
        if v.is_some() {
            return (st, v);
        }
        if stopped {
            break;
        }
        st.completed_depth = d;
        if Instant::now() + Duration::from_millis(1) > deadline {
            break;
        }
    }
    (st, None)
}
