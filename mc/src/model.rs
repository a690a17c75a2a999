//! Reference model: what a correct staking program has staked, and what the properties say the
//! weights, schedules and entitlements must be. Deliberately naive; shares no code with the program.
use crate::env::{Env, DAY};
use solana_program::instruction::Instruction;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Per {
    Flex,
    M3,
    M6,
    Y1,
}
pub const PERS: [Per; 4] = [Per::Flex, Per::M3, Per::M6, Per::Y1];
impl Per {
    pub fn mult(self) -> u64 {
        match self {
            Per::Flex => 1,
            Per::M3 => 2,
            Per::M6 => 4,
            Per::Y1 => 6,
        }
    }
    pub fn days(self) -> u64 {
        match self {
            Per::Flex => 5,
            Per::M3 => 90,
            Per::M6 => 180,
            Per::Y1 => 365,
        }
    }
    /// wire encoding (0 is the invalid "none")
    pub fn lp(self) -> u8 {
        match self {
            Per::Flex => 1,
            Per::M3 => 2,
            Per::M6 => 3,
            Per::Y1 => 4,
        }
    }
}

pub type Sid = u16;

#[derive(Clone, Hash, Debug, PartialEq, Eq)]
pub struct Stake {
    pub id: Sid,
    pub owner: u8,
    pub amt: u64,
    pub per: Per,
    pub start: u64,
    pub exp: u64,
    pub del: u8,
}

/// weight now, and the drops scheduled at the start of later days
#[derive(Clone, Hash, Debug, PartialEq, Eq, Default)]
pub struct Weights {
    pub now: u64,
    pub sched: Vec<(u64, u64)>,
    /// later days for which the program keeps an entry, even if nothing drops then
    pub kept: Vec<u64>,
}
impl Weights {
    /// Is there room for an entry at that day? None: certainly not; false: perhaps not.
    fn room(&mut self, at: u64, cap: usize) -> Option<bool> {
        match self.kept.binary_search(&at) {
            Ok(_) => Some(true),
            Err(i) => {
                let full = self.kept.len() >= cap;
                if full && self.sched.len() >= cap {
                    return None;
                }
                self.kept.insert(i, at);
                Some(!full)
            }
        }
    }
    fn add(&mut self, w: u64, at: u64, drop: u64) -> Option<()> {
        self.now = self.now.checked_add(w)?;
        if drop > 0 {
            match self.sched.binary_search_by_key(&at, |x| x.0) {
                Ok(i) => self.sched[i].1 = self.sched[i].1.checked_add(drop)?,
                Err(i) => self.sched.insert(i, (at, drop)),
            }
        }
        Some(())
    }
    fn sub(&mut self, w: u64, at: u64, drop: u64) -> Option<()> {
        self.now = self.now.checked_sub(w)?;
        if drop > 0 {
            let i = self.sched.binary_search_by_key(&at, |x| x.0).ok()?;
            self.sched[i].1 = self.sched[i].1.checked_sub(drop)?;
            if self.sched[i].1 == 0 {
                self.sched.remove(i);
            }
        }
        Some(())
    }
    /// applies drops due by `today`; returns how many
    fn due(&mut self, today: u64) -> Option<u32> {
        let mut n = 0;
        while self.kept.first().map_or(false, |x| *x <= today) {
            self.kept.remove(0);
        }
        while self.sched.first().map_or(false, |x| x.0 <= today) {
            let (_, v) = self.sched.remove(0);
            self.now = self.now.checked_sub(v)?;
            n += 1;
        }
        Some(n)
    }
}

#[derive(Clone, Hash, Debug)]
pub struct UserM {
    pub live: bool,
    pub w: Weights,
    pub sfo: u64,
    /// exact entitlement so far, bounded above and below, in 2^-32 token units
    pub hi: u128,
    pub lo: u128,
    /// truncation of the index: sum of weights over distributions, in 1e-16 token units
    pub loss: u128,
    /// accrual steps so far (each may round down by less than one unit)
    pub steps: u32,
    pub penalised: bool,
}

#[derive(Clone, Hash, Debug)]
pub struct Model {
    pub now: u64,
    pub stakes: Vec<Stake>,
    pub next_id: Sid,
    pub u: Vec<UserM>,
    pub pool: Weights,
    pub avail: u64,
    pub ends: u64,
    pub filled: u128,
    pub distributed: u128,
    /// tokens that came to the vault (or left it) in other ways
    pub tips: i128,
    /// tokens were taken out of the vault by its owner
    pub emptied: bool,
    pub src: u64,
    pub last_dist: Option<u64>,
    pub n_dist: u32,
    pub penalised: bool,
    /// the last prediction: the program may also refuse
    may: bool,
}

pub const MINING_CAP: usize = 50;
pub const POOL_CAP: usize = 365;
pub const HISTORY_CAP: u32 = 1095;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    /// (user, amount, period, delegate)
    Dep(u8, u64, Per, u8),
    DepNone(u8, u64),
    /// (stake id, amount)
    Wd(Sid, u64),
    /// withdraw more than the staker has
    WdOver(u8, u64),
    /// (stake id, declare the old period as flexible, new period, additional)
    Ext(Sid, bool, Per, u64),
    ExtNone(Sid, u64),
    ChD(Sid, u8),
    ChDSame(Sid),
    /// change the delegation of more than is delegated
    ChDOver(u8, u8, u64),
    /// (stake id, native amount, second of the expiry day; None: no date given)
    Sl(Sid, u64, Option<u64>),
    /// (user, native, weighted, date): raw slash
    SlRaw(u8, u64, u64, Option<u64>),
    /// (user, amount, delegate), regardless of stakes
    WdRaw(u8, u64, u8),
    /// (user, old period on the wire, new period, start, base, additional, delegate), regardless of stakes
    ExtRaw(u8, u8, Per, u64, u64, u64, u8),
    /// (user, old, new, amount), regardless of stakes
    ChDRaw(u8, u8, u8, u64),
    Pen(u8, u64),
    Fill(u64, u64),
    Dist,
    Claim(u8),
    Close(u8),
    Init(u8),
    T(u64),
    /// somebody sends lamports to a staker's mining, or to the pool (255)
    Gift(u8, u64),
    /// somebody sends tokens to the vault
    Tip(u64),
    /// the owner of the vault, who is the deposit authority, returns all of it to the fill authority
    Back,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exp {
    Ok,
    Err,
    /// may be refused; if accepted, with exactly the predicted effect
    May,
    /// outside the statement of the properties: not predicted, not followed
    Any,
}

impl Act {
    /// users whose mining the action brings up to date
    pub fn touches(&self, m: &Model) -> Vec<u8> {
        let st = |id: &Sid| m.stake(*id).map(|s| (s.owner, s.del)).unwrap_or((0, 0));
        let mut v = match self {
            Act::Dep(u, _, _, d) => vec![*u, *d],
            Act::Wd(s, _) | Act::Ext(s, ..) => vec![st(s).0, st(s).1],
            Act::ChD(s, n) => vec![st(s).0, st(s).1, *n],
            Act::Sl(s, ..) => vec![st(s).0],
            Act::WdRaw(u, _, d) | Act::ExtRaw(u, .., d) => vec![*u, *d],
            Act::ChDRaw(u, o, n, _) => vec![*u, *o, *n],
            Act::SlRaw(u, ..) | Act::Pen(u, _) | Act::Claim(u) | Act::Close(u) | Act::Init(u) => vec![*u],
            _ => vec![],
        };
        v.sort();
        v.dedup();
        v
    }
    pub fn ix(&self, e: &Env, m: &Model) -> Option<Instruction> {
        Some(match self {
            Act::Dep(u, a, p, d) => e.deposit(*u as usize, *a, p.lp(), *d as usize),
            Act::DepNone(u, a) => e.deposit(*u as usize, *a, 0, *u as usize),
            Act::Wd(s, a) => {
                let s = m.stake(*s)?;
                e.withdraw(s.owner as usize, *a, s.del as usize)
            }
            Act::WdOver(u, a) => e.withdraw(*u as usize, *a, *u as usize),
            Act::Ext(s, flex, p, add) => {
                let s = m.stake(*s)?;
                e.extend(s.owner as usize, if *flex { 1 } else { s.per.lp() }, p.lp(), s.start, s.amt, *add, s.del as usize)
            }
            Act::ExtNone(s, add) => {
                let s = m.stake(*s)?;
                e.extend(s.owner as usize, s.per.lp(), 0, s.start, s.amt, *add, s.del as usize)
            }
            Act::ChD(s, n) => {
                let s = m.stake(*s)?;
                e.change_delegate(s.owner as usize, s.del as usize, *n as usize, s.amt)
            }
            Act::ChDSame(s) => {
                let s = m.stake(*s)?;
                e.change_delegate(s.owner as usize, s.del as usize, s.del as usize, s.amt)
            }
            Act::ChDOver(u, d, a) => e.change_delegate(*u as usize, *d as usize, *u as usize, *a),
            Act::Sl(s, n, d) => {
                let s = m.stake(*s)?;
                let w = if m.now < s.exp { n.checked_mul(s.per.mult())? } else { *n };
                e.slash(s.owner as usize, *n, w, d.map(|d| s.exp + d))
            }
            Act::WdRaw(u, a, d) => e.withdraw(*u as usize, *a, *d as usize),
            Act::ExtRaw(u, o, n, st, b, a, d) => e.extend(*u as usize, *o, n.lp(), *st, *b, *a, *d as usize),
            Act::ChDRaw(u, o, n, a) => e.change_delegate(*u as usize, *o as usize, *n as usize, *a),
            Act::SlRaw(u, n, w, d) => e.slash(*u as usize, *n, *w, *d),
            Act::Pen(u, n) => e.decrease(*u as usize, *n),
            Act::Fill(a, t) => e.fill(*a, *t),
            Act::Dist => e.distribute(),
            Act::Claim(u) => e.claim(*u as usize),
            Act::Close(u) => e.close(*u as usize),
            Act::Init(u) => e.init_mining(*u as usize),
            Act::T(_) | Act::Gift(..) | Act::Tip(_) | Act::Back => return None,
        })
    }
}

fn day(t: u64) -> u64 {
    t - t % DAY
}

impl Model {
    pub fn new(users: usize, now: u64, src: u64) -> Model {
        Model {
            now,
            stakes: vec![],
            next_id: 0,
            u: (0..users)
                .map(|_| UserM { live: true, w: Weights::default(), sfo: 0, hi: 0, lo: 0, loss: 0, steps: 0, penalised: false })
                .collect(),
            pool: Weights::default(),
            avail: 0,
            ends: 0,
            filled: 0,
            distributed: 0,
            tips: 0,
            emptied: false,
            src,
            last_dist: None,
            n_dist: 0,
            penalised: false,
            may: false,
        }
    }
    pub fn stake(&self, id: Sid) -> Option<&Stake> {
        self.stakes.iter().find(|s| s.id == id)
    }
    pub fn hash(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        Hash::hash(self, &mut h);
        h.finish()
    }
    pub fn next_expiry(&self) -> Option<u64> {
        self.stakes.iter().filter(|s| s.exp > self.now).map(|s| s.exp).min()
    }
    fn dep(&mut self, u: usize, amt: u64, per: Per, del: usize) -> Option<()> {
        let w = amt.checked_mul(per.mult())?;
        let exp = day(self.now) + per.days() * DAY;
        let a = self.u[u].w.room(exp, MINING_CAP)?;
        let b = self.pool.room(exp, POOL_CAP)?;
        self.may |= !a || !b;
        self.u[u].w.add(w, exp, w - amt)?;
        self.pool.add(w, exp, w - amt)?;
        if del != u {
            self.u[del].sfo = self.u[del].sfo.checked_add(amt)?;
            self.pool.add(amt, 0, 0)?;
        }
        Some(())
    }
    fn undelegate(&mut self, u: usize, del: usize, amt: u64) -> Option<()> {
        if del != u {
            self.u[del].sfo = self.u[del].sfo.checked_sub(amt)?;
            self.pool.sub(amt, 0, 0)?;
        }
        Some(())
    }
    /// Effect of a successful action; None: the properties say it must fail.
    fn effect(&mut self, a: &Act) -> Option<()> {
        match a {
            Act::Dep(u, amt, per, del) => {
                let (u, del) = (*u as usize, *del as usize);
                if !self.u[u].live || !self.u[del].live {
                    return None;
                }
                self.dep(u, *amt, *per, del)?;
                let exp = day(self.now) + per.days() * DAY;
                let id = self.next_id;
                self.next_id += 1;
                self.stakes.push(Stake { id, owner: u as u8, amt: *amt, per: *per, start: self.now, exp, del: del as u8 });
            }
            Act::DepNone(..) | Act::ExtNone(..) | Act::ChDSame(_) | Act::WdOver(..) | Act::ChDOver(..) => return None,
            Act::Wd(s, amt) => {
                let s = self.stake(*s)?.clone();
                let u = s.owner as usize;
                self.u[u].w.sub(*amt, 0, 0)?;
                self.pool.sub(*amt, 0, 0)?;
                self.undelegate(u, s.del as usize, *amt)?;
                self.reduce(s.id, *amt)?;
            }
            Act::Ext(id, flex, per, add) => {
                let s = self.stake(*id)?.clone();
                let u = s.owner as usize;
                let (w, drop) = if self.now < s.exp && !*flex { (s.amt.checked_mul(s.per.mult())?, s.amt.checked_mul(s.per.mult() - 1)?) } else { (s.amt, 0) };
                self.u[u].w.sub(w, s.exp, drop)?;
                self.pool.sub(w, s.exp, drop)?;
                self.undelegate(u, s.del as usize, s.amt)?;
                let n = s.amt.checked_add(*add)?;
                self.dep(u, n, *per, s.del as usize)?;
                let now = self.now;
                let t = self.stakes.iter_mut().find(|x| x.id == *id)?;
                t.amt = n;
                t.per = *per;
                t.start = now;
                t.exp = day(now) + per.days() * DAY;
            }
            Act::WdRaw(u, amt, d) => {
                let u = *u as usize;
                self.u[u].w.sub(*amt, 0, 0)?;
                self.pool.sub(*amt, 0, 0)?;
                self.undelegate(u, *d as usize, *amt)?;
            }
            Act::ExtRaw(u, old, per, start, base, add, d) => {
                let (u, d) = (*u as usize, *d as usize);
                let days = match old {
                    1 => None,
                    2 => Some((90, 2)),
                    3 => Some((180, 4)),
                    4 => Some((365, 6)),
                    _ => return None,
                };
                let mut w = *base;
                let mut at = 0;
                let mut drop = 0;
                if let Some((n, m)) = days {
                    let exp = day(*start).checked_add(n * DAY)?;
                    if self.now < exp {
                        w = base.checked_mul(m)?;
                        drop = w - base;
                        at = exp;
                    }
                }
                self.u[u].w.sub(w, at, drop)?;
                self.pool.sub(w, at, drop)?;
                self.undelegate(u, d, *base)?;
                self.dep(u, base.checked_add(*add)?, *per, d)?;
            }
            Act::ChDRaw(u, o, n, amt) => {
                let u = *u as usize;
                if o == n {
                    return None;
                }
                self.undelegate(u, *o as usize, *amt)?;
                if *n as usize != u {
                    self.u[*n as usize].sfo = self.u[*n as usize].sfo.checked_add(*amt)?;
                    self.pool.add(*amt, 0, 0)?;
                }
            }
            Act::ChD(id, new) => {
                let s = self.stake(*id)?.clone();
                let u = s.owner as usize;
                if s.del == *new || !self.u[*new as usize].live {
                    return None;
                }
                self.undelegate(u, s.del as usize, s.amt)?;
                if *new as usize != u {
                    self.u[*new as usize].sfo = self.u[*new as usize].sfo.checked_add(s.amt)?;
                    self.pool.add(s.amt, 0, 0)?;
                }
                self.stakes.iter_mut().find(|x| x.id == *id)?.del = *new;
            }
            Act::Sl(id, native, date) => {
                let s = self.stake(*id)?.clone();
                let live = self.now < s.exp;
                let w = if live { native.checked_mul(s.per.mult())? } else { *native };
                let drop = if date.is_some() { w.checked_sub(*native)? } else { 0 };
                let u = s.owner as usize;
                self.u[u].w.sub(w, s.exp, drop)?;
                self.pool.sub(w, s.exp, drop)?;
                self.reduce(*id, *native)?;
            }
            Act::SlRaw(u, native, weighted, date) => {
                let u = *u as usize;
                let drop = weighted.checked_sub(*native);
                let drop = if date.is_some() { drop? } else { 0 };
                let d = date.map(day).unwrap_or(0);
                self.u[u].w.sub(*weighted, d, drop)?;
                self.pool.sub(*weighted, d, drop)?;
            }
            Act::Pen(u, n) => {
                let u = *u as usize;
                if *n == 0 {
                    return Some(());
                }
                let w = &mut self.u[u].w;
                w.now = w.now.checked_sub(*n)?;
                let mut left = *n;
                while left > 0 {
                    let Some(last) = w.sched.last_mut() else { break };
                    let x = left.min(last.1);
                    last.1 -= x;
                    left -= x;
                    if last.1 == 0 {
                        w.sched.pop();
                    }
                }
                self.u[u].penalised = true;
                self.penalised = true;
            }
            Act::Fill(amt, ends) => {
                let d = day(*ends);
                if *amt == 0 || d < day(self.now) || d < self.ends || *amt > self.src {
                    return None;
                }
                self.avail = self.avail.checked_add(*amt)?;
                self.filled += *amt as u128;
                self.src -= amt;
                self.ends = d;
            }
            Act::Dist => {
                if self.pool.now == 0 {
                    return None;
                }
                if self.last_dist != Some(day(self.now)) {
                    let left = self.ends.saturating_sub(self.now) / DAY;
                    let a = if left == 0 { self.avail } else { self.avail / left };
                    let t = self.pool.now as u128;
                    if self.n_dist >= HISTORY_CAP {
                        return None;
                    }
                    for u in &mut self.u {
                        let w = u.w.now as u128 + u.sfo as u128;
                        if !u.live || w == 0 {
                            continue;
                        }
                        let x = (a as u128).checked_mul(w)?;
                        let x = ((x / t) << 32) + (((x % t) << 32) / t);
                        u.hi += x + 1;
                        u.lo += x;
                        u.loss += w;
                    }
                    self.avail -= a;
                    self.distributed += a as u128;
                    self.last_dist = Some(day(self.now));
                    self.n_dist += 1;
                }
            }
            Act::Claim(u) => {
                if !self.u[*u as usize].live {
                    return None;
                }
            }
            Act::Close(u) => {
                let m = &mut self.u[*u as usize];
                if !m.live || m.sfo != 0 {
                    return None;
                }
                m.live = false;
                m.w = Weights::default();
            }
            Act::Init(u) => {
                let m = &mut self.u[*u as usize];
                if m.live {
                    return None;
                }
                m.live = true;
            }
            Act::T(t) => {
                self.now = *t;
            }
            Act::Gift(..) => {}
            Act::Tip(n) => self.tips += *n as i128,
            // the explorer knows what is in the vault
            Act::Back => {}
        }
        Some(())
    }
    fn reduce(&mut self, id: Sid, amt: u64) -> Option<()> {
        let i = self.stakes.iter().position(|x| x.id == id)?;
        self.stakes[i].amt = self.stakes[i].amt.checked_sub(amt)?;
        if self.stakes[i].amt == 0 {
            self.stakes.remove(i);
        }
        Some(())
    }
    /// Predicts and applies. On Exp::Err the model is unchanged.
    pub fn step(&mut self, a: &Act) -> Exp {
        let mut n = self.clone();
        if n.effect(a).is_none() {
            return Exp::Err;
        }
        let today = day(n.now);
        for u in &mut n.u {
            match u.w.due(today) {
                Some(k) => u.steps += k,
                None => return Exp::Any,
            }
        }
        if n.pool.due(today).is_none() {
            return Exp::Any;
        }
        for u in a.touches(self) {
            n.u[u as usize].steps += 1;
        }
        let may = n.may;
        n.may = false;
        *self = n;
        if may {
            Exp::May
        } else {
            Exp::Ok
        }
    }
}

/// exact entitlement of a user: (at least, at most), in whole tokens
pub fn entitlement(u: &UserM) -> (u64, u64) {
    let hi = (u.hi >> 32) as u64;
    let slack = u.steps as u64 + 2 + (u.loss / 10_000_000_000_000_000) as u64;
    let lo = ((u.lo >> 32) as u64).saturating_sub(slack);
    (lo, hi)
}
