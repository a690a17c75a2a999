//! What each property says about one transition of the closed system.
use crate::{
    env::{self, run, token_amount, DAY},
    explore::Cx,
    model::{entitlement, Act, Exp},
};
use solana_program::pubkey::Pubkey;

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn moved_on(c: &Cx) -> bool {
    c.ok && matches!(c.exp, Exp::Ok | Exp::May)
}
/// something happened that the properties speak about, predicted or not
fn happened(c: &Cx) -> bool {
    c.ok && c.exp != Exp::Any
}

/// the property's own operation must do what the model predicts
fn expected(c: &Cx) -> R {
    match c.exp {
        Exp::Ok => ensure!(c.ok, "{:?} must succeed but failed: {:?}", c.act, c.err),
        Exp::Err => ensure!(!c.ok, "{:?} must be refused but succeeded", c.act),
        Exp::Any | Exp::May => {}
    }
    Ok(())
}

/// accounts changed by the transition are among `allowed`
fn frame(c: &Cx, allowed: &[Pubkey]) -> R {
    for k in c.post.w.diff(&c.pre.w) {
        ensure!(allowed.contains(&k), "{:?} changed an account it must not touch: {}", c.act, name(c, &k));
    }
    Ok(())
}
fn name(c: &Cx, k: &Pubkey) -> String {
    if *k == c.env.p.pool {
        return "the pool".into();
    }
    if *k == c.env.p.vault {
        return "the vault".into();
    }
    for (i, u) in c.env.users.iter().enumerate() {
        if *k == u.mining {
            return format!("mining of user {i}");
        }
        if *k == u.token {
            return format!("token account of user {i}");
        }
    }
    format!("{k}")
}

fn users(c: &Cx) -> std::ops::Range<usize> {
    0..c.env.users.len()
}

/// staker weights and schedules agree with the model
fn stakers(c: &Cx) -> R {
    for i in users(c) {
        let m = &c.post.m.u[i];
        match c.env.mining(&c.post.w, i) {
            None => ensure!(!m.live, "mining of user {i} is gone after {:?}", c.act),
            Some(r) => {
                ensure!(m.live, "mining of user {i} exists although closed");
                ensure!(
                    r.own == m.w.now as i128,
                    "after {:?}: own weight of user {i} is {} but must be {}",
                    c.act,
                    r.own,
                    m.w.now
                );
                ensure!(
                    r.sched == m.w.sched,
                    "after {:?}: scheduled drops of user {i} are {:?} but must be {:?}",
                    c.act,
                    r.sched,
                    m.w.sched
                );
            }
        }
    }
    Ok(())
}
fn delegated(c: &Cx) -> R {
    for i in users(c) {
        let m = &c.post.m.u[i];
        if let Some(r) = c.env.mining(&c.post.w, i) {
            ensure!(
                r.sfo == m.sfo,
                "after {:?}: weight delegated to user {i} is {} but must be {}",
                c.act,
                r.sfo,
                m.sfo
            );
        }
    }
    Ok(())
}
fn pool_weights(c: &Cx) -> R {
    let p = c.env.pool(&c.post.w);
    ensure!(
        p.total == c.post.m.pool.now as i128,
        "after {:?}: pool weight is {} but must be {}",
        c.act,
        p.total,
        c.post.m.pool.now
    );
    ensure!(
        p.sched == c.post.m.pool.sched,
        "after {:?}: scheduled drops of the pool are {:?} but must be {:?}",
        c.act,
        p.sched,
        c.post.m.pool.sched
    );
    Ok(())
}
fn weights(c: &Cx) -> R {
    stakers(c)?;
    delegated(c)?;
    pool_weights(c)
}
fn money(c: &Cx) -> R {
    let p = c.env.pool(&c.post.w);
    ensure!(p.avail == c.post.m.avail, "after {:?}: undistributed amount is {} but must be {}", c.act, p.avail, c.post.m.avail);
    ensure!(p.ends == c.post.m.ends, "after {:?}: distribution end is {} but must be {}", c.act, p.ends, c.post.m.ends);
    Ok(())
}

fn total(c: &Cx, n: &crate::explore::Node, u: usize) -> Option<u64> {
    match n.probe.get(u) {
        Some(Ok(x)) => c.env.paid(&n.w, u).checked_add(*x),
        _ => None,
    }
}

/// received + claimable stays within the exact proportional entitlement
fn entitled(c: &Cx, lower: bool) -> R {
    for i in users(c) {
        let Some(t) = total(c, c.post, i) else { continue };
        let (lo, hi) = entitlement(&c.post.m.u[i]);
        ensure!(t <= hi, "after {:?}: user {i} received plus can claim {t}, more than its proportional share {hi}", c.act);
        if lower {
            ensure!(t >= lo, "after {:?}: user {i} received plus can claim {t}, less than its proportional share (at least {lo})", c.act);
        }
    }
    Ok(())
}

/// an operation other than a distribution leaves received + claimable alone
fn preserved(c: &Cx) -> R {
    for i in users(c) {
        let (Some(a), Some(b)) = (total(c, c.pre, i), total(c, c.post, i)) else {
            if c.pre.probe.get(i).map_or(false, |x| x.is_ok()) && c.post.probe.get(i).map_or(false, |x| x.is_err()) {
                return Err(format!("after {:?}: user {i} can no longer claim: {:?}", c.act, c.post.probe[i]));
            }
            continue;
        };
        let slack = if matches!(c.act, Act::T(_)) || c.act.touches(&c.pre.m).contains(&(i as u8)) {
            (c.post.m.u[i].steps - c.pre.m.u[i].steps) as u64
        } else {
            0
        };
        ensure!(
            b <= a && b + slack >= a,
            "{:?} changed what user {i} has received plus can claim from {a} to {b}",
            c.act
        );
    }
    Ok(())
}

fn is_dist(c: &Cx) -> bool {
    matches!(c.act, Act::Dist)
}

/// a distribution divides by exactly the weight the pool has that day
fn dist_divisor(c: &Cx) -> R {
    if !is_dist(c) || !c.ok || c.post.m.n_dist == c.pre.m.n_dist {
        return Ok(());
    }
    let (a, b) = (c.env.pool(&c.pre.w), c.env.pool(&c.post.w));
    let amt = a.avail.wrapping_sub(b.avail) as u128;
    let t = c.post.m.pool.now as u128;
    let want = amt * 10_000_000_000_000_000 / t;
    let got = b.index.wrapping_sub(a.index);
    ensure!(got == want, "a distribution of {amt} credits {got} per unit of weight (1e-16), but over a pool weight of {t} it must be {want}");
    Ok(())
}

pub fn c01(c: &Cx) -> R {
    if !happened(c) {
        return Ok(());
    }
    let p = c.env.pool(&c.post.w);
    let v = c.env.vault(&c.post.w) as u128;
    let mut owed = p.avail as u128;
    for i in users(c) {
        match &c.post.probe[i] {
            Ok(x) => owed += *x as u128,
            Err(e) => return Err(format!("after {:?}: user {i} cannot claim at all: {e:?}", c.act)),
        }
    }
    ensure!(owed <= v, "after {:?}: the vault holds {v} but owes {owed} (undistributed {})", c.act, p.avail);
    // settlement for real, in both orders
    let n = c.env.users.len();
    for order in [(0..n).collect::<Vec<_>>(), (0..n).rev().collect()] {
        let mut w = c.post.w.clone();
        for u in order {
            if !c.env.has_mining(&w, u) {
                continue;
            }
            match run(&w, &c.env.claim(u)) {
                Ok((nw, _)) => {
                    let got = c.env.paid(&nw, u).wrapping_sub(c.env.paid(&w, u));
                    let want = *c.post.probe[u].as_ref().unwrap();
                    ensure!(got == want, "settlement paid user {u} {got} instead of {want}");
                    w = nw;
                }
                Err(e) => return Err(format!("after {:?}: settlement of user {u} fails: {e:?}", c.act)),
            }
        }
        ensure!(c.env.vault(&w) >= p.avail, "settlement eats undistributed tokens");
    }
    Ok(())
}

pub fn c02(c: &Cx) -> R {
    if !happened(c) {
        return Ok(());
    }
    if moved_on(c) {
        dist_divisor(c)?;
    }
    let p = c.env.pool(&c.post.w);
    let ms: Vec<_> = users(c).filter_map(|i| c.env.mining(&c.post.w, i)).collect();
    let today = c.post.w.now as u64 - c.post.w.now as u64 % DAY;
    let mut days: Vec<u64> = vec![today];
    days.extend(p.sched.iter().map(|x| x.0));
    for m in &ms {
        days.extend(m.sched.iter().map(|x| x.0));
    }
    days.sort();
    days.dedup();
    for d in days {
        let at = |now: i128, s: &[(u64, u64)]| now - s.iter().filter(|x| x.0 <= d).map(|x| x.1 as i128).sum::<i128>();
        let pw = at(p.total, &p.sched);
        let sum: i128 = ms.iter().map(|m| at(m.own, &m.sched) + m.sfo as i128).sum();
        let when = (d - today) / DAY;
        if c.post.m.penalised {
            ensure!(pw >= sum, "after {:?}: in {when} days the pool weighs {pw}, less than its stakers' {sum}", c.act);
        } else {
            ensure!(pw == sum, "after {:?}: in {when} days the pool weighs {pw} but its stakers weigh {sum}", c.act);
        }
    }
    Ok(())
}

pub fn c03(c: &Cx) -> R {
    if !moved_on(c) {
        return Ok(());
    }
    entitled(c, true)
}

pub fn c04(c: &Cx) -> R {
    if !moved_on(c) || is_dist(c) {
        return Ok(());
    }
    preserved(c)
}

pub fn c05(c: &Cx) -> R {
    if is_dist(c) {
        expected(c)?;
    }
    if !moved_on(c) {
        return Ok(());
    }
    money(c)?;
    let p = c.env.pool(&c.post.w);
    let paid: i128 = users(c).map(|u| c.env.paid(&c.post.w, u) as i128).sum();
    ensure!(c.env.vault(&c.post.w) as i128 + paid == c.post.m.filled as i128 + c.post.m.tips, "after {:?}: vault and payouts do not add up to what was filled in", c.act);
    ensure!(p.avail as u128 + c.post.m.distributed == c.post.m.filled, "after {:?}: undistributed plus distributed is not what was filled in", c.act);
    if is_dist(c) {
        let a = c.post.m.distributed - c.pre.m.distributed;
        let mut gain = 0i128;
        for i in users(c) {
            let (Some(x), Some(y)) = (total(c, c.pre, i), total(c, c.post, i)) else { return Ok(()) };
            gain += y as i128 - x as i128;
        }
        if c.post.m.n_dist == c.pre.m.n_dist {
            ensure!(gain == 0, "a repeated distribution on the same day changed claimable amounts by {gain}");
        } else {
            let n = c.env.users.len() as i128;
            let sum: u128 = c.post.m.u.iter().map(|u| u.w.now as u128 + u.sfo as u128).sum();
            let share = (a as u128 * sum / c.post.m.pool.now as u128) as i128;
            let slack: i128 = c.post.m.u.iter().map(|u| u.steps as i128 + 2).sum::<i128>() + n
                // the index is in units of 1 / 10^16
                + (sum / 10_000_000_000_000_000) as i128;
            ensure!(gain <= a as i128 + n, "a distribution of {a} made {gain} claimable");
            ensure!(gain + slack >= share, "a distribution of {a} made only {gain} claimable, expected about {share}");
        }
        frame(c, &[c.env.p.pool])?;
    }
    Ok(())
}

pub fn c06(c: &Cx) -> R {
    if matches!(c.act, Act::Dep(..) | Act::DepNone(..) | Act::Wd(..) | Act::WdOver(..) | Act::ExtNone(..) | Act::ExtRaw(_, 0, ..)) {
        expected(c)?;
    }
    if let (Act::Dep(u, _, _, d), true) = (c.act, c.ok) {
        frame(c, &[c.env.p.pool, c.env.users[*u as usize].mining, c.env.users[*d as usize].mining])?;
    }
    if !moved_on(c) {
        return Ok(());
    }
    stakers(c)?;
    pool_weights(c)?;
    dist_divisor(c)?;
    entitled(c, true)
}

pub fn c07(c: &Cx) -> R {
    if matches!(c.act, Act::Ext(..) | Act::ExtNone(..) | Act::ExtRaw(..)) {
        expected(c)?;
    }
    if !moved_on(c) {
        return Ok(());
    }
    if let Act::Ext(s, ..) = c.act {
        let st = c.pre.m.stake(*s).unwrap();
        frame(c, &[c.env.p.pool, c.env.users[st.owner as usize].mining, c.env.users[st.del as usize].mining])?;
        preserved(c)?;
    }
    weights(c)
}

pub fn c08(c: &Cx) -> R {
    if matches!(c.act, Act::ChD(..) | Act::ChDSame(..) | Act::ChDOver(..) | Act::ChDRaw(..) | Act::WdRaw(..) | Act::ExtRaw(..)) {
        expected(c)?;
    }
    if let (Act::ChD(s, n), true) = (c.act, c.ok) {
        let st = c.pre.m.stake(*s).unwrap();
        let u = |i: u8| c.env.users[i as usize].mining;
        frame(c, &[c.env.p.pool, u(st.owner), u(st.del), u(*n)])?;
    }
    if !moved_on(c) {
        return Ok(());
    }
    weights(c)
}

pub fn c09(c: &Cx) -> R {
    let slash = matches!(c.act, Act::Sl(..) | Act::SlRaw(..));
    if slash {
        expected(c)?;
    }
    if !moved_on(c) {
        return Ok(());
    }
    if let Act::Sl(s, ..) = c.act {
        let st = c.pre.m.stake(*s).unwrap();
        frame(c, &[c.env.p.pool, c.env.users[st.owner as usize].mining])?;
        preserved(c)?;
    }
    weights(c)
}

pub fn c10(c: &Cx) -> R {
    if let Act::Pen(u, n) = c.act {
        expected(c)?;
        if c.ok {
            let u = *u as usize;
            preserved(c)?;
            for i in users(c) {
                let (a, b) = match (c.env.mining(&c.pre.w, i), c.env.mining(&c.post.w, i)) {
                    (Some(a), Some(b)) => (a, b),
                    (None, None) => continue,
                    _ => return Err(format!("a penalty of user {u} created or erased the mining of user {i}")),
                };
                if i == u {
                    ensure!(a.own - b.own == *n as i128, "a penalty of {n} lowered the own weight of user {i} by {}", a.own - b.own);
                    ensure!(a.sfo == b.sfo, "a penalty changed delegated weight");
                    let (sa, sb): (i128, i128) = (a.sched.iter().map(|x| x.1 as i128).sum(), b.sched.iter().map(|x| x.1 as i128).sum());
                    ensure!(sa - sb == (*n as i128).min(sa), "a penalty of {n} took {} out of the scheduled drops {:?}, leaving {:?}", sa - sb, a.sched, b.sched);
                    ensure!(b.own >= sb, "later expiries of user {i} drop {sb} of only {}", b.own);
                } else {
                    ensure!(a == b, "a penalty of user {u} changed user {i}");
                }
            }
            ensure!(c.env.pool(&c.pre.w) == c.env.pool(&c.post.w), "a penalty changed the pool");
        }
    }
    if !moved_on(c) {
        return Ok(());
    }
    for i in users(c) {
        if let Some(r) = c.env.mining(&c.post.w, i) {
            ensure!(r.own >= 0, "weight of user {i} below zero");
        }
    }
    stakers(c)?;
    pool_weights(c)
}

pub fn c11(c: &Cx) -> R {
    let Act::Claim(u) = c.act else { return Ok(()) };
    expected(c)?;
    if !moved_on(c) {
        return Ok(());
    }
    let u = *u as usize;
    let k = &c.env.users[u];
    frame(c, &[c.env.p.vault, k.mining, k.token])?;
    let got = c.env.paid(&c.post.w, u).wrapping_sub(c.env.paid(&c.pre.w, u));
    let out = c.env.vault(&c.pre.w).wrapping_sub(c.env.vault(&c.post.w));
    ensure!(got == out, "claim took {out} from the vault but paid {got}");
    ensure!(c.ret.as_deref() == Some(&got.to_le_bytes()[..]), "claim paid {got} but reported {:?}", c.ret);
    let (lo, hi) = entitlement(&c.post.m.u[u]);
    let t = c.env.paid(&c.post.w, u);
    ensure!(t >= lo && t <= hi, "claims of user {u} sum up to {t}, accrued is between {lo} and {hi}");
    if let Some(Ok(x)) = c.pre.probe.get(u) {
        ensure!(*x == got, "claim paid {got}, claimable was {x}");
    }
    let (Some(a), Some(b)) = (c.env.mining(&c.pre.w, u), c.env.mining(&c.post.w, u)) else {
        return Err(format!("a claim erased the mining of user {u}"));
    };
    ensure!(a.own == b.own && a.sched == b.sched && a.sfo == b.sfo, "claim changed weights of user {u}");
    ensure!(b.unclaimed == 0, "claim left {} unclaimed", b.unclaimed);
    // claiming again, now and later without a distribution, pays nothing
    let mut w = c.post.w.clone();
    for _ in 0..2 {
        match run(&w, &c.env.claim(u)) {
            Ok((nw, r)) => {
                ensure!(c.env.paid(&nw, u) == t, "a second claim pays again");
                ensure!(r.as_deref() == Some(&0u64.to_le_bytes()[..]), "a second claim reports {r:?}");
            }
            Err(e) => return Err(format!("a second claim fails: {e:?}")),
        }
        w.now += 200 * DAY as i64;
    }
    Ok(())
}

pub fn c12(c: &Cx) -> R {
    let Act::Fill(amt, _) = c.act else { return Ok(()) };
    expected(c)?;
    if !moved_on(c) {
        return Ok(());
    }
    frame(c, &[c.env.p.pool, c.env.p.vault, c.env.p.src])?;
    let v = |w| c.env.vault(w) as i128;
    let amt = &(*amt as i128);
    ensure!(v(&c.post.w) - v(&c.pre.w) == *amt, "a fill of {amt} moved {} into the vault", v(&c.post.w) - v(&c.pre.w));
    let s = |w| token_amount(w, &c.env.p.src) as i128;
    ensure!(s(&c.pre.w) - s(&c.post.w) == *amt, "a fill of {amt} took {} from the source", s(&c.pre.w) - s(&c.post.w));
    money(c)?;
    let (a, b) = (c.env.pool(&c.pre.w), c.env.pool(&c.post.w));
    ensure!(a.total == b.total && a.sched == b.sched && a.index == b.index, "a fill changed weights or index of the pool");
    ensure!(env::read_hist(&c.pre.w, &c.env.p.pool) == env::read_hist(&c.post.w, &c.env.p.pool), "a fill changed the distribution history");
    Ok(())
}

pub fn c15(c: &Cx) -> R {
    let Act::Init(u) = c.act else { return Ok(()) };
    expected(c)?;
    if !moved_on(c) {
        return Ok(());
    }
    fresh_mining(c, *u as usize)
}
pub fn fresh_mining(c: &Cx, u: usize) -> R {
    let k = &c.env.users[u];
    frame(c, &[k.mining, c.env.payer])?;
    let r = c.env.mining(&c.post.w, u).ok_or("no mining created")?;
    ensure!(
        r.owner == k.owner && r.pool == c.env.p.pool && r.own == 0 && r.sfo == 0 && r.unclaimed == 0 && r.n_sched_raw == 0,
        "a new mining is not empty or wrongly bound: {r:?}"
    );
    if let Some(Ok(x)) = c.post.probe.get(u) {
        ensure!(*x == 0, "a new mining can claim {x}");
    }
    let a = c.post.w.get(&k.mining).ok_or("no mining created")?;
    ensure!(crate::rt::rent().is_exempt(a.lamports, a.bytes().len()), "a new mining is not rent exempt");
    Ok(())
}

pub fn c16(c: &Cx) -> R {
    let Act::Close(u) = c.act else { return Ok(()) };
    expected(c)?;
    if !moved_on(c) {
        return Ok(());
    }
    let k = &c.env.users[*u as usize];
    frame(c, &[k.mining, c.env.target])?;
    let l = |w: &crate::rt::World, k: &Pubkey| w.get(k).map_or(0, |a| a.lamports as i128);
    ensure!(c.post.w.get(&k.mining).is_none(), "the closed mining still exists");
    ensure!(
        l(&c.post.w, &c.env.target) - l(&c.pre.w, &c.env.target) == l(&c.pre.w, &k.mining),
        "closing did not pay out all lamports"
    );
    Ok(())
}

pub fn c17(c: &Cx) -> R {
    if c.exp == Exp::Ok {
        ensure!(c.ok, "{:?} is correct use but fails: {:?}", c.act, c.err);
        for i in users(c) {
            if let Some(Err(e)) = c.post.probe.get(i) {
                return Err(format!("after {:?}: user {i} cannot claim: {e:?}", c.act));
            }
        }
    }
    Ok(())
}

/// tables keep every entry, in order, and refuse when full
pub fn c18(c: &Cx) -> R {
    expected(c)?;
    if !moved_on(c) {
        return Ok(());
    }
    weights(c)?;
    money(c)?;
    entitled(c, true)?;
    let h = env::read_hist(&c.post.w, &c.env.p.pool);
    ensure!(h.windows(2).all(|x| x[0].0 < x[1].0 && x[0].1 <= x[1].1), "the distribution history is not in order");
    ensure!(h.len() == c.post.m.n_dist as usize, "the history holds {} distributions of {}", h.len(), c.post.m.n_dist);
    Ok(())
}

/// accepted means exact
pub fn c19(c: &Cx) -> R {
    if c.exp == Exp::Err {
        ensure!(!c.ok, "{:?} was accepted although its exact effect is impossible", c.act);
    }
    if !moved_on(c) {
        return Ok(());
    }
    weights(c)?;
    money(c)?;
    let paid: i128 = users(c).map(|u| c.env.paid(&c.post.w, u) as i128).sum();
    ensure!(c.env.vault(&c.post.w) as i128 + paid == c.post.m.filled as i128 + c.post.m.tips, "after {:?}: vault and payouts do not add up to what was filled in", c.act);
    for i in users(c) {
        let (lo, hi) = entitlement(&c.post.m.u[i]);
        let t = c.env.paid(&c.post.w, i);
        ensure!(t <= hi, "after {:?}: user {i} received {t}, more than its proportional share {hi}", c.act);
        if let Act::Claim(u) = c.act {
            ensure!(*u as usize != i || t >= lo, "after {:?}: user {i} received {t}, less than its proportional share (at least {lo})", c.act);
        }
    }
    Ok(())
}
