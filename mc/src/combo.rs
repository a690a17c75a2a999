//! Deep starting points chosen so that every pair of values of the parameters below occurs in at least
//! one of them (a covering array, computed greedily); every operation is then explored from each.
use crate::{
    env::{DAY, SRC_TOKENS, T0},
    explore::{Alpha, Scen, Tm},
    model::{Act, Per, PERS},
};
use Per::*;

/// time of day, distributions, pause since, end of the period, undistributed, own days, amounts,
/// delegations, penalties, settled, pool days
const SIZES: [usize; 11] = [4, 5, 5, 5, 5, 5, 3, 4, 2, 2, 2];

fn array<const N: usize>(sizes: [usize; N]) -> Vec<[usize; N]> {
    let n = N;
    let mut open: Vec<(usize, usize, usize, usize)> = vec![];
    for a in 0..n {
        for b in a + 1..n {
            for x in 0..sizes[a] {
                for y in 0..sizes[b] {
                    open.push((a, x, b, y));
                }
            }
        }
    }
    let mut out = vec![];
    while let Some(&(a, x, b, y)) = open.first() {
        let mut c = [usize::MAX; N];
        c[a] = x;
        c[b] = y;
        for i in 0..n {
            if c[i] != usize::MAX {
                continue;
            }
            // the value that closes most pairs with those chosen so far
            let gain = |v: usize| {
                open.iter()
                    .filter(|(a, x, b, y)| (*a == i && *x == v && c[*b] == *y) || (*b == i && *y == v && c[*a] == *x))
                    .count()
            };
            // ties broken differently in every row
            let k = out.len() + i;
            c[i] = (0..sizes[i]).map(|v| (v + k) % sizes[i]).max_by_key(|v| (gain(*v), (*v + k) % sizes[i])).unwrap();
        }
        open.retain(|(a, x, b, y)| c[*a] != *x || c[*b] != *y);
        out.push(c);
    }
    out
}

fn scen(i: usize, c: &[usize; 11], penalties: bool) -> Scen {
    let [tod, hist, pause, end, avail, days, amount, deleg, pen, settled, filler] = *c;
    let tod = [0, 1, 43_211, DAY - 1][tod];
    let hist = [0, 1, 5, 30, 110][hist] as u64;
    let pause = [0, 1, 10, 100, 400][pause];
    let avail = [0, 3, 500, 3_000_000_019, (5 << 32) + 77][avail];
    let days = [0, 1, 5, 30, 50][days] as u64;
    let a: u64 = [7, 3_000_019, (5 << 32) + 11][amount];
    let (out, inn) = ([0, 2, 0, 2][deleg], [1, 1, 0, 0][deleg]);
    let pen = pen == 1 && penalties && days > 0;
    let filler = [0, 45][filler];
    let len = hist.max(days).max(filler).max(1);
    let t0 = T0 - T0 % DAY + tod;
    let at = |d: u64| t0 + d * DAY;
    let mut p = vec![];
    let mut ids = vec![];
    let mut n = 0u16;
    let mut dep = |p: &mut Vec<Act>, u: u8, amt: u64, per: Per, d: u8, keep: bool| {
        p.push(Act::Dep(u, amt, per, d));
        if keep {
            ids.push(n);
        }
        n += 1;
    };
    if hist > 0 {
        p.push(Act::Fill(1_000_000_007, at(len) - tod));
    }
    dep(&mut p, 1, a * 3, M6, inn, true);
    dep(&mut p, 2, a + 2, Flex, 2, true);
    for d in 0..len {
        if d > 0 {
            p.push(Act::T(at(d)));
        }
        if d < days {
            // as many days as a miner can hold: none of them flexible
            let per = if days == 50 { PERS[d as usize % 3 + 1] } else { PERS[(d as usize + 1) % 4] };
            dep(&mut p, 0, a + d, per, out, d == 0 || d + 1 == days);
        }
        if d < filler {
            dep(&mut p, 3, 11 + d, [Y1, M6][d as usize % 2], 3, false);
        }
        if d + hist >= len {
            p.push(Act::Dist);
        }
    }
    if pen {
        p.push(Act::Pen(0, a / 2 + 1));
    }
    if settled == 1 {
        p.push(Act::Claim(1));
    }
    if end == 0 && avail > 0 {
        p.push(Act::Fill(avail, at(len)));
    }
    if pause > 0 {
        p.push(Act::T(at(len - 1 + pause)));
    }
    if end > 0 && avail > 0 {
        p.push(Act::Fill(avail, at(len - 1 + pause + [0, 0, 1, 7, 150][end]).max(at(len))));
    }
    let alpha = Alpha {
        dep: vec![(0, a, M3, 2), (0, 1, Flex, 0), (1, a + 1, Y1, 0), (2, 5, M6, 1)],
        max_stakes: 200,
        only: Some((ids, n)),
        wd: 2,
        ext: vec![(Flex, 0), (Y1, 13)],
        chd: vec![0, 1, 2],
        slash: 3,
        slash_dates: vec![0, 77_777],
        pen_frac: if pen { vec![1, 3] } else { vec![] },
        fill: vec![(1000, 0), (3, 9)],
        dist: true,
        claim: vec![0, 1, 2],
        close: true,
        time: vec![Tm::Plus(1), Tm::Midnight, Tm::Plus(DAY), Tm::Expiry(0)],
        max_time: T0 + 3000 * DAY,
        ..Default::default()
    };
    let name = Box::leak(format!("combination-{i:02}{}", if pen { "-penalty" } else { "" }).into_boxed_str());
    Scen { name, users: 4, t0, src: SRC_TOKENS, one_key: false, lazy: false, prefix: p, alpha, quick: 2, thorough: 3 }
}

pub fn combos(penalties: bool) -> Vec<Scen> {
    array(SIZES).iter().enumerate().map(|(i, c)| scen(i, c, penalties)).collect()
}

/// A staker who has withdrawn everything: days left in its table, what it was delegated, distributions,
/// which of them it has settled, how long it has been away, the end of the period, the others, the time of day
const LEAVE: [usize; 8] = [4, 3, 4, 3, 4, 3, 3, 3];

fn leaver(i: usize, c: &[usize; 8]) -> Scen {
    let [days, got, hist, settled, away, end, others, tod] = *c;
    let days = [0, 1, 3, 12][days] as u64;
    let hist = [0, 1, 5, 110][hist] as u64;
    let away = [0, 1, 95, 400][away];
    let tod = [0, 43_211, DAY - 1][tod];
    let t0 = T0 - T0 % DAY + tod;
    let at = |d: u64| t0 + d * DAY;
    let len = hist.max(days).max(1);
    let mut p = vec![];
    let mut n = 0u16;
    let mut dep = |p: &mut Vec<Act>, u: u8, amt: u64, per: Per, d: u8| {
        p.push(Act::Dep(u, amt, per, d));
        n += 1;
        n - 1
    };
    if hist > 0 {
        p.push(Act::Fill(1_000_000_007, at(len) - tod));
    }
    // nobody else; one flexible; two with expiries
    if others >= 1 {
        dep(&mut p, 2, 5_000_011, Flex, 2);
    }
    if others == 2 {
        dep(&mut p, 1, 999_983, M3, 2);
    }
    let mut mine = vec![];
    if days == 0 || i % 2 == 1 {
        mine.push((dep(&mut p, 0, 3_000_019, Flex, 1), 3_000_019));
    }
    // delegated to the one who leaves: nothing, something taken back again, something still there
    let back = (got == 1).then(|| dep(&mut p, 1, 777, M6, 0));
    if got == 2 {
        dep(&mut p, 1, 777, M6, 0);
    }
    for d in 0..len {
        if d > 0 {
            p.push(Act::T(at(d)));
        }
        if d < days {
            let id = dep(&mut p, 0, 101 + d, PERS[d as usize % 3 + 1], if d % 2 == 1 { 1 } else { 0 });
            mine.push((id, 101 + d));
        }
        if d + hist >= len {
            p.push(Act::Dist);
        }
        if settled == 1 && d + 2 == len {
            p.push(Act::Claim(0));
        }
    }
    for (id, a) in &mine {
        p.push(Act::Wd(*id, *a));
    }
    if let Some(id) = back {
        p.push(Act::ChD(id, 1));
    }
    if settled == 2 {
        p.push(Act::Claim(0));
    }
    if away > 0 {
        p.push(Act::T(at(len - 1 + away)));
    }
    if end > 0 {
        p.push(Act::Fill(500, at(len - 1 + away + [0, 1, 40][end])));
    }
    let alpha = Alpha {
        dep: vec![(0, 13, M3, 2), (0, 5, Flex, 0), (1, 9, Y1, 0)],
        max_stakes: 200,
        only: Some((back.into_iter().collect(), n)),
        wd: 1,
        chd: vec![0, 1],
        dist: true,
        claim: vec![0, 1],
        close: true,
        time: vec![Tm::Midnight, Tm::Plus(DAY), Tm::Plus(200 * DAY)],
        max_time: T0 + 3000 * DAY,
        ..Default::default()
    };
    let name = Box::leak(format!("leaver-{i:02}").into_boxed_str());
    Scen { name, users: 3, t0, src: SRC_TOKENS, one_key: false, lazy: false, prefix: p, alpha, quick: 4, thorough: 6 }
}

pub fn leavers() -> Vec<Scen> {
    array(LEAVE).iter().enumerate().map(|(i, c)| leaver(i, c)).collect()
}
