//! Sweeps: one argument (or two) takes every value of a range, the operations around it are fixed.
//! The stages of a sweep are lists of operations; every product of them is executed.
use crate::{
    env::{DAY, SRC_TOKENS, T0},
    explore::{Alpha, Scen},
    model::{Act, Per, PERS},
    report::{Cases, Tier},
};
use Per::*;

const D0: u64 = T0 - T0 % DAY;
fn d(n: u64) -> u64 {
    T0 + n * DAY
}
/// all small values, and those around powers of two and ten
fn values(small: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (1..=small).collect();
    for k in 1..=44u32 {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for k in 1..=13u32 {
        v.extend([10u64.pow(k) - 1, 10u64.pow(k), 10u64.pow(k) + 1, 3 * 10u64.pow(k), 7 * 10u64.pow(k) + 7]);
    }
    v.sort();
    v.dedup();
    v.retain(|x| *x > 0);
    v
}
fn sw(name: &'static str, users: usize, prefix: Vec<Act>, stages: Vec<Vec<Act>>) -> Scen {
    let n = stages.len();
    Scen {
        name,
        users,
        t0: T0,
        src: SRC_TOKENS,
        one_key: false,
        lazy: false,
        prefix,
        alpha: Alpha { stages, max_stakes: 9, max_time: d(4000), ..Default::default() },
        quick: n,
        thorough: n,
    }
}
fn dep(amounts: &[u64], pers: &[Per], u: u8, dels: &[u8]) -> Vec<Act> {
    let mut v = vec![];
    for a in amounts {
        for p in pers {
            for x in dels {
                v.push(Act::Dep(u, *a, *p, *x));
            }
        }
    }
    v
}
fn times(v: &[u64]) -> Vec<Act> {
    v.iter().map(|t| Act::T(*t)).collect()
}

/// every amount is filled in, distributed and claimed
fn claims() -> Scen {
    sw(
        "sweep-amounts",
        2,
        vec![Act::Dep(0, 1, Flex, 0)],
        vec![
            values(1500).into_iter().map(|v| Act::Fill(v, T0)).collect(),
            vec![Act::Dist],
            vec![Act::Claim(0)],
            vec![Act::T(d(1))],
            vec![Act::Fill(5, d(1))],
            vec![Act::Dist],
            vec![Act::Claim(0)],
        ],
    )
}
/// every small division of every small amount
fn split() -> Scen {
    let n: Vec<u64> = (1..=8).collect();
    sw(
        "sweep-divisions",
        2,
        vec![],
        vec![
            dep(&n, &[Flex, M3], 0, &[0]),
            dep(&n, &[Flex], 1, &[0, 1]),
            (1..=24).map(|r| Act::Fill(r, T0)).collect(),
            vec![Act::Dist],
            vec![Act::Claim(0), Act::Claim(1)],
            vec![Act::Claim(1), Act::Claim(0)],
        ],
    )
}
/// small amounts for weights beyond the precision of the index, where a token is a fraction of its unit
fn thin() -> Scen {
    let p = 10_000_000_000_000_000u64;
    let w: Vec<u64> = vec![p - 1, p + 1, p + p / 2 + 1, 3 * p, 7 * p + 3, 100 * p + 1, 300 * p, 777 * p + 1];
    sw(
        "sweep-thin",
        2,
        vec![],
        vec![
            dep(&w, &[Flex], 0, &[0, 1]),
            dep(&[1, p / 3, 40 * p], &[Flex], 1, &[1]),
            (1..=40).chain([99, 150, 151, 199, 200, 299, 450, 500, 1000, 12_345]).map(|r| Act::Fill(r, T0)).collect(),
            vec![Act::Dist],
            vec![Act::Claim(0), Act::Claim(1)],
            vec![Act::Claim(1), Act::Claim(0)],
        ],
    )
}
/// every length of the period, prolonged or not
fn ends() -> Scen {
    sw(
        "sweep-periods",
        2,
        vec![Act::Dep(0, 100, Flex, 0)],
        vec![
            (0..=800).map(|k| Act::Fill(100_003, d(k))).collect(),
            vec![Act::Dist],
            times(&[d(1), d(2), d(40)]),
            vec![Act::Dist, Act::Fill(50_000, d(801))],
            vec![Act::Dist],
        ],
    )
}
/// every amount, period and delegate; then a second before and at each expiry
fn deposits() -> Scen {
    let t: Vec<u64> = [5, 90, 180, 365].iter().flat_map(|n| [D0 + n * DAY - 1, D0 + n * DAY]).collect();
    sw(
        "sweep-deposits",
        2,
        vec![],
        vec![dep(&values(200), &PERS, 0, &[0, 1]), times(&t), vec![Act::Dep(0, 1, M3, 1), Act::Claim(0)]],
    )
}
/// every part of a stake
fn withdrawals() -> Scen {
    sw(
        "sweep-withdrawals",
        2,
        vec![
            Act::Dep(0, 300, Flex, 1),
            Act::Dep(0, 200, M3, 1),
            Act::Dep(1, 50, Flex, 0),
            Act::Fill(1000, d(3)),
            Act::Dist,
            Act::T(d(1)),
        ],
        vec![
            vec![Act::Claim(0), Act::Dist],
            (1..=300).map(|v| Act::Wd(0, v)).collect(),
            vec![Act::Dist, Act::Claim(1), Act::Wd(2, 50), Act::T(d(91))],
            vec![Act::Wd(1, 200), Act::Dist],
        ],
    )
}
/// every part of a stake of every period
fn slashes() -> Scen {
    let mut v = vec![];
    for id in 0..4 {
        for n in 1..=120 {
            v.push(Act::Sl(id, n, Some(0)));
            if id == 3 {
                v.push(Act::Sl(id, n, None));
            }
        }
    }
    let p = [M3, M6, Y1, Flex].iter().map(|p| Act::Dep(0, 120, *p, if *p == M6 { 1 } else { 0 }));
    let mut prefix: Vec<Act> = p.collect();
    prefix.extend([Act::Dep(1, 33, M3, 0), Act::Fill(1000, d(3)), Act::Dist, Act::T(d(1))]);
    sw("sweep-slashes", 2, prefix, vec![v, vec![Act::Sl(0, 1, Some(0)), Act::Sl(1, 60, Some(77)), Act::T(d(90)), Act::Dist], vec![Act::Dist, Act::Claim(0)]])
}
/// every pair of periods, base amounts and additions, at several times of the stake's life
fn extensions() -> Scen {
    let mut e = vec![];
    for p in PERS {
        for add in (0..=12).chain([99, 100, 101, 1000]) {
            e.push(Act::Ext(0, false, p, add));
            e.push(Act::Ext(0, true, p, add));
        }
    }
    sw(
        "sweep-extensions",
        2,
        vec![Act::Dep(1, 1000, Flex, 1), Act::Fill(10_000, d(400))],
        vec![
            dep(&[1, 2, 7, 100], &PERS, 0, &[0, 1]),
            vec![Act::Dist],
            times(&[D0 + DAY, d(5), D0 + 90 * DAY - 1, D0 + 90 * DAY, d(200), D0 + 365 * DAY]),
            e,
        ],
    )
}
/// every amount delegated, moved on and back
fn delegations() -> Scen {
    sw(
        "sweep-delegations",
        3,
        vec![Act::Dep(1, 11, Flex, 2), Act::Fill(10_000, d(9)), Act::Dist],
        vec![
            dep(&values(120), &PERS, 0, &[0, 1]),
            vec![Act::ChD(1, 0), Act::ChD(1, 1), Act::ChD(1, 2)],
            vec![Act::T(d(1))],
            vec![Act::Dist, Act::Dep(2, 5, Flex, 0)],
            vec![Act::ChD(1, 0), Act::ChD(1, 1), Act::ChD(1, 2)],
        ],
    )
}
/// every number of days without any operation, twice
fn gaps() -> Scen {
    sw(
        "sweep-gaps",
        3,
        vec![
            Act::Dep(0, 100, M3, 1),
            Act::Dep(1, 70, Flex, 1),
            Act::Dep(2, 33, M6, 0),
            Act::Dep(2, 44, Y1, 2),
            Act::Fill(100_000, d(300)),
            Act::Dist,
        ],
        vec![
            (1..=560).map(|k| Act::T(d(k))).collect(),
            vec![Act::Dist],
            vec![Act::Claim(0), Act::Claim(1), Act::Claim(2), Act::T(d(561))],
            vec![Act::Dist, Act::Claim(2)],
        ],
    )
}
/// every minute of a day, and the seconds next to it
fn clock(name: &'static str, day: u64) -> Scen {
    let mut t = vec![];
    for m in 0..1440 {
        for s in [59, 60, 61] {
            t.push(D0 + (day * DAY) + m * 60 + s - 60);
        }
    }
    t.dedup();
    // on the day of the expiry the stakes are over from the first second, and are penalised without a date
    if day > 1 {
        t.retain(|x| *x >= D0 + day * DAY);
    }
    let mut s = sw(
        name,
        2,
        vec![
            Act::Dep(0, 100, Flex, 0),
            Act::Dep(0, 40, M3, 1),
            Act::Dep(1, 60, M3, 1),
            Act::Fill(1000, D0 + (day + 5) * DAY),
            Act::Dist,
        ],
        vec![
            times(&t),
            vec![
                Act::Dist,
                Act::Fill(5, D0 + (day + 5) * DAY),
                Act::Dep(0, 10, M3, 1),
                Act::Wd(0, 30),
                Act::Claim(0),
                Act::Sl(2, 10, if day > 1 { None } else { Some(0) }),
                Act::Ext(1, false, M6, 5),
                Act::Ext(0, true, M3, 0),
                Act::ChD(1, 0),
            ],
            vec![Act::Dist],
        ],
    );
    s.t0 = D0;
    s
}
/// every amount a mining can be owed, and every small delegation, when it is closed
fn closings() -> Scen {
    sw(
        "sweep-closings",
        2,
        vec![Act::Dep(1, 1, Flex, 1)],
        vec![
            values(600).into_iter().map(|v| Act::Fill(v, T0)).collect(),
            vec![Act::Dist],
            vec![Act::Wd(0, 1)],
            vec![Act::Close(1), Act::Claim(1)],
            vec![Act::Close(1)],
        ],
    )
}
fn closings_delegated() -> Scen {
    sw("sweep-closings-delegated", 2, vec![], vec![dep(&values(300), &PERS, 0, &[1]), vec![Act::Close(1), Act::T(d(400))], vec![Act::Wd(0, 1), Act::Close(1)]])
}

pub fn sweeps(id: &str) -> Vec<Scen> {
    let on = |l: &[&str]| l.contains(&id);
    let mut v = vec![];
    if on(&["C01", "C03", "C04", "C05", "C11", "C12", "C17"]) {
        v.push(claims());
    }
    if on(&["C01", "C03", "C04", "C05", "C11"]) {
        v.extend([split(), thin()]);
    }
    if on(&["C05", "C12", "C17"]) {
        v.push(ends());
    }
    if on(&["C02", "C06", "C08", "C17"]) {
        v.push(deposits());
    }
    if on(&["C02", "C04", "C06", "C08", "C17"]) {
        v.push(withdrawals());
    }
    if on(&["C02", "C04", "C09", "C17"]) {
        v.push(slashes());
    }
    if on(&["C02", "C04", "C07", "C08", "C17"]) {
        v.push(extensions());
    }
    if on(&["C02", "C04", "C08", "C17"]) {
        v.push(delegations());
    }
    if on(&["C01", "C03", "C04", "C05", "C06", "C11", "C17"]) {
        v.push(gaps());
    }
    if on(&["C03", "C05", "C06", "C07", "C09", "C12", "C17"]) {
        v.extend([clock("sweep-clock", 1), clock("sweep-clock-expiry", 90)]);
    }
    if on(&["C16", "C17"]) {
        v.extend([closings(), closings_delegated()]);
    }
    v
}

/// The terms of the lockup periods, as the program publishes them to the contracts that build on it.
pub fn terms(tier: Tier) -> Cases {
    use mplx_rewards::utils::LockupPeriod as L;
    let n = if tier == Tier::Quick { 4 * 366 } else { 40 * 366 };
    let secs = [0, 1, 59, 60, 3599, 3600, 43_199, 43_200, 43_201, 86_398, 86_399];
    Cases {
        name: "terms".into(),
        rule: format!("multiplier, days and end_timestamp of every period, for stakes started at {} times of each of {n} days", secs.len()),
        n,
        label: Box::new(|i| format!("day {}", D0 / DAY + i as u64)),
        check: Box::new(move |i| {
            for (l, mult, days) in [(L::Flex, 1, 5), (L::ThreeMonths, 2, 90), (L::SixMonths, 4, 180), (L::OneYear, 6, 365)] {
                if l.multiplier() != mult {
                    return Err(format!("the multiplier of {l:?} is {} instead of {mult}", l.multiplier()));
                }
                if l.days() != Ok(days) {
                    return Err(format!("{l:?} lasts {:?} days instead of {days}", l.days()));
                }
                for s in secs {
                    let start = D0 + i as u64 * DAY + s;
                    let want = start - start % DAY + days * DAY;
                    if l.end_timestamp(start) != Ok(want) {
                        return Err(format!("{l:?} started at {start} ends at {:?} instead of {want}", l.end_timestamp(start)));
                    }
                }
            }
            if L::None.days().is_ok() || L::None.end_timestamp(D0).is_ok() {
                return Err("the period None has terms".into());
            }
            Ok("as documented")
        }),
    }
}
