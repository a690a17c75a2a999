//! Scenarios: bounded alphabets and prefix histories, per property.
use crate::{
    env::{DAY, SRC_TOKENS, T0},
    explore::{Alpha, Lattice, Scen, Tm},
    model::{Act, Per, PERS},
};
use Per::*;

const BIG: u64 = 5 * (1 << 32) + 11;
const MID: u64 = 3_000_000_019;
const FILL: u64 = 1_000_000_007;
const FAR: u64 = T0 + 3000 * DAY;

fn d(n: u64) -> u64 {
    // same time of day, n days later
    T0 + n * DAY
}
fn mid(n: u64) -> u64 {
    T0 - T0 % DAY + n * DAY
}

fn base() -> Alpha {
    Alpha { max_stakes: 3, slash_dates: vec![0, 40_000], max_time: FAR, ..Default::default() }
}

fn sc(name: &'static str, users: usize, prefix: Vec<Act>, alpha: Alpha, quick: usize, thorough: usize) -> Scen {
    Scen { name, users, t0: T0, src: SRC_TOKENS, one_key: false, lazy: false, prefix, alpha, quick, thorough }
}

/// two stakers with overlapping lockups, distributions and claims from an empty pool
fn stakers() -> Scen {
    sc(
        "stakers",
        2,
        vec![Act::Fill(FILL, d(3))],
        Alpha {
            dep: vec![(0, 1009, M3, 0), (0, 500, Flex, 0), (1, MID, Y1, 1)],
            wd: 2,
            dist: true,
            claim: vec![0],
            time: vec![Tm::Midnight, Tm::Expiry(0), Tm::Expiry(-1)],
            ..base()
        },
        5,
        7,
    )
}
/// everything at once, shallow
fn mixed() -> Scen {
    sc(
        "mixed",
        3,
        vec![Act::Fill(FILL, d(400)), Act::Dep(0, 1009, M3, 1), Act::T(d(1)), Act::Dist, Act::Dep(1, MID, Flex, 1), Act::T(mid(3))],
        Alpha {
            dep: vec![(0, 700, Y1, 0), (1, 40, M6, 2), (2, BIG, Flex, 0)],
            max_stakes: 4,
            wd: 2,
            ext: vec![(M3, 0), (Y1, 13)],
            chd: vec![0, 1, 2],
            slash: 2,
            fill: vec![(1000, 0)],
            dist: true,
            claim: vec![0, 1],
            close: true,
            time: vec![Tm::Plus(DAY), Tm::Midnight, Tm::Expiry(0)],
            ..base()
        },
        4,
        5,
    )
}
fn with_penalty(mut s: Scen, name: &'static str) -> Scen {
    s.name = name;
    s.alpha.pen_frac = vec![1, 2];
    s
}
fn deleg() -> Scen {
    sc(
        "delegation",
        3,
        vec![Act::Fill(FILL, d(10)), Act::Dep(1, 5000, Flex, 1), Act::T(d(1)), Act::Dist],
        Alpha {
            dep: vec![(0, 1009, Flex, 2), (0, MID, M3, 1), (1, 77, Flex, 0)],
            wd: 2,
            ext: vec![(M3, 21)],
            chd: vec![0, 1, 2],
            dist: true,
            claim: vec![2],
            time: vec![Tm::Plus(DAY), Tm::Midnight, Tm::Expiry(0)],
            ..base()
        },
        4,
        6,
    )
}
/// delegations in place, distributions pending on every staker
fn deleg_late() -> Scen {
    sc(
        "delegation-late",
        3,
        vec![
            Act::Fill(FILL, d(30)),
            Act::Dep(0, 1009, M3, 2),
            Act::Dep(1, MID, Flex, 2),
            Act::Dep(2, 333, Y1, 0),
            Act::T(d(1)),
            Act::Dist,
            Act::T(d(2)),
            Act::Dist,
            Act::T(mid(95)),
            Act::Dist,
        ],
        Alpha {
            dep: vec![(0, 5, Flex, 1), (2, 9, Flex, 2)],
            max_stakes: 4,
            wd: 2,
            ext: vec![(Flex, 0), (M6, 21)],
            chd: vec![0, 1, 2],
            slash: 2,
            slash_dates: vec![86_399],
            dist: true,
            claim: vec![0, 2],
            close: true,
            time: vec![Tm::Plus(1), Tm::Plus(DAY), Tm::Expiry(0)],
            ..base()
        },
        4,
        5,
    )
}
fn extend() -> Scen {
    sc(
        "extend",
        2,
        vec![Act::Fill(FILL, d(500)), Act::Dep(0, 1009, M3, 0), Act::Dep(0, 2003, M3, 1), Act::T(d(1)), Act::Dist],
        Alpha {
            dep: vec![(0, 50, Y1, 0), (1, MID, M3, 0)],
            wd: 1,
            ext: vec![(Flex, 0), (M3, 7), (M6, 0), (Y1, 1)],
            dist: true,
            time: vec![Tm::Plus(DAY), Tm::Expiry(0), Tm::Expiry(-1)],
            bad: vec!["none", "chd"],
            ..base()
        },
        4,
        5,
    )
}
/// every pair of periods, extended at every position relative to the expiry, then run to the end
fn extend_pairs() -> Vec<Scen> {
    let mut v = vec![];
    for (i, p) in PERS.iter().enumerate() {
        v.push(sc(
            ["extend-flex", "extend-3m", "extend-6m", "extend-1y"][i],
            2,
            vec![Act::Dep(0, 1009, *p, 1), Act::Dep(1, 31, *p, 1)],
            Alpha {
                ext: PERS.iter().flat_map(|q| [(*q, 0), (*q, BIG)]).collect(),
                wd: 1,
                time: vec![Tm::Plus(2 * DAY), Tm::Midnight, Tm::Expiry(0), Tm::Expiry(-1), Tm::Expiry(1)],
                ..base()
            },
            4,
            6,
        ));
    }
    v
}
fn slash() -> Scen {
    sc(
        "slash",
        2,
        vec![Act::Fill(FILL, d(500)), Act::Dep(0, 1009, M3, 0), Act::Dep(0, 2003, M3, 1), Act::Dep(1, MID, Flex, 1), Act::T(d(1)), Act::Dist],
        Alpha {
            dep: vec![(0, 50, Y1, 0)],
            max_stakes: 4,
            wd: 1,
            ext: vec![(M6, 5)],
            slash: 3,
            slash_dates: vec![0, 86_399],
            dist: true,
            time: vec![Tm::Plus(DAY), Tm::Expiry(0), Tm::Expiry(-1)],
            bad: vec!["slash", "slash-expired"],
            ..base()
        },
        4,
        5,
    )
}
/// flexible stakes are slashed with a date as well as without
fn slash_flex() -> Scen {
    sc(
        "slash-flexible",
        2,
        vec![Act::Fill(FILL, d(50))],
        Alpha {
            dep: vec![(0, 10, Flex, 0), (0, 1009, M3, 1), (1, 44, Flex, 0)],
            max_stakes: 3,
            slash: 3,
            slash_dates: vec![0, 86_399],
            flex_dates: true,
            wd: 2,
            ext: vec![(Flex, 2)],
            dist: true,
            time: vec![Tm::Expiry(-1), Tm::Expiry(0), Tm::Plus(DAY)],
            bad: vec!["slash"],
            ..base()
        },
        4,
        6,
    )
}
fn slash_periods() -> Scen {
    sc(
        "slash-periods",
        2,
        vec![],
        Alpha {
            dep: vec![(0, 10, Flex, 0), (0, 1009, M3, 0), (0, 2003, M6, 1), (0, MID, Y1, 0), (1, 4, M3, 1)],
            max_stakes: 2,
            slash: 3,
            slash_dates: vec![0, 43_200, 86_399],
            wd: 1,
            time: vec![Tm::Expiry(0), Tm::Plus(DAY)],
            bad: vec!["slash", "slash-expired"],
            ..base()
        },
        4,
        6,
    )
}
fn penalty() -> Scen {
    sc(
        "penalty",
        2,
        vec![
            Act::Fill(FILL, d(500)),
            Act::Dep(0, 1009, M3, 0),
            Act::Dep(0, 2003, Y1, 1),
            Act::Dep(0, 77, M6, 0),
            Act::Dep(1, MID, Flex, 0),
            Act::T(d(1)),
            Act::Dist,
            Act::T(d(2)),
        ],
        Alpha {
            dep: vec![(0, 50, Y1, 0)],
            max_stakes: 5,
            wd: 1,
            ext: vec![(M6, 5)],
            slash: 2,
            slash_dates: vec![5],
            pen: vec![1, 1009, 10_015 + 231 + 1009, 10_015 + 232],
            pen_frac: vec![1, 2, 3],
            dist: true,
            claim: vec![0],
            time: vec![Tm::Plus(DAY), Tm::Expiry(0), Tm::Expiry(-1)],
            bad: vec!["pen"],
            ..base()
        },
        3,
        4,
    )
}
fn penalty_sizes() -> Scen {
    sc(
        "penalty-sizes",
        1,
        vec![],
        Alpha {
            dep: vec![(0, 3, M3, 0), (0, 2, M6, 0), (0, 1, Y1, 0), (0, 2, Flex, 0)],
            max_stakes: 3,
            wd: 1,
            pen: (1..=26).collect(),
            pen_frac: vec![1],
            time: vec![Tm::Expiry(0), Tm::Midnight],
            bad: vec!["pen"],
            ..base()
        },
        4,
        5,
    )
}
fn dust() -> Scen {
    sc(
        "dust",
        3,
        vec![Act::Fill(7, d(3)), Act::Dep(0, 1, Flex, 0), Act::Dep(1, 3, M3, 0)],
        Alpha {
            dep: vec![(0, 1, M6, 2), (2, 1_000_000_000_000, Flex, 2)],
            max_stakes: 4,
            wd: 1,
            ext: vec![(M3, 1)],
            chd: vec![0, 1, 2],
            fill: vec![(1, 1), (100, 0)],
            dist: true,
            claim: vec![0, 1],
            time: vec![Tm::Plus(DAY), Tm::Expiry(0)],
            ..base()
        },
        5,
        6,
    )
}
fn calendar() -> Scen {
    sc(
        "calendar",
        2,
        vec![],
        Alpha {
            dep: vec![(0, 1009, Flex, 0), (0, 2003, M3, 0), (0, 5, M6, 1), (0, BIG, Y1, 0), (1, 77, M3, 1)],
            max_stakes: 4,
            wd: 2,
            claim: vec![0, 1],
            dist: true,
            fill: vec![(1000, 9)],
            time: vec![Tm::Midnight, Tm::Plus(80_000), Tm::Expiry(-1), Tm::Expiry(0), Tm::Expiry(1)],
            bad: vec!["none", "wd"],
            ..base()
        },
        4,
        6,
    )
}
/// stakes made on every day of four years (whatever the calendar does in them)
fn dates() -> Scen {
    sc(
        "dates",
        2,
        vec![],
        Alpha {
            dep: vec![(0, 1009, Flex, 0), (0, 500, M3, 1), (0, 300, M6, 0), (0, 200, Y1, 1)],
            max_stakes: 1,
            wd: 1,
            ext: vec![(M3, 0), (M6, 0), (Y1, 7)],
            time: vec![Tm::Day { start: T0, days: 1462 }, Tm::Expiry(-1), Tm::Expiry(0)],
            max_time: T0 + 3000 * DAY,
            ..base()
        },
        4,
        5,
    )
}
/// the vault's owner takes out what is in the vault, and it is filled again
fn short_vault() -> Scen {
    sc(
        "short-vault",
        2,
        vec![Act::Dep(0, 100, Flex, 0), Act::Dep(1, 300, M3, 0), Act::Fill(1000, d(3)), Act::Dist, Act::Back],
        Alpha {
            dep: vec![(0, 50, Flex, 1)],
            claim: vec![0, 1],
            dist: true,
            fill: vec![(3, 4), (5000, 4)],
            tip: vec![1, 400],
            back: true,
            time: vec![Tm::Plus(DAY), Tm::Expiry(0)],
            ..base()
        },
        4,
        6,
    )
}
/// no refresh between many expiries, then one of each operation
fn pileup() -> Scen {
    let mut p = vec![Act::Fill(FILL * 1000, d(600))];
    for i in 0..14u64 {
        let per = PERS[(i % 4) as usize];
        p.push(Act::Dep((i % 2) as u8, 100 + i, per, if i % 3 == 0 { 1 } else { (i % 2) as u8 }));
        if i % 4 == 1 {
            p.push(Act::Dist);
        }
        p.push(Act::T(d(i + 1)));
    }
    p.push(Act::Dist);
    p.push(Act::T(d(60)));
    p.push(Act::Dist);
    p.push(Act::T(d(120)));
    p.push(Act::Dist);
    p.push(Act::T(d(300)));
    p.push(Act::Dist);
    sc(
        "pileup",
        2,
        p,
        Alpha {
            dep: vec![(0, 50, M3, 1), (1, 60, Flex, 1)],
            max_stakes: 15,
            wd: 1,
            ext: vec![(M6, 5)],
            chd: vec![1],
            slash: 2,
            slash_dates: vec![9],
            dist: true,
            claim: vec![0, 1],
            time: vec![Tm::Plus(DAY), Tm::Plus(60 * DAY), Tm::Midnight, Tm::Plus(400 * DAY)],
            ..base()
        },
        2,
        3,
    )
}
/// daily use for a while, with distributions every day and refreshes only sometimes
fn daily() -> Scen {
    let mut p = vec![Act::Fill(FILL, d(40)), Act::Dep(0, 10_007, M3, 0), Act::Dep(1, 20_011, Flex, 0), Act::Dep(2, 7, Y1, 2)];
    for i in 1..=20 {
        p.push(Act::T(if i % 3 == 0 { mid(i) } else { d(i) }));
        p.push(Act::Dist);
        if i % 5 == 0 {
            p.push(Act::Claim((i / 5 % 3) as u8));
        }
        if i == 7 {
            p.push(Act::Dep(0, 99, Flex, 1));
        }
    }
    sc(
        "daily",
        3,
        p,
        Alpha {
            dep: vec![(0, 50_000, M6, 2), (2, 60, Flex, 1)],
            max_stakes: 5,
            wd: 1,
            ext: vec![(Y1, 5)],
            chd: vec![1, 2],
            slash: 2,
            slash_dates: vec![9],
            fill: vec![(5000, 1)],
            dist: true,
            claim: vec![0, 1, 2],
            time: vec![Tm::Plus(DAY), Tm::Midnight, Tm::Expiry(0)],
            ..base()
        },
        3,
        4,
    )
}
fn dist_fill() -> Scen {
    sc(
        "fill-distribute",
        1,
        vec![Act::Dep(0, 1000, M3, 0)],
        Alpha {
            wd: 0,
            fill: vec![(FILL, 0), (13, 2), (1_000_003, 10)],
            dist: true,
            claim: vec![0],
            time: vec![Tm::Midnight, Tm::Plus(DAY), Tm::Plus(86_399), Tm::Plus(12_345), Tm::Plus(7 * DAY)],
            bad: vec!["fill", "dist"],
            ..base()
        },
        5,
        6,
    )
}
fn dist_states() -> Scen {
    sc(
        "distribute-stakes",
        2,
        vec![Act::Fill(FILL, d(4))],
        Alpha {
            dep: vec![(0, 1000, Flex, 0), (1, 5, M3, 0)],
            wd: 2,
            slash: 1,
            slash_dates: vec![0],
            dist: true,
            fill: vec![(50, 4)],
            time: vec![Tm::Midnight, Tm::Plus(DAY), Tm::Plus(90 * DAY)],
            bad: vec!["dist", "fill"],
            ..base()
        },
        5,
        6,
    )
}
fn midnight() -> Scen {
    sc(
        "midnight",
        3,
        vec![Act::Fill(FILL, d(20)), Act::Dep(0, 1009, M3, 0), Act::Dep(1, 503, Flex, 2), Act::T(mid(1))],
        Alpha {
            dep: vec![(0, 4000, Flex, 2), (2, 4000, Flex, 2)],
            max_stakes: 4,
            wd: 1,
            ext: vec![(Y1, 5)],
            chd: vec![0],
            slash: 2,
            slash_dates: vec![0],
            dist: true,
            claim: vec![0],
            time: vec![Tm::Midnight, Tm::Plus(1)],
            ..base()
        },
        5,
        6,
    )
}
fn lifecycle() -> Scen {
    sc(
        "lifecycle",
        2,
        vec![Act::Fill(FILL, d(6)), Act::Dep(1, 10, Flex, 1)],
        Alpha {
            dep: vec![(0, 10, Flex, 0), (0, 30, Flex, 1), (1, 7, Flex, 0)],
            wd: 1,
            chd: vec![1],
            dist: true,
            claim: vec![0],
            close: true,
            time: vec![Tm::Plus(DAY), Tm::Midnight],
            bad: vec!["close", "init"],
            gift: vec![(0, 1), (1, 900_000_000)],
            ..base()
        },
        6,
        7,
    )
}
fn lifecycle_late() -> Scen {
    sc(
        "lifecycle-late",
        3,
        vec![
            Act::Fill(FILL, d(6)),
            Act::Dep(1, 10, Flex, 1),
            Act::Dep(0, 1000, M3, 2),
            Act::T(d(1)),
            Act::Dist,
            Act::T(d(100)),
            Act::Wd(1, 1000),
            Act::Claim(0),
            Act::Close(0),
            Act::T(d(101)),
            Act::Dist,
        ],
        Alpha {
            dep: vec![(0, 10, Flex, 0), (1, 7, Flex, 0)],
            wd: 1,
            chd: vec![0, 1],
            dist: true,
            claim: vec![0, 2],
            close: true,
            time: vec![Tm::Plus(DAY), Tm::Expiry(0)],
            bad: vec!["close", "init"],
            gift: vec![(0, 900_000_000)],
            tip: vec![5],
            ..base()
        },
        5,
        6,
    )
}

/// a staker's table of expiries, filled to its limit in several orders
fn table(name: &'static str, order: u8, n: u64, dist: bool) -> Scen {
    let mut p = vec![Act::Fill(FILL * 1000, d(600)), Act::Dep(1, MID, Flex, 1)];
    let mut day = 0;
    for i in 0..n {
        let per = match order {
            0 => Y1,                                       // ascending
            1 => [Y1, M6, M3][((i * 3 / n) as usize).min(2)], // blocks, each before the previous ones
            _ => [M6, Y1, M3][(i % 3) as usize],           // interleaved
        };
        p.push(Act::Dep(0, 100 + i, per, if i % 7 == 3 { 1 } else { 0 }));
        if dist && i % 3 == 0 {
            p.push(Act::Dist);
        }
        // all distinct days: blocks of different periods never meet within 50 days
        day += 1;
        p.push(Act::T(d(day)));
    }
    let k = n as u16 + 1;
    sc(
        name,
        2,
        p,
        Alpha {
            dep: vec![(0, 50, M3, 0), (0, 51, Flex, 1), (0, 52, Y1, 0), (1, 53, M6, 0)],
            max_stakes: 60,
            only: Some((vec![1, 30], k)),
            wd: 1,
            ext: vec![(M6, 5), (Flex, 0)],
            chd: vec![0, 1],
            slash: 2,
            slash_dates: vec![9],
            pen: vec![300],
            dist: true,
            claim: vec![0],
            time: vec![Tm::Plus(DAY), Tm::Expiry(-1), Tm::Expiry(0)],
            ..base()
        },
        3,
        4,
    )
}
/// full tables, all of whose entries expire before anybody does anything again
fn expired(name: &'static str, n: u64, users: u8, daily: bool) -> Scen {
    let mut p = vec![Act::Fill(FILL * 1000, d(2000))];
    for i in 0..n {
        let u = (i % (users as u64 - 1)) as u8;
        let u = if n <= 50 { 0 } else { u };
        p.push(Act::Dep(u, 100 + i, [M3, M3, M6, Flex][(i % 4) as usize], if i % 7 == 3 { users - 1 } else { u }));
        if i == n / 2 {
            p.push(Act::Dep(users - 1, 5000, Y1, users - 1));
        }
        if daily && i % 2 == 0 {
            p.push(Act::Dist);
        }
        p.push(Act::T(d(i + 1)));
    }
    if daily {
        for i in 1..12 {
            p.push(Act::T(d(n + i * 31)));
            p.push(Act::Dist);
        }
    } else {
        p.push(Act::T(d(n + 320)));
    }
    let k = n as u16 + 1;
    sc(
        name,
        users as usize,
        p,
        Alpha {
            dep: vec![(0, 50, M3, 0), (0, 51, Flex, users - 1), (users - 1, 53, M6, users - 1)],
            max_stakes: k as usize + 5,
            only: Some((vec![1, 3, 4], k)),
            wd: 1,
            ext: vec![(M6, 5), (Flex, 0)],
            chd: vec![0, users - 1],
            slash: 2,
            slash_dates: vec![9],
            dist: true,
            claim: vec![0, users - 1],
            close: true,
            time: vec![Tm::Plus(DAY), Tm::Plus(200 * DAY)],
            ..base()
        },
        3,
        4,
    )
}
/// more than a year of flexible stakes only, each withdrawn or left
fn flex_year(name: &'static str, leave: bool) -> Scen {
    let mut p = vec![Act::Fill(FILL * 1000, d(2000))];
    for i in 0..370u64 {
        let u = (i % 2) as u8;
        p.push(Act::Dep(u, 100 + i, Flex, if i % 5 == 3 { 2 } else { u }));
        if i % 9 == 0 {
            p.push(Act::Dist);
        }
        if !leave {
            p.push(Act::Wd(i as u16, 100 + i));
        }
        p.push(Act::T(d(i + 1)));
    }
    sc(
        name,
        3,
        p,
        Alpha {
            dep: vec![(0, 50, M3, 0), (0, 51, Flex, 2), (2, 53, M6, 2)],
            max_stakes: 400,
            only: Some((vec![0, 1, 3, 369], 370)),
            wd: 1,
            ext: vec![(M6, 5), (Flex, 0)],
            chd: vec![0, 2],
            slash: 2,
            slash_dates: vec![9],
            dist: true,
            claim: vec![0, 2],
            close: true,
            time: vec![Tm::Plus(DAY), Tm::Expiry(0)],
            ..base()
        },
        2,
        3,
    )
}
/// a pool's table of expiries, full with one expiry on each of the next 365 days
fn pool_table(name: &'static str, dist: bool, pause: u64) -> Scen {
    let mut p = vec![Act::Fill(FILL * 1000, d(900))];
    for i in 0..365u64 {
        if i > 0 {
            p.push(Act::T(d(i)));
        }
        p.push(Act::Dep((i % 8) as u8, 100 + i, Y1, if i % 5 == 3 { 7 } else { (i % 8) as u8 }));
        if dist {
            p.push(Act::Dist);
        }
    }
    if pause > 0 {
        p.push(Act::T(d(364 + pause)));
    }
    sc(
        name,
        8,
        p,
        Alpha {
            dep: vec![(0, 50, M3, 0), (1, 51, Flex, 7), (2, 52, Y1, 2), (7, 53, M6, 7)],
            max_stakes: 400,
            only: Some((vec![0, 364], 365)),
            wd: 1,
            ext: vec![(M6, 5), (Y1, 0)],
            chd: vec![0, 7],
            slash: 2,
            slash_dates: vec![9],
            dist: true,
            claim: vec![0, 7],
            time: vec![Tm::Plus(DAY), Tm::Midnight, Tm::Plus(40 * DAY)],
            ..base()
        },
        2,
        3,
    )
}
/// a distribution on each of many days
fn history(name: &'static str, idle: bool) -> Scen {
    let mut p = vec![Act::Fill(FILL * 1000, d(2000)), Act::Dep(0, 1000, Y1, 0), Act::Dep(1, 777, Flex, 0)];
    for i in 1..=(if idle { 1095 } else { 1094u64 }) {
        p.push(Act::T(if i % 2 == 0 { d(i) } else { mid(i) }));
        p.push(Act::Dist);
        if !idle && i % 97 == 0 {
            p.push(Act::Claim((i % 2) as u8));
        }
        if !idle && i == 500 {
            p.push(Act::Dep(0, 123, M3, 1));
        }
    }
    sc(
        name,
        2,
        p,
        Alpha {
            dep: vec![(0, 50, M3, 1), (1, 51, Flex, 1)],
            max_stakes: 5,
            wd: 1,
            ext: vec![(M6, 5)],
            chd: vec![0, 1],
            slash: 2,
            fill: vec![(10, 3)],
            dist: true,
            claim: vec![0, 1],
            time: vec![Tm::Midnight, Tm::Plus(DAY), Tm::Plus(200 * DAY)],
            ..base()
        },
        3,
        4,
    )
}
/// `n` daily distributions to stakers who do nothing, or only sometimes; one expiry in the middle
fn idle(name: &'static str, n: u64) -> Scen {
    let mut p = vec![Act::Fill(FILL * 1000, d(n + 20)), Act::Dep(0, 1009, M3, 0), Act::Dep(1, MID, Flex, 1), Act::Dep(2, 77, M6, 1)];
    for i in 1..=n {
        p.push(Act::T(if i % 3 == 0 { mid(i) } else { d(i) }));
        p.push(Act::Dist);
        // settled once, so that the index looked up for the past is in the middle of the history
        if i == n / 3 {
            p.push(Act::Claim(2));
        }
    }
    sc(
        name,
        3,
        p,
        Alpha {
            dep: vec![(0, 50, M3, 1), (1, 51, Flex, 1)],
            max_stakes: 5,
            wd: 1,
            ext: vec![(M6, 5)],
            chd: vec![0, 1],
            slash: 2,
            slash_dates: vec![7],
            dist: true,
            claim: vec![0, 1, 2],
            time: vec![Tm::Plus(DAY), Tm::Plus(100 * DAY)],
            tip: vec![3],
            ..base()
        },
        2,
        3,
    )
}
fn idles() -> Vec<Scen> {
    [("idle-20", 20), ("idle-95", 95), ("idle-190", 190), ("idle-300", 300), ("idle-600", 600), ("idle-1000", 1000)]
        .into_iter()
        .map(|(n, k)| idle(n, k))
        .collect()
}
/// stakes of different periods that end on the same day, in both orders of making
fn same_day(name: &'static str, late: Per) -> Scen {
    let long = if late == Flex { M3 } else { M6 };
    let early = 90 * (if late == Flex { 1 } else { 2 }) - late.days();
    sc(
        name,
        2,
        vec![
            Act::Fill(FILL, d(500)),
            Act::Dep(0, 1009, long, 0),
            Act::Dep(1, 31, long, 1),
            Act::T(d(1)),
            Act::Dist,
            Act::T(d(early)),
            Act::Dep(0, 300, late, 1),
        ],
        Alpha {
            dep: vec![(0, 40, late, 0), (1, 600, late, 0)],
            max_stakes: 4,
            wd: 1,
            ext: vec![(late, 0), (late, 3), (M6, 0)],
            chd: vec![0, 1],
            slash: 3,
            slash_dates: vec![11],
            flex_dates: true,
            dist: true,
            time: vec![Tm::Plus(DAY), Tm::Expiry(-1), Tm::Expiry(0)],
            bad: vec!["slash", "slash-expired"],
            tip: vec![1],
            ..base()
        },
        4,
        5,
    )
}

const MAX: u64 = u64::MAX;
fn edges() -> Vec<u64> {
    vec![0, 1, 2, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, MAX / 6, MAX / 6 + 1, MAX / 4, MAX / 4 + 1, (1 << 63) - 1, 1 << 63, MAX - 1, MAX]
}
fn few() -> Vec<u64> {
    vec![0, 1, 1 << 32, MAX / 6, MAX / 4 + 1, 1 << 63, MAX]
}
/// extreme amounts against weights that are nothing, small, and nearly everything
fn extreme(name: &'static str, prefix: Vec<Act>, quick: usize, thorough: usize) -> Scen {
    sc(
        name,
        2,
        prefix,
        Alpha {
            lattice: Some(Lattice {
                dep: edges(),
                wd: edges(),
                chd: edges(),
                pen: edges(),
                sl: (few(), few()),
                ext: (few(), few()),
                pers: PERS.to_vec(),
                fill: vec![],
                ends: vec![],
                dates: vec![0, T0, MAX, MAX - 365 * DAY],
            }),
            max_stakes: 9,
            time: vec![Tm::Expiry(0)],
            max_time: FAR,
            ..Default::default()
        },
        quick,
        thorough,
    )
}
/// combinations of extreme deposits and everything after them
fn extreme_deep(name: &'static str, vals: Vec<u64>, quick: usize, thorough: usize) -> Scen {
    sc(
        name,
        2,
        vec![],
        Alpha {
            lattice: Some(Lattice {
                dep: vals.clone(),
                wd: vals.clone(),
                chd: vals.clone(),
                pen: vals.clone(),
                sl: (vals.clone(), vals.clone()),
                ext: (vals, vec![0, 1, MAX]),
                pers: vec![Flex, Y1],
                fill: vec![],
                ends: vec![],
                dates: vec![],
            }),
            max_stakes: 9,
            time: vec![Tm::Expiry(0)],
            max_time: FAR,
            ..Default::default()
        },
        quick,
        thorough,
    )
}
/// extreme fills and distributions over extreme weights
fn extreme_rewards(name: &'static str, prefix: Vec<Act>, quick: usize, thorough: usize) -> Scen {
    let mut s = sc(
        name,
        2,
        prefix,
        Alpha {
            lattice: Some(Lattice {
                dep: vec![1, 1 << 40, MAX / 6, 1 << 63, MAX - 1],
                wd: vec![1, 1 << 40, 1 << 63],
                chd: vec![],
                pen: vec![1, 1 << 40],
                sl: (vec![], vec![]),
                ext: (vec![], vec![]),
                pers: vec![Flex, Y1],
                fill: vec![1, 10_000_000_000_000_000_000, MAX / 10_000, MAX - 1, MAX],
                ends: vec![T0, T0 + 3 * DAY, MAX - 1, MAX - MAX % DAY],
                dates: vec![],
            }),
            max_stakes: 9,
            dist: true,
            claim: vec![0, 1],
            time: vec![Tm::Plus(DAY), Tm::Expiry(0)],
            max_time: FAR,
            ..Default::default()
        },
        quick,
        thorough,
    );
    s.src = MAX;
    s
}
/// ordinary use at the ends of time
fn epochs() -> Vec<Scen> {
    [("epoch-0", 0u64), ("epoch-1", 1), ("epoch-far", (i64::MAX as u64) - 4000 * DAY)]
        .into_iter()
        .map(|(n, t)| {
            let mut s = sc(
                n,
                2,
                vec![],
                Alpha {
                    dep: vec![(0, 1009, Flex, 1), (1, 500, M3, 1)],
                    max_stakes: 3,
                    wd: 1,
                    ext: vec![(M6, 5)],
                    chd: vec![0],
                    slash: 1,
                    slash_dates: vec![3],
                    fill: vec![(FILL, 2)],
                    dist: true,
                    claim: vec![0, 1],
                    time: vec![Tm::Plus(1), Tm::Plus(DAY), Tm::Midnight, Tm::Expiry(0)],
                    max_time: t + 3000 * DAY,
                    ..Default::default()
                },
                4,
                6,
            );
            s.t0 = t;
            s
        })
        .collect()
}

/// amounts as they are with six decimals and a token in circulation: everything far above 2^32
fn whales() -> Scen {
    const M: u64 = 1_000_003_000_000;
    sc(
        "whales",
        3,
        vec![Act::Fill(900 * M + 17, d(6)), Act::Dep(0, 77 * M + 1, M3, 1), Act::Dep(1, 400 * M + 3, Flex, 1), Act::T(d(1)), Act::Dist, Act::T(d(2))],
        Alpha {
            dep: vec![(0, 5 * M + 9, Y1, 2), (2, 300 * M, Flex, 2)],
            max_stakes: 4,
            wd: 2,
            ext: vec![(Y1, 31 * M)],
            chd: vec![0, 2],
            slash: 2,
            slash_dates: vec![7],
            fill: vec![(50 * M + 1, 2)],
            dist: true,
            claim: vec![0, 1],
            time: vec![Tm::Plus(DAY), Tm::Expiry(0)],
            ..base()
        },
        3,
        4,
    )
}
/// many stakers whose delegations cross
fn crowd() -> Scen {
    let mut p = vec![Act::Fill(FILL, d(200))];
    for u in 0..6u8 {
        p.push(Act::Dep(u, 1000 + 7 * u as u64, PERS[u as usize % 4], (u + 1) % 6));
        p.push(Act::Dep(u, 10 + u as u64, PERS[(u as usize + 1) % 4], (u * 2) % 6));
        if u % 2 == 1 {
            p.push(Act::T(d(u as u64)));
            p.push(Act::Dist);
        }
    }
    sc(
        "crowd",
        6,
        p,
        Alpha {
            dep: vec![(3, 50, M3, 5)],
            max_stakes: 13,
            only: Some((vec![0, 3, 7, 10], 12)),
            wd: 1,
            ext: vec![(M6, 5)],
            chd: vec![0, 2, 5],
            slash: 1,
            slash_dates: vec![9],
            dist: true,
            claim: vec![1, 4],
            time: vec![Tm::Plus(DAY), Tm::Expiry(0)],
            ..base()
        },
        3,
        4,
    )
}
/// a pool that is left by everybody and used again, over periods that end with tokens left
fn comeback() -> Scen {
    sc(
        "comeback",
        2,
        vec![
            Act::Fill(FILL, d(5)),
            Act::Dep(0, 1009, Flex, 1),
            Act::T(d(1)),
            Act::Dist,
            Act::T(d(2)),
            Act::Dist,
            Act::T(d(6)),
            Act::Wd(0, 1009),
            Act::T(d(9)),
            Act::Fill(77, d(12)),
        ],
        Alpha {
            dep: vec![(0, 3, M3, 0), (1, MID, Flex, 0)],
            max_stakes: 3,
            wd: 1,
            chd: vec![0, 1],
            fill: vec![(1_000_003, 0), (13, 2)],
            dist: true,
            claim: vec![0, 1],
            close: true,
            time: vec![Tm::Midnight, Tm::Plus(DAY), Tm::Plus(4 * DAY)],
            bad: vec!["dist", "fill"],
            ..base()
        },
        4,
        6,
    )
}
/// ordinary use starting exactly at midnight and in the last second of a day
fn starts() -> Vec<Scen> {
    [("dawn", T0 - T0 % DAY), ("noon", T0 - T0 % DAY + DAY / 2), ("dusk", T0 - T0 % DAY + DAY - 1)]
        .into_iter()
        .map(|(n, t)| {
            let mut s = sc(
                n,
                2,
                vec![],
                Alpha {
                    dep: vec![(0, 1009, Flex, 1), (1, 500, M3, 1)],
                    max_stakes: 3,
                    wd: 1,
                    ext: vec![(M3, 5)],
                    chd: vec![0],
                    slash: 1,
                    slash_dates: vec![0, 86_399],
                    flex_dates: true,
                    fill: vec![(FILL, 2)],
                    dist: true,
                    claim: vec![0, 1],
                    time: vec![Tm::Plus(1), Tm::Plus(DAY), Tm::Expiry(0)],
                    ..base()
                },
                4,
                6,
            );
            s.t0 = t;
            s
        })
        .collect()
}
/// one key in all roles
fn one_key() -> Scen {
    let mut s = mixed();
    s.name = "one-key";
    s.one_key = true;
    s
}

/// the scenarios a property is explored over
pub fn scenarios(id: &str) -> Vec<Scen> {
    let mut v = scenarios_(id);
    let q = |mut s: Scen, q: usize, t: usize| {
        s.quick = q;
        s.thorough = t;
        s
    };
    let (sf, s3) = (same_day("same-day-flexible", Flex), same_day("same-day-3m", M3));
    if ["C02", "C04", "C07", "C09", "C17"].contains(&id) {
        v.extend([q(sf, 3, 5), q(s3, 3, 5)]);
    }
    if ["C01", "C03", "C04", "C05", "C11", "C17"].contains(&id) {
        v.push(q(whales(), 2, 4));
    }
    if ["C01", "C02", "C03", "C04", "C08"].contains(&id) {
        v.push(q(crowd(), 2, 3));
    }
    if ["C01", "C03", "C05", "C12", "C17"].contains(&id) {
        v.push(q(comeback(), 3, 5));
    }
    if ["C02", "C03", "C05", "C06", "C07", "C09", "C12", "C17"].contains(&id) {
        v.extend(starts().into_iter().map(|s| q(s, 3, 5)));
    }
    if ["C04", "C05", "C11", "C12", "C16", "C17"].contains(&id) {
        v.push(q(one_key(), 2, 4));
    }
    if ["C01", "C11"].contains(&id) {
        v.push(q(extreme_rewards("extreme-rewards", vec![], 2, 4), 2, 4));
    }
    if ["C02", "C09", "C17"].contains(&id) {
        v.push(q(slash_flex(), 4, 6));
    }
    if ["C01", "C03", "C04", "C05", "C11", "C17"].contains(&id) {
        v.extend(idles());
    }
    if let "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C16" | "C17" = id {
        v.extend(crate::combo::combos(id != "C17"));
    }
    if let "C02" | "C03" | "C04" | "C05" | "C08" | "C11" | "C12" | "C15" | "C16" | "C17" = id {
        v.extend(crate::combo::leavers());
    }
    // requests that must be refused, tried at every state of the deep starting points too
    let bad: &[&'static str] = match id {
        "C05" => &["dist"],
        "C06" | "C07" => &["none"],
        "C08" => &["chd", "wd"],
        "C09" => &["slash", "slash-expired"],
        "C10" => &["pen"],
        "C12" => &["fill"],
        "C15" => &["init"],
        "C16" => &["close"],
        _ => &[],
    };
    for s in v.iter_mut().filter(|_| !bad.is_empty()) {
        if s.name.starts_with("combination") || s.name.starts_with("leaver") {
            s.alpha.bad.extend(bad);
        }
    }
    v.extend(crate::sweep::sweeps(id));
    // variants of every transition: one step from the deep starting points, deeper from the others
    if let "C13" | "C14" | "C21" = id {
        let n = if id == "C13" { 2 } else { 1 };
        v.extend(crate::combo::combos(true).into_iter().map(|s| q(s, n, n + 1)));
        v.extend(crate::combo::leavers().into_iter().map(|s| q(s, n, n + 1)));
        v.extend([q(lifecycle(), n + 1, 4), q(dist_states(), 1, 2), q(one_key(), 1, 2), q(deleg_late(), 1, 2), q(penalty(), 1, 2), q(pileup(), 1, 1)]);
        v.iter_mut().for_each(|s| s.lazy = true);
    }
    v
}
fn scenarios_(id: &str) -> Vec<Scen> {
    let q = |mut s: Scen, q: usize, t: usize| {
        s.quick = q;
        s.thorough = t;
        s
    };
    match id {
        "C01" => vec![
            q(stakers(), 4, 6),
            q(mixed(), 3, 4),
            with_penalty(q(mixed(), 2, 4), "mixed-penalty"),
            q(deleg(), 3, 5),
            q(deleg_late(), 3, 4),
            q(dust(), 4, 5),
            q(midnight(), 3, 5),
            q(daily(), 2, 4),
            q(pileup(), 2, 3),
            q(penalty(), 2, 4),
            q(lifecycle(), 4, 6),
        ],
        "C02" => {
            let mut v = vec![
                q(stakers(), 5, 7),
                q(mixed(), 3, 5),
                with_penalty(q(mixed(), 3, 4), "mixed-penalty"),
                q(deleg(), 4, 5),
                q(deleg_late(), 3, 5),
                q(extend(), 3, 5),
                q(slash(), 3, 5),
                q(penalty(), 3, 4),
                q(pileup(), 2, 3),
                q(calendar(), 4, 5),
            ];
            v.extend(extend_pairs().into_iter().map(|s| q(s, 3, 5)));
            v
        }
        "C03" => vec![
            q(stakers(), 4, 6),
            q(mixed(), 3, 4),
            q(deleg(), 3, 5),
            q(deleg_late(), 3, 4),
            q(dust(), 4, 5),
            q(midnight(), 4, 5),
            q(daily(), 2, 4),
            q(pileup(), 2, 3),
            q(extend(), 3, 4),
            q(slash(), 3, 4),
            q(penalty(), 2, 3),
            q(lifecycle_late(), 3, 5),
        ],
        "C04" => vec![
            q(stakers(), 4, 6),
            q(mixed(), 3, 4),
            with_penalty(q(mixed(), 2, 4), "mixed-penalty"),
            q(deleg(), 3, 5),
            q(deleg_late(), 3, 4),
            q(dust(), 4, 5),
            q(midnight(), 4, 5),
            q(daily(), 2, 4),
            q(pileup(), 2, 3),
            q(slash(), 3, 4),
            q(penalty(), 2, 4),
            q(lifecycle_late(), 3, 5),
        ],
        "C05" => vec![q(dist_fill(), 4, 6), q(dist_states(), 4, 6), q(daily(), 2, 3), q(dust(), 3, 5), q(stakers(), 4, 5)],
        "C06" => vec![dates(), q(calendar(), 4, 6), q(stakers(), 5, 7), q(pileup(), 2, 3), q(deleg(), 3, 5)],
        "C07" => {
            let mut v = vec![dates(), q(extend(), 3, 5), q(deleg_late(), 3, 4), q(pileup(), 2, 3), q(midnight(), 3, 4)];
            v.extend(extend_pairs());
            v
        }
        "C08" => {
            let mut a = deleg();
            a.alpha.bad = vec!["chd", "wd"];
            let mut b = deleg_late();
            b.alpha.bad = vec!["chd", "wd"];
            vec![q(a, 4, 6), q(b, 3, 5), q(mixed(), 3, 4), q(lifecycle(), 4, 6), q(pileup(), 2, 3)]
        }
        "C09" => vec![q(slash(), 3, 5), q(slash_periods(), 4, 6), q(deleg_late(), 3, 4), q(pileup(), 2, 3), q(midnight(), 3, 5)],
        "C10" => vec![q(penalty(), 3, 4), q(penalty_sizes(), 4, 5), with_penalty(q(mixed(), 2, 4), "mixed-penalty"), with_penalty(q(pileup(), 2, 3), "pileup-penalty"), with_penalty(q(midnight(), 3, 4), "midnight-penalty")],
        "C11" => vec![short_vault(), q(stakers(), 4, 6), q(mixed(), 3, 4), q(deleg_late(), 3, 4), q(dust(), 4, 5), q(daily(), 2, 4), q(pileup(), 2, 3), q(lifecycle_late(), 3, 5), q(midnight(), 3, 5)],
        "C12" => vec![q(dist_fill(), 5, 6), q(dist_states(), 4, 6), q(daily(), 2, 3)],
        "C15" => vec![q(lifecycle(), 5, 7), q(lifecycle_late(), 4, 6)],
        "C16" => vec![q(lifecycle(), 5, 7), q(lifecycle_late(), 4, 6), q(mixed(), 3, 4)],
        "C17" => {
            let mut v = vec![
                q(stakers(), 5, 7),
                q(mixed(), 3, 4),
                q(deleg(), 4, 5),
                q(deleg_late(), 3, 5),
                q(extend(), 3, 5),
                q(slash(), 3, 5),
                q(pileup(), 2, 3),
                q(daily(), 3, 4),
                q(dust(), 4, 5),
                q(lifecycle(), 4, 6),
                q(flex_year("flexible-year", false), 2, 3),
                q(expired("expired-pool", 300, 8, false), 2, 3),
            ];
            v.extend(extend_pairs().into_iter().map(|s| q(s, 3, 5)));
            v
        }
        "C18" => vec![
            table("table-ascending", 0, 48, true),
            table("table-blocks", 1, 49, true),
            table("table-interleaved", 2, 48, false),
            table("table-full", 2, 50, true),
            pool_table("pool-full", false, 0),
            pool_table("pool-full-distributed", true, 0),
            pool_table("pool-full-paused", false, 30),
            expired("expired-staker", 49, 2, false),
            expired("expired-staker-distributed", 48, 2, true),
            expired("expired-pool", 300, 8, false),
            expired("expired-pool-distributed", 360, 8, true),
            flex_year("flexible-year", false),
            flex_year("flexible-year-left", true),
            history("history-full", true),
            history("history-used", false),
        ],
        "C19" => {
            let m = T0 + DAY;
            let mut v = vec![
                extreme("extreme-empty", vec![], 2, 2),
                extreme("extreme-small", vec![Act::Dep(0, 7, Y1, 1), Act::Dep(0, 5, Flex, 0), Act::T(m)], 1, 2),
                extreme("extreme-year", vec![Act::Dep(0, MAX / 7, Y1, 1), Act::T(m)], 1, 2),
                extreme("extreme-half", vec![Act::Dep(0, 1 << 63, Flex, 0), Act::T(m)], 1, 2),
                extreme("extreme-expired", vec![Act::Dep(0, MAX / 7, M6, 1), Act::Dep(0, 1 << 32, M3, 0), Act::T(T0 + 200 * DAY)], 1, 2),
                extreme_deep("extreme-sequences", vec![1, MAX / 6, MAX], 3, 4),
                extreme_rewards("extreme-rewards", vec![], 3, 5),
                extreme_rewards("extreme-rewards-tiny-stake", vec![Act::Dep(0, 1, Flex, 0), Act::Fill(MAX - 5, T0), Act::Dist, Act::T(m)], 2, 4),
                extreme_rewards("extreme-rewards-huge-stake", vec![Act::Dep(0, 1 << 62, M3, 1), Act::Dep(1, 3, Flex, 0), Act::Fill(1 << 40, T0 + 9 * DAY), Act::Dist, Act::T(m)], 2, 4),
            ];
            v.extend(epochs());
            // more is filled in over time than there are tokens: what was in the vault comes back
            for (n, p) in [("extreme-refill", vec![]), ("extreme-refill-staked", vec![Act::Dep(0, 1 << 40, Flex, 0), Act::Fill(MAX / 2, T0 + 9 * DAY), Act::Dist, Act::Back])] {
                let mut s = extreme_rewards(n, p, 3, 5);
                s.alpha.back = true;
                s.alpha.lattice.as_mut().unwrap().wd = vec![];
                s.alpha.lattice.as_mut().unwrap().pen = vec![];
                s.alpha.lattice.as_mut().unwrap().dep = vec![1 << 40];
                s.alpha.claim = vec![0];
                v.push(s);
            }
            v
        }
        "C13" | "C14" | "C21" => vec![],
        "C20" => vec![q(lifecycle(), 4, 5), q(mixed(), 2, 4), q(deleg_late(), 2, 4), q(slash(), 2, 4), q(penalty(), 2, 3), q(dist_fill(), 3, 5), q(pileup(), 2, 2)],
        "C22" => vec![
            q(lifecycle(), 4, 6),
            q(mixed(), 3, 4),
            q(deleg_late(), 3, 4),
            q(slash(), 2, 4),
            q(penalty(), 2, 4),
            q(dist_fill(), 4, 6),
            q(daily(), 2, 4),
            q(pileup(), 2, 3),
        ],
        _ => vec![],
    }
}
