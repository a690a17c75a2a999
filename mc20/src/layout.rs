//! Account layouts and addresses, as published.
use crate::{idl, idl_, js};
use mc::{
    env::{self, key, mining_head, pool_head, MiningHead, PoolHead, MHEAD, MINING_LEN, PHEAD, PID, POOL_LEN},
    explore::Cx,
    model::Exp,
    report::{Cases, Tier},
    rt::AVec,
};
use mplx_rewards::{state, utils};
use serde_json::{json, Value};
use solana_program::{program_pack::IsInitialized, pubkey::Pubkey};
use sokoban::NodeAllocatorMap;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

type Fields = Vec<(String, String)>;

fn f(n: &str, v: impl ToString) -> (String, String) {
    (n.to_string(), v.to_string())
}
fn arr(d: &[u8; 7]) -> String {
    format!("[{}]", d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn pool_fields(h: &PoolHead) -> Fields {
    vec![
        f("depositAuthority", h.dep),
        f("distributeAuthority", h.dist),
        f("fillAuthority", h.fill),
        f("rewardMint", h.mint),
        f("indexWithPrecision", h.index),
        f("totalShare", h.total),
        f("distributionEndsAt", h.ends),
        f("tokensAvailableForDistribution", h.avail),
        f("tokenAccountBump", h.bump),
        f("data", arr(&h.data)),
    ]
}
fn mining_fields(h: &MiningHead) -> Fields {
    vec![
        f("rewardPool", h.pool),
        f("owner", h.owner),
        f("rewardMint", h.mint),
        f("indexWithPrecision", h.index),
        f("share", h.share),
        f("unclaimedRewards", h.unclaimed),
        f("stakeFromOthers", h.sfo),
        f("bump", h.bump),
        f("data", arr(&h.data)),
    ]
}
fn client_pool(b: &[u8]) -> Result<Fields, String> {
    let p = rewards::accounts::RewardPool::from_bytes(b).map_err(|e| format!("the Rust client cannot decode the pool: {e}"))?;
    let mut c = b.to_vec();
    let (k, mut l) = (Pubkey::default(), 1);
    let info = solana_program::account_info::AccountInfo::new(&k, false, false, &mut l, &mut c, &PID, false, 0);
    if rewards::accounts::RewardPool::try_from(&info).ok().as_ref() != Some(&p) {
        return Err("the Rust client reads the pool differently from its account".into());
    }
    drop(info);
    if borsh::BorshSerialize::try_to_vec(&p).ok().as_deref() != Some(&b[..PHEAD]) {
        return Err("the Rust client does not write the pool as it was".into());
    }
    Ok(pool_fields(&PoolHead {
        dep: p.deposit_authority,
        dist: p.distribute_authority,
        fill: p.fill_authority,
        mint: p.reward_mint,
        index: p.index_with_precision,
        total: p.total_share,
        ends: p.distribution_ends_at,
        avail: p.tokens_available_for_distribution,
        bump: p.token_account_bump,
        data: p.data,
    }))
}
fn client_mining(b: &[u8]) -> Result<Fields, String> {
    let m = rewards::accounts::Mining::from_bytes(b).map_err(|e| format!("the Rust client cannot decode the mining: {e}"))?;
    let mut c = b.to_vec();
    let (k, mut l) = (Pubkey::default(), 1);
    let info = solana_program::account_info::AccountInfo::new(&k, false, false, &mut l, &mut c, &PID, false, 0);
    if rewards::accounts::Mining::try_from(&info).ok().as_ref() != Some(&m) {
        return Err("the Rust client reads the mining differently from its account".into());
    }
    drop(info);
    if borsh::BorshSerialize::try_to_vec(&m).ok().as_deref() != Some(&b[..MHEAD]) {
        return Err("the Rust client does not write the mining as it was".into());
    }
    Ok(mining_fields(&MiningHead {
        pool: m.reward_pool,
        owner: m.owner,
        mint: m.reward_mint,
        index: m.index_with_precision,
        share: m.share,
        unclaimed: m.unclaimed_rewards,
        sfo: m.stake_from_others,
        bump: m.bump,
        data: m.data,
    }))
}
fn same(who: &str, a: &Fields, b: &Fields) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{who}: {} fields instead of {}", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return Err(format!("{who} reads {} as {}, where the layout has {} = {}", x.0, x.1, y.0, y.1));
        }
    }
    Ok(())
}
macro_rules! program_pool {
    ($p:expr) => {
        pool_fields(&PoolHead {
            dep: $p.deposit_authority,
            dist: $p.distribute_authority,
            fill: $p.fill_authority,
            mint: $p.reward_mint,
            index: $p.index_with_precision,
            total: $p.total_share,
            ends: $p.distribution_ends_at,
            avail: $p.tokens_available_for_distribution,
            bump: $p.token_account_bump,
            data: $p.data,
        })
    };
}
macro_rules! program_mining {
    ($m:expr) => {
        mining_fields(&MiningHead {
            pool: $m.reward_pool,
            owner: $m.owner,
            mint: $m.reward_mint,
            index: $m.index_with_precision,
            share: $m.share,
            unclaimed: $m.unclaimed_rewards,
            sfo: $m.stake_from_others,
            bump: $m.bump,
            data: $m.data,
        })
    };
}
macro_rules! entries {
    ($t:expr) => {
        $t.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>()
    };
}

/// the program's own public types, for a whole account
fn program_reads_pool(b: &[u8]) -> Result<(), String> {
    let want = pool_fields(&pool_head(b));
    let (sched, hist) = (env::pool_tree(b), env::hist_tree(b));
    let p = state::WrappedImmutableRewardPool::from_bytes(b).map_err(|e| format!("the program's read-only type cannot decode the pool: {e}"))?;
    same("the program's read-only type", &program_pool!(p.pool), &want)?;
    ensure!(entries!(p.weighted_stake_diffs) == sched, "the program's read-only type reads another schedule of the pool");
    ensure!(entries!(p.cumulative_index) == hist, "the program's read-only type reads another history");
    ensure!(p.pool.is_initialized() == (b[PHEAD - 7] == 1), "is_initialized is wrong about the pool");
    let mut c = AVec::from(b);
    let p = state::WrappedRewardPool::from_bytes_mut(c.bytes_mut()).map_err(|e| format!("the program's type cannot decode the pool: {e}"))?;
    same("the program's type", &program_pool!(p.pool), &want)?;
    ensure!(entries!(p.weighted_stake_diffs) == sched, "the program's type reads another schedule of the pool");
    ensure!(entries!(p.cumulative_index) == hist, "the program's type reads another history");
    ensure!(c.bytes() == b, "reading a pool changes it");
    ensure!(state::WrappedRewardPool::LEN == b.len(), "WrappedRewardPool::LEN is not the size of a pool");
    Ok(())
}
fn program_reads_mining(b: &[u8]) -> Result<(), String> {
    let want = mining_fields(&mining_head(b));
    let sched = env::mining_tree(b);
    let m = state::WrappedImmutableMining::from_bytes(b).map_err(|e| format!("the program's read-only type cannot decode the mining: {e}"))?;
    same("the program's read-only type", &program_mining!(m.mining), &want)?;
    ensure!(entries!(m.weighted_stake_diffs) == sched, "the program's read-only type reads another schedule of the mining");
    ensure!(m.mining.is_initialized() == (b[MHEAD - 7] == 2), "is_initialized is wrong about the mining");
    ensure!(u8::from(m.mining.account_type()) == b[MHEAD - 7], "account_type is wrong about the mining");
    let mut c = AVec::from(b);
    let m = state::WrappedMining::from_bytes_mut(c.bytes_mut()).map_err(|e| format!("the program's type cannot decode the mining: {e}"))?;
    same("the program's type", &program_mining!(m.mining), &want)?;
    ensure!(entries!(m.weighted_stake_diffs) == sched, "the program's type reads another schedule of the mining");
    ensure!(c.bytes() == b, "reading a mining changes it");
    ensure!(state::WrappedMining::LEN == b.len(), "WrappedMining::LEN is not the size of a mining");
    Ok(())
}

/// reads a pool account in every way but JavaScript
fn read_pool(b: &[u8]) -> Result<(), String> {
    let want = pool_fields(&pool_head(b));
    same("the Rust client", &client_pool(b)?, &want)?;
    let (i, n) = idl::account(idl_().as_ref().map_err(|e| e.clone())?, "RewardPool", b)?;
    same("the IDL", &i, &want)?;
    if n != PHEAD || rewards::accounts::RewardPool::LEN != PHEAD {
        return Err("the length of a pool differs".into());
    }
    Ok(())
}
fn read_mining(b: &[u8]) -> Result<(), String> {
    let want = mining_fields(&mining_head(b));
    same("the Rust client", &client_mining(b)?, &want)?;
    let (i, n) = idl::account(idl_().as_ref().map_err(|e| e.clone())?, "Mining", b)?;
    same("the IDL", &i, &want)?;
    if n != MHEAD || rewards::accounts::Mining::LEN != MHEAD {
        return Err("the length of a mining differs".into());
    }
    Ok(())
}


/// every reachable account decodes to what the program acts on
pub fn c22(c: &Cx) -> Result<(), String> {
    let (e, w) = (c.env, &c.post.w);
    let pb = w.get(&e.p.pool).ok_or("the pool is gone")?;
    ensure!(pb.owner == PID && pb.bytes().len() == POOL_LEN, "the pool account has another owner or size");
    read_pool(pb.bytes())?;
    program_reads_pool(pb.bytes())?;
    let h = pool_head(pb.bytes());
    ensure!(
        (h.dep, h.dist, h.fill, h.mint) == (e.p.dep, e.p.dist, e.p.fill, e.p.mint),
        "after {:?}: the pool's authorities or mint are not those it was created with",
        c.act
    );
    ensure!(h.data[0] == 1, "after {:?}: the pool has account type {}", c.act, h.data[0]);
    ensure!(h.bump == env::vault_address(&e.p.pool, &e.p.mint).1, "after {:?}: the pool records vault bump {}", c.act, h.bump);
    let hist = env::hist_tree(pb.bytes());
    ensure!(h.index == hist.last().map_or(0, |x| x.1), "after {:?}: the pool's index is not that of the last distribution", c.act);
    let known = c.ok && matches!(c.exp, Exp::Ok | Exp::May);
    let m = &c.post.m;
    if known {
        let p = e.pool(w);
        ensure!(
            p.total == m.pool.now as i128 && p.avail == m.avail && p.ends == m.ends,
            "after {:?}: the pool decodes to weight {}, undistributed {}, end {}, but the program must act on {}, {}, {}",
            c.act,
            p.total,
            p.avail,
            p.ends,
            m.pool.now,
            m.avail,
            m.ends
        );
    }
    for (i, u) in e.users.iter().enumerate() {
        if !e.has_mining(w, i) {
            continue;
        }
        let a = w.get(&u.mining).unwrap();
        ensure!(a.owner == PID && a.bytes().len() == MINING_LEN, "mining of user {i} has another owner or size");
        read_mining(a.bytes())?;
        program_reads_mining(a.bytes())?;
        let h = mining_head(a.bytes());
        ensure!(h.pool == e.p.pool && h.owner == u.owner, "after {:?}: mining of user {i} names another pool or owner", c.act);
        ensure!(h.data[0] == 2, "after {:?}: mining of user {i} has account type {}", c.act, h.data[0]);
        ensure!(h.bump == env::mining_address(&u.owner, &e.p.pool).1, "after {:?}: mining of user {i} records bump {}", c.act, h.bump);
        if known {
            let r = e.mining(w, i).unwrap();
            ensure!(
                r.own == m.u[i].w.now as i128 && r.sfo == m.u[i].sfo,
                "after {:?}: mining of user {i} decodes to weights {} and {}, but the program must act on {} and {}",
                c.act,
                r.own,
                r.sfo,
                m.u[i].w.now,
                m.u[i].sfo
            );
        }
        if let Some(Ok(x)) = c.post.probe.get(i) {
            ensure!(h.unclaimed <= *x, "after {:?}: mining of user {i} records {} rewards, but {x} can be claimed", c.act, h.unclaimed);
        }
    }
    Ok(())
}

fn keys() -> Vec<Pubkey> {
    let mut v = vec![
        Pubkey::new_from_array([0; 32]),
        Pubkey::new_from_array([255; 32]),
        Pubkey::new_from_array([1; 32]),
        PID,
        spl_token::ID,
        solana_program::sysvar::rent::ID,
        {
            let mut a = [0; 32];
            a[0] = 1;
            Pubkey::new_from_array(a)
        },
        {
            let mut a = [0; 32];
            a[31] = 1;
            Pubkey::new_from_array(a)
        },
    ];
    v.extend((0..24).map(|i| key(&format!("address {i}"))));
    v
}

/// address helpers of the program
pub fn addresses(t: Tier) -> Cases {
    let k = keys();
    let m = if t == Tier::Quick { 12 } else { k.len() };
    let n = k.len() * m;
    let pair = move |i: usize| (k[i / m], k[i % m]);
    let p2 = pair.clone();
    Cases {
        name: "addresses".into(),
        rule: "owners and pools (special and ordinary keys) x all 256 bumps: find_mining_program_address, find_vault_program_address and \
               create_mining_address against the documented seeds"
            .into(),
        n,
        label: Box::new(move |i| format!("{:?}", p2(i))),
        check: Box::new(move |i| {
            let (a, b) = pair(i);
            let m = env::mining_address(&a, &b);
            let v = env::vault_address(&a, &b);
            ensure!(utils::find_mining_program_address(&PID, &a, &b) == m, "find_mining_program_address({a}, {b}) is wrong");
            ensure!(utils::find_vault_program_address(&PID, &a, &b) == v, "find_vault_program_address({a}, {b}) is wrong");
            for bump in 0..=255u8 {
                let want = Pubkey::create_program_address(&[b"mining", a.as_ref(), b.as_ref(), &[bump]], &PID).ok();
                let got = utils::create_mining_address(&PID, &a, &b, bump).ok();
                ensure!(want == got, "create_mining_address({a}, {b}, {bump}) is {got:?} instead of {want:?}");
                ensure!(bump != m.1 || got == Some(m.0), "the address helpers disagree for {a}, {b}");
            }
            // another program
            let o = key("another program");
            ensure!(
                utils::find_mining_program_address(&o, &a, &b) == Pubkey::find_program_address(&[b"mining", a.as_ref(), b.as_ref()], &o)
                    && utils::find_vault_program_address(&o, &a, &b) == Pubkey::find_program_address(&[b"vault", a.as_ref(), b.as_ref()], &o),
                "the address helpers ignore the program id"
            );
            Ok("agree")
        }),
    }
}

/// the tags of account types
pub fn tags(_t: Tier) -> Cases {
    let a = js::ask(&[json!({"kind": "tags", "type": "AccountType"})]);
    Cases {
        name: "tags".into(),
        rule: "the account types: the program's conversions both ways, the Rust client's and the JS client's enumerations".into(),
        n: 3,
        label: Box::new(|i| format!("tag {i}")),
        check: Box::new(move |i| {
            use rewards::types::AccountType as C;
            use state::AccountType as P;
            let b = i as u8;
            let (p, c, n) = [
                (P::Uninitialized, C::Uninitialized, "Uninitialized"),
                (P::RewardPool, C::RewardPool, "RewardPool"),
                (P::Mining, C::Mining, "Mining"),
            ][i].clone();
            let got = P::from(b);
            ensure!(got == p, "tag {i} is {got:?} instead of {p:?}");
            ensure!(u8::from(p.clone()) == b, "{p:?} has tag {}", u8::from(p.clone()));
            ensure!(borsh::BorshSerialize::try_to_vec(&c).ok() == Some(vec![b]), "the Rust client encodes {c:?} differently");
            let want = format!("{n} {b:02x} true");
            ensure!(a[0][i] == want.as_str() && a[0].as_array().map_or(0, |l| l.len()) == 3, "the JS client has account types {} instead of {want}", a[0]);
            Ok(n)
        }),
    }
}

/// accounts with one byte set, read in every way
pub fn bytes(_t: Tier) -> Cases {
    let mut cs: Vec<(bool, Vec<u8>, String)> = vec![];
    for (pool, len) in [(true, PHEAD), (false, MHEAD)] {
        for o in 0..len {
            for x in [1u8, 0x80, 0xff] {
                let mut b = vec![0u8; len];
                b[o] = x;
                cs.push((pool, b, format!("{} with byte {o} = {x:#x}", if pool { "pool" } else { "mining" })));
            }
        }
        cs.push((pool, (0..len).map(|i| (i * 7 + 3) as u8).collect(), format!("{} of distinct bytes", if pool { "pool" } else { "mining" })));
    }
    let q: Vec<Value> = cs
        .iter()
        .flat_map(|(p, b, _)| {
            let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
            let t = if *p { "RewardPool" } else { "Mining" };
            [json!({"kind": "account", "type": t, "data": h}), json!({"kind": "gpa", "type": t, "data": h})]
        })
        .collect();
    let a = js::ask(&q);
    let labels: Vec<String> = cs.iter().map(|c| c.2.clone()).collect();
    Cases {
        name: "bytes".into(),
        rule: "pool and mining headers with each single byte set to 3 values: decoded by the Rust client, the JS client (deserializer and memcmp \
               offsets), the IDL, against the documented offsets"
            .into(),
        n: cs.len(),
        label: Box::new(move |i| labels[i].clone()),
        check: Box::new(move |i| {
            let (pool, b, _) = &cs[i];
            let b = AVec::from(b);
            let b = b.bytes();
            let want = if *pool {
                read_pool(b)?;
                pool_fields(&pool_head(b))
            } else {
                read_mining(b)?;
                mining_fields(&mining_head(b))
            };
            let text = |v: &Value| match v {
                Value::String(s) => s.clone(),
                Value::Array(l) => format!("[{}]", l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
                x => x.to_string(),
            };
            for (who, v) in [("the JS client", &a[2 * i]), ("the JS client (memcmp)", &a[2 * i + 1]["fields"])] {
                for (n, x) in &want {
                    ensure!(text(&v[n]) == *x, "{who} reads {n} as {}, where the layout has {x}", text(&v[n]));
                }
                let n = v.as_object().map_or(0, |o| o.keys().filter(|k| *k != "publicKey" && *k != "wrong").count());
                ensure!(n == want.len(), "{who} knows {n} fields instead of {}", want.len());
            }
            let wrong = a[2 * i]["wrong"].as_str().unwrap_or("deserializer");
            ensure!(wrong.is_empty(), "the JS client is wrong in: {wrong}");
            let len = if *pool { PHEAD } else { MHEAD };
            let mut whole = AVec::zeroed(if *pool { POOL_LEN } else { MINING_LEN });
            whole.bytes_mut()[..len].copy_from_slice(b);
            if *pool {
                program_reads_pool(whole.bytes())?;
            } else if b[MHEAD - 7] < 3 {
                program_reads_mining(whole.bytes())?;
            }
            ensure!(a[2 * i + 1]["size"] == len, "the JS client gives size {}", a[2 * i + 1]["size"]);
            ensure!(a[2 * i + 1]["program"] == PID.to_string(), "the JS client searches another program");
            Ok(if *pool { "pool" } else { "mining" })
        }),
    }
}

/// pools and minings of many keys are created at the documented addresses only
pub fn pdas(t: Tier) -> Cases {
    let n = if t == Tier::Quick { 16 } else { 64 };
    Cases {
        name: "pdas".into(),
        rule: "pools of many keys, created with a mining: the accounts lie at the documented addresses with the recorded canonical bumps".into(),
        n,
        label: Box::new(|i| format!("pool {i}")),
        check: Box::new(|i| {
            let e = env::Env::keys(&format!("pda {i}"), 1, &[]);
            let w = e.start(env::T0, 1000);
            let p = pool_head(w.get(&e.p.pool).ok_or("no pool")?.bytes());
            let m = mining_head(w.get(&e.users[0].mining).ok_or("no mining")?.bytes());
            ensure!(p.bump == env::vault_address(&e.p.pool, &e.p.mint).1, "the pool records bump {}", p.bump);
            ensure!(m.bump == env::mining_address(&e.users[0].owner, &e.p.pool).1, "the mining records bump {}", m.bump);
            ensure!(p.data[0] == 1 && m.data[0] == 2, "account types {} and {}", p.data[0], m.data[0]);
            read_pool(w.get(&e.p.pool).unwrap().bytes())?;
            read_mining(w.get(&e.users[0].mining).unwrap().bytes())?;
            Ok("created")
        }),
    }
}
