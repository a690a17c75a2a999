//! Variants of every explored transition: the same instruction, in the same state, with signatures,
//! accounts, owners or bytes other than it needs. Whatever the history before, an instruction that
//! is not legitimate has to be refused.
use crate::{
    env::*,
    explore::Cx,
    fix::{legit, real_token, signer_positions, TAGS},
    rt::{self, rent, Acct, World},
};
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program};
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        Arc, Mutex, OnceLock,
    },
};

/// variants executed
pub static TRIED: AtomicU64 = AtomicU64::new(0);

type R = Result<(), String>;

/// Other pools next to the one explored: the stakers have minings there too.
struct Near {
    accts: Vec<(Pubkey, Acct)>,
    /// what may be passed instead of an account
    universe: Vec<(String, Pubkey)>,
    /// what may sign instead of a role
    signers: Vec<Pubkey>,
    /// a token account of the mint for each of them
    tokens: HashMap<Pubkey, Pubkey>,
}

fn near(env: &Env) -> Arc<Near> {
    static C: OnceLock<Mutex<HashMap<(usize, Pubkey), Arc<Near>>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    let k = (env.users.len(), env.p.dep);
    if let Some(n) = c.lock().unwrap().get(&k) {
        return n.clone();
    }
    let n = Arc::new(make(env));
    c.lock().unwrap().insert(k, n.clone());
    n
}

fn make(env: &Env) -> Near {
    let mallory = key("mallory");
    let pool = |label: &str| {
        let mut e = env.clone();
        e.p.pool = key(&format!("{label} pool"));
        e.p.vault = vault_address(&e.p.pool, &e.p.mint).0;
        e.p.src = key(&format!("{label} fill source"));
        e.users.truncate(3);
        for u in &mut e.users {
            u.mining = mining_address(&u.owner, &e.p.pool).0;
        }
        e
    };
    // strangers', the attacker's, one with the same authorities, one with another mint
    let mut q = pool("near Q");
    let mut x = pool("near X");
    let s = pool("near S");
    let mut t = pool("near T");
    q.p.dep = key("near Q deposit authority");
    q.p.dist = key("near Q distribute authority");
    q.p.fill = key("near Q fill authority");
    for k in [&mut x.p.dep, &mut x.p.dist, &mut x.p.fill, &mut x.payer] {
        *k = mallory;
    }
    x.users.truncate(1);
    x.users.push(UserK { owner: mallory, mining: mining_address(&mallory, &x.p.pool).0, token: key("mallory token") });
    t.p.mint = key("near mint two");
    t.p.vault = vault_address(&t.p.pool, &t.p.mint).0;
    for (i, u) in t.users.iter_mut().enumerate() {
        u.token = key(&format!("near token two {i}"));
    }
    let t0 = T0 - T0 % DAY - 2 * DAY;
    let mut w = World::new(t0 as i64);
    w.accts.insert(mallory, sys_acct(1_000_000_000_000));
    // outside the pool explored, but in it too: a mining of mallory
    env.add_accounts(&mut w, 0);
    let pools = [("Q", &q), ("X", &x), ("S", &s), ("T", &t)];
    for (_, e) in pools {
        e.add_accounts(&mut w, 1_000_000);
    }
    for (_, e) in pools {
        w = e.setup(w);
        w = must(&w, &[e.fill(10_000, t0 + 40 * DAY)], "fill");
        w = must(&w, &[e.deposit(0, 5000, 1, 1)], "deposit");
        w = must(&w, &[e.deposit(1, 700, 2, 1)], "deposit");
        w = must(&w, &[e.distribute()], "distribute");
    }
    let mut universe: Vec<(String, Pubkey)> = vec![];
    let mut signers = vec![mallory, key("nobody"), env.payer, env.p.dep, env.p.dist, env.p.fill, env.p.pool, q.p.dep, q.p.dist, q.p.fill];
    let mut keep: Vec<Pubkey> = vec![];
    for (l, e) in pools {
        for (n, k) in [("pool", e.p.pool), ("vault", e.p.vault), ("source", e.p.src)] {
            universe.push((format!("{l}.{n}"), k));
            keep.push(k);
        }
        for (i, u) in e.users.iter().enumerate() {
            universe.push((format!("{l}.mining({i})"), u.mining));
            keep.extend([u.mining, u.token, u.owner]);
        }
    }
    let p = &env.p;
    for (l, k) in [("pool", p.pool), ("vault", p.vault), ("source", p.src), ("mint", p.mint), ("deposit_authority", p.dep), ("distribute_authority", p.dist), ("fill_authority", p.fill)] {
        universe.push((l.into(), k));
    }
    universe.push(("mint two".into(), t.p.mint));
    keep.push(t.p.mint);
    for (i, u) in env.users.iter().enumerate() {
        universe.push((format!("owner({i})"), u.owner));
        universe.push((format!("mining({i})"), u.mining));
        universe.push((format!("token({i})"), u.token));
        if let Some(u) = t.users.get(i) {
            universe.push((format!("token two({i})"), u.token));
        }
        signers.push(u.owner);
    }
    let fresh = |l: &str| mining_address(&key(l), &p.pool).0;
    universe.push(("mining(nobody)".into(), fresh("nobody")));
    for (l, len) in [("near zero mining", MINING_LEN), ("near zero pool", POOL_LEN), ("near zero", 0)] {
        w.accts.insert(key(l), Acct::new(rent().minimum_balance(len), PID, &vec![0u8; len]));
        keep.push(key(l));
        universe.push((l.into(), key(l)));
    }
    // of another program
    let evil = key("evil program");
    let copy = |a: &Acct| Acct::new(a.lamports, evil, a.bytes());
    let (fp, fm, ft) = (copy(w.get(&x.p.pool).unwrap()), copy(w.get(&s.users[0].mining).unwrap()), token_acct(&p.mint, &mallory, 1 << 40));
    w.accts.insert(key("near forged pool"), fp);
    w.accts.insert(key("near forged mining"), fm);
    w.accts.insert(key("near forged token"), copy(&ft));
    for l in ["near forged pool", "near forged mining", "near forged token"] {
        keep.push(key(l));
        universe.push((l.into(), key(l)));
    }
    keep.push(mallory);
    universe.extend([("mallory".into(), mallory), ("mallory token".into(), key("mallory token")), ("payer".into(), env.payer), ("target".into(), env.target)]);
    universe.extend([("rewards program".into(), PID), ("token program".into(), spl_token::ID), ("system program".into(), system_program::ID)]);
    signers.sort();
    signers.dedup();
    let mut tokens = HashMap::new();
    for k in &signers {
        let t = key(&format!("near token of {k}"));
        w.accts.insert(t, token_acct(&p.mint, k, 1 << 40));
        keep.push(t);
        tokens.insert(*k, t);
    }
    let mut seen = vec![];
    universe.retain(|x| {
        let n = !seen.contains(&x.1);
        seen.push(x.1);
        n
    });
    let own: Vec<Pubkey> = env.users.iter().flat_map(|u| [u.owner, u.mining, u.token]).chain([p.mint, p.dep, p.dist, p.fill, p.src, p.vault, p.pool, env.payer, env.target]).collect();
    keep.retain(|k| !own.contains(k));
    keep.sort();
    keep.dedup();
    let accts = keep.into_iter().filter_map(|k| w.get(&k).map(|a| (k, a.clone()))).collect();
    Near { accts, universe, signers, tokens }
}

struct At<'a> {
    cx: &'a Cx<'a>,
    near: Arc<Near>,
    w: World,
    ix: Instruction,
    lamports: u128,
}

fn lamports(w: &World) -> u128 {
    w.accts.values().map(|a| a.lamports as u128).sum()
}

fn at<'a>(cx: &'a Cx<'a>) -> Vec<At<'a>> {
    let Some(ix) = cx.act.ix(cx.env, &cx.pre.m) else { return vec![] };
    let near = near(cx.env);
    let mut w = cx.pre.w.clone();
    for (k, a) in &near.accts {
        w.accts.entry(*k).or_insert_with(|| a.clone());
    }
    let mut ws = vec![w];
    if ix.data[0] == tag::INIT_MINING {
        // somebody has paid for the new account before
        for n in [1, rent().minimum_balance(MINING_LEN), 5_000_000_000] {
            let mut w = ws[0].clone();
            w.give(&ix.accounts[1].pubkey, n);
            ws.push(w);
        }
    }
    ws.into_iter().map(|w| At { cx, near: near.clone(), lamports: lamports(&w), w, ix: ix.clone() }).collect()
}
/// all variants of the transition, in each of the worlds it is looked at
fn each(cx: &Cx, f: fn(&At) -> R) -> R {
    at(cx).iter().try_for_each(f)
}
pub fn signatures(cx: &Cx) -> R {
    each(cx, signatures_)
}
pub fn accounts(cx: &Cx) -> R {
    each(cx, accounts_)
}
pub fn bytes(cx: &Cx) -> R {
    each(cx, bytes_)
}

impl At<'_> {
    fn name(&self, k: &Pubkey) -> String {
        if let Some(i) = self.near.signers.iter().position(|s| self.near.tokens[s] == *k) {
            return format!("token of {}", self.name(&self.near.signers[i]));
        }
        self.near.universe.iter().find(|x| x.1 == *k).map_or_else(|| k.to_string(), |x| x.0.clone())
    }
    fn show(&self, ix: &Instruction) -> String {
        let a: Vec<String> = ix.accounts.iter().map(|m| format!("{}{}", self.name(&m.pubkey), if m.is_signer { "*" } else { "" })).collect();
        let hex: String = ix.data.iter().skip(1).map(|b| format!("{b:02x}")).collect();
        format!("{}({hex}) {}", ix.data.first().and_then(|t| TAGS.get(*t as usize)).unwrap_or(&"?"), a.join(", "))
    }
    /// a claim of nothing moves no tokens and so does not look at the token account
    fn harmless(&self, post: &World, ix: &Instruction) -> bool {
        if ix.data[0] != tag::CLAIM {
            return false;
        }
        let Some(t) = real_token(&self.w, &ix.accounts[6].pubkey) else { return false };
        if t.owner != ix.accounts[4].pubkey {
            return false;
        }
        let mut j = ix.clone();
        let Some(k) = self.near.tokens.get(&t.owner) else { return false };
        j.accounts[6].pubkey = *k;
        legit(&self.w, &j) && self.w.diff(post).iter().all(|k| *k == ix.accounts[3].pubkey || *k == ix.accounts[0].pubkey)
    }
    fn judge(&self, ix: &Instruction, what: &str) -> R {
        if legit(&self.w, ix) {
            return Ok(());
        }
        TRIED.fetch_add(1, Relaxed);
        match rt::exec(&self.w, std::slice::from_ref(ix)) {
            Err(_) => Ok(()),
            Ok((w, _)) => {
                if lamports(&w) != self.lamports {
                    return Err(format!("instead of {:?}: lamports created or lost: {}", self.cx.act, self.show(ix)));
                }
                if self.harmless(&w, ix) {
                    return Ok(());
                }
                Err(format!("instead of {:?}: accepted with wrong {what}: {}", self.cx.act, self.show(ix)))
            }
        }
    }
}

/// Every subset of the signatures missing; every other key in each signing role, with its signature.
fn signatures_(a: &At) -> R {
    let pos = signer_positions(a.ix.data[0]);
    for miss in 1..1u32 << pos.len() {
        let mut ix = a.ix.clone();
        for (n, p) in pos.iter().enumerate() {
            if miss >> n & 1 == 1 {
                ix.accounts[*p].is_signer = false;
            }
        }
        a.judge(&ix, "signatures")?;
    }
    for p in pos {
        for k in &a.near.signers {
            let mut ix = a.ix.clone();
            ix.accounts[*p].pubkey = *k;
            a.judge(&ix, "signatures")?;
            let tok = match ix.data[0] {
                tag::FILL => 4,
                tag::CLAIM => 6,
                _ => continue,
            };
            ix.accounts[tok].pubkey = a.near.tokens[k];
            a.judge(&ix, "signatures")?;
        }
    }
    // one key everywhere
    if pos.len() > 1 {
        for k in &a.near.signers {
            let mut ix = a.ix.clone();
            for p in pos {
                ix.accounts[*p].pubkey = *k;
            }
            a.judge(&ix, "signatures")?;
        }
    }
    Ok(())
}

/// Every account replaced by every other, everything signed and writable; the owners named in the
/// arguments replaced by other stakers, alone and together with one account.
fn accounts_(a: &At) -> R {
    let mut base = a.ix.clone();
    for m in base.accounts.iter_mut() {
        m.is_writable = true;
    }
    let args = crate::attack::key_args(base.data[0]);
    let owners: Vec<Pubkey> = a.cx.env.users.iter().map(|u| u.owner).chain([key("nobody")]).collect();
    let mut bases = vec![base.clone()];
    for o in args {
        for k in &owners {
            let mut ix = base.clone();
            ix.data[*o..*o + 32].copy_from_slice(k.as_ref());
            if ix.data != base.data {
                a.judge(&ix, "accounts")?;
                bases.push(ix);
            }
        }
    }
    for (n, b) in bases.iter().enumerate() {
        for p in 0..b.accounts.len() {
            for (_, k) in &a.near.universe {
                // with another owner only accounts that could be the owner's
                if *k == b.accounts[p].pubkey || (n > 0 && a.w.get(k).map_or(true, |x| x.owner != PID)) {
                    continue;
                }
                let mut ix = b.clone();
                ix.accounts[p].pubkey = *k;
                a.judge(&ix, "accounts")?;
            }
        }
    }
    Ok(())
}

/// Bytes missing or left over, accounts missing, accounts of other programs or cut short.
fn bytes_(a: &At) -> R {
    let t = a.ix.data[0];
    let refused = |w: &World, ix: &Instruction, what: &dyn Fn() -> String| -> R {
        TRIED.fetch_add(1, Relaxed);
        match rt::exec(w, std::slice::from_ref(ix)) {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("instead of {:?}: accepted {}: {}", a.cx.act, what(), a.show(ix))),
        }
    };
    for k in 0..a.ix.data.len() {
        let mut ix = a.ix.clone();
        ix.data.truncate(k);
        refused(&a.w, &ix, &|| format!("truncated to {k} bytes"))?;
    }
    for extra in [vec![0u8], vec![1], vec![0; 8], vec![255; 32]] {
        let mut ix = a.ix.clone();
        ix.data.extend(&extra);
        refused(&a.w, &ix, &|| format!("followed by {} bytes", extra.len()))?;
    }
    for v in [12u8, 13, 127, 128, 255] {
        let mut ix = a.ix.clone();
        ix.data[0] = v;
        refused(&a.w, &ix, &|| format!("with tag {v}"))?;
    }
    for o in match t {
        tag::DEPOSIT => &[9usize][..],
        tag::EXTEND => &[1, 2],
        _ => &[],
    } {
        for v in [5u8, 6, 7, 63, 64, 127, 128, 254, 255] {
            let mut ix = a.ix.clone();
            ix.data[*o] = v;
            refused(&a.w, &ix, &|| format!("with lockup period {v}"))?;
        }
    }
    for k in 0..a.ix.accounts.len() {
        let mut ix = a.ix.clone();
        ix.accounts.remove(k);
        refused(&a.w, &ix, &|| format!("without account {k}"))?;
        let mut ix = a.ix.clone();
        ix.accounts.truncate(k);
        refused(&a.w, &ix, &|| format!("with the first {k} accounts"))?;
    }
    let mut own = crate::attack::owners(t);
    if t == tag::CLAIM {
        let nothing = matches!(rt::exec(&a.w, std::slice::from_ref(&a.ix)), Ok((_, Some(r))) if r == 0u64.to_le_bytes());
        if nothing {
            own[2] = ' ';
            own[6] = ' ';
        }
    }
    for (pos, kind) in own.iter().enumerate() {
        if *kind == ' ' {
            continue;
        }
        let k = a.ix.accounts[pos].pubkey;
        let Some(acct) = a.w.get(&k) else { continue };
        let put = |b: Acct, what: String| -> R {
            let mut w = a.w.clone();
            w.accts.insert(k, b);
            refused(&w, &a.ix, &|| what.clone())
        };
        for o in [key("evil program"), system_program::ID, spl_token::ID, PID, Pubkey::default()] {
            if o != acct.owner {
                let mut b = acct.clone();
                b.owner = o;
                put(b, format!("with account {pos} owned by {o}"))?;
            }
        }
        let full = acct.bytes().len();
        if matches!(kind, 'p' | 'm' | 't') {
            let head = if *kind == 'p' { PHEAD } else { MHEAD };
            for c in [0, 1, 32, 72, head - 1, head, head + 1, full / 2, full.saturating_sub(8), full.saturating_sub(1)] {
                if c < full {
                    put(Acct::new(acct.lamports, acct.owner, &acct.bytes()[..c]), format!("with account {pos} cut to {c} bytes"))?;
                }
            }
        }
    }
    Ok(())
}
