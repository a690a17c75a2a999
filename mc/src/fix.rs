//! Worlds with several pools, honest and hostile, for the enumerations over accounts and signers.
use crate::{
    env::*,
    model::Per,
    rt::{rent, Acct, World},
};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    program_pack::Pack,
    pubkey::Pubkey,
    system_program, sysvar,
};

#[derive(Clone)]
pub struct Fx {
    pub name: &'static str,
    pub w: World,
    /// the victim pool: alice, bob, carol, mallory, erin (erin's mining is empty)
    pub p: Env,
    /// another honest pool with the same mint: alice, bob, mallory
    pub q: Env,
    /// an honest pool with another mint: alice
    pub n: Env,
    /// mallory's own pool, same mint: alice, mallory
    pub x: Env,
    /// a pool with the authorities and the mint of P: alice, bob
    pub s: Env,
    /// a pool with the authorities of P and another mint: alice
    pub t: Env,
}
impl Fx {
    pub fn pools(&self) -> [(&'static str, &Env); 6] {
        [("P", &self.p), ("Q", &self.q), ("N", &self.n), ("X", &self.x), ("S", &self.s), ("T", &self.t)]
    }
}

pub const ALICE: usize = 0;
pub const BOB: usize = 1;
pub const CAROL: usize = 2;
pub const MALLORY: usize = 3;
pub const ERIN: usize = 4;

pub fn mallory() -> Pubkey {
    key("mallory")
}
pub fn evil_program() -> Pubkey {
    key("evil program")
}

fn envs() -> [Env; 6] {
    let p = Env::keys("P", 5, &["alice", "bob", "carol", "mallory", "erin"]);
    let q = Env::keys("Q", 3, &["alice", "bob", "mallory"]);
    let mut n = Env::keys("N", 1, &["alice"]);
    n.p.mint = key("mint two");
    n.p.vault = vault_address(&n.p.pool, &n.p.mint).0;
    n.users[0].token = key("alice token two");
    let mut x = Env::keys("X", 2, &["alice", "mallory"]);
    x.p.dep = mallory();
    x.p.dist = mallory();
    x.p.fill = mallory();
    x.p.src = key("mallory source");
    x.payer = mallory();
    let mut s = Env::keys("S", 2, &["alice", "bob"]);
    let mut t = Env::keys("T", 1, &["alice"]);
    t.p.mint = n.p.mint;
    t.p.vault = vault_address(&t.p.pool, &t.p.mint).0;
    t.users[0].token = n.users[0].token;
    for e in [&mut s, &mut t] {
        e.p.dep = p.p.dep;
        e.p.dist = p.p.dist;
        e.p.fill = p.p.fill;
    }
    [p, q, n, x, s, t]
}

/// keys that are tried in every signing role; each has a token account of P's mint
pub fn roles() -> Vec<Pubkey> {
    let [p, q, n, _, _, _] = envs();
    let mut v = vec![];
    for e in [&p, &q, &n] {
        v.extend([e.p.dep, e.p.dist, e.p.fill]);
    }
    v.extend(["alice", "bob", "carol", "erin", "mallory", "payer", "target", "nobody"].iter().map(|l| key(l)));
    v.push(p.p.pool);
    v.push(Pubkey::default());
    v
}
/// the token account of P's mint that belongs to a key
pub fn token_of(k: &Pubkey) -> Pubkey {
    key(&format!("token of {k}"))
}


pub const FIX_DAYS: u64 = 3;

/// the stations the enumerations start from
pub fn fixtures() -> Vec<Fx> {
    let [p, q, n, x, s, t] = envs();
    let all = [&p, &q, &n, &x, &s, &t];
    let mut w = World::new(T0 as i64);
    for e in all {
        e.add_accounts(&mut w, 1_000_000_000);
    }
    for k in roles() {
        w.accts.insert(token_of(&k), token_acct(&p.p.mint, &k, 100_000));
    }
    w.accts.insert(key("fill token two"), token_acct(&n.p.mint, &p.p.fill, 100_000));
    w.accts.insert(key("depositor token two"), token_acct(&n.p.mint, &p.p.dep, 100_000));
    w.accts.insert(key("mint three"), mint_acct(7));
    w.accts.insert(key("alice token two b"), token_acct(&n.p.mint, &key("alice"), 0));
    w.accts.insert(key("bob token two"), token_acct(&n.p.mint, &key("bob"), 0));
    w.accts.insert(key("mallory token b"), token_acct(&p.p.mint, &mallory(), 500));
    for (l, a) in odd_tokens() {
        w.accts.insert(key(l), a);
    }
    // accounts anybody can create: owned by the program, all zero
    for (l, len) in zeroed() {
        w.accts.insert(key(l), Acct::new(rent().minimum_balance(len), PID, &vec![0u8; len]));
    }
    for e in all {
        w = e.setup(w);
    }
    let mut v = vec![];
    let mk = |name, w: &World| {
        let mut w = w.clone();
        forge(&mut w, &p, &x);
        Fx { name, w, p: p.clone(), q: q.clone(), n: n.clone(), x: x.clone(), s: s.clone(), t: t.clone() }
    };
    v.push(mk("fresh", &w));
    for e in all {
        w = must(&w, &[e.fill(1_000_000, T0 + 30 * DAY)], "fill");
    }
    let (m3, y1, fl) = (Per::M3.lp(), Per::Y1.lp(), Per::Flex.lp());
    let empty = w.clone();
    for ix in [
        p.deposit(ALICE, 1000, m3, ALICE),
        p.deposit(ALICE, 300, fl, BOB),
        p.deposit(BOB, 2000, y1, CAROL),
        p.deposit(CAROL, 50, fl, CAROL),
        p.deposit(MALLORY, 400, fl, MALLORY),
        q.deposit(0, 700, m3, 0),
        q.deposit(1, 70, fl, 0),
        q.deposit(2, 10, fl, 2),
        n.deposit(0, 900, m3, 0),
        x.deposit(1, 5000, fl, 0),
        x.deposit(0, 5, y1, 0),
        s.deposit(0, 600, fl, 1),
        s.deposit(1, 60, m3, 1),
        t.deposit(0, 500, fl, 0),
    ] {
        w = must(&w, &[ix], "deposit");
    }
    v.push(mk("staked", &w));
    for d in 1..=FIX_DAYS {
        w.now = (T0 + d * DAY) as i64;
        for e in all {
            w = must(&w, &[e.distribute()], "distribute");
        }
    }
    v.push(mk("distributed", &w));
    // pools with a past but no stake at the moment
    let mut c = empty;
    for e in all {
        c = must(&c, &[e.deposit(0, 1000, fl, 0)], "deposit");
    }
    for d in 1..=FIX_DAYS {
        c.now = (T0 + d * DAY) as i64;
        for e in all {
            c = must(&c, &[e.distribute()], "distribute");
        }
    }
    for e in all {
        c = must(&c, &[e.withdraw(0, 1000, 0)], "withdraw");
    }
    v.push(mk("idle", &c));
    let mut c = w.clone();
    for u in [ALICE, BOB, CAROL, MALLORY] {
        c = must(&c, &[p.claim(u)], "claim");
    }
    c = must(&c, &[p.decrease(BOB, 700)], "penalty");
    c = must(&c, &[p.slash(ALICE, 100, 200, Some(T0 + 90 * DAY))], "slash");
    c.now += 100 * DAY as i64;
    c = must(&c, &[p.distribute()], "distribute");
    c = must(&c, &[p.withdraw(ALICE, 900, ALICE)], "withdraw");
    c = must(&c, &[p.close(ERIN)], "close");
    v.push(mk("later", &c));
    v
}

/// token accounts whose owner is one person while others hold some other right over them
fn odd_tokens() -> Vec<(&'static str, Acct)> {
    use solana_program::program_option::COption;
    use spl_token::state::{Account, AccountState};
    let mk = |owner: &str, f: &dyn Fn(&mut Account)| {
        let a = token_acct(&key("mint"), &key(owner), 40);
        let mut t = Account::unpack(a.bytes()).unwrap();
        f(&mut t);
        let mut d = a.bytes().to_vec();
        t.pack_into_slice(&mut d);
        Acct::new(a.lamports, a.owner, &d)
    };
    vec![
        ("bob token closable by alice", mk("bob", &|t| t.close_authority = COption::Some(key("alice")))),
        (
            "bob token lent to alice",
            mk("bob", &|t| {
                t.delegate = COption::Some(key("alice"));
                t.delegated_amount = 40;
            }),
        ),
        (
            "mallory token lent to all",
            mk("mallory", &|t| {
                t.delegate = COption::Some(key("alice"));
                t.close_authority = COption::Some(key("alice"));
                t.delegated_amount = u64::MAX;
            }),
        ),
        ("alice token closable by mallory", mk("alice", &|t| t.close_authority = COption::Some(mallory()))),
        ("alice token frozen", mk("alice", &|t| t.state = AccountState::Frozen)),
        ("fill source closable by mallory", {
            let a = token_acct(&key("mint"), &key("P fill authority"), 5000);
            let mut t = Account::unpack(a.bytes()).unwrap();
            t.close_authority = COption::Some(mallory());
            let mut d = a.bytes().to_vec();
            t.pack_into_slice(&mut d);
            Acct::new(a.lamports, a.owner, &d)
        }),
    ]
}

fn zeroed() -> [(&'static str, usize); 4] {
    [("zero 0", 0), ("zero mining", MINING_LEN), ("zero pool", POOL_LEN), ("zero head", PHEAD)]
}

/// accounts of a hostile program, imitating real ones
fn forge(w: &mut World, p: &Env, x: &Env) {
    let fake = |b: &[u8], f: &dyn Fn(&mut Vec<u8>)| {
        let mut d = b.to_vec();
        f(&mut d);
        Acct::new(rent().minimum_balance(d.len()), evil_program(), &d)
    };
    let pool = w.get(&p.p.pool).unwrap().bytes().to_vec();
    let mal = mallory();
    let a = fake(&pool, &|d| {
        for i in 0..3 {
            d[i * 32..i * 32 + 32].copy_from_slice(mal.as_ref())
        }
    });
    w.accts.insert(key("forged pool"), a);
    let m = w.get(&p.users[MALLORY].mining).unwrap().bytes().to_vec();
    let a = fake(&m, &|d| d[120..128].copy_from_slice(&900u64.to_le_bytes()));
    w.accts.insert(key("forged mining"), a);
    let t = token_acct(&p.p.mint, &mal, 1 << 40);
    let a = fake(t.bytes(), &|_| {});
    w.accts.insert(key("forged token"), a);
    let _ = x;
}

/// every account worth passing in somebody else's place
pub fn universe(f: &Fx) -> Vec<(String, Pubkey)> {
    let mut v: Vec<(String, Pubkey)> = vec![];
    for (l, e) in f.pools() {
        v.push((format!("{l}.pool"), e.p.pool));
        v.push((format!("{l}.vault"), e.p.vault));
        v.push((format!("{l}.source"), e.p.src));
        if !matches!(l, "X" | "S" | "T") {
            v.push((format!("{l}.deposit_authority"), e.p.dep));
            v.push((format!("{l}.distribute_authority"), e.p.dist));
            v.push((format!("{l}.fill_authority"), e.p.fill));
        }
        let names: &[&str] = match l {
            "P" => &["alice", "bob", "carol", "mallory", "erin"],
            "Q" => &["alice", "bob", "mallory"],
            "X" => &["alice", "mallory"],
            "S" => &["alice", "bob"],
            _ => &["alice"],
        };
        for (i, u) in e.users.iter().enumerate() {
            v.push((format!("{l}.mining({})", names[i]), u.mining));
        }
    }
    v.push(("P.mining(nobody)".into(), mining_address(&key("nobody"), &f.p.p.pool).0));
    v.push(("mint".into(), f.p.p.mint));
    v.push(("mint two".into(), f.n.p.mint));
    v.push(("mint three".into(), key("mint three")));
    for l in ["alice token", "bob token", "mallory token", "alice token two", "bob token two", "mallory token b"] {
        v.push((l.into(), key(l)));
    }
    for (l, _) in odd_tokens() {
        v.push((l.into(), key(l)));
    }
    v.push(("token of P.deposit_authority".into(), token_of(&f.p.p.dep)));
    v.push(("token of P.fill_authority".into(), token_of(&f.p.p.fill)));
    v.push(("token two of P.deposit_authority".into(), key("depositor token two")));
    v.push(("token two of P.fill_authority".into(), key("fill token two")));
    for (l, _) in zeroed() {
        v.push((l.into(), key(l)));
    }
    for l in ["forged pool", "forged mining", "forged token"] {
        v.push((l.into(), key(l)));
    }
    for l in ["alice", "bob", "carol", "mallory", "erin", "nobody", "payer", "target"] {
        v.push((l.into(), key(l)));
    }
    v.push(("rewards program".into(), PID));
    v.push(("token program".into(), spl_token::ID));
    v.push(("system program".into(), system_program::ID));
    v
}

pub fn name_of(f: &Fx, k: &Pubkey) -> String {
    if *k == sysvar::rent::ID {
        return "rent sysvar".into();
    }
    universe(f).into_iter().find(|x| x.1 == *k).map(|x| x.0).unwrap_or_else(|| k.to_string())
}

pub const TAGS: [&str; 12] = [
    "InitializePool",
    "FillVault",
    "InitializeMining",
    "DepositMining",
    "WithdrawMining",
    "Claim",
    "ExtendStake",
    "DistributeRewards",
    "CloseMining",
    "ChangeDelegate",
    "Slash",
    "DecreaseRewards",
];

/// An empty pool account of the given creator, ready to be initialised.
pub fn new_pool_env(f: &Fx) -> Env {
    let mut e = f.p.clone();
    e.p.pool = key("zero pool");
    e.p.vault = vault_address(&e.p.pool, &e.p.mint).0;
    e
}

/// every instruction in legitimate form on P, several argument choices each
pub fn templates(f: &Fx) -> Vec<Instruction> {
    let p = &f.p;
    let now = f.w.now as u64;
    let (m3, y1, fl) = (Per::M3.lp(), Per::Y1.lp(), Per::Flex.lp());
    let exp = T0 - T0 % DAY + 90 * DAY;
    let mut mining_new = p.init_mining(ALICE);
    let nobody = key("nobody");
    mining_new.data = Enc::new(tag::INIT_MINING).key(&nobody).0;
    mining_new.accounts[1].pubkey = mining_address(&nobody, &p.p.pool).0;
    vec![
        new_pool_env(f).init_pool(),
        mining_new,
        p.fill(77, now + 40 * DAY),
        p.distribute(),
        p.deposit(ALICE, 10, m3, ALICE),
        p.deposit(ALICE, 10, fl, BOB),
        p.deposit(ALICE, 0, y1, BOB),
        p.withdraw(ALICE, 20, BOB),
        p.withdraw(CAROL, 20, CAROL),
        p.withdraw(CAROL, 0, CAROL),
        p.claim(ALICE),
        p.claim(MALLORY),
        p.extend(ALICE, m3, y1, T0, 1000, 5, ALICE),
        p.extend(ALICE, fl, m3, T0, 300, 0, BOB),
        p.extend(ALICE, fl, m3, T0, 0, 0, ALICE),
        p.close(ERIN),
        p.close(CAROL),
        p.change_delegate(ALICE, BOB, ALICE, 300),
        p.change_delegate(ALICE, BOB, CAROL, 300),
        p.change_delegate(ALICE, ALICE, BOB, 10),
        p.change_delegate(ALICE, ALICE, BOB, 0),
        p.slash(ALICE, 10, 20, Some(exp)),
        p.slash(ALICE, 10, 10, None),
        p.slash(ALICE, 0, 0, None),
        p.decrease(ALICE, 5),
        p.decrease(ALICE, 0),
        p.decrease(BOB, u64::MAX),
        // a pool all of whose authorities are one key, which is a staker too
        f.x.fill(77, now + 40 * DAY),
        f.x.claim(1),
        f.x.change_delegate(1, 0, 1, 5000),
    ]
}

/// what mallory may run on her own pool, and her attempts on P
pub fn hostile(f: &Fx) -> Vec<Instruction> {
    let (p, x) = (&f.p, &f.x);
    let now = f.w.now as u64;
    let (m3, y1, fl) = (Per::M3.lp(), Per::Y1.lp(), Per::Flex.lp());
    let mut np = new_pool_env(f);
    np.payer = mallory();
    np.p.dep = mallory();
    np.p.dist = mallory();
    np.p.fill = mallory();
    let mut im = x.init_mining(1);
    im.accounts[2].pubkey = mallory();
    let mut c = x.close(1);
    c.accounts[2].pubkey = key("target");
    let mut v = vec![
        np.init_pool(),
        im,
        x.fill(77, now + 40 * DAY),
        x.distribute(),
        x.deposit(1, 10, m3, 1),
        x.deposit(1, 10, fl, 0),
        x.deposit(0, 10, fl, 0),
        x.withdraw(1, 20, 0),
        x.claim(1),
        x.extend(1, fl, y1, T0, 5000, 5, 0),
        c,
        x.change_delegate(1, 0, 1, 5000),
        x.slash(1, 10, 10, None),
        x.slash(0, 1, 1, None),
        x.decrease(1, 5),
        x.decrease(0, 1),
    ];
    // on P, with mallory in every signing role
    for mut ix in templates(f) {
        for a in ix.accounts.iter_mut() {
            if a.is_signer {
                a.pubkey = mallory();
            }
        }
        v.push(ix);
    }
    for ix in [p.claim(MALLORY), p.close(MALLORY), p.deposit(MALLORY, 1000, y1, MALLORY), p.change_delegate(MALLORY, MALLORY, BOB, 400)] {
        v.push(ix);
    }
    v
}

pub struct Args<'a>(pub &'a [u8]);
impl Args<'_> {
    pub fn u64(&mut self) -> Option<u64> {
        let v = u64::from_le_bytes(self.0.get(..8)?.try_into().ok()?);
        self.0 = &self.0[8..];
        Some(v)
    }
    pub fn u8(&mut self) -> Option<u8> {
        let v = *self.0.first()?;
        self.0 = &self.0[1..];
        Some(v)
    }
    pub fn key(&mut self) -> Option<Pubkey> {
        let v = Pubkey::new_from_array(self.0.get(..32)?.try_into().ok()?);
        self.0 = &self.0[32..];
        Some(v)
    }
}

pub fn real_pool(w: &World, k: &Pubkey) -> Option<PoolHead> {
    let a = w.get(k)?;
    if a.owner != PID || a.bytes().len() != POOL_LEN {
        return None;
    }
    let h = pool_head(a.bytes());
    (h.data[0] == 1).then_some(h)
}
pub fn real_mining(w: &World, k: &Pubkey) -> Option<MiningHead> {
    let a = w.get(k)?;
    if a.owner != PID || a.bytes().len() != MINING_LEN {
        return None;
    }
    let h = mining_head(a.bytes());
    (h.data[0] == 2 && mining_address_cached(&h.owner, &h.pool) == *k).then_some(h)
}
pub fn real_token(w: &World, k: &Pubkey) -> Option<spl_token::state::Account> {
    let a = w.get(k)?;
    if a.owner != spl_token::ID {
        return None;
    }
    spl_token::state::Account::unpack(a.bytes()).ok()
}
fn absent(w: &World, k: &Pubkey) -> bool {
    // anybody may have sent lamports there
    w.get(k).map_or(true, |a| a.owner == system_program::ID && a.bytes().is_empty())
}
fn system(w: &World, k: &Pubkey) -> bool {
    w.get(k).map_or(true, |a| a.owner == system_program::ID)
}

thread_local! {
    static PDA: std::cell::RefCell<std::collections::HashMap<(u8, Pubkey, Pubkey), Pubkey>> = Default::default();
}
fn pda(kind: u8, a: &Pubkey, b: &Pubkey) -> Pubkey {
    PDA.with(|c| {
        *c.borrow_mut().entry((kind, *a, *b)).or_insert_with(|| if kind == 0 { mining_address(a, b).0 } else { vault_address(a, b).0 })
    })
}
pub fn mining_address_cached(owner: &Pubkey, pool: &Pubkey) -> Pubkey {
    pda(0, owner, pool)
}
pub fn vault_address_cached(pool: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda(1, pool, mint)
}

/// What the properties allow: every account in its role, bound together, with the signatures the
/// operation needs. (Amounts and dates are not judged here.)
pub fn legit(w: &World, ix: &Instruction) -> bool {
    legit_(w, ix).unwrap_or(false)
}
fn legit_(w: &World, ix: &Instruction) -> Option<bool> {
    let mut d = Args(&ix.data);
    let t = d.u8()?;
    let a: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
    // a key that signs anywhere in a transaction signs everywhere
    let sg = |i: usize| ix.accounts.iter().any(|m| m.pubkey == a[i] && m.is_signer);
    // whoever signs as payer can only pay from an account of the system program, if there is something to pay
    let pays = |i: usize, new: usize, len: usize| system(w, &a[i]) || w.get(&a[new]).map_or(false, |x| x.lamports >= rent().minimum_balance(len));
    let tok = |i: usize| a[i] == spl_token::ID;
    let sys = |i: usize| a[i] == system_program::ID;
    let staking = |owner: Pubkey, delegate: Pubkey| -> Option<bool> {
        let p = real_pool(w, &a[0])?;
        let m = real_mining(w, &a[1])?;
        let d = real_mining(w, &a[3])?;
        Some(p.dep == a[2] && sg(2) && m.owner == owner && m.pool == a[0] && (a[3] == a[1] || (d.owner == delegate && d.pool == a[0])))
    };
    let penal = |owner: Pubkey| -> Option<bool> {
        let p = real_pool(w, &a[1])?;
        let m = real_mining(w, &a[2])?;
        Some(p.dep == a[0] && sg(0) && m.owner == owner && m.pool == a[1])
    };
    Some(match t {
        tag::INIT_POOL => {
            let pa = w.get(&a[0])?;
            let mint = w.get(&a[1])?;
            pa.owner == PID
                && pa.bytes().len() == POOL_LEN
                && pa.bytes().iter().all(|b| *b == 0)
                && mint.owner == spl_token::ID
                && spl_token::state::Mint::unpack(mint.bytes()).is_ok()
                && a[2] == vault_address_cached(&a[0], &a[1])
                && absent(w, &a[2])
                && sg(3)
                && pays(3, 2, spl_token::state::Account::LEN)
                && sg(4)
                && a[5] == sysvar::rent::ID
                && tok(6)
                && sys(7)
        }
        tag::FILL => {
            let p = real_pool(w, &a[0])?;
            let s = real_token(w, &a[4])?;
            a[1] == p.mint && a[2] == vault_address_cached(&a[0], &a[1]) && a[3] == p.fill && sg(3) && s.mint == p.mint && s.owner == a[3] && a[4] != a[2] && tok(5)
        }
        tag::INIT_MINING => {
            real_pool(w, &a[0])?;
            let o = d.key()?;
            a[1] == mining_address_cached(&o, &a[0]) && absent(w, &a[1]) && sg(2) && pays(2, 1, MINING_LEN) && sys(3)
        }
        tag::DEPOSIT => {
            let (_, _) = (d.u64()?, d.u8()?);
            staking(d.key()?, d.key()?)?
        }
        tag::WITHDRAW => {
            d.u64()?;
            staking(d.key()?, d.key()?)?
        }
        tag::EXTEND => {
            d.u8()?;
            d.u8()?;
            d.u64()?;
            d.u64()?;
            d.u64()?;
            staking(d.key()?, d.key()?)?
        }
        tag::CLAIM => {
            let p = real_pool(w, &a[0])?;
            let m = real_mining(w, &a[3])?;
            let t = real_token(w, &a[6])?;
            a[1] == p.mint
                && a[2] == vault_address_cached(&a[0], &a[1])
                && m.pool == a[0]
                && m.owner == a[4]
                && sg(4)
                && a[5] == p.dep
                && sg(5)
                && t.owner == a[4]
                && t.mint == p.mint
                && tok(7)
        }
        tag::DISTRIBUTE => real_pool(w, &a[0])?.dist == a[1] && sg(1),
        tag::CLOSE => {
            let m = real_mining(w, &a[0])?;
            let p = real_pool(w, &a[4])?;
            m.owner == a[1] && sg(1) && m.pool == a[4] && p.dep == a[3] && sg(3) && system(w, &a[2])
        }
        tag::CHANGE_DELEGATE => {
            let p = real_pool(w, &a[0])?;
            let m = real_mining(w, &a[1])?;
            let o = real_mining(w, &a[4])?;
            let n = real_mining(w, &a[5])?;
            d.u64()?;
            let nd = d.key()?;
            m.pool == a[0]
                && p.dep == a[2]
                && sg(2)
                && m.owner == a[3]
                && sg(3)
                && a[4] != a[5]
                && o.pool == a[0]
                && n.pool == a[0]
                && (a[5] == a[1] || n.owner == nd)
        }
        tag::SLASH | tag::DECREASE => penal(d.key()?)?,
        _ => false,
    })
}

/// which position of an instruction must sign, by tag
pub fn signer_positions(t: u8) -> &'static [usize] {
    match t {
        tag::INIT_POOL => &[3, 4],
        tag::FILL => &[3],
        tag::INIT_MINING => &[2],
        tag::DEPOSIT | tag::WITHDRAW | tag::EXTEND => &[2],
        tag::CLAIM => &[4, 5],
        tag::DISTRIBUTE => &[1],
        tag::CLOSE => &[1, 3],
        tag::CHANGE_DELEGATE => &[2, 3],
        _ => &[0],
    }
}

pub fn show(f: &Fx, ix: &Instruction) -> String {
    let accts: Vec<String> = ix
        .accounts
        .iter()
        .map(|m: &AccountMeta| format!("{}{}{}", name_of(f, &m.pubkey), if m.is_signer { "*" } else { "" }, if m.is_writable { "" } else { "(ro)" }))
        .collect();
    let t = ix.data.first().map_or("?", |t| TAGS.get(*t as usize).copied().unwrap_or("?"));
    let hex: String = ix.data.iter().skip(1).map(|b| format!("{b:02x}")).collect();
    format!("[{}] {t}({hex}) {}", f.name, accts.join(", "))
}

