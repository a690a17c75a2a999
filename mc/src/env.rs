//! The closed world the program runs in: keys, token accounts, minings; and readers of state.
//! Instruction encoding, addresses and account layouts are written down here independently of
//! the program's own builders and types: the checks use the program only through its entry point.
use crate::rt::{self, Acct, TxErr, TxOk, World};
use sokoban::{NodeAllocatorMap, RedBlackTree, ZeroCopy};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    program_option::COption,
    program_pack::Pack,
    pubkey::Pubkey,
    system_program, sysvar,
};

pub const DAY: u64 = 86400;
/// start of exploration: not aligned to a day
pub const T0: u64 = 20_000 * DAY + 12_345;
pub const PID: Pubkey = solana_program::pubkey!("BF5PatmRTQDgEKoXR7iHRbkibEEi83nVM38cUKWzQcTR");

pub type MTree = RedBlackTree<u64, u64, 50>;
pub type PTree = RedBlackTree<u64, u64, 365>;
pub type HTree = RedBlackTree<u64, u128, 1095>;
pub const MHEAD: usize = 144;
pub const PHEAD: usize = 176;
pub const MINING_LEN: usize = MHEAD + std::mem::size_of::<MTree>();
pub const POOL_LEN: usize = PHEAD + std::mem::size_of::<PTree>() + std::mem::size_of::<HTree>();

/// the twelve instructions, by wire tag
pub mod tag {
    pub const INIT_POOL: u8 = 0;
    pub const FILL: u8 = 1;
    pub const INIT_MINING: u8 = 2;
    pub const DEPOSIT: u8 = 3;
    pub const WITHDRAW: u8 = 4;
    pub const CLAIM: u8 = 5;
    pub const EXTEND: u8 = 6;
    pub const DISTRIBUTE: u8 = 7;
    pub const CLOSE: u8 = 8;
    pub const CHANGE_DELEGATE: u8 = 9;
    pub const SLASH: u8 = 10;
    pub const DECREASE: u8 = 11;
}

/// argument encoder
#[derive(Clone)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn new(tag: u8) -> Enc {
        Enc(vec![tag])
    }
    pub fn u64(mut self, v: u64) -> Enc {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u8(mut self, v: u8) -> Enc {
        self.0.push(v);
        self
    }
    pub fn key(mut self, k: &Pubkey) -> Enc {
        self.0.extend_from_slice(k.as_ref());
        self
    }
    pub fn opt(self, v: Option<u64>) -> Enc {
        match v {
            None => self.u8(0),
            Some(x) => self.u8(1).u64(x),
        }
    }
    pub fn ix(self, accounts: Vec<AccountMeta>) -> Instruction {
        Instruction { program_id: PID, accounts, data: self.0 }
    }
}
/// writable
pub fn w(k: &Pubkey) -> AccountMeta {
    AccountMeta::new(*k, false)
}
/// read-only
pub fn r(k: &Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(*k, false)
}
/// signer
pub fn s(k: &Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(*k, true)
}
/// writable signer
pub fn ws(k: &Pubkey) -> AccountMeta {
    AccountMeta::new(*k, true)
}

pub fn mining_address(owner: &Pubkey, pool: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"mining", owner.as_ref(), pool.as_ref()], &PID)
}
pub fn vault_address(pool: &Pubkey, mint: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"vault", pool.as_ref(), mint.as_ref()], &PID)
}

pub fn key(label: &str) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hash(label.as_bytes()).to_bytes())
}

#[derive(Clone, Debug)]
pub struct PoolK {
    pub pool: Pubkey,
    pub mint: Pubkey,
    pub vault: Pubkey,
    pub dep: Pubkey,
    pub dist: Pubkey,
    pub fill: Pubkey,
    pub src: Pubkey,
}

#[derive(Clone, Debug)]
pub struct UserK {
    pub owner: Pubkey,
    pub mining: Pubkey,
    pub token: Pubkey,
}

/// One pool with its users.
#[derive(Clone, Debug)]
pub struct Env {
    pub p: PoolK,
    pub users: Vec<UserK>,
    pub payer: Pubkey,
    pub target: Pubkey,
}

pub fn token_acct(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    let mut d = vec![0u8; spl_token::state::Account::LEN];
    spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        delegate: COption::None,
        state: spl_token::state::AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    }
    .pack_into_slice(&mut d);
    Acct::new(rt::rent().minimum_balance(d.len()), spl_token::ID, &d)
}

pub fn mint_acct(supply: u64) -> Acct {
    let mut d = vec![0u8; spl_token::state::Mint::LEN];
    spl_token::state::Mint {
        mint_authority: COption::Some(key("mint authority")),
        supply,
        decimals: 6,
        is_initialized: true,
        freeze_authority: COption::None,
    }
    .pack_into_slice(&mut d);
    Acct::new(rt::rent().minimum_balance(d.len()), spl_token::ID, &d)
}

pub fn sys_acct(lamports: u64) -> Acct {
    Acct::new(lamports, system_program::ID, &[])
}

pub const SRC_TOKENS: u64 = u64::MAX / 2;

impl Env {
    /// keys only
    pub fn keys(label: &str, n_users: usize, user_labels: &[&str]) -> Env {
        let pool = key(&format!("{label} pool"));
        let mint = key("mint");
        let vault = vault_address(&pool, &mint).0;
        let users = (0..n_users)
            .map(|i| {
                let l = user_labels.get(i).map(|s| s.to_string()).unwrap_or(format!("{label} user {i}"));
                let owner = key(&l);
                UserK { owner, mining: mining_address(&owner, &pool).0, token: key(&format!("{l} token")) }
            })
            .collect();
        Env {
            p: PoolK {
                pool,
                mint,
                vault,
                dep: key(&format!("{label} deposit authority")),
                dist: key(&format!("{label} distribute authority")),
                fill: key(&format!("{label} fill authority")),
                src: key(&format!("{label} fill source")),
            },
            users,
            payer: key("payer"),
            target: key("target"),
        }
    }
    /// the first staker runs the pool
    pub fn one_key(&mut self) {
        let k = self.users[0].owner;
        self.p.dep = k;
        self.p.dist = k;
        self.p.fill = k;
        self.payer = k;
    }
    /// adds the accounts that exist before the program is used
    pub fn add_accounts(&self, w: &mut World, src: u64) {
        w.accts.entry(self.p.mint).or_insert_with(|| mint_acct(u64::MAX));
        w.accts.insert(self.p.pool, Acct::new(rt::rent().minimum_balance(POOL_LEN), PID, &vec![0u8; POOL_LEN]));
        w.accts.insert(self.p.src, token_acct(&self.p.mint, &self.p.fill, src));
        for k in [self.payer, self.p.dep, self.p.dist, self.p.fill, self.target] {
            w.accts.insert(k, sys_acct(1_000_000_000_000));
        }
        for u in &self.users {
            w.accts.entry(u.owner).or_insert_with(|| sys_acct(1_000_000_000));
            w.accts.entry(u.token).or_insert_with(|| token_acct(&self.p.mint, &u.owner, 0));
        }
    }
    pub fn init_pool(&self) -> Instruction {
        let p = &self.p;
        Enc::new(tag::INIT_POOL).key(&p.fill).key(&p.dist).ix(vec![
            w(&p.pool),
            r(&p.mint),
            w(&p.vault),
            ws(&self.payer),
            s(&p.dep),
            r(&sysvar::rent::ID),
            r(&spl_token::ID),
            r(&system_program::ID),
        ])
    }
    pub fn init_mining(&self, u: usize) -> Instruction {
        let u = &self.users[u];
        Enc::new(tag::INIT_MINING).key(&u.owner).ix(vec![w(&self.p.pool), w(&u.mining), ws(&self.payer), r(&system_program::ID)])
    }
    /// world with the pool and all minings created by the program
    pub fn start(&self, now: u64, src: u64) -> World {
        let mut w = World::new(now as i64);
        self.add_accounts(&mut w, src);
        self.setup(w)
    }
    pub fn setup(&self, w: World) -> World {
        let mut w = must(&w, &[self.init_pool()], "initialize_pool");
        for u in 0..self.users.len() {
            w = must(&w, &[self.init_mining(u)], "initialize_mining");
        }
        w
    }
    fn staking(&self, u: usize, del: usize) -> Vec<AccountMeta> {
        vec![w(&self.p.pool), w(&self.users[u].mining), s(&self.p.dep), w(&self.users[del].mining)]
    }
    fn penal(&self, u: usize) -> Vec<AccountMeta> {
        vec![s(&self.p.dep), w(&self.p.pool), w(&self.users[u].mining)]
    }
    pub fn deposit(&self, u: usize, amt: u64, per: u8, del: usize) -> Instruction {
        Enc::new(tag::DEPOSIT).u64(amt).u8(per).key(&self.users[u].owner).key(&self.users[del].owner).ix(self.staking(u, del))
    }
    pub fn withdraw(&self, u: usize, amt: u64, del: usize) -> Instruction {
        Enc::new(tag::WITHDRAW).u64(amt).key(&self.users[u].owner).key(&self.users[del].owner).ix(self.staking(u, del))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn extend(&self, u: usize, old: u8, new: u8, start: u64, base: u64, add: u64, del: usize) -> Instruction {
        Enc::new(tag::EXTEND)
            .u8(old)
            .u8(new)
            .u64(start)
            .u64(base)
            .u64(add)
            .key(&self.users[u].owner)
            .key(&self.users[del].owner)
            .ix(self.staking(u, del))
    }
    pub fn change_delegate(&self, u: usize, old: usize, new: usize, amt: u64) -> Instruction {
        let us = &self.users;
        Enc::new(tag::CHANGE_DELEGATE).u64(amt).key(&us[new].owner).ix(vec![
            w(&self.p.pool),
            w(&us[u].mining),
            s(&self.p.dep),
            s(&us[u].owner),
            w(&us[old].mining),
            w(&us[new].mining),
        ])
    }
    pub fn slash(&self, u: usize, native: u64, weighted: u64, date: Option<u64>) -> Instruction {
        Enc::new(tag::SLASH).key(&self.users[u].owner).u64(native).u64(weighted).opt(date).ix(self.penal(u))
    }
    pub fn decrease(&self, u: usize, n: u64) -> Instruction {
        Enc::new(tag::DECREASE).key(&self.users[u].owner).u64(n).ix(self.penal(u))
    }
    pub fn fill(&self, amt: u64, ends: u64) -> Instruction {
        let p = &self.p;
        Enc::new(tag::FILL).u64(amt).u64(ends).ix(vec![w(&p.pool), r(&p.mint), w(&p.vault), s(&p.fill), w(&p.src), r(&spl_token::ID)])
    }
    pub fn distribute(&self) -> Instruction {
        Enc::new(tag::DISTRIBUTE).ix(vec![w(&self.p.pool), s(&self.p.dist)])
    }
    pub fn claim(&self, u: usize) -> Instruction {
        let (p, u) = (&self.p, &self.users[u]);
        Enc::new(tag::CLAIM).ix(vec![r(&p.pool), r(&p.mint), w(&p.vault), w(&u.mining), s(&u.owner), s(&p.dep), w(&u.token), r(&spl_token::ID)])
    }
    pub fn close(&self, u: usize) -> Instruction {
        let u = &self.users[u];
        Enc::new(tag::CLOSE).ix(vec![w(&u.mining), s(&u.owner), w(&self.target), s(&self.p.dep), w(&self.p.pool)])
    }
    pub fn vault(&self, w: &World) -> u64 {
        token_amount(w, &self.p.vault)
    }
    pub fn paid(&self, w: &World, u: usize) -> u64 {
        token_amount(w, &self.users[u].token)
    }
    pub fn pool(&self, w: &World) -> PoolR {
        read_pool(w, &self.p.pool).expect("pool unreadable")
    }
    pub fn mining(&self, w: &World, u: usize) -> Option<MiningR> {
        read_mining(w, &self.users[u].mining)
    }
    /// whether the account exists as one of the program (anybody can send lamports to the address)
    pub fn has_mining(&self, w: &World, u: usize) -> bool {
        w.get(&self.users[u].mining).is_some_and(|a| a.owner != solana_program::system_program::ID || !a.bytes().is_empty())
    }
    /// What each user could claim now, measured by really claiming on a copy (with the vault
    /// topped up, so that the figure does not depend on solvency). Err: the claim fails.
    pub fn claimable(&self, w: &World) -> Vec<Result<u64, TxErr>> {
        let mut c = w.clone();
        let v = token_amount(w, &self.p.vault);
        if let Some(a) = c.accts.get_mut(&self.p.vault) {
            *a = token_acct(&self.p.mint, &self.p.dep, v.saturating_add(1 << 62));
        }
        let mut r = vec![];
        for u in 0..self.users.len() {
            if !self.has_mining(w, u) {
                r.push(Ok(0));
                continue;
            }
            let b = token_amount(&c, &self.users[u].token);
            match rt::exec(&c, &[self.claim(u)]) {
                Ok((n, _)) => {
                    r.push(Ok(token_amount(&n, &self.users[u].token) - b));
                    c = n;
                }
                Err(e) => r.push(Err(e)),
            }
        }
        r
    }
}

pub fn must(w: &World, ixs: &[Instruction], what: &str) -> World {
    match rt::exec(w, ixs) {
        Ok((w, _)) => w,
        Err(e) => panic!("setup step {what} failed: {e:?}"),
    }
}

pub fn run(w: &World, ix: &Instruction) -> Result<TxOk, TxErr> {
    rt::exec(w, std::slice::from_ref(ix))
}

pub fn token_amount(w: &World, k: &Pubkey) -> u64 {
    w.get(k).and_then(|a| spl_token::state::Account::unpack(a.bytes()).ok()).map(|a| a.amount).unwrap_or(0)
}

/// Pool state, normalised to the current day: entries of the schedule that are due are applied.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolR {
    pub total: i128,
    pub sched: Vec<(u64, u64)>,
    pub avail: u64,
    pub ends: u64,
    pub index: u128,
    pub n_sched_raw: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MiningR {
    pub own: i128,
    pub sched: Vec<(u64, u64)>,
    pub sfo: u64,
    pub unclaimed: u64,
    pub index: u128,
    pub owner: Pubkey,
    pub pool: Pubkey,
    pub n_sched_raw: usize,
}

fn norm<'a>(total: u64, it: impl Iterator<Item = &'a (u64, u64)>, today: u64) -> (i128, Vec<(u64, u64)>, usize) {
    let mut t = total as i128;
    let mut s = vec![];
    let mut n = 0;
    for (d, v) in it {
        n += 1;
        if *d <= today {
            t -= *v as i128;
        } else if *v > 0 {
            s.push((*d, *v));
        }
    }
    s.sort();
    (t, s, n)
}

/// A copy of a tree, aligned.
fn tree<T: Copy + bytemuck::Pod + ZeroCopy>(b: &[u8]) -> Box<T> {
    Box::new(bytemuck::pod_read_unaligned::<T>(b))
}
fn u64at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn u128at(b: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(b[o..o + 16].try_into().unwrap())
}
pub fn keyat(b: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(b[o..o + 32].try_into().unwrap())
}

/// The documented layout of a pool account.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolHead {
    pub dep: Pubkey,
    pub dist: Pubkey,
    pub fill: Pubkey,
    pub mint: Pubkey,
    pub index: u128,
    pub total: u64,
    pub ends: u64,
    pub avail: u64,
    pub bump: u8,
    pub data: [u8; 7],
}
pub fn pool_head(b: &[u8]) -> PoolHead {
    PoolHead {
        dep: keyat(b, 0),
        dist: keyat(b, 32),
        fill: keyat(b, 64),
        mint: keyat(b, 96),
        index: u128at(b, 128),
        total: u64at(b, 144),
        ends: u64at(b, 152),
        avail: u64at(b, 160),
        bump: b[168],
        data: b[169..176].try_into().unwrap(),
    }
}
/// The documented layout of a mining account.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MiningHead {
    pub pool: Pubkey,
    pub owner: Pubkey,
    pub mint: Pubkey,
    pub index: u128,
    pub share: u64,
    pub unclaimed: u64,
    pub sfo: u64,
    pub bump: u8,
    pub data: [u8; 7],
}
pub fn mining_head(b: &[u8]) -> MiningHead {
    MiningHead {
        pool: keyat(b, 0),
        owner: keyat(b, 32),
        mint: keyat(b, 64),
        index: u128at(b, 96),
        share: u64at(b, 112),
        unclaimed: u64at(b, 120),
        sfo: u64at(b, 128),
        bump: b[136],
        data: b[137..144].try_into().unwrap(),
    }
}
/// raw entries of the trees
pub fn mining_tree(b: &[u8]) -> Vec<(u64, u64)> {
    tree::<MTree>(&b[MHEAD..MINING_LEN]).iter().map(|(a, b)| (*a, *b)).collect()
}
pub fn pool_tree(b: &[u8]) -> Vec<(u64, u64)> {
    tree::<PTree>(&b[PHEAD..PHEAD + std::mem::size_of::<PTree>()]).iter().map(|(a, b)| (*a, *b)).collect()
}
pub fn hist_tree(b: &[u8]) -> Vec<(u64, u128)> {
    tree::<HTree>(&b[PHEAD + std::mem::size_of::<PTree>()..POOL_LEN]).iter().map(|(a, b)| (*a, *b)).collect()
}

pub fn read_pool(w: &World, k: &Pubkey) -> Option<PoolR> {
    let a = w.get(k)?;
    if a.owner != PID || a.bytes().len() != POOL_LEN {
        return None;
    }
    let h = pool_head(a.bytes());
    let now = w.now as u64;
    let (total, sched, n) = norm(h.total, pool_tree(a.bytes()).iter(), now - now % DAY);
    Some(PoolR { total, sched, avail: h.avail, ends: h.ends, index: h.index, n_sched_raw: n })
}

/// (day, cumulative index) entries of the pool's distribution history
pub fn read_hist(w: &World, k: &Pubkey) -> Vec<(u64, u128)> {
    match w.get(k) {
        Some(a) if a.owner == PID && a.bytes().len() == POOL_LEN => hist_tree(a.bytes()),
        _ => vec![],
    }
}

pub fn read_mining(w: &World, k: &Pubkey) -> Option<MiningR> {
    let a = w.get(k)?;
    if a.owner != PID || a.bytes().len() != MINING_LEN {
        return None;
    }
    let h = mining_head(a.bytes());
    let now = w.now as u64;
    let (own, sched, n) = norm(h.share, mining_tree(a.bytes()).iter(), now - now % DAY);
    Some(MiningR { own, sched, sfo: h.sfo, unclaimed: h.unclaimed, index: h.index, owner: h.owner, pool: h.pool, n_sched_raw: n })
}
