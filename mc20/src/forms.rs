//! Every published way of building an instruction, behind one interface.
use mc::{
    env::PID,
    rt::{self, Captured},
};
use mplx_rewards::{instruction as prog, utils::LockupPeriod as PLock};
use rewards::{instructions as cli, types::LockupPeriod as CLock};
use solana_program::{account_info::AccountInfo, instruction::{AccountMeta, Instruction}, pubkey::Pubkey, system_program, sysvar};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    U64,
    Key,
    Per,
    Opt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Val {
    U64(u64),
    Key(Pubkey),
    Per(u8),
    Opt(Option<u64>),
}
impl Val {
    fn u(self) -> u64 {
        match self {
            Val::U64(x) => x,
            _ => unreachable!(),
        }
    }
    fn k(self) -> Pubkey {
        match self {
            Val::Key(x) => x,
            _ => unreachable!(),
        }
    }
    fn o(self) -> Option<u64> {
        match self {
            Val::Opt(x) => x,
            _ => unreachable!(),
        }
    }
    fn pp(self) -> PLock {
        match self {
            Val::Per(0) => PLock::None,
            Val::Per(1) => PLock::Flex,
            Val::Per(2) => PLock::ThreeMonths,
            Val::Per(3) => PLock::SixMonths,
            Val::Per(4) => PLock::OneYear,
            _ => unreachable!(),
        }
    }
    fn cp(self) -> CLock {
        match self {
            Val::Per(0) => CLock::None,
            Val::Per(1) => CLock::Flex,
            Val::Per(2) => CLock::ThreeMonths,
            Val::Per(3) => CLock::SixMonths,
            Val::Per(4) => CLock::OneYear,
            _ => unreachable!(),
        }
    }
}
pub const PERIODS: [&str; 5] = ["None", "Flex", "ThreeMonths", "SixMonths", "OneYear"];

/// The instructions as they must be: wire tag (position), accounts with signers, arguments.
pub struct Spec {
    pub name: &'static str,
    pub accs: &'static [(&'static str, bool)],
    pub args: &'static [(&'static str, Ty)],
}
const fn s(name: &'static str, accs: &'static [(&'static str, bool)], args: &'static [(&'static str, Ty)]) -> Spec {
    Spec { name, accs, args }
}
pub const SPECS: [Spec; 12] = [
    s(
        "initialize_pool",
        &[
            ("reward_pool", false),
            ("reward_mint", false),
            ("vault", false),
            ("payer", true),
            ("deposit_authority", true),
            ("rent", false),
            ("token_program", false),
            ("system_program", false),
        ],
        &[("fill_authority", Ty::Key), ("distribute_authority", Ty::Key)],
    ),
    s(
        "fill_vault",
        &[
            ("reward_pool", false),
            ("reward_mint", false),
            ("vault", false),
            ("fill_authority", true),
            ("source_token_account", false),
            ("token_program", false),
        ],
        &[("rewards", Ty::U64), ("distribution_ends_at", Ty::U64)],
    ),
    s(
        "initialize_mining",
        &[("reward_pool", false), ("mining", false), ("payer", true), ("system_program", false)],
        &[("mining_owner", Ty::Key)],
    ),
    s(
        "deposit_mining",
        &[("reward_pool", false), ("mining", false), ("deposit_authority", true), ("delegate_mining", false)],
        &[("amount", Ty::U64), ("lockup_period", Ty::Per), ("mining_owner", Ty::Key), ("delegate", Ty::Key)],
    ),
    s(
        "withdraw_mining",
        &[("reward_pool", false), ("mining", false), ("deposit_authority", true), ("delegate_mining", false)],
        &[("amount", Ty::U64), ("mining_owner", Ty::Key), ("delegate", Ty::Key)],
    ),
    s(
        "claim",
        &[
            ("reward_pool", false),
            ("reward_mint", false),
            ("vault", false),
            ("mining", false),
            ("mining_owner", true),
            ("deposit_authority", true),
            ("mining_owner_reward_token_account", false),
            ("token_program", false),
        ],
        &[],
    ),
    s(
        "extend_stake",
        &[("reward_pool", false), ("mining", false), ("deposit_authority", true), ("delegate_mining", false)],
        &[
            ("old_lockup_period", Ty::Per),
            ("new_lockup_period", Ty::Per),
            ("deposit_start_ts", Ty::U64),
            ("base_amount", Ty::U64),
            ("additional_amount", Ty::U64),
            ("mining_owner", Ty::Key),
            ("delegate", Ty::Key),
        ],
    ),
    s("distribute_rewards", &[("reward_pool", false), ("distribute_authority", true)], &[]),
    s(
        "close_mining",
        &[("mining", false), ("mining_owner", true), ("target_account", false), ("deposit_authority", true), ("reward_pool", false)],
        &[],
    ),
    s(
        "change_delegate",
        &[
            ("reward_pool", false),
            ("mining", false),
            ("deposit_authority", true),
            ("mining_owner", true),
            ("old_delegate_mining", false),
            ("new_delegate_mining", false),
        ],
        &[("staked_amount", Ty::U64), ("new_delegate", Ty::Key)],
    ),
    s(
        "slash",
        &[("deposit_authority", true), ("reward_pool", false), ("mining", false)],
        &[
            ("mining_owner", Ty::Key),
            ("slash_amount_in_native", Ty::U64),
            ("slash_amount_multiplied_by_period", Ty::U64),
            ("stake_expiration_date", Ty::Opt),
        ],
    ),
    s(
        "decrease_rewards",
        &[("deposit_authority", true), ("reward_pool", false), ("mining", false)],
        &[("mining_owner", Ty::Key), ("decreased_weighted_stake_number", Ty::U64)],
    ),
];

/// the well-known address an account of this name has unless told otherwise
pub fn well_known(name: &str) -> Option<Pubkey> {
    match name {
        "rent" => Some(sysvar::rent::ID),
        "token_program" => Some(spl_token::ID),
        "system_program" => Some(system_program::ID),
        _ => None,
    }
}

pub fn camel(s: &str) -> String {
    let mut r = String::new();
    let mut up = false;
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if up {
            r.extend(c.to_uppercase());
            up = false;
        } else {
            r.push(c);
        }
    }
    r
}
pub fn pascal(s: &str) -> String {
    let c = camel(s);
    c[..1].to_uppercase() + &c[1..]
}

pub struct Case {
    pub tag: usize,
    pub keys: Vec<Pubkey>,
    pub args: Vec<Val>,
}
impl Case {
    pub fn data(&self) -> Vec<u8> {
        let mut d = vec![self.tag as u8];
        for a in &self.args {
            match a {
                Val::U64(x) => d.extend_from_slice(&x.to_le_bytes()),
                Val::Key(k) => d.extend_from_slice(k.as_ref()),
                Val::Per(p) => d.push(*p),
                Val::Opt(None) => d.push(0),
                Val::Opt(Some(x)) => {
                    d.push(1);
                    d.extend_from_slice(&x.to_le_bytes())
                }
            }
        }
        d
    }
    pub fn show(&self) -> String {
        let sp = &SPECS[self.tag];
        let a: Vec<String> = sp.args.iter().zip(&self.args).map(|(n, v)| format!("{}={v:?}", n.0)).collect();
        format!("{}({})", sp.name, a.join(", "))
    }
}

pub fn program_builder(c: &Case) -> Instruction {
    let (k, a) = (&c.keys, &c.args);
    match c.tag {
        0 => prog::initialize_pool(&PID, &k[0], &k[1], &k[2], &k[3], &k[4], &a[0].k(), &a[1].k()),
        1 => prog::fill_vault(&PID, &k[0], &k[1], &k[2], &k[3], &k[4], a[0].u(), a[1].u()),
        2 => prog::initialize_mining(&PID, &k[0], &k[1], &k[2], &a[0].k()),
        3 => prog::deposit_mining(&PID, &k[0], &k[1], &k[2], &k[3], a[0].u(), a[1].pp(), &a[2].k(), &a[3].k()),
        4 => prog::withdraw_mining(&PID, &k[0], &k[1], &k[2], &k[3], a[0].u(), &a[1].k(), &a[2].k()),
        5 => prog::claim(&PID, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6]),
        6 => prog::extend_stake(
            &PID,
            &k[0],
            &k[1],
            &k[2],
            &k[3],
            a[0].pp(),
            a[1].pp(),
            a[2].u(),
            a[3].u(),
            a[4].u(),
            &a[5].k(),
            &a[6].k(),
        ),
        7 => prog::distribute_rewards(&PID, &k[0], &k[1]),
        8 => prog::close_mining(&PID, &k[0], &k[1], &k[2], &k[3], &k[4]),
        9 => prog::change_delegate(&PID, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &a[1].k(), a[0].u()),
        10 => prog::slash(&PID, &k[0], &k[1], &k[2], &a[0].k(), a[1].u(), a[2].u(), a[3].o()),
        11 => prog::decrease_rewards(&PID, &k[0], &k[1], &k[2], &a[0].k(), a[1].u()),
        _ => unreachable!(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Struct,
    Builder,
    BuilderDefaults,
    Cpi,
    CpiBuilder,
    // with three more accounts behind those of the instruction
    StructMore,
    BuilderMore,
    CpiMore,
    CpiSignedMore,
    CpiBuilderMore,
}
pub const FORMS: [Form; 10] = [
    Form::Struct,
    Form::Builder,
    Form::BuilderDefaults,
    Form::Cpi,
    Form::CpiBuilder,
    Form::StructMore,
    Form::BuilderMore,
    Form::CpiMore,
    Form::CpiSignedMore,
    Form::CpiBuilderMore,
];
impl Form {
    pub fn more(self) -> bool {
        matches!(self, Form::StructMore | Form::BuilderMore | Form::CpiMore | Form::CpiSignedMore | Form::CpiBuilderMore)
    }
    pub fn cpi(self) -> bool {
        matches!(self, Form::Cpi | Form::CpiBuilder | Form::CpiMore | Form::CpiSignedMore | Form::CpiBuilderMore)
    }
    pub fn seeds(self) -> &'static [&'static [&'static [u8]]] {
        if matches!(self, Form::CpiBuilder | Form::CpiSignedMore) {
            SEEDS
        } else {
            &[]
        }
    }
}
const SEEDS: &[&[&[u8]]] = &[&[b"a", b"bc"], &[b"d"]];
/// the accounts added: signer, writable
pub fn more() -> [AccountMeta; 3] {
    let m = |n: &str, is_signer, is_writable| AccountMeta { pubkey: mc::env::key(n), is_signer, is_writable };
    [m("one more", true, false), m("another", false, true), m("the last", true, true)]
}

pub type Built = (Instruction, Option<Captured>);

fn one(f: impl FnOnce() -> solana_program::entrypoint::ProgramResult) -> Result<Built, String> {
    let (r, mut v) = rt::capture(f);
    if let Err(e) = r {
        return Err(format!("the invocation failed: {e:?}"));
    }
    if v.len() != 1 {
        return Err(format!("{} invocations instead of one", v.len()));
    }
    let c = v.remove(0);
    Ok((c.0.clone(), Some(c)))
}

macro_rules! client {
    ($fname:ident, $Name:ident, $Builder:ident, $Cpi:ident, $CpiAccounts:ident, $CpiBuilder:ident,
     [$($a:ident $i:tt),*], [$($d:ident $di:tt),*], $Args:ident { $($g:ident $conv:ident $j:tt),* } $(opt $o:ident $oj:tt)?) => {
        fn $fname(c: &Case, f: Form, infos: &[AccountInfo<'static>], program: &AccountInfo<'static>) -> Result<Built, String> {
            let (k, v) = (&c.keys, &c.args);
            let args = || cli::$Args { $($g: v[$j].$conv(),)* $($o: v[$oj].o(),)? };
            match f {
                Form::Struct => Ok((cli::$Name { $($a: k[$i],)* $($d: k[$di],)* }.instruction(args()), None)),
                Form::StructMore => {
                    Ok((cli::$Name { $($a: k[$i],)* $($d: k[$di],)* }.instruction_with_remaining_accounts(args(), &more()), None))
                }
                Form::Builder | Form::BuilderDefaults | Form::BuilderMore => {
                    let mut b = cli::$Builder::new();
                    $(b.$a(k[$i]);)*
                    $(if f != Form::BuilderDefaults { b.$d(k[$di]); })*
                    if f == Form::BuilderMore {
                        let m = more();
                        b.add_remaining_account(m[0].clone());
                        b.add_remaining_accounts(&m[1..]);
                    }
                    $(b.$g(v[$j].$conv());)*
                    $(if let Some(x) = v[$oj].o() { b.$o(x); })?
                    Ok((b.instruction(), None))
                }
                Form::CpiMore | Form::CpiSignedMore => one(|| {
                    let (m, n) = (more(), infos.len() - 3);
                    let r: Vec<_> = (0..3).map(|i| (&infos[n + i], m[i].is_writable, m[i].is_signer)).collect();
                    let c = cli::$Cpi::new(program, cli::$CpiAccounts { $($a: &infos[$i],)* $($d: &infos[$di],)* }, args());
                    if f == Form::CpiMore {
                        c.invoke_with_remaining_accounts(&r)
                    } else {
                        c.invoke_signed_with_remaining_accounts(SEEDS, &r)
                    }
                }),
                Form::CpiBuilderMore => one(|| {
                    let (m, n) = (more(), infos.len() - 3);
                    let mut b = cli::$CpiBuilder::new(program);
                    b.add_remaining_account(&infos[n], m[0].is_writable, m[0].is_signer);
                    $(b.$a(&infos[$i]);)*
                    $(b.$d(&infos[$di]);)*
                    $(b.$g(v[$j].$conv());)*
                    $(if let Some(x) = v[$oj].o() { b.$o(x); })?
                    b.add_remaining_accounts(&[(&infos[n + 1], m[1].is_writable, m[1].is_signer), (&infos[n + 2], m[2].is_writable, m[2].is_signer)]);
                    b.invoke()
                }),
                Form::Cpi => one(|| cli::$Cpi::new(program, cli::$CpiAccounts { $($a: &infos[$i],)* $($d: &infos[$di],)* }, args()).invoke()),
                Form::CpiBuilder => one(|| {
                    let mut b = cli::$CpiBuilder::new(program);
                    $(b.$a(&infos[$i]);)*
                    $(b.$d(&infos[$di]);)*
                    $(b.$g(v[$j].$conv());)*
                    $(if let Some(x) = v[$oj].o() { b.$o(x); })?
                    b.invoke_signed(SEEDS)
                }),
            }
        }
    };
}
macro_rules! client0 {
    ($fname:ident, $Name:ident, $Builder:ident, $Cpi:ident, $CpiAccounts:ident, $CpiBuilder:ident,
     [$($a:ident $i:tt),*], [$($d:ident $di:tt),*]) => {
        fn $fname(c: &Case, f: Form, infos: &[AccountInfo<'static>], program: &AccountInfo<'static>) -> Result<Built, String> {
            let k = &c.keys;
            match f {
                Form::Struct => Ok((cli::$Name { $($a: k[$i],)* $($d: k[$di],)* }.instruction(), None)),
                Form::StructMore => Ok((cli::$Name { $($a: k[$i],)* $($d: k[$di],)* }.instruction_with_remaining_accounts(&more()), None)),
                Form::Builder | Form::BuilderDefaults | Form::BuilderMore => {
                    let mut b = cli::$Builder::new();
                    $(b.$a(k[$i]);)*
                    $(if f != Form::BuilderDefaults { b.$d(k[$di]); })*
                    if f == Form::BuilderMore {
                        let m = more();
                        b.add_remaining_account(m[0].clone());
                        b.add_remaining_accounts(&m[1..]);
                    }
                    Ok((b.instruction(), None))
                }
                Form::CpiMore | Form::CpiSignedMore => one(|| {
                    let (m, n) = (more(), infos.len() - 3);
                    let r: Vec<_> = (0..3).map(|i| (&infos[n + i], m[i].is_writable, m[i].is_signer)).collect();
                    let c = cli::$Cpi::new(program, cli::$CpiAccounts { $($a: &infos[$i],)* $($d: &infos[$di],)* });
                    if f == Form::CpiMore {
                        c.invoke_with_remaining_accounts(&r)
                    } else {
                        c.invoke_signed_with_remaining_accounts(SEEDS, &r)
                    }
                }),
                Form::CpiBuilderMore => one(|| {
                    let (m, n) = (more(), infos.len() - 3);
                    let mut b = cli::$CpiBuilder::new(program);
                    b.add_remaining_account(&infos[n], m[0].is_writable, m[0].is_signer);
                    $(b.$a(&infos[$i]);)*
                    $(b.$d(&infos[$di]);)*
                    b.add_remaining_accounts(&[(&infos[n + 1], m[1].is_writable, m[1].is_signer), (&infos[n + 2], m[2].is_writable, m[2].is_signer)]);
                    b.invoke()
                }),
                Form::Cpi => one(|| cli::$Cpi::new(program, cli::$CpiAccounts { $($a: &infos[$i],)* $($d: &infos[$di],)* }).invoke()),
                Form::CpiBuilder => one(|| {
                    let mut b = cli::$CpiBuilder::new(program);
                    $(b.$a(&infos[$i]);)*
                    $(b.$d(&infos[$di]);)*
                    b.invoke_signed(SEEDS)
                }),
            }
        }
    };
}

client!(c0, InitializePool, InitializePoolBuilder, InitializePoolCpi, InitializePoolCpiAccounts, InitializePoolCpiBuilder,
    [reward_pool 0, reward_mint 1, vault 2, payer 3, deposit_authority 4], [rent 5, token_program 6, system_program 7],
    InitializePoolInstructionArgs { fill_authority k 0, distribute_authority k 1 });
client!(c1, FillVault, FillVaultBuilder, FillVaultCpi, FillVaultCpiAccounts, FillVaultCpiBuilder,
    [reward_pool 0, reward_mint 1, vault 2, fill_authority 3, source_token_account 4], [token_program 5],
    FillVaultInstructionArgs { rewards u 0, distribution_ends_at u 1 });
client!(c2, InitializeMining, InitializeMiningBuilder, InitializeMiningCpi, InitializeMiningCpiAccounts, InitializeMiningCpiBuilder,
    [reward_pool 0, mining 1, payer 2], [system_program 3],
    InitializeMiningInstructionArgs { mining_owner k 0 });
client!(c3, DepositMining, DepositMiningBuilder, DepositMiningCpi, DepositMiningCpiAccounts, DepositMiningCpiBuilder,
    [reward_pool 0, mining 1, deposit_authority 2, delegate_mining 3], [],
    DepositMiningInstructionArgs { amount u 0, lockup_period cp 1, mining_owner k 2, delegate k 3 });
client!(c4, WithdrawMining, WithdrawMiningBuilder, WithdrawMiningCpi, WithdrawMiningCpiAccounts, WithdrawMiningCpiBuilder,
    [reward_pool 0, mining 1, deposit_authority 2, delegate_mining 3], [],
    WithdrawMiningInstructionArgs { amount u 0, mining_owner k 1, delegate k 2 });
client0!(c5, Claim, ClaimBuilder, ClaimCpi, ClaimCpiAccounts, ClaimCpiBuilder,
    [reward_pool 0, reward_mint 1, vault 2, mining 3, mining_owner 4, deposit_authority 5, mining_owner_reward_token_account 6], [token_program 7]);
client!(c6, ExtendStake, ExtendStakeBuilder, ExtendStakeCpi, ExtendStakeCpiAccounts, ExtendStakeCpiBuilder,
    [reward_pool 0, mining 1, deposit_authority 2, delegate_mining 3], [],
    ExtendStakeInstructionArgs { old_lockup_period cp 0, new_lockup_period cp 1, deposit_start_ts u 2, base_amount u 3, additional_amount u 4,
        mining_owner k 5, delegate k 6 });
client0!(c7, DistributeRewards, DistributeRewardsBuilder, DistributeRewardsCpi, DistributeRewardsCpiAccounts, DistributeRewardsCpiBuilder,
    [reward_pool 0, distribute_authority 1], []);
client0!(c8, CloseMining, CloseMiningBuilder, CloseMiningCpi, CloseMiningCpiAccounts, CloseMiningCpiBuilder,
    [mining 0, mining_owner 1, target_account 2, deposit_authority 3, reward_pool 4], []);
client!(c9, ChangeDelegate, ChangeDelegateBuilder, ChangeDelegateCpi, ChangeDelegateCpiAccounts, ChangeDelegateCpiBuilder,
    [reward_pool 0, mining 1, deposit_authority 2, mining_owner 3, old_delegate_mining 4, new_delegate_mining 5], [],
    ChangeDelegateInstructionArgs { staked_amount u 0, new_delegate k 1 });
client!(c10, Slash, SlashBuilder, SlashCpi, SlashCpiAccounts, SlashCpiBuilder,
    [deposit_authority 0, reward_pool 1, mining 2], [],
    SlashInstructionArgs { mining_owner k 0, slash_amount_in_native u 1, slash_amount_multiplied_by_period u 2 } opt stake_expiration_date 3);
client!(c11, DecreaseRewards, DecreaseRewardsBuilder, DecreaseRewardsCpi, DecreaseRewardsCpiAccounts, DecreaseRewardsCpiBuilder,
    [deposit_authority 0, reward_pool 1, mining 2], [],
    DecreaseRewardsInstructionArgs { mining_owner k 0, decreased_weighted_stake_number u 1 });

pub fn info(k: &Pubkey) -> AccountInfo<'static> {
    let k: &'static Pubkey = Box::leak(Box::new(*k));
    let lam: &'static mut u64 = Box::leak(Box::new(0));
    static OWNER: Pubkey = system_program::ID;
    AccountInfo::new(k, false, false, lam, &mut [], &OWNER, false, 0)
}

pub fn client(c: &Case, f: Form) -> Result<Built, String> {
    // infos leak a few bytes per case
    let mut infos: Vec<AccountInfo<'static>> = if f.cpi() { c.keys.iter().map(info).collect() } else { vec![] };
    if f.cpi() && f.more() {
        infos.extend(more().iter().map(|m| info(&m.pubkey)));
    }
    thread_local!(static PROGRAM: AccountInfo<'static> = info(&PID));
    PROGRAM.with(|p| {
        let g = [c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11][c.tag];
        g(c, f, &infos, p)
    })
}
