//! Enumerations over accounts, signers and bytes of single instructions (and short transactions).
use crate::{
    env::*,
    fix::*,
    report::{Cases, Tier},
    rt::{self, Acct, World},
};
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_instruction, system_program};
use std::sync::Arc;

fn all_writable(ix: &mut Instruction) {
    for a in ix.accounts.iter_mut() {
        a.is_writable = true;
    }
}

/// offsets of public keys among the arguments that bind accounts
pub fn key_args(t: u8) -> &'static [usize] {
    match t {
        tag::INIT_MINING => &[1],
        tag::DEPOSIT => &[10, 42],
        tag::WITHDRAW => &[9, 41],
        tag::EXTEND => &[27, 59],
        tag::CHANGE_DELEGATE => &[9],
        tag::SLASH | tag::DECREASE => &[1],
        _ => &[],
    }
}

/// Every way to replace up to k of an instruction's accounts and key arguments.
struct Subst {
    base: Vec<Instruction>,
    accts: Vec<(String, Pubkey)>,
    owners: Vec<Pubkey>,
    /// (template, positions); positions beyond the accounts are key arguments
    combos: Vec<(usize, Vec<usize>)>,
    starts: Vec<usize>,
    total: usize,
}
impl Subst {
    fn new(f: &Fx, base: Vec<Instruction>, kmax: usize) -> Subst {
        let accts = universe(f);
        let owners = ["alice", "bob", "carol", "mallory", "erin", "nobody"].iter().map(|l| key(l)).collect();
        let mut s = Subst { base, accts, owners, combos: vec![], starts: vec![], total: 0 };
        for t in 0..s.base.len() {
            let n = s.base[t].accounts.len() + key_args(s.base[t].data[0]).len();
            let mut sets: Vec<Vec<usize>> = vec![vec![]];
            for k in 1..=kmax {
                let mut cur: Vec<usize> = (0..k).collect();
                if k > n {
                    break;
                }
                loop {
                    sets.push(cur.clone());
                    let mut i = k;
                    while i > 0 && cur[i - 1] == n - k + i - 1 {
                        i -= 1;
                    }
                    if i == 0 {
                        break;
                    }
                    cur[i - 1] += 1;
                    for j in i..k {
                        cur[j] = cur[j - 1] + 1;
                    }
                }
            }
            for p in sets {
                let sz: usize = p.iter().map(|x| s.radix(t, *x)).product();
                s.combos.push((t, p));
                s.starts.push(s.total);
                s.total += sz;
            }
        }
        s
    }
    fn radix(&self, t: usize, pos: usize) -> usize {
        if pos < self.base[t].accounts.len() {
            self.accts.len()
        } else {
            self.owners.len()
        }
    }
    fn get(&self, i: usize) -> Instruction {
        let c = self.starts.partition_point(|s| *s <= i) - 1;
        let (t, ps) = &self.combos[c];
        let mut r = i - self.starts[c];
        let mut ix = self.base[*t].clone();
        let na = ix.accounts.len();
        for p in ps {
            let n = self.radix(*t, *p);
            let v = r % n;
            r /= n;
            if *p < na {
                ix.accounts[*p].pubkey = self.accts[v].1;
            } else {
                let o = key_args(ix.data[0])[*p - na];
                ix.data[o..o + 32].copy_from_slice(self.owners[v].as_ref());
            }
        }
        ix
    }
}

fn lamports_total(w: &World) -> u128 {
    w.accts.values().map(|a| a.lamports as u128).sum()
}

/// Is acceptance of this illegitimate instruction tolerable? Only a claim of nothing, into a token
/// account of another mint, which moves no tokens.
fn harmless(f: &Fx, pre: &World, post: &World, ix: &Instruction) -> bool {
    if ix.data[0] != tag::CLAIM {
        return false;
    }
    let mut j = ix.clone();
    let Some(t) = real_token(pre, &ix.accounts[6].pubkey) else { return false };
    if t.owner != ix.accounts[4].pubkey {
        return false;
    }
    // same claim with a proper token account
    let Some(u) = f.p.users.iter().find(|u| u.owner == t.owner) else { return false };
    j.accounts[6].pubkey = u.token;
    if !legit(pre, &j) {
        return false;
    }
    pre.diff(post).iter().all(|k| *k == ix.accounts[3].pubkey || *k == ix.accounts[0].pubkey)
}

fn judge(f: &Fx, ix: &Instruction) -> Result<&'static str, String> {
    let ok = legit(&f.w, ix);
    match rt::exec(&f.w, std::slice::from_ref(ix)) {
        Err(_) => Ok(if ok { "proper but refused" } else { "improper, refused" }),
        Ok((w, _)) => {
            if lamports_total(&w) != lamports_total(&f.w) {
                return Err(format!("lamports created or lost: {}", show(f, ix)));
            }
            if ok {
                return Ok("proper, accepted");
            }
            if harmless(f, &f.w, &w, ix) {
                return Ok("claim of nothing into a foreign token account");
            }
            Err(format!("accepted with wrong accounts or signatures: {}", show(f, ix)))
        }
    }
}

/// wrong roles with all signatures present
pub fn wrong_roles(tier: Tier, tags: &'static [u8], name: &str, deep: bool) -> Cases {
    let fx = fixtures();
    let mut subs: Vec<(Arc<Fx>, Subst)> = vec![];
    for f in fx {
        let mut base: Vec<Instruction> = templates(&f).into_iter().filter(|ix| tags.is_empty() || tags.contains(&ix.data[0])).collect();
        for ix in base.iter_mut() {
            all_writable(ix);
        }
        let k2 = tier == Tier::Thorough || deep || f.name == "distributed";
        let f = Arc::new(f);
        if k2 && !deep && tier == Tier::Quick {
            // pairs for the first template of each instruction, single replacements for the others
            let mut seen = vec![];
            let (a, b): (Vec<_>, Vec<_>) = base.into_iter().partition(|ix| {
                let n = !seen.contains(&ix.data[0]);
                seen.push(ix.data[0]);
                n
            });
            subs.push((f.clone(), Subst::new(&f, a, 2)));
            subs.push((f.clone(), Subst::new(&f, b, 1)));
        } else {
            subs.push((f.clone(), Subst::new(&f, base, if k2 { 2 } else { 1 })));
        }
    }
    let mut starts = vec![];
    let mut total = 0;
    for (_, s) in &subs {
        starts.push(total);
        total += s.total;
    }
    let subs = Arc::new((subs, starts));
    let pick = |s: &(Vec<(Arc<Fx>, Subst)>, Vec<usize>), i: usize| {
        let j = s.1.partition_point(|x| *x <= i) - 1;
        (s.0[j].0.clone(), s.0[j].1.get(i - s.1[j]))
    };
    let s2 = subs.clone();
    Cases {
        name: name.to_string(),
        rule: "legitimate instructions with every replacement of up to two accounts or key arguments by any account of a universe of pools, minings, vaults, mints, token accounts, forged, zeroed and plain accounts; every position that must sign is signed; all accounts writable".into(),
        n: total,
        label: Box::new(move |i| {
            let (f, ix) = pick(&s2, i);
            show(&f, &ix)
        }),
        check: Box::new(move |i| {
            let (f, ix) = pick(&subs, i);
            judge(&f, &ix)
        }),
    }
}

/// role keys x signature subsets
pub fn signatures(_tier: Tier) -> Cases {
    struct G {
        f: Fx,
        ixs: Vec<Instruction>,
    }
    let mut gs = vec![];
    for f in fixtures() {
        let t = templates(&f);
        // creations also where the new account's address has been paid for already
        let new: Vec<Instruction> = t.iter().filter(|ix| matches!(ix.data[0], tag::INIT_POOL | tag::INIT_MINING)).cloned().collect();
        let mut g = f.clone();
        for ix in &new {
            g.w.give(&ix.accounts[if ix.data[0] == tag::INIT_POOL { 2 } else { 1 }].pubkey, 5_000_000_000);
        }
        gs.push(G { ixs: t, f });
        gs.push(G { ixs: new, f: g });
    }
    let keys: Vec<Pubkey> = roles();
    let nk = keys.len();
    let mut idx: Vec<(usize, usize, usize)> = vec![];
    let mut total = 0;
    for (gi, g) in gs.iter().enumerate() {
        for (ti, ix) in g.ixs.iter().enumerate() {
            let r = signer_positions(ix.data[0]).len();
            idx.push((gi, ti, total));
            total += (nk.pow(r as u32) << r) * if matches!(ix.data[0], tag::FILL | tag::CLAIM) { 2 } else { 1 };
        }
    }
    let st = Arc::new((gs, keys, idx));
    let pick = move |s: &(Vec<G>, Vec<Pubkey>, Vec<(usize, usize, usize)>), i: usize| {
        let j = s.2.partition_point(|x| x.2 <= i) - 1;
        let (gi, ti, st) = s.2[j];
        let mut r = i - st;
        let mut ix = s.0[gi].ixs[ti].clone();
        for p in signer_positions(ix.data[0]) {
            ix.accounts[*p].pubkey = s.1[r % nk];
            r /= nk;
            ix.accounts[*p].is_signer = r & 1 == 1;
            r >>= 1;
        }
        if r == 1 {
            // with the signer's own token account
            match ix.data[0] {
                tag::FILL => ix.accounts[4].pubkey = token_of(&ix.accounts[3].pubkey),
                _ => ix.accounts[6].pubkey = token_of(&ix.accounts[4].pubkey),
            }
        }
        (gi, ix)
    };
    let s2 = st.clone();
    Cases {
        name: "signatures".into(),
        rule: "every instruction in five states and several argument choices (creations also at addresses that hold lamports already), with every assignment of 19 keys (all authorities of three pools, stakers, outsiders) to the signing roles and every subset of signatures; fills and claims also with the signer's own token account".into(),
        n: total,
        label: Box::new(move |i| {
            let (g, ix) = pick(&s2, i);
            show(&s2.0[g].f, &ix)
        }),
        check: Box::new(move |i| {
            let (g, ix) = pick(&st, i);
            judge(&st.0[g].f, &ix)
        }),
    }
}

/// A signature is missing, and up to two accounts or key arguments are others.
pub fn unsigned(tier: Tier) -> Cases {
    let mut subs: Vec<(Arc<Fx>, Subst)> = vec![];
    for f in fixtures() {
        let mut base = vec![];
        for ix in templates(&f) {
            let pos = signer_positions(ix.data[0]);
            for set in 0..(1u32 << pos.len()) - 1 {
                let mut j = ix.clone();
                all_writable(&mut j);
                for (k, p) in pos.iter().enumerate() {
                    j.accounts[*p].is_signer = set >> k & 1 == 1;
                }
                base.push(j);
            }
        }
        let k = if tier == Tier::Thorough || f.name == "distributed" { 2 } else { 1 };
        let f = Arc::new(f);
        subs.push((f.clone(), Subst::new(&f, base, k)));
    }
    let mut starts = vec![];
    let mut total = 0;
    for (_, s) in &subs {
        starts.push(total);
        total += s.total;
    }
    let subs = Arc::new((subs, starts));
    let pick = |s: &(Vec<(Arc<Fx>, Subst)>, Vec<usize>), i: usize| {
        let j = s.1.partition_point(|x| *x <= i) - 1;
        (s.0[j].0.clone(), s.0[j].1.get(i - s.1[j]))
    };
    let s2 = subs.clone();
    Cases {
        name: "unsigned".into(),
        rule: "proper instructions in five states with every proper subset of their signatures, and every replacement of one account or key argument (of two in the state after a distribution; thoroughly, in all states) by any account of the universe".into(),
        n: total,
        label: Box::new(move |i| {
            let (f, ix) = pick(&s2, i);
            show(&f, &ix)
        }),
        check: Box::new(move |i| {
            let (f, ix) = pick(&subs, i);
            judge(&f, &ix)
        }),
    }
}

/// mallory's own accounts: what she may change
fn hers(f: &Fx) -> Vec<Pubkey> {
    let mut v = vec![f.x.p.pool, f.x.p.vault, f.x.p.src, mallory(), key("mallory token"), key("mallory token b"), key("mallory token lent to all"), token_of(&mallory())];
    v.extend(f.x.users.iter().map(|u| u.mining));
    v.extend(["zero 0", "zero mining", "zero pool", "zero head", "forged pool", "forged mining", "forged token"].iter().map(|l| key(l)));
    v
}

fn judge_hostile(f: &Fx, own: &[Pubkey], ix: &Instruction) -> Result<(&'static str, Option<World>), String> {
    match rt::exec(&f.w, std::slice::from_ref(ix)) {
        Err(_) => Ok(("refused", None)),
        Ok((w, _)) => {
            for k in f.w.diff(&w) {
                if own.contains(&k) {
                    continue;
                }
                let (a, b) = (f.w.get(&k), w.get(&k));
                let gift = match (a, b) {
                    // something new: not an account of another pool or staker yet
                    (None, Some(b)) => {
                        if b.owner == PID {
                            let h = mining_head(b.bytes());
                            if b.bytes().len() != MINING_LEN || h.share != 0 || h.sfo != 0 || h.unclaimed != 0 {
                                return Err(format!("created a mining that is not empty: {}", show(f, ix)));
                            }
                            // it must not be able to claim either: its index starts at the pool's beginning with no weight
                        }
                        true
                    }
                    (Some(a), Some(b)) => {
                        a.owner == b.owner && a.owner == system_program::ID && b.lamports >= a.lamports && a.bytes() == b.bytes()
                    }
                    _ => false,
                };
                if !gift {
                    return Err(format!("mallory alone changed {}: {}", name_of(f, &k), show(f, ix)));
                }
            }
            let h = w.hash();
            Ok((if h == f.w.hash() { "accepted, no change" } else { "accepted, changed her own accounts only" }, Some(w)))
        }
    }
}

fn hostile_base(f: &Fx) -> Vec<Instruction> {
    let mut v = hostile(f);
    for ix in v.iter_mut() {
        all_writable(ix);
    }
    v
}
fn sign_as_mallory(ix: &mut Instruction) {
    for a in ix.accounts.iter_mut() {
        a.is_signer = a.pubkey == mallory();
    }
}

/// An attacker with her own pool and signature only: single actions with up to two (three)
/// replacements, and all sequences of two single-replacement actions.
pub fn hostile_cases(tier: Tier) -> Vec<Cases> {
    let mut out = vec![];
    // single actions, more replacements
    let fx: Vec<Fx> = fixtures().into_iter().filter(|f| tier == Tier::Thorough || f.name == "distributed" || f.name == "later").collect();
    for f in fx {
        let s = Subst::new(&f, hostile_base(&f), 2);
        let f = Arc::new(f);
        let s = Arc::new(s);
        let (f2, s2) = (f.clone(), s.clone());
        let own = hers(&f);
        out.push(Cases {
            name: format!("hostile-{}", f.name),
            rule: "everything mallory can sign alone: actions on her own pool and attempts on P, with every replacement of up to two accounts or key arguments".into(),
            n: s.total,
            label: Box::new(move |i| {
                let mut ix = s2.get(i);
                sign_as_mallory(&mut ix);
                show(&f2, &ix)
            }),
            check: Box::new(move |i| {
                let mut ix = s.get(i);
                sign_as_mallory(&mut ix);
                judge_hostile(&f, &own, &ix).map(|r| r.0)
            }),
        });
    }
    // sequences: every world one successful action away, then again
    for f in fixtures().into_iter().filter(|f| tier == Tier::Thorough || f.name == "distributed") {
        let base = Subst::new(&f, hostile_base(&f), 1);
        let own = hers(&f);
        let mut worlds: Vec<Fx> = vec![];
        let mut seen = vec![f.w.hash()];
        for i in 0..base.total {
            let mut ix = base.get(i);
            sign_as_mallory(&mut ix);
            if let Ok((_, Some(w))) = judge_hostile(&f, &own, &ix) {
                let h = w.hash();
                if !seen.contains(&h) {
                    seen.push(h);
                    worlds.push(Fx { w, ..f.clone() });
                }
            }
        }
        let cap = if tier == Tier::Quick { 40 } else { worlds.len() };
        // spread over the kinds of successors
        let step = worlds.len().div_ceil(cap.max(1)).max(1);
        let worlds: Vec<Fx> = worlds.into_iter().step_by(step).collect();
        let n = base.total * worlds.len();
        let st = Arc::new((worlds, base, own));
        let s2 = st.clone();
        let per = st.1.total;
        out.push(Cases {
            name: format!("hostile-sequences-{}", f.name),
            rule: "a second action of mallory with one replacement, from the worlds one successful single-replacement action leads to".into(),
            n,
            label: Box::new(move |i| {
                let mut ix = s2.1.get(i % per);
                sign_as_mallory(&mut ix);
                format!("world {} {}", i / per, show(&s2.0[i / per], &ix))
            }),
            check: Box::new(move |i| {
                let mut ix = st.1.get(i % per);
                sign_as_mallory(&mut ix);
                judge_hostile(&st.0[i / per], &st.2, &ix).map(|r| r.0)
            }),
        });
    }
    out
}

fn dist_like(f: &Fx) -> Pubkey {
    f.p.p.dist
}
/// creation of pools and minings: every pool account, mint, owner, payer and authority
pub fn creations(_tier: Tier) -> Cases {
    let mut list: Vec<(Arc<Fx>, Instruction)> = vec![];
    for f in fixtures() {
        let f = Arc::new(f);
        let uni = universe(&f);
        let pools: Vec<Pubkey> = uni.iter().map(|x| x.1).filter(|k| f.w.get(k).map_or(false, |a| a.owner == PID || a.owner == evil_program())).collect();
        for pool in &pools {
            for mint in [f.p.p.mint, f.n.p.mint, key("mint three")] {
                for payer in [f.p.payer, mallory(), f.p.p.dep] {
                    for dep in [f.p.p.dep, mallory(), f.q.p.dep] {
                        let mut e = f.p.clone();
                        e.p.pool = *pool;
                        e.p.mint = mint;
                        e.p.vault = vault_address_cached(pool, &mint);
                        e.payer = payer;
                        e.p.dep = dep;
                        for (fill, dist) in [
                            (key("new fill"), key("new dist")),
                            (Pubkey::default(), key("new dist")),
                            (key("new fill"), Pubkey::default()),
                            (dep, dep),
                            (payer, dist_like(&f)),
                            (*pool, mint),
                        ] {
                            e.p.fill = fill;
                            e.p.dist = dist;
                            let mut ix = e.init_pool();
                            all_writable(&mut ix);
                            list.push((f.clone(), ix));
                        }
                    }
                }
            }
            for owner in ["alice", "bob", "carol", "mallory", "erin", "nobody"] {
                for payer in [f.p.payer, mallory(), key(owner)] {
                    let mut ix = f.p.init_mining(0);
                    ix.data = Enc::new(tag::INIT_MINING).key(&key(owner)).0;
                    ix.accounts[0].pubkey = *pool;
                    ix.accounts[1].pubkey = mining_address_cached(&key(owner), pool);
                    ix.accounts[2].pubkey = payer;
                    all_writable(&mut ix);
                    list.push((f.clone(), ix));
                }
            }
        }
    }
    // anybody may have sent lamports to the address of the new account before
    for (f, ix) in list.clone() {
        if !legit(&f.w, &ix) {
            continue;
        }
        let (at, len) = if ix.data[0] == tag::INIT_POOL { (2, <spl_token::state::Account as spl_token::solana_program::program_pack::Pack>::LEN) } else { (1, MINING_LEN) };
        let at = ix.accounts[at].pubkey;
        let r = rt::rent();
        for n in [1, r.minimum_balance(0), r.minimum_balance(len) - 1, r.minimum_balance(len), r.minimum_balance(len) + 1, 5_000_000_000] {
            let mut g = (*f).clone();
            g.w.give(&at, n);
            list.push((Arc::new(g), ix.clone()));
        }
    }
    let l = Arc::new(list);
    let l2 = l.clone();
    Cases {
        name: "creations".into(),
        rule: "creation of a pool or mining for every account owned by the program (in use, closed, zeroed, of every size) or forged, with three mints, every owner, several payers and authorities, in five states, and with lamports sent to the address beforehand".into(),
        n: l.len(),
        label: Box::new(move |i| show(&l2[i].0, &l2[i].1)),
        check: Box::new(move |i| {
            let (f, ix) = &l[i];
            let ok = legit(&f.w, ix);
            let a: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
            match rt::exec(&f.w, std::slice::from_ref(ix)) {
                Err(e) => {
                    if ok && f.w.get(&a[if ix.data[0] == 0 { 3 } else { 2 }]).map_or(0, |x| x.lamports) > 1_000_000_000 {
                        return Err(format!("a proper creation is refused ({e:?}): {}", show(f, ix)));
                    }
                    Ok("refused")
                }
                Ok((w, _)) => {
                    if !ok {
                        return Err(format!("accepted although not allowed: {}", show(f, ix)));
                    }
                    if ix.data[0] == tag::INIT_POOL {
                        fresh_pool(&f.w, &w, ix).map(|_| "pool created")
                    } else {
                        fresh_mining(&f.w, &w, ix).map(|_| "mining created")
                    }
                }
            }
        }),
    }
}

pub fn fresh_pool(pre: &World, w: &World, ix: &Instruction) -> Result<(), String> {
    let a: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
    for k in pre.diff(w) {
        if ![a[0], a[2], a[3]].contains(&k) {
            return Err(format!("creating a pool changed {k}"));
        }
    }
    let b = w.get(&a[0]).ok_or("pool vanished")?;
    let h = pool_head(b.bytes());
    let want = PoolHead {
        dep: a[4],
        dist: keyat(&ix.data, 33),
        fill: keyat(&ix.data, 1),
        mint: a[1],
        index: 0,
        total: 0,
        ends: 0,
        avail: 0,
        bump: vault_address(&a[0], &a[1]).1,
        data: [1, 0, 0, 0, 0, 0, 0],
    };
    if h != want || b.owner != PID || b.bytes().len() != POOL_LEN || !pool_tree(b.bytes()).is_empty() || !hist_tree(b.bytes()).is_empty() {
        return Err(format!("a new pool is not empty or wrongly bound: {h:?}, expected {want:?}"));
    }
    let v = real_token(w, &a[2]).ok_or("no vault created")?;
    if v.owner != a[4] || v.mint != a[1] || v.amount != 0 || v.delegate.is_some() || v.close_authority.is_some() || v.state != spl_token::state::AccountState::Initialized {
        return Err(format!("a new vault is wrong: {v:?}"));
    }
    if !w.get(&a[2]).is_some_and(|v| rt::rent().is_exempt(v.lamports, v.bytes().len())) {
        return Err("a new vault is not rent exempt".into());
    }
    Ok(())
}
pub fn fresh_mining(pre: &World, w: &World, ix: &Instruction) -> Result<(), String> {
    let a: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
    for k in pre.diff(w) {
        if ![a[1], a[2]].contains(&k) {
            return Err(format!("creating a mining changed {k}"));
        }
    }
    let b = w.get(&a[1]).ok_or("no mining created")?;
    if b.owner != PID || b.bytes().len() != MINING_LEN {
        return Err("a new mining has a wrong owner or size".into());
    }
    let h = mining_head(b.bytes());
    let owner = keyat(&ix.data, 1);
    let (addr, bump) = mining_address(&owner, &a[0]);
    let good = h.pool == a[0]
        && h.owner == owner
        && h.mint == Pubkey::default()
        && h.share == 0
        && h.unclaimed == 0
        && h.sfo == 0
        && h.bump == bump
        && h.data == [2, 0, 0, 0, 0, 0, 0]
        && addr == a[1];
    if !good || !mining_tree(b.bytes()).is_empty() {
        return Err(format!("a new mining is not empty or wrongly bound: {h:?}"));
    }
    if !rt::rent().is_exempt(b.lamports, b.bytes().len()) {
        return Err("a new mining is not rent exempt".into());
    }
    Ok(())
}

/// transactions around a close: close, put lamports back, use the account
pub fn after_close(_tier: Tier) -> Cases {
    let mut list: Vec<(Arc<Fx>, String, Vec<Vec<Instruction>>, usize, bool)> = vec![];
    for f in fixtures() {
        let f = Arc::new(f);
        let p = &f.p;
        let users: Vec<usize> = match f.name {
            "fresh" => vec![0, 1, 3],
            "later" => vec![],
            _ => vec![ERIN],
        };
        let rentmin = rt::rent().minimum_balance(MINING_LEN);
        for u in users {
            let close = p.close(u);
            let now = f.w.now as u64;
            let other = if u == BOB { CAROL } else { BOB };
            let mut uses = vec![
                ("init", p.init_mining(u)),
                ("deposit", p.deposit(u, 10, 1, u)),
                ("deposit-delegated", p.deposit(u, 10, 2, other)),
                ("deposit-to", p.deposit(other, 10, 1, u)),
                ("deposit-0", p.deposit(u, 0, 1, u)),
                ("deposit-0-to", p.deposit(other, 0, 1, u)),
                ("withdraw", p.withdraw(u, 0, u)),
                ("withdraw-to", p.withdraw(other, 0, u)),
                ("claim", p.claim(u)),
                ("extend", p.extend(u, 1, 2, now, 0, 10, u)),
                ("extend-to", p.extend(other, 1, 2, now, 0, 0, u)),
                ("change-delegate", p.change_delegate(u, u, other, 0)),
                ("change-delegate-from", p.change_delegate(other, u, other, 0)),
                ("change-delegate-to", p.change_delegate(other, other, u, 0)),
                ("slash", p.slash(u, 0, 0, None)),
                ("decrease", p.decrease(u, 0)),
                ("decrease-1", p.decrease(u, 1)),
                ("close", p.close(u)),
            ];
            // the same with the empty owner, which an erased account appears to have
            let z = Pubkey::default();
            let mut e = p.clone();
            e.users[u].owner = z;
            uses.push(("claim-as-nobody", e.claim(u)));
            uses.push(("deposit-as-nobody", e.deposit(u, 0, 1, u)));
            uses.push(("close-as-nobody", e.close(u)));
            let fund = |n: u64| system_instruction::transfer(&p.payer, &p.users[u].mining, n);
            for (l, ix) in &uses {
                let init = *l == "init";
                for (m, amt) in [("", 0u64), ("refund ", rentmin), ("overfund ", 3 * rentmin)] {
                    let mut one = vec![close.clone()];
                    if amt > 0 {
                        one.push(fund(amt));
                    }
                    // all in one transaction
                    let mut t = one.clone();
                    t.push(ix.clone());
                    list.push((f.clone(), format!("user {u}: close {m}{l} in one transaction"), vec![t], u, init));
                    // in two transactions
                    list.push((f.clone(), format!("user {u}: close {m}then {l}"), vec![one.clone(), vec![ix.clone()]], u, init));
                    // refund after the use
                    let mut t = vec![close.clone(), ix.clone()];
                    if amt > 0 {
                        t.push(fund(amt));
                        list.push((f.clone(), format!("user {u}: close {l} {m}in one transaction"), vec![t], u, init));
                    }
                    // refund in a later transaction
                    if amt > 0 {
                        list.push((f.clone(), format!("user {u}: close; {m}; {l}"), vec![vec![close.clone()], vec![fund(amt)], vec![ix.clone()]], u, init));
                    }
                }
            }
        }
    }
    let l = Arc::new(list);
    let l2 = l.clone();
    Cases {
        name: "after-close".into(),
        rule: "close, optionally put lamports back, then every use of the closed mining, in one transaction or several, in every order".into(),
        n: l.len(),
        label: Box::new(move |i| format!("[{}] {}", l2[i].0.name, l2[i].1)),
        check: Box::new(move |i| {
            let (f, what, txs, u, init) = &l[i];
            let k = f.p.users[*u].mining;
            let mut w = f.w.clone();
            for (j, t) in txs.iter().enumerate() {
                let last = j + 1 == txs.len();
                match rt::exec(&w, t) {
                    Ok((nw, _)) => {
                        if last && !init {
                            return Err(format!("a closed mining can still be used: {what}"));
                        }
                        if last && *init {
                            let h = real_mining(&nw, &k).ok_or(format!("recreation left no mining: {what}"))?;
                            if h.share != 0 || h.sfo != 0 || h.unclaimed != 0 || !mining_tree(nw.get(&k).unwrap().bytes()).is_empty() {
                                return Err(format!("a recreated mining is not empty: {what}"));
                            }
                            return Ok("recreated");
                        }
                        if let Some(a) = nw.get(&k) {
                            if a.bytes().iter().any(|b| *b != 0) {
                                return Err(format!("data left behind after a close: {what}"));
                            }
                        }
                        w = nw;
                    }
                    Err(e) if !last => return Err(format!("step {j} of {what} fails: {e:?}")),
                    Err(e) if *init => return Err(format!("a closed mining cannot be created afresh: {what} fails: {e:?}")),
                    Err(_) => return Ok("refused"),
                }
            }
            Ok("done")
        }),
    }
}

/// close attempts: every mining, owner, authority and pool, all signing, in every state
pub fn closings(_tier: Tier) -> Cases {
    let mut list: Vec<(Arc<Fx>, Instruction)> = vec![];
    let mut fxs = fixtures();
    // the same states, after somebody sent lamports to everything the program owns
    for mut g in fixtures() {
        for a in g.w.accts.values_mut().filter(|a| a.owner == PID) {
            a.lamports += 777_777;
        }
        fxs.push(g);
    }
    for f in fxs {
        let f = Arc::new(f);
        let uni = universe(&f);
        let prog: Vec<Pubkey> = uni.iter().map(|x| x.1).filter(|k| f.w.get(k).map_or(false, |a| a.owner == PID)).collect();
        let owners: Vec<Pubkey> = ["alice", "bob", "carol", "mallory", "erin"].iter().map(|l| key(l)).collect();
        for m in &prog {
            for pool in &prog {
                for o in owners.iter().chain([&Pubkey::default()]) {
                    for dep in [f.p.p.dep, f.q.p.dep, f.n.p.dep, mallory(), Pubkey::default()] {
                        let mut ix = f.p.close(0);
                        ix.accounts[0].pubkey = *m;
                        ix.accounts[1].pubkey = *o;
                        ix.accounts[3].pubkey = dep;
                        ix.accounts[4].pubkey = *pool;
                        all_writable(&mut ix);
                        list.push((f.clone(), ix));
                    }
                }
            }
        }
    }
    let l = Arc::new(list);
    let l2 = l.clone();
    Cases {
        name: "closings".into(),
        rule: "closing with every program-owned account as mining and as pool, every owner and authority, in five states, also with lamports sent to every account; an allowed one must move all lamports and erase".into(),
        n: l.len(),
        label: Box::new(move |i| show(&l2[i].0, &l2[i].1)),
        check: Box::new(move |i| {
            let (f, ix) = &l[i];
            let ok = legit(&f.w, ix);
            let m = ix.accounts[0].pubkey;
            // what is left to claim, on a copy
            let owed = |f: &Fx| -> Option<(u64, u64)> {
                let h = real_mining(&f.w, &m)?;
                let env = f.pools().into_iter().map(|e| e.1).find(|e| e.p.pool == h.pool)?;
                let u = env.users.iter().position(|x| x.owner == h.owner)?;
                Some((env.claimable(&f.w)[u].clone().ok()?, h.sfo))
            };
            match rt::exec(&f.w, std::slice::from_ref(ix)) {
                Err(e) => {
                    if ok && owed(f) == Some((0, 0)) {
                        return Err(format!("closing an empty-handed mining is refused ({e:?}): {}", show(f, ix)));
                    }
                    Ok("refused")
                }
                Ok((w, _)) => {
                    if !ok {
                        return Err(format!("accepted although not allowed: {}", show(f, ix)));
                    }
                    if owed(f) != Some((0, 0)) {
                        return Err(format!("closed while {:?} is left to claim or delegated: {}", owed(f), show(f, ix)));
                    }
                    let t = ix.accounts[2].pubkey;
                    let lam = |w: &World, k: &Pubkey| w.get(k).map_or(0, |a| a.lamports);
                    if w.get(&m).is_some() || lam(&w, &t) != lam(&f.w, &t) + lam(&f.w, &m) || f.w.diff(&w).iter().any(|k| *k != m && *k != t) {
                        return Err(format!("a close did not move exactly all lamports: {}", show(f, ix)));
                    }
                    Ok("closed")
                }
            }
        }),
    }
}

/// byte-level and account-list malformations
pub fn malformed(tier: Tier) -> Vec<Cases> {
    let fx: Vec<Arc<Fx>> = fixtures().into_iter().filter(|f| f.name != "fresh").map(Arc::new).collect();
    // (fixture, description, instruction, patched world)
    type L = Vec<(Arc<Fx>, String, Instruction, Option<(Pubkey, Acct)>)>;
    let mut data: L = vec![];
    let mut accts: L = vec![];
    for f in &fx {
        for (ti, base) in templates(f).into_iter().enumerate() {
            let mut base = base;
            all_writable(&mut base);
            let n = base.data.len();
            let mut put = |l: String, d: Vec<u8>| {
                let mut ix = base.clone();
                ix.data = d;
                data.push((f.clone(), l, ix, None));
            };
            for k in 0..n {
                put(format!("template {ti} truncated to {k} bytes"), base.data[..k].to_vec());
            }
            for extra in [vec![0u8], vec![1], vec![255], vec![0; 8], vec![0; 32], base.data.clone(), vec![7; 200]] {
                let mut d = base.data.clone();
                d.extend(&extra);
                put(format!("template {ti} followed by {} bytes {}", extra.len(), extra[0]), d);
            }
            for t in 12..=255u8 {
                let mut d = base.data.clone();
                d[0] = t;
                put(format!("template {ti} with tag {t}"), d);
                if ti == 0 {
                    put(format!("tag {t} alone"), vec![t]);
                }
            }
            let pers: &[usize] = match base.data[0] {
                tag::DEPOSIT => &[9],
                tag::EXTEND => &[1, 2],
                _ => &[],
            };
            for o in pers {
                for v in 5..=255u8 {
                    let mut d = base.data.clone();
                    d[*o] = v;
                    put(format!("template {ti} with lockup period {v} at {o}"), d);
                }
                // the invalid period, where it is used
                if base.data[0] == tag::DEPOSIT || *o == 2 {
                    let mut d = base.data.clone();
                    d[*o] = 0;
                    put(format!("template {ti} with lockup period none at {o}"), d);
                }
            }
            if base.data[0] == tag::SLASH {
                for v in 2..=255u8 {
                    let mut d = base.data.clone();
                    d[49] = v;
                    put(format!("template {ti} with option tag {v}"), d.clone());
                    d.truncate(50);
                    put(format!("template {ti} with option tag {v} and no value"), d);
                }
                // a tag that promises a value which is not there, and the reverse
                let mut d = base.data.clone();
                d.truncate(50);
                d[49] = 1;
                put(format!("template {ti} option without value"), d.clone());
                d[49] = 0;
                d.extend([0u8; 8]);
                put(format!("template {ti} no option but a value"), d);
            }
            // account lists
            let mut put = |l: String, ix: Instruction, p: Option<(Pubkey, Acct)>| accts.push((f.clone(), l, ix, p));
            for k in 0..base.accounts.len() {
                let mut ix = base.clone();
                ix.accounts.truncate(k);
                put(format!("template {ti} with the first {k} accounts"), ix, None);
                let mut ix = base.clone();
                ix.accounts.remove(k);
                // the token and system programs stay available to the transaction
                put(format!("template {ti} without account {k}"), ix, None);
            }
            let mut own = owners(base.data[0]);
            if base.data[0] == tag::CLAIM {
                // a claim of nothing moves no tokens and does not look at token accounts
                let nothing = matches!(rt::exec(&f.w, std::slice::from_ref(&base)), Ok((_, Some(r))) if r == 0u64.to_le_bytes());
                if nothing {
                    own[2] = ' ';
                    own[6] = ' ';
                }
            }
            for (pos, kind) in own.iter().enumerate() {
                let k = base.accounts[pos].pubkey;
                let Some(a) = f.w.get(&k) else { continue };
                let foreign = [evil_program(), system_program::ID, spl_token::ID, PID, Pubkey::default()];
                for o in foreign {
                    if *kind != ' ' && o != a.owner {
                        let mut b = a.clone();
                        b.owner = o;
                        put(format!("template {ti} with account {pos} owned by {o}"), base.clone(), Some((k, b)));
                    }
                }
                let full = a.bytes().len();
                let mut cuts: Vec<usize> = match kind {
                    'p' | 'm' => {
                        let step = if tier == Tier::Quick { 97 } else { 7 };
                        let mut c: Vec<usize> = (0..256.min(full)).collect();
                        c.extend((256..full).step_by(step * if *kind == 'p' { 23 } else { 1 }));
                        c.extend([full - 1, full - 2, full - 8, full - 16, full - 48]);
                        c
                    }
                    't' => (0..full).collect(),
                    _ => vec![],
                };
                cuts.retain(|c| *c < full);
                for c in cuts {
                    let b = Acct::new(a.lamports, a.owner, &a.bytes()[..c]);
                    put(format!("template {ti} with account {pos} cut to {c} bytes"), base.clone(), Some((k, b)));
                }
            }
        }
    }
    let mk = |name: &str, rule: &str, l: L, strict_needed: bool| {
        let l = Arc::new(l);
        let l2 = l.clone();
        Cases {
            name: name.into(),
            rule: rule.into(),
            n: l.len(),
            label: Box::new(move |i| format!("[{}] {}", l2[i].0.name, l2[i].1)),
            check: Box::new(move |i| {
                let (f, what, ix, patch) = &l[i];
                let mut w = f.w.clone();
                if let Some((k, a)) = patch {
                    w.accts.insert(*k, a.clone());
                }
                // keep the programs in the transaction even if they are not passed
                let _ = strict_needed;
                match rt::exec(&w, std::slice::from_ref(ix)) {
                    Err(_) => Ok("refused"),
                    Ok(_) if needless(ix, what) => Ok("account not needed"),
                    Ok(_) => Err(format!("accepted: {what} ({})", show(f, ix))),
                }
            }),
        }
    };
    vec![
        mk(
            "data",
            "every truncation, several extensions, every unknown tag, every invalid lockup period and option tag of every instruction, in four states",
            data,
            false,
        ),
        mk(
            "accounts",
            "every prefix of the account list, every single omission, every account owned by another program, every account cut to shorter data",
            accts,
            true,
        ),
    ]
}
/// Where natively compiled code finds 128-bit alignment in serialized accounts: in front of an
/// account of the program that would be misaligned, an account the instruction does not parse is
/// made 8 bytes longer.
fn align_accounts(w: &mut World, ix: &Instruction) -> bool {
    let mut at = 8usize;
    let mut last: Option<Pubkey> = None;
    for (n, m) in ix.accounts.iter().enumerate() {
        if ix.accounts[..n].iter().any(|o| o.pubkey == m.pubkey) {
            at += 8;
            continue;
        }
        let (len, own) = w.get(&m.pubkey).map_or((0, system_program::ID), |a| (a.bytes().len(), a.owner));
        let mut data = at + 88;
        if own == PID {
            if data % 16 != 0 {
                let Some(k) = last else { return false };
                let a = w.accts.get_mut(&k).unwrap();
                let mut d = a.bytes().to_vec();
                d.extend([0u8; 8]);
                *a = Acct { exec: a.exec, ..Acct::new(a.lamports, a.owner, &d) };
                data += 8;
            }
        } else if len > 0 && matches!(ix.data.first(), Some(&(tag::DEPOSIT | tag::EXTEND | tag::WITHDRAW))) {
            last = Some(m.pubkey);
        }
        at = (data + len + 7) / 8 * 8 + 10 * 1024 + 8;
    }
    true
}

/// The same transactions through the program's entrypoint, with accounts in the runtime's format.
pub fn entrypoint(_tier: Tier) -> Cases {
    let mut l: Vec<(Arc<Fx>, String, Instruction)> = vec![];
    for f in fixtures() {
        let f = Arc::new(f);
        let mut put = |what: String, ix: Instruction| l.push((f.clone(), what, ix));
        let ixs: Vec<Instruction> = templates(&f).into_iter().chain(hostile(&f)).collect();
        for (ti, ix) in ixs.iter().enumerate() {
            put(format!("instruction {ti}"), ix.clone());
            for pos in 0..ix.accounts.len() {
                let mut j = ix.clone();
                j.accounts[pos].is_signer = false;
                put(format!("instruction {ti}, account {pos} not signing"), j);
                let mut j = ix.clone();
                j.accounts[pos].is_writable = false;
                put(format!("instruction {ti}, account {pos} not writable"), j);
                let mut j = ix.clone();
                j.accounts.truncate(pos);
                put(format!("instruction {ti} with the first {pos} accounts"), j);
                for (k, key) in universe(&f) {
                    let mut j = ix.clone();
                    j.accounts[pos].pubkey = key;
                    put(format!("instruction {ti}, account {pos} replaced by {k}"), j);
                }
            }
            for k in 0..ix.data.len() {
                let mut j = ix.clone();
                j.data.truncate(k);
                put(format!("instruction {ti} truncated to {k} bytes"), j);
                for v in [0u8, 1, 2, 3, 4, 5, 127, 255] {
                    let mut j = ix.clone();
                    j.data[k] = v;
                    put(format!("instruction {ti} with byte {k} set to {v}"), j);
                }
            }
            let mut j = ix.clone();
            j.data.push(0);
            put(format!("instruction {ti} with a trailing byte"), j);
        }
    }
    let l = Arc::new(l);
    let l2 = l.clone();
    Cases {
        name: "entrypoint".into(),
        rule: "proper and hostile instructions in five states, each also with one signature or write permission missing, one account replaced, the account list or the data cut, one byte of the data changed: the program's entrypoint, given accounts in the runtime's serialized form, has the same result and effects as the instruction handlers".into(),
        n: l.len(),
        label: Box::new(move |i| format!("[{}] {}: {}", l2[i].0.name, l2[i].1, show(&l2[i].0, &l2[i].2))),
        check: Box::new(move |i| {
            let (f, what, ix) = &l[i];
            let mut w = f.w.clone();
            if !align_accounts(&mut w, ix) {
                return Ok("not alignable");
            }
            let a = rt::exec(&w, std::slice::from_ref(ix));
            if matches!(a, Err(rt::TxErr::Panic(_))) {
                return Ok("panics");
            }
            let b = rt::exec_entry(&w, std::slice::from_ref(ix));
            match (a, b) {
                (Ok((x, r)), Ok((y, s))) if x.diff(&y).is_empty() && r == s => Ok("accepted alike"),
                (Err(rt::TxErr::Program(x)), Err(rt::TxErr::Program(y))) if u64::from(x.clone()) == u64::from(y.clone()) => Ok("refused alike"),
                (Err(x), Err(y)) if x == y => Ok("refused alike"),
                (a, b) => Err(format!(
                    "the entrypoint differs ({} instead of {}): {what} {}",
                    b.map_or_else(|e| format!("{e:?}"), |_| "accepted".into()),
                    a.map_or_else(|e| format!("{e:?}"), |_| "accepted".into()),
                    show(f, ix)
                )),
            }
        }),
    }
}

/// omitting an account shifts the others; the result is another account list, judged as such
fn needless(_ix: &Instruction, _what: &str) -> bool {
    false
}

/// kind of each account by instruction: p pool, m mining, t token account that is parsed,
/// o owned but not parsed, space: anything
pub fn owners(t: u8) -> Vec<char> {
    match t {
        tag::INIT_POOL => "poo ".chars().take(2).collect(),
        tag::FILL => "pot t".chars().collect(),
        tag::INIT_MINING => "p".chars().collect(),
        tag::DEPOSIT | tag::WITHDRAW | tag::EXTEND => "pm m".chars().collect(),
        tag::CLAIM => "potm  t".chars().collect(),
        tag::DISTRIBUTE => "p".chars().collect(),
        tag::CLOSE => "m o p".chars().collect(),
        tag::CHANGE_DELEGATE => "pm  mm".chars().collect(),
        _ => " pm".chars().collect(),
    }
}
