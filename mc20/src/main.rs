mod forms;
mod idl;
mod js;
mod layout;

use forms::*;
use mc::{
    env::{key, PID},
    explore::{Cx, Oracle},
    fix,
    report::{self, Cases, Job, Tier},
    rt::{self, TxErr, TxOk},
    scen,
};
use serde_json::{json, Value};
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::{str::FromStr, sync::OnceLock};

fn idl_() -> &'static Result<Value, String> {
    static I: OnceLock<Result<Value, String>> = OnceLock::new();
    I.get_or_init(idl::load)
}

const U: [u64; 8] = [0, 1, 255, 256, 0x0102030405060708, (1 << 32) - 1, 1 << 63, u64::MAX];

fn values(t: Ty, j: usize) -> Vec<Val> {
    match t {
        Ty::U64 => U.iter().map(|x| Val::U64(*x)).collect(),
        Ty::Per => (0..5).map(Val::Per).collect(),
        Ty::Opt => std::iter::once(Val::Opt(None)).chain(U.iter().map(|x| Val::Opt(Some(*x)))).collect(),
        Ty::Key => vec![Val::Key(key(&format!("argument {j}"))), Val::Key(key("one and the same"))],
    }
}

/// all argument combinations of every instruction
fn cases() -> Vec<Case> {
    let mut v = vec![];
    for (tag, sp) in SPECS.iter().enumerate() {
        // distinct keys, then every account the same key
        for same in [false, true] {
            let keys: Vec<Pubkey> = sp
                .accs
                .iter()
                .map(|(n, _)| well_known(n).unwrap_or_else(|| key(&if same { "the same".into() } else { format!("account {n}") })))
                .collect();
            let mut rows: Vec<Vec<Val>> = vec![vec![]];
            for (j, (_, t)) in sp.args.iter().enumerate() {
                let vs = values(*t, j);
                let vs = if same { vs[..1].to_vec() } else { vs };
                rows = rows.into_iter().flat_map(|r| vs.iter().map(move |x| r.iter().copied().chain([*x]).collect::<Vec<_>>())).collect();
            }
            v.extend(rows.into_iter().map(|args| Case { tag, keys: keys.clone(), args }));
        }
        // accounts that have a default, given by the caller nevertheless
        for (i, (n, _)) in sp.accs.iter().enumerate() {
            if well_known(n).is_some() {
                let mut c = base_case(tag);
                c.keys[i] = key("given by the caller");
                v.push(c);
            }
        }
    }
    v
}

type Maker = Box<dyn Fn(&Case) -> Result<Instruction, String> + Send + Sync>;

/// the encoders other than JavaScript
fn makers() -> Vec<(String, Maker)> {
    let mut v: Vec<(String, Maker)> = vec![];
    v.push(("program builder".into(), Box::new(|c| Ok(program_builder(c)))));
    v.push(("IDL".into(), Box::new(|c| idl::instruction(idl_().as_ref().map_err(|e| e.clone())?, c))));
    for f in FORMS {
        v.push((
            format!("Rust client {f:?}"),
            Box::new(move |c| {
                let (mut ix, cap) = forms::client(c, f)?;
                let more = if f.more() { forms::more().to_vec() } else { vec![] };
                if f.more() {
                    let n = ix.accounts.len() - ix.accounts.len().min(more.len());
                    if ix.accounts.split_off(n) != more {
                        return Err("the accounts added are not those of the end of the instruction".into());
                    }
                }
                if let Some((_, infos, seeds)) = cap {
                    let want: Vec<Vec<Vec<u8>>> = f.seeds().iter().map(|l| l.iter().map(|x| x.to_vec()).collect()).collect();
                    if seeds != want {
                        return Err(format!("the invocation is signed with {seeds:?} instead of {want:?}"));
                    }
                    for k in c.keys.iter().chain([&PID]).chain(more.iter().map(|m| &m.pubkey)) {
                        if !infos.contains(k) {
                            return Err(format!("the invocation does not hand over account {k}"));
                        }
                    }
                }
                Ok(ix)
            }),
        ));
    }
    v
}

fn judge(c: &Case, ix: &Instruction) -> Result<(), String> {
    let sp = &SPECS[c.tag];
    if ix.program_id != PID {
        return Err(format!("addressed to program {}", ix.program_id));
    }
    if ix.data != c.data() {
        return Err(format!("data {:02x?} instead of {:02x?}", ix.data, c.data()));
    }
    if ix.accounts.len() != c.keys.len() {
        return Err(format!("{} accounts instead of {}", ix.accounts.len(), c.keys.len()));
    }
    for (i, a) in ix.accounts.iter().enumerate() {
        if a.pubkey != c.keys[i] {
            let n = c.keys.iter().position(|k| *k == a.pubkey).map_or("an unknown account", |j| sp.accs[j].0);
            return Err(format!("account {i} is {n} instead of {}", sp.accs[i].0));
        }
        if a.is_signer != sp.accs[i].1 {
            return Err(format!("account {} has signer flag {}", sp.accs[i].0, a.is_signer));
        }
    }
    Ok(())
}

fn base_case(tag: usize) -> Case {
    let sp = &SPECS[tag];
    Case {
        tag,
        keys: sp.accs.iter().map(|(n, _)| well_known(n).unwrap_or_else(|| key(&format!("account {n}")))).collect(),
        args: sp.args.iter().enumerate().map(|(j, (_, t))| values(*t, j)[0]).collect(),
    }
}

/// is an account given that has a well-known address?
fn given(c: &Case) -> bool {
    SPECS[c.tag].accs.iter().zip(&c.keys).any(|((n, _), k)| well_known(n).is_some_and(|w| w != *k))
}

fn writable(ix: &Instruction) -> Vec<bool> {
    ix.accounts.iter().map(|a| a.is_writable).collect()
}

/// the writable flags each encoder gives each instruction: [encoder][tag]
fn flags() -> &'static Vec<(String, Vec<Option<Vec<bool>>>)> {
    static F: OnceLock<Vec<(String, Vec<Option<Vec<bool>>>)>> = OnceLock::new();
    F.get_or_init(|| {
        let mut v: Vec<(String, Vec<Option<Vec<bool>>>)> = makers()
            .into_iter()
            .map(|(n, m)| (n, (0..12).map(|t| m(&base_case(t)).ok().map(|ix| writable(&ix)).filter(|w| w.len() == SPECS[t].accs.len())).collect()))
            .collect();
        let q: Vec<Value> = (0..12).map(|t| request(&base_case(t), false)).collect();
        let a = js::ask(&q);
        v.push((
            "JS client".into(),
            (0..12).map(|t| parse(&a[t]).ok().map(|ix| writable(&ix)).filter(|w| w.len() == SPECS[t].accs.len())).collect(),
        ));
        v
    })
}

fn built(c: &Case, name: &str, m: &Maker, n: usize) -> Result<(), String> {
    let ix = m(c).map_err(|e| format!("{name}: {}: {e}", c.show()))?;
    judge(c, &ix).map_err(|e| format!("{name}: {}: {e}", c.show()))?;
    if flags()[n].1[c.tag].as_ref() != Some(&writable(&ix)) {
        return Err(format!("{name}: {}: writable flags depend on the arguments", c.show()));
    }
    Ok(())
}

fn encoders(_t: Tier) -> Cases {
    let cs = cases();
    let ms = makers();
    flags();
    let n = cs.len();
    let shown: Vec<String> = cs.iter().map(|c| c.show()).collect();
    Cases {
        name: "encoders".into(),
        rule: format!(
            "every instruction with all combinations of boundary arguments ({} values per amount, every lockup period, absent and present options, \
             distinct and equal keys, accounts that have a default given by the caller), built in {} ways (program builder, IDL, Rust client: struct, builder, builder with defaults, CPI, CPI builder); \
             bytes, account order and signers compared",
            U.len(),
            ms.len()
        ),
        n,
        label: Box::new(move |i| shown[i].clone()),
        check: Box::new(move |i| {
            for (n, (name, m)) in ms.iter().enumerate() {
                if given(&cs[i]) && (!name.starts_with("Rust client") || name.ends_with("BuilderDefaults")) {
                    continue;
                }
                built(&cs[i], name, m, n)?;
            }
            Ok(SPECS[cs[i].tag].name)
        }),
    }
}

fn request(c: &Case, defaults: bool) -> Value {
    let sp = &SPECS[c.tag];
    let acc: Vec<Value> = sp
        .accs
        .iter()
        .zip(&c.keys)
        .filter(|((n, _), _)| !defaults || (well_known(n).is_none() && *n != "payer"))
        .map(|((n, s), k)| json!([camel(n), k.to_string(), s]))
        .collect();
    let args: Vec<Value> = sp
        .args
        .iter()
        .zip(&c.args)
        .map(|((n, _), v)| match v {
            Val::U64(x) => json!([camel(n), "u64", x.to_string()]),
            Val::Key(k) => json!([camel(n), "key", k.to_string()]),
            Val::Per(p) => json!([camel(n), "period", PERIODS[*p as usize]]),
            Val::Opt(o) => json!([camel(n), "opt", o.map(|x| x.to_string())]),
        })
        .collect();
    let payer = sp.accs.iter().position(|a| a.0 == "payer").map(|i| c.keys[i].to_string());
    json!({"kind": "ix", "fn": camel(sp.name), "accounts": acc, "args": args, "payer": payer})
}
fn parse(v: &Value) -> Result<Instruction, String> {
    if let Some(e) = v["failed"].as_str() {
        return Err(format!("threw: {e}"));
    }
    let h = v["data"].as_str().ok_or("no data")?;
    let data = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
    let pk = |v: &Value| Pubkey::from_str(v.as_str().unwrap_or("")).map_err(|e| e.to_string());
    let mut accounts = vec![];
    for k in v["keys"].as_array().ok_or("no keys")? {
        accounts.push(solana_program::instruction::AccountMeta {
            pubkey: pk(&k[0])?,
            is_signer: k[1] == true,
            is_writable: k[2] == true,
        });
    }
    Ok(Instruction { program_id: pk(&v["program"])?, accounts, data })
}

fn js_encoder(_t: Tier) -> Cases {
    let cs: Vec<(Case, bool)> = cases().into_iter().map(|c| (c, false)).chain((0..12).map(|t| (base_case(t), true))).collect();
    let q: Vec<Value> = cs.iter().map(|(c, d)| request(c, *d)).collect();
    let a = js::ask(&q);
    let n = cs.len();
    let pos = flags().iter().position(|f| f.0 == "JS client");
    let shown: Vec<String> = cs.iter().map(|(c, d)| format!("JS {}{}", c.show(), if *d { " with defaults" } else { "" })).collect();
    Cases {
        name: "js-encoder".into(),
        rule: "the same argument combinations built by the JavaScript client (bundled with a stand-in for umi), with keys, program-derived addresses, numbers, big integers and options as input and with another program registered under its name; bytes, account order, flags and signers compared".into(),
        n,
        label: Box::new(move |i| shown[i].clone()),
        check: Box::new(move |i| {
            let c = &cs[i].0;
            let ix = parse(&a[i]).map_err(|e| format!("JS client: {}: {e}", c.show()))?;
            judge(c, &ix).map_err(|e| format!("JS client: {}: {e}", c.show()))?;
            if flags()[pos.ok_or("JS client: no flags")?].1[c.tag].as_ref() != Some(&writable(&ix)) {
                return Err(format!("JS client: {}: writable flags depend on the arguments", c.show()));
            }
            Ok(SPECS[c.tag].name)
        }),
    }
}

/// names and codes of the errors the program can return
fn errors(_t: Tier) -> Cases {
    use num_traits::FromPrimitive;
    let q: Vec<Value> = (0..64).map(|c| json!({"kind": "error", "code": c})).collect();
    let a = js::ask(&q);
    Cases {
        name: "errors".into(),
        rule: "every error code below 64: name in the program, the Rust client, the IDL and the JS client".into(),
        n: 64,
        label: Box::new(|i| format!("error code {i}")),
        check: Box::new(move |i| {
            let p = mplx_rewards::error::MplxRewardsError::from_u64(i as u64);
            if let Some(e) = &p {
                let code: solana_program::program_error::ProgramError = e.clone().into();
                if code != solana_program::program_error::ProgramError::Custom(i as u32) {
                    return Err(format!("error {e:?} is returned as {code:?}"));
                }
            }
            let p = p.map(|e| format!("{e:?}"));
            let c = rewards::errors::MplxRewardsError::from_u64(i as u64).map(|e| format!("{e:?}"));
            let idl = idl_().as_ref().map_err(|e| e.clone())?;
            let l = idl["errors"].as_array().ok_or("IDL: no errors")?;
            let d: Vec<String> =
                l.iter().filter(|e| e["code"].as_u64() == Some(i as u64)).map(|e| e["name"].as_str().unwrap_or("").to_string()).collect();
            let j = a[i]["name"].as_str().map(|s| s.to_string());
            if p != c || d.len() > 1 || p.as_ref() != d.first() || p != j || (p.is_some() && (a[i]["code"] != i || a[i]["back"] != i)) {
                return Err(format!("error code {i}: program {p:?}, Rust client {c:?}, IDL {d:?}, JS client {}", a[i]));
            }
            Ok(if p.is_some() { "named" } else { "unused" })
        }),
    }
}

fn programs(_t: Tier) -> Cases {
    let a = js::ask(&[json!({"kind": "program", "codes": (0..64).collect::<Vec<u32>>()})]);
    Cases {
        name: "program-id".into(),
        rule: "the program address in the program, both clients and the IDL".into(),
        n: 1,
        label: Box::new(|_| "program id".into()),
        check: Box::new(move |_| {
            let p = PID.to_string();
            let idl = idl_().as_ref().map_err(|e| e.clone())?;
            if mplx_rewards::ID != PID || rewards::ID != PID || idl["metadata"]["address"] != p.as_str() {
                return Err("the program address differs".into());
            }
            let ids = a[0]["ids"].as_array().ok_or_else(|| format!("JS client: program: {}", a[0]))?;
            if ids.iter().any(|i| *i != p.as_str()) {
                return Err(format!("JS client: program addresses {}", a[0]["ids"]));
            }
            for (i, n) in a[0]["errors"].as_array().ok_or("JS client: no errors")?.iter().enumerate() {
                let e = <mplx_rewards::error::MplxRewardsError as num_traits::FromPrimitive>::from_u64(i as u64).map(|e| format!("{e:?}"));
                if n.as_str().map(|s| s.to_string()) != e {
                    return Err(format!("JS client: the registered program resolves error {i} to {n} instead of {e:?}"));
                }
            }
            Ok("equal")
        }),
    }
}

fn same(a: &Result<TxOk, TxErr>, b: &Result<TxOk, TxErr>) -> Result<(), String> {
    match (a, b) {
        (Ok((w, r)), Ok((v, s))) => {
            if !w.diff(v).is_empty() {
                return Err("has another effect".into());
            }
            if r != s {
                return Err("returns other data".into());
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("fails: {e:?}")),
        (Err(e), Ok(_)) => Err(format!("succeeds, although with every account writable it fails: {e:?}")),
    }
}

/// with every account of the instruction writable, except programs
fn all_writable(ix: &Instruction) -> Instruction {
    let mut x = ix.clone();
    for a in x.accounts.iter_mut() {
        a.is_writable = well_known_key(&a.pubkey).is_none();
    }
    x
}
fn well_known_key(k: &Pubkey) -> Option<()> {
    ["rent", "token_program", "system_program"].iter().any(|n| well_known(n) == Some(*k)).then_some(())
}

fn with_flags(ix: &Instruction, w: &[bool]) -> Instruction {
    let mut x = ix.clone();
    for (a, w) in x.accounts.iter_mut().zip(w) {
        a.is_writable = *w;
    }
    x
}

/// the distinct sets of writable flags of an instruction, each with one encoder that has it
fn distinct(tag: usize) -> Vec<(&'static str, &'static Vec<bool>)> {
    let mut v: Vec<(&'static str, &'static Vec<bool>)> = vec![];
    for (n, f) in flags() {
        if let Some(w) = &f[tag] {
            if !v.iter().any(|x| x.1 == w) {
                v.push((n, w));
            }
        }
    }
    v
}

fn execute(w: &rt::World, ix: &Instruction) -> Result<(), String> {
    let tag = ix.data[0] as usize;
    let full = rt::exec(w, &[all_writable(ix)]);
    for (n, f) in distinct(tag) {
        let r = rt::exec(w, &[with_flags(ix, f)]);
        same(&full, &r).map_err(|e| format!("{} with the writable flags of the {n} {e}", SPECS[tag].name))?;
    }
    Ok(())
}

fn stations(_t: Tier) -> Cases {
    let mut v = vec![];
    for f in fix::fixtures() {
        for ix in fix::templates(&f) {
            v.push((f.name, f.w.clone(), fix::show(&f, &ix), ix));
        }
    }
    let labels: Vec<String> = v.iter().map(|x| format!("{} at {}", x.2, x.0)).collect();
    flags();
    Cases {
        name: "execution".into(),
        rule: "instructions of every kind in four stations of a world with four pools, with the writable flags of every encoder, against all accounts writable".into(),
        n: v.len(),
        label: Box::new(move |i| labels[i].clone()),
        check: Box::new(move |i| {
            execute(&v[i].1, &v[i].3)?;
            Ok(SPECS[v[i].3.data[0] as usize].name)
        }),
    }
}

/// every instruction of every history behaves the same however its accounts were marked
fn c20(c: &Cx) -> Result<(), String> {
    match c.act.ix(c.env, &c.pre.m) {
        Some(ix) => execute(&c.pre.w, &ix),
        None => Ok(()),
    }
}

fn job(f: fn(Tier) -> Cases) -> Job {
    Job::Cases(Box::new(f))
}

fn jobs(id: &str, tier: Tier) -> Option<(Vec<Job>, Vec<String>)> {
    let mut v = vec![];
    let o: (Oracle, bool) = match id {
        "C20" => (c20, false),
        "C22" => (layout::c22, true),
        _ => return None,
    };
    match id {
        "C20" => {
            for f in [programs as fn(Tier) -> Cases, encoders, js_encoder, errors, stations] {
                v.push(job(f));
            }
        }
        _ => {
            for f in [layout::addresses as fn(Tier) -> Cases, layout::bytes, layout::tags, layout::pdas] {
                v.push(job(f));
            }
        }
    }
    for s in scen::scenarios(id) {
        let d = if tier == Tier::Quick { s.quick } else { s.thorough };
        v.push(Job::Scen(s, d, o.0, o.1));
    }
    Some((v, vec![]))
}

fn main() {
    std::process::exit(report::cli(jobs));
}
