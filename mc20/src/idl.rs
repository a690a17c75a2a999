//! Building instructions and reading accounts as the IDL describes them.
use crate::forms::{camel, pascal, Case, Val, PERIODS, SPECS};
use mc::env::PID;
use serde_json::Value;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::str::FromStr;

pub const PATH: &str = "/repo/idls/mplx_rewards.json";

pub fn load() -> Result<Value, String> {
    let t = std::fs::read_to_string(PATH).map_err(|e| format!("cannot read the IDL: {e}"))?;
    serde_json::from_str(&t).map_err(|e| format!("the IDL is not JSON: {e}"))
}

fn enum_index(idl: &Value, ty: &str, variant: &str) -> Result<u8, String> {
    let t = find(&idl["types"], ty)?;
    let vs = t["type"]["variants"].as_array().ok_or("no variants")?;
    vs.iter().position(|v| v["name"] == variant).map(|i| i as u8).ok_or(format!("IDL: {ty} has no variant {variant}"))
}

pub fn find<'a>(list: &'a Value, name: &str) -> Result<&'a Value, String> {
    let mut it = list.as_array().ok_or("IDL: list missing")?.iter().filter(|i| i["name"] == name);
    let r = it.next().ok_or(format!("IDL: {name} missing"))?;
    if it.next().is_some() {
        return Err(format!("IDL: {name} described twice"));
    }
    Ok(r)
}

fn put(idl: &Value, ty: &Value, v: Val, out: &mut Vec<u8>) -> Result<(), String> {
    match (ty.as_str(), v) {
        (Some("u64"), Val::U64(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (Some("publicKey"), Val::Key(k)) => out.extend_from_slice(k.as_ref()),
        (None, Val::Per(p)) if ty["defined"].is_string() => out.push(enum_index(idl, ty["defined"].as_str().unwrap(), PERIODS[p as usize])?),
        (None, Val::Opt(o)) if ty["option"].is_string() => match o {
            None => out.push(0),
            Some(x) => {
                out.push(1);
                put(idl, &ty["option"], Val::U64(x), out)?
            }
        },
        // a value of another width
        (Some(t @ ("u8" | "u16" | "u32" | "u128" | "i64")), Val::U64(x)) => {
            let n = match t {
                "u8" => 1,
                "u16" => 2,
                "u32" => 4,
                "i64" => 8,
                _ => 16,
            };
            let mut b = x.to_le_bytes().to_vec();
            b.resize(n, 0);
            out.extend(b)
        }
        _ => return Err(format!("IDL: argument type {ty} cannot hold {v:?}")),
    }
    Ok(())
}

pub fn instruction(idl: &Value, c: &Case) -> Result<Instruction, String> {
    let sp = &SPECS[c.tag];
    let i = find(&idl["instructions"], &pascal(sp.name))?;
    if i["discriminant"]["type"] != "u8" {
        return Err("IDL: the discriminant is not one byte".into());
    }
    let mut data = vec![i["discriminant"]["value"].as_u64().ok_or("IDL: no discriminant")? as u8];
    let args = i["args"].as_array().ok_or("IDL: no args")?;
    if args.len() != sp.args.len() {
        return Err(format!("IDL: {} arguments instead of {}", args.len(), sp.args.len()));
    }
    for a in args {
        let j = sp
            .args
            .iter()
            .position(|x| a["name"] == camel(x.0).as_str())
            .ok_or(format!("IDL: unknown argument {}", a["name"]))?;
        put(idl, &a["type"], c.args[j], &mut data)?;
    }
    let mut accounts = vec![];
    for a in i["accounts"].as_array().ok_or("IDL: no accounts")? {
        let j = sp
            .accs
            .iter()
            .position(|x| a["name"] == camel(x.0).as_str())
            .ok_or(format!("IDL: unknown account {}", a["name"]))?;
        accounts.push(AccountMeta {
            pubkey: c.keys[j],
            is_signer: a["isSigner"].as_bool().ok_or("IDL: no isSigner")?,
            is_writable: a["isMut"].as_bool().ok_or("IDL: no isMut")?,
        });
    }
    let id = Pubkey::from_str(idl["metadata"]["address"].as_str().unwrap_or("")).map_err(|e| format!("IDL: address: {e}"))?;
    if id != PID {
        return Err("IDL: wrong program address".into());
    }
    Ok(Instruction { program_id: id, accounts, data })
}

/// fields of an account as (name, value printed), read in the order of the IDL
pub fn account(idl: &Value, ty: &str, b: &[u8]) -> Result<(Vec<(String, String)>, usize), String> {
    let a = find(&idl["accounts"], ty)?;
    let mut o = 0;
    let mut r = vec![];
    for f in a["type"]["fields"].as_array().ok_or("IDL: no fields")? {
        let (v, n) = read(&f["type"], b.get(o..).ok_or("IDL: too long")?)?;
        r.push((f["name"].as_str().unwrap_or("").to_string(), v));
        o += n;
    }
    Ok((r, o))
}

fn read(t: &Value, b: &[u8]) -> Result<(String, usize), String> {
    let need = |n: usize| if b.len() < n { Err("IDL: account too long".to_string()) } else { Ok(n) };
    Ok(match t.as_str() {
        Some("publicKey") => {
            need(32)?;
            (Pubkey::new_from_array(b[..32].try_into().unwrap()).to_string(), 32)
        }
        Some(s @ ("u8" | "u16" | "u32" | "u64" | "u128")) => {
            let n = s[1..].parse::<usize>().unwrap() / 8;
            need(n)?;
            let mut x = [0u8; 16];
            x[..n].copy_from_slice(&b[..n]);
            (u128::from_le_bytes(x).to_string(), n)
        }
        _ => {
            let a = t["array"].as_array().ok_or(format!("IDL: field type {t}"))?;
            let n = a[1].as_u64().unwrap_or(0) as usize;
            let mut o = 0;
            let mut v = vec![];
            for _ in 0..n {
                let (x, l) = read(&a[0], &b[o..])?;
                v.push(x);
                o += l;
            }
            (format!("[{}]", v.join(",")), o)
        }
    })
}
