use mc::{
    around, attack, cover,
    env::tag,
    explore::Oracle,
    oracle,
    report::{self, Job, Tier},
    scen, sweep,
};

fn oracle_of(id: &str) -> Option<(Oracle, bool)> {
    Some(match id {
        "C01" => (oracle::c01, true),
        "C02" => (oracle::c02, false),
        "C03" => (oracle::c03, true),
        "C04" => (oracle::c04, true),
        "C05" => (oracle::c05, true),
        "C06" => (oracle::c06, true),
        "C07" => (oracle::c07, true),
        "C08" => (oracle::c08, false),
        "C09" => (oracle::c09, true),
        "C10" => (oracle::c10, true),
        "C11" => (oracle::c11, true),
        "C12" => (oracle::c12, false),
        "C13" => (around::signatures, false),
        "C14" => (around::accounts, false),
        "C15" => (oracle::c15, true),
        "C16" => (oracle::c16, true),
        "C17" => (oracle::c17, true),
        "C18" => (oracle::c18, true),
        "C19" => (oracle::c19, false),
        "C21" => (around::bytes, false),
        _ => return None,
    })
}

fn cases(f: impl Fn(Tier) -> report::Cases + 'static) -> Job {
    Job::Cases(Box::new(f))
}

fn jobs(id: &str, tier: Tier) -> Option<(Vec<Job>, Vec<String>)> {
    let mut v = vec![];
    if let Some((o, probe)) = oracle_of(id) {
        for s in scen::scenarios(id) {
            let d = if tier == Tier::Quick { s.quick } else { s.thorough };
            v.push(Job::Scen(s, d, o, probe));
        }
    }
    match id {
        "C06" => v.push(cases(sweep::terms)),
        "C11" => v.push(cases(|t| attack::wrong_roles(t, &[tag::CLAIM], "claim-roles", true))),
        "C12" => v.push(cases(|t| attack::wrong_roles(t, &[tag::FILL], "fill-roles", true))),
        "C13" => {
            v.push(cases(attack::signatures));
            v.push(cases(attack::unsigned));
        }
        "C14" => {
            v.push(cases(|t| attack::wrong_roles(t, &[], "wrong-roles", false)));
            for i in 0..attack::hostile_cases(tier).len() {
                v.push(cases(move |t| attack::hostile_cases(t).remove(i)));
            }
        }
        "C15" => {
            v.push(cases(attack::creations));
            v.push(cases(attack::after_close));
            v.push(cases(|t| attack::wrong_roles(t, &[tag::INIT_POOL, tag::INIT_MINING], "creation-roles", true)));
        }
        "C16" => {
            v.push(cases(attack::closings));
            v.push(cases(attack::after_close));
        }
        "C21" => {
            for i in 0..2 {
                v.push(cases(move |t| attack::malformed(t).remove(i)));
            }
        }
        _ => {}
    }
    if v.is_empty() {
        return None;
    }
    // whatever the property, it has to hold of the program as it is entered on chain
    v.push(cases(attack::entrypoint));
    Some((v, vec![]))
}

fn main() {
    let r = report::cli(jobs);
    cover::dump();
    std::process::exit(r);
}
