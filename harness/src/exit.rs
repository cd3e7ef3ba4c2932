//! Z01: everybody can leave with what is theirs.
use crate::admin::{stakes_of, Sys};
use crate::check;
use crate::engine::*;
use crate::system::{build, holders, next_op, pause};
use crate::world::*;
use crate::xyk::{b, info, Info};
use soroban_sdk::{Address, Map, Symbol, Val, Vec};

/// Something that somebody can take out.
#[derive(Clone, Debug)]
enum Way {
    Unbond(usize, Address, i128, u64),
    Collect(usize, Address),
    Shares(usize, Address, i128),
    Claim(Address, u64),
}

/// Everything anybody could take out now; `collected`: who has taken the rewards of which pool.
fn ways(y: &Sys, people: &[(String, Address)], collected: &[(usize, Address)]) -> R<std::vec::Vec<Way>> {
    let w = &y.w;
    let mut v = vec![];
    for (_, a) in people {
        for (k, fp) in y.f.pools.iter().enumerate() {
            if *a == fp.p.addr || *a == fp.p.stake {
                continue;
            }
            for (x, t) in stakes_of(y, k, a)? {
                v.push(Way::Unbond(k, a.clone(), x, t));
            }
            if !collected.contains(&(k, a.clone())) {
                v.push(Way::Collect(k, a.clone()));
            }
            // (nobody can withdraw less than one unit of either asset)
            let lp = w.bal(&fp.p.lp, a);
            if lp > 0 && worth(y, k, lp)? {
                v.push(Way::Shares(k, a.clone(), lp));
            }
        }
        let all: Vec<Val> = w.must(&y.vest, "query_all_vesting_info", (a.clone(),))?;
        for i in 0..all.len() as u64 {
            if let Ok(x) = w.call::<i128>(&y.vest, "query_available_to_claim", (a.clone(), i)) {
                if x > 0 {
                    v.push(Way::Claim(a.clone(), i));
                }
            }
        }
    }
    Ok(v)
}

fn quote(y: &Sys, k: usize, x: i128) -> R<(i128, i128)> {
    let w = &y.w;
    let q: (Val, Val) = w.must(&y.f.pools[k].p.addr, "query_share", (x,))?;
    Ok((w.field(&w.to_map(q.0)?, "amount")?, w.field(&w.to_map(q.1)?, "amount")?))
}
fn worth(y: &Sys, k: usize, x: i128) -> R<bool> {
    let q = quote(y, k, x)?;
    Ok(q.0 > 0 && q.1 > 0)
}

fn owed(y: &Sys, k: usize, a: &Address) -> R<std::vec::Vec<(Address, i128)>> {
    let w = &y.w;
    let m: Map<Symbol, Val> = w.must(&y.f.pools[k].p.stake, "query_withdrawable_rewards", (a.clone(),))?;
    let v: Vec<Val> = w.field(&m, "rewards")?;
    let mut out = vec![];
    for x in v.iter() {
        let r = w.to_map(x)?;
        out.push((w.field(&r, "reward_address")?, w.field::<u128>(&r, "reward_amount")? as i128));
    }
    Ok(out)
}

fn go(ctx: &mut Ctx, y: &Sys, way: &Way, collected: &mut std::vec::Vec<(usize, Address)>) -> R {
    let w = &y.w;
    match way {
        Way::Unbond(k, a, x, t) => {
            let p = &y.f.pools[*k].p;
            let had = w.bal(&p.lp, a);
            let r = w.call::<()>(&p.stake, "unbond", (a.clone(), *x, *t));
            ctx.log(format!("{} unbonds {x} of {t} in {k}: {r:?}", y.name(a)));
            check!(ctx, "Z01", r.is_ok(), "unbond-refused", "{} cannot unbond the stake of {} bonded at {}: {:?}", y.name(a), x, t, r);
            let got = w.bal(&p.lp, a) - had;
            check!(ctx, "Z01", got == *x, "unbond-paid", "{} gets {} shares for the stake of {}", y.name(a), got, x);
        }
        Way::Collect(k, a) => {
            let due = owed(y, *k, a)?;
            let had: std::vec::Vec<i128> = due.iter().map(|d| w.bal(&d.0, a)).collect();
            let r = w.call::<()>(&y.f.pools[*k].p.stake, "withdraw_rewards", (a.clone(),));
            if due.iter().any(|d| d.1 > 0) {
                ctx.log(format!("{} collects {:?} of {k}: {r:?}", y.name(a), due.iter().map(|d| d.1).collect::<std::vec::Vec<_>>()));
                ctx.label("rewards");
            }
            check!(ctx, "Z01", r.is_ok(), "rewards-refused", "{} cannot collect its rewards of pool {}: {:?}", y.name(a), k, r);
            for (d, h) in due.iter().zip(had) {
                let got = w.bal(&d.0, a) - h;
                check!(ctx, "Z01", got == d.1, "rewards-paid", "{} gets {} of the {} it is told to be owed", y.name(a), got, d.1);
            }
            collected.push((*k, a.clone()));
        }
        Way::Shares(k, a, lp) => {
            let p = &y.f.pools[*k].p;
            // all at once or in two parts
            let mut x = if ctx.src.bool(1, 4) { (*lp / 2).max(1) } else { *lp };
            if !worth(y, *k, x)? {
                x = *lp;
            }
            let q = quote(y, *k, x)?;
            if q.0 == 0 || q.1 == 0 {
                return Ok(());
            }
            let had = (w.bal(&p.a, a), w.bal(&p.b, a));
            let none: Val = w.val(());
            let args = w.vals(&[w.val(a.clone()), w.val(x), w.val(q.0), w.val(q.1), none]);
            let r = w.call::<Val>(&p.addr, "withdraw_liquidity", args);
            ctx.log(format!("{} withdraws {x} of {lp} shares of {k}: {}", y.name(a), if r.is_ok() { format!("{q:?}") } else { format!("{r:?}") }));
            check!(ctx, "Z01", r.is_ok(), "shares-refused", "{} cannot withdraw {} of its {} shares of pool {}: {:?}", y.name(a), x, lp, k, r);
            let got = (w.bal(&p.a, a) - had.0, w.bal(&p.b, a) - had.1);
            check!(ctx, "Z01", got == q, "shares-paid", "{} gets {:?} for shares quoted at {:?}", y.name(a), got, q);
        }
        Way::Claim(a, i) => {
            let due: i128 = w.must(&y.vest, "query_available_to_claim", (a.clone(), *i))?;
            let had = w.bal(&y.vtok, a);
            let r = w.call::<()>(&y.vest, "claim", (a.clone(), *i));
            ctx.log(format!("{} claims {due} of {i}: {r:?}", y.name(a)));
            check!(ctx, "Z01", r.is_ok(), "claim-refused", "{} cannot claim the {} released of schedule {}: {:?}", y.name(a), due, i, r);
            let got = w.bal(&y.vtok, a) - had;
            check!(ctx, "Z01", got == due, "claim-paid", "{} gets {} of the {} released", y.name(a), got, due);
        }
    }
    Ok(())
}

fn leaving(ctx: &mut Ctx) -> R {
    let mut y = build(ctx)?;
    let n = ctx.steps(4, 20);
    for _ in 0..n {
        ctx.src.begin();
        let r = live(ctx, &mut y);
        ctx.src.end();
        r?;
    }
    let w = y.w.clone();
    let people = holders(&y).0;
    let start: std::vec::Vec<(Info, i128)> = y
        .f
        .pools
        .iter()
        .map(|fp| -> R<(Info, i128)> {
            let lost = w.bal(&fp.p.lp, &fp.p.stake) - w.must::<i128>(&fp.p.stake, "query_total_staked", ())?;
            Ok((info(&w, &fp.p.addr)?, lost))
        })
        .collect::<R<_>>()?;
    let lent = w.bal(&y.vtok, &y.vest);
    ctx.log("everybody leaves");
    // in any order, until nothing is left to take
    let mut collected = vec![];
    let (mut count, mut per_pool) = (0i128, [0i128; 4]);
    let mut todo = ways(&y, &people, &collected)?;
    let mut ended = false;
    for _ in 0..600 {
        if todo.is_empty() {
            if !ended {
                // schedules run out
                ended = true;
                w.pass(1_100_000);
            }
            todo = ways(&y, &people, &collected)?;
            if todo.is_empty() {
                break;
            }
        }
        let i = ctx.src.below(todo.len() as u64) as usize;
        let way = todo.swap_remove(i);
        // what can be taken may have changed by now
        let now = match &way {
            Way::Shares(k, a, _) => Way::Shares(*k, a.clone(), w.bal(&y.f.pools[*k].p.lp, a)),
            x => x.clone(),
        };
        if matches!(now, Way::Shares(_, _, 0)) {
            continue;
        }
        if let Way::Shares(k, _, _) = &now {
            per_pool[*k] += 1;
        }
        go(ctx, &y, &now, &mut collected)?;
        if matches!(now, Way::Shares(..) | Way::Unbond(..) | Way::Claim(..)) {
            count += 1;
        }
        if ctx.src.bool(1, 12) {
            w.pass(ctx.src.below(200_000));
        }
    }
    check!(ctx, "Z01", ways(&y, &people, &collected)?.is_empty(), "never-done", "after 600 steps there is still something to take out");
    for (k, fp) in y.f.pools.iter().enumerate() {
        let p = &fp.p;
        let total: i128 = w.must(&p.stake, "query_total_staked", ())?;
        check!(ctx, "Z01", total == 0, "stake-left", "with nobody staking any more the staking contract {} counts {}", k, total);
        let left = w.bal(&p.lp, &p.stake);
        check!(ctx, "Z01", left == start[k].1, "shares-left", "{} shares stay in the staking contract {} ({} were never staked)", left, k, start[k].1);
        let (i0, i1) = (&start[k].0, info(&w, &p.addr)?);
        // the locked shares keep their part, and every withdrawal leaves less than a unit and a rounding of the ratio
        for (r0, r1, t) in [(i0.ra, i1.ra, &p.a), (i0.rb, i1.rb, &p.b)] {
            let unit = b(1_000_000_000) * b(1_000_000_000);
            let most = (b(r0) * b(i1.t) + b(i0.t) - b(1)) / b(i0.t) + b(per_pool[k] + 1) * (b(2) + b(r0) / unit.clone());
            check!(ctx, "Z01", b(r1) <= most, "reserve-left", "{} of {} stay in pool {} for {} of {} shares", r1, r0, k, i1.t, i0.t);
            check!(ctx, "Z01", w.bal(t, &p.addr) >= r1, "reserve-missing", "pool {} counts {} and holds {}", k, r1, w.bal(t, &p.addr));
        }
    }
    for (n, a) in &people {
        // (a pool keeps the locked shares, and others may have shares worth nothing)
        if y.f.pools.iter().any(|fp| *a == fp.p.addr || w.bal(&fp.p.lp, a) > 0) {
            continue;
        }
        for staking in [true, false] {
            let m: Map<Symbol, Val> = w.must(&y.f.addr, "query_user_portfolio", (a.clone(), staking))?;
            for f in ["lp_portfolio", "stake_portfolio"] {
                let v: Vec<Val> = w.field(&m, f)?;
                let mut has = v.len();
                if f == "stake_portfolio" {
                    has = 0;
                    for x in v.iter() {
                        has += w.field::<Vec<Val>>(&w.to_map(x)?, "stakes")?.len();
                    }
                }
                check!(ctx, "Z01", has == 0, "portfolio-left", "the portfolio of {} still lists {} of {}", n, has, f);
            }
        }
    }
    check!(ctx, "Z01", w.bal(&y.vtok, &y.vest) <= lent, "vesting-grows", "claims have made the vesting contract richer");
    ctx.nontrivial = count >= 6;
    Ok(())
}

fn live(ctx: &mut Ctx, y: &mut Sys) -> R {
    let dt = pause(&mut ctx.src);
    if dt > 0 {
        y.w.pass(dt);
    }
    let Some(o) = next_op(ctx, y)? else { return Ok(()) };
    // no contract signs anything by itself
    let contracts: std::vec::Vec<&Address> = y.f.pools.iter().flat_map(|p| [&p.p.addr, &p.p.stake]).chain([&y.f.addr, &y.f.multihop, &y.vest, &y.trader, &y.sr]).collect();
    if o.signers.iter().any(|a| contracts.contains(&a)) {
        return Ok(());
    }
    let r = y.w.call::<Val>(&o.c, o.f, o.args.clone());
    ctx.log(format!("{}.{}: {}", o.contract, o.f, if r.is_ok() { "done".to_string() } else { format!("{r:?}") }));
    if r.is_ok() {
        ctx.label(o.f);
        if let Some(u) = o.sr_user {
            y.sr_users.push(u);
        }
    }
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    vec![Prop {
        id: "Z01",
        title: "Everybody can leave with what is theirs, in any order",
        rule: "a case is a world of all contracts in use, 4..20 operations, and then everybody taking out everything in a random order; non-trivial = at least six stakes, shares or claims were taken out",
        assumptions: &[],
        scenarios: vec![Scenario { name: "leaving", run: leaving, quick: 120, thorough: 4000 }],
    }]
}
