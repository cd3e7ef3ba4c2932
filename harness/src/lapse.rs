//! L01: records in use do not lapse.
use crate::admin::Sys;
use crate::check;
use crate::engine::*;
use crate::system::{plain, rewards, next_op, queries};
use crate::world::*;
use soroban_env_host::budget::Budget;
use soroban_env_host::storage::Footprint;
use soroban_env_host::MeteredOrdMap;
use soroban_sdk::xdr::{ContractDataDurability, LedgerKey, ScAddress, ScVal};
use soroban_sdk::{Address, Val};
use std::rc::Rc;

const DAY: u32 = 17_280;

/// Every record of the ledger runs out in this many ledgers, and none counts as used yet.
fn age(w: &W, left: u32) {
    let seq = w.env.ledger().sequence();
    w.env
        .host()
        .with_mut_storage(|s| {
            s.footprint = Footprint::default();
            let b = Budget::default();
            b.reset_unlimited()?;
            let mut v = vec![];
            for (k, e) in s.map.iter(&b)? {
                let lasting = match &**k {
                    LedgerKey::ContractData(d) => d.durability == ContractDataDurability::Persistent,
                    LedgerKey::ContractCode(_) => true,
                    _ => false,
                };
                let e = match e {
                    Some((x, Some(_))) if lasting => Some((x.clone(), Some(seq + left))),
                    _ => e.clone(),
                };
                v.push((k.clone(), e));
            }
            s.map = MeteredOrdMap::from_exact_iter(v.into_iter(), &b)?;
            Ok(())
        })
        .expect("storage");
}

/// The lasting records read or written since, and how many ledgers they have left. `all`: every record there is.
fn used(w: &W, all: bool) -> Vec<(Rc<LedgerKey>, u32)> {
    let seq = w.env.ledger().sequence();
    let mut r = vec![];
    w.env
        .host()
        .with_mut_storage(|s| {
            let b = Budget::default();
            b.reset_unlimited()?;
            for (k, e) in s.map.iter(&b)? {
                let lasting = match &**k {
                    LedgerKey::ContractData(d) => d.durability == ContractDataDurability::Persistent,
                    LedgerKey::ContractCode(_) => true,
                    _ => false,
                };
                let Some((_, Some(until))) = e else { continue };
                if lasting && (all || s.footprint.0.get::<Rc<LedgerKey>>(k, &b)?.is_some()) {
                    r.push((k.clone(), until.saturating_sub(seq)));
                }
            }
            Ok(())
        })
        .expect("storage");
    r
}

fn name(k: &ScVal) -> String {
    match k {
        ScVal::LedgerKeyContractInstance => "instance".to_string(),
        ScVal::U32(x) => format!("record-{x}"),
        ScVal::Symbol(s) => s.0.to_utf8_string_lossy(),
        ScVal::Vec(Some(v)) => v.first().map(name).unwrap_or_default(),
        ScVal::Map(_) => "record".into(),
        _ => "other".into(),
    }
}

/// What an operation or query has used must last.
fn judge(ctx: &mut Ctx, y: &Sys, at: &str, all: bool, before: &[Rc<LedgerKey>]) -> R {
    for (k, left) in used(&y.w, all) {
        // a schedule added to a recipient's earlier ones only looks for a free place
        if at == "vesting.create_vesting_schedules" && before.contains(&k) && matches!(&*k, LedgerKey::ContractData(d) if matches!(d.key, ScVal::Map(_))) {
            continue;
        }
        let (who, n) = match &*k {
            LedgerKey::ContractData(d) => (kind_of(y, &d.contract), name(&d.key)),
            LedgerKey::ContractCode(_) => ("contract", "code".to_string()),
            _ => continue,
        };
        if who == "asset" {
            continue;
        }
        // the code of the share token of a new pool has to last by itself until the pool is used
        if n == "code" && at == "factory.create_liquidity_pool" {
            continue;
        }
        let whole = n == "instance" || n == "code";
        let need = if whole { 6 * DAY } else { 29 * DAY };
        if all && whole {
            continue;
        }
        check!(
            ctx,
            "L01",
            left >= need,
            format!("lapse-{at}-{who}-{n}"),
            "{} leaves {} of a {} with {} days to live",
            at,
            if whole { format!("the {n}") } else { format!("the record {n}") },
            who,
            left / DAY
        );
    }
    Ok(())
}

fn lasting(ctx: &mut Ctx) -> R {
    let min = *ctx.src.pick(&[4096u32, DAY, 3 * DAY]);
    let life = ShortLife::new(min);
    let y = plain(ctx);
    drop(life);
    let mut y = y?;
    judge(ctx, &y, "setting up", true, &[])?;
    age(&y.w, 1000 * DAY);
    rewards(ctx, &y)?;
    age(&y.w, 1000 * DAY);
    let n = ctx.steps(6, 18);
    let mut done = 0;
    for _ in 0..n {
        ctx.src.begin();
        let r = step(ctx, &mut y, &mut done);
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = done >= 4;
    Ok(())
}

fn step(ctx: &mut Ctx, y: &mut Sys, done: &mut u32) -> R {
    if ctx.src.bool(1, 3) {
        let dt = crate::system::pause(&mut ctx.src);
        y.w.pass(dt);
    }
    let mut sr_user = None;
    let (c, f, args, at) = if ctx.src.bool(1, 3) {
        let qs = queries(y);
        let q = ctx.src.pick(&qs);
        if matches!(q.f, "decimals" | "name" | "symbol") {
            return Ok(());
        }
        (q.c.clone(), q.f, y.w.vals(&q.args), q.name.clone())
    } else {
        let Some(o) = next_op(ctx, y)? else { return Ok(()) };
        if matches!(o.f, "update" | "upgrade") {
            return Ok(());
        }
        sr_user = o.sr_user;
        (o.c.clone(), o.f, o.args.clone(), format!("{}.{}", o.contract, o.f))
    };
    let left = *ctx.src.pick(&[0, 1000, DAY, 3 * DAY, 5 * DAY, 10 * DAY, 20 * DAY, 28 * DAY, 60 * DAY]);
    let before: Vec<Rc<LedgerKey>> = used(&y.w, true).into_iter().map(|x| x.0).collect();
    age(&y.w, left);
    let r: Result<Val, CallErr> = y.w.call::<Val>(&c, f, args);
    ctx.log(format!("{at} with {} days left: {}", left / DAY, if r.is_ok() { "done".to_string() } else { format!("{r:?}") }));
    if r.is_err() {
        ctx.label("refused");
        age(&y.w, 1000 * DAY);
        return Ok(());
    }
    if let Some(u) = sr_user {
        y.sr_users.push(u);
    }
    *done += 1;
    ctx.label(f);
    judge(ctx, y, &at, false, &before)?;
    age(&y.w, 1000 * DAY);
    Ok(())
}

fn kind_of(y: &Sys, c: &ScAddress) -> &'static str {
    let is = |a: &Address| ScAddress::from(a.clone()) == *c;
    for p in &y.f.pools {
        if is(&p.p.addr) {
            return if p.stable { "pool_stable" } else { "pool" };
        }
        if is(&p.p.stake) {
            return "stake";
        }
        if is(&p.p.lp) {
            return "token";
        }
    }
    for (n, a) in [("factory", &y.f.addr), ("multihop", &y.f.multihop), ("vesting", &y.vest), ("stake_rewards", &y.sr), ("trader", &y.trader), ("token", &y.vtok)] {
        if is(a) {
            return n;
        }
    }
    "asset"
}

pub fn props() -> std::vec::Vec<Prop> {
    vec![Prop {
        id: "L01",
        title: "Records in use do not lapse",
        rule: "a case is a world of all contracts in use and 6..18 operations and queries, before each of which every record of the ledger is given 0..60 days to live; non-trivial = at least four went through",
        assumptions: &["ledgers take five seconds", "a replacement of code and the names and decimals of share tokens need not prolong anything"],
        scenarios: vec![Scenario { name: "lasting", run: lasting, quick: 300, thorough: 10000 }],
    }]
}
