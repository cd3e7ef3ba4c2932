//! G01: what an operation costs does not depend on how many others use the contracts.
use crate::admin::{stake_info, Sys};
use crate::check;
use crate::engine::*;
use crate::system::{build, moved, next_op, pause, queries};
use crate::vesting::Cv;
use crate::world::*;
use soroban_env_host::budget::Budget;
use soroban_env_host::storage::Footprint;
use soroban_env_host::MeteredOrdMap;
use soroban_sdk::xdr::LedgerKey;
use std::rc::Rc;
use soroban_sdk::{Address, Val, Vec};

/// Runs a call twice: for its effect, and once more with a ledger of nothing but the entries it
/// needs, as on the network, for what it costs. (The host charges for the length of the ledger.)
fn measured<T>(w: &W, f: impl Fn() -> Result<T, CallErr>) -> Option<[u64; 2]> {
    let take = || {
        let mut m = None;
        w.env
            .host()
            .with_mut_storage(|s| {
                s.footprint = Footprint::default();
                m = Some(s.map.clone());
                Ok(())
            })
            .expect("storage");
        m.unwrap()
    };
    let before = take();
    f().ok()?;
    let mut after = None;
    w.env
        .host()
        .with_mut_storage(|s| {
            after = Some(s.map.clone());
            let b = Budget::default();
            b.reset_unlimited()?;
            let mut v = vec![];
            for (k, e) in before.iter(&b)? {
                if s.footprint.0.get::<Rc<LedgerKey>>(k, &b)?.is_some() {
                    v.push((k.clone(), e.clone()));
                }
            }
            s.map = MeteredOrdMap::from_exact_iter(v.into_iter(), &b)?;
            Ok(())
        })
        .expect("storage");
    let again = f();
    let cost = w.cost();
    w.env
        .host()
        .with_mut_storage(|s| {
            s.map = after.take().unwrap();
            Ok(())
        })
        .expect("storage");
    again.ok().map(|_| cost)
}

/// One account of the crowd makes use of everything that anybody may use.
fn member(ctx: &mut Ctx, y: &Sys, n: u64, all: bool) -> R<u32> {
    let w = &y.w;
    let who: Address = w.addr();
    let s = &mut ctx.src;
    let mut done = 0u32;
    let mut ok = |r: Result<Val, CallErr>| {
        if r.is_ok() {
            done += 1
        }
    };
    let none: Val = w.val(());
    let wv = w.val(who.clone());
    // tokens and allowances
    ok(w.call::<Val>(&y.tok, "transfer", (y.f.users[(n % 3) as usize].clone(), who.clone(), 1_000i128)));
    let exp = w.env.ledger().sequence() + 1_000_000;
    for u in &y.f.users {
        ok(w.call::<Val>(&y.tok, "approve", (who.clone(), u.clone(), 10i128, exp)));
        ok(w.call::<Val>(&y.tok, "approve", (u.clone(), who.clone(), 10i128, exp)));
    }
    for t in &y.f.toks {
        w.mint(&t.addr, &who, 1_000_000_000_000)?;
    }
    // pools: in, there and back, and out again in part; a stake and a claim of rewards
    for fp in &y.f.pools {
        if !all && s.bool(1, 3) {
            continue;
        }
        let (p, stable) = (&fp.p, fp.stable);
        let i = crate::xyk::info(w, &p.addr)?;
        let one = 5_000_000i128;
        let other = crate::xyk::b(one) * crate::xyk::b(i.rb) / crate::xyk::b(i.ra);
        let other = i128::try_from(other).unwrap_or(one).max(1);
        let mut args = if stable { vec![wv, w.val(one), w.val(other), none, none, none] } else { vec![wv, w.val(Some(one)), none, w.val(Some(other)), none, none] };
        if !stable {
            args.push(none);
        }
        ok(w.call::<Val>(&p.addr, "provide_liquidity", w.vals(&args)));
        if all || s.bool(1, 2) {
            for t in [&p.a, &p.b] {
                ok(w.call::<Val>(&p.addr, "swap", w.vals(&[wv, w.val(t.clone()), w.val(1000i128), none, none, none, none])));
            }
        }
        let lp = w.bal(&p.lp, &who);
        if lp > 3 {
            ok(w.call::<Val>(&p.addr, "withdraw_liquidity", w.vals(&[wv, w.val(lp / 3), w.val(1i128), w.val(1i128), none])));
            ok(w.call::<Val>(&p.stake, "bond", (who.clone(), lp / 3)));
        }
        if all || s.bool(1, 2) {
            ok(w.call::<Val>(&p.stake, "withdraw_rewards", (who.clone(),)));
        }
    }
    // a schedule and a claim, a part in the rewards
    let now = w.now();
    let mut v: Vec<Val> = Vec::new(&w.env);
    v.push_back(w.record(&[("recipient", wv), ("curve", Cv::Sat(now.saturating_sub(10), 1_000, now + 1_000, 0).val(w))]));
    ok(w.call::<Val>(&y.vest, "create_vesting_schedules", (v,)));
    if all || s.bool(1, 2) {
        ok(w.call::<Val>(&y.vest, "claim", (who.clone(), 0u64)));
    }
    if all || s.bool(1, 2) {
        ok(w.call::<Val>(&y.sr, "add_user", (who.clone(), stake_info(w, &[5_000], 5_000))));
    }
    Ok(done)
}

/// A world in use, with a few accounts that have used everything.
fn world(ctx: &mut Ctx) -> R<Sys> {
    let y = build(ctx)?;
    for n in 0..3 {
        member(ctx, &y, n, true)?;
    }
    Ok(y)
}

fn crowd(ctx: &mut Ctx) -> R {
    let p = ctx.src.pos();
    let mut y = world(ctx)?;
    let tape = ctx.src.since(p);
    let saved = std::mem::replace(&mut ctx.src, Src::replay(tape));
    let z = world(ctx);
    ctx.src = saved;
    let mut z = z?;
    let size = 24 + ctx.src.below(40);
    let mut acts = 0;
    for n in 0..size {
        ctx.src.begin();
        let r = member(ctx, &y, n, false);
        ctx.src.end();
        acts += r?;
    }
    ctx.log(format!("{size} others have done {acts} things"));
    let n = ctx.steps(8, 20);
    let mut done = 0;
    for _ in 0..n {
        ctx.src.begin();
        let r = step(ctx, &mut y, &mut z, size, &mut done);
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = done >= 5 && acts >= 100;
    Ok(())
}

fn step(ctx: &mut Ctx, y: &mut Sys, z: &mut Sys, size: u64, done: &mut u32) -> R {
    let dt = pause(&mut ctx.src);
    if dt > 0 {
        y.w.pass(dt);
        z.w.pass(dt);
    }
    let (at, kind, a, b) = if ctx.src.bool(1, 3) {
        let (qs, qz) = (queries(y), queries(z));
        let k = ctx.src.below(qs.len() as u64) as usize;
        let (q, q2) = (&qs[k], &qz[k]);
        let a = measured(&y.w, || y.w.call::<Val>(&q.c, q.f, y.w.vals(&q.args)));
        let b = measured(&z.w, || z.w.call::<Val>(&q2.c, q2.f, z.w.vals(&q2.args)));
        (q.name.clone(), q.f, a, b)
    } else {
        let Some(o) = next_op(ctx, y)? else { return Ok(()) };
        if matches!(o.f, "update" | "upgrade") {
            return Ok(());
        }
        let (c, args) = moved(y, z, &o);
        let a = measured(&y.w, || y.w.call::<Val>(&o.c, o.f, o.args.clone()));
        let b = measured(&z.w, || z.w.call::<Val>(&c, o.f, args.clone()));
        if let (Some(u), true) = (o.sr_user, a.is_some() && b.is_some()) {
            y.sr_users.push(u);
            z.sr_users.push(u);
        }
        (format!("{}.{}", o.contract, o.f), o.f, a, b)
    };
    let (Some(a), Some(b)) = (a, b) else {
        ctx.label("refused");
        return Ok(());
    };
    *done += 1;
    ctx.label(kind);
    let more = [a[0] as i64 - b[0] as i64, a[1] as i64 - b[1] as i64];
    ctx.log(format!("{at}: {} instructions and {} bytes, {:+} and {:+} for {size} others", b[0], b[1], more[0], more[1]));
    if std::env::var("VH_COST").is_ok() {
        println!("COST {at} {} {} {} {} {size}", b[0], b[1], more[0], more[1]);
    }
    // the numbers involved differ a little, and with them the rounds of the stable pools' solver; a
    // contract's own memory grows by whole pages
    let bytes = if more[1] >= 65_536 { more[1] - 65_536 } else { more[1] };
    let per = 20 * size as i64;
    check!(
        ctx,
        "G01",
        bytes <= 600 + per && more[0] <= 40_000 + 20 * per,
        format!("cost-{kind}"),
        "{} costs {} instructions and {} bytes, and {} and {} more once {} others have used the system",
        at,
        b[0],
        b[1],
        more[0],
        more[1],
        size
    );
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    vec![Prop {
        id: "G01",
        title: "What an operation costs does not depend on how many others use the system",
        rule: "a case is two copies of a world of all contracts in use, one of them used by 24..63 further accounts in every way open to anybody, and 8..20 operations and queries done in both; non-trivial = at least five went through in both and the others did at least 100 things",
        assumptions: &["cost is what the host's metering of the network charges for instructions and memory"],
        scenarios: vec![Scenario { name: "crowd", run: crowd, quick: 60, thorough: 2000 }],
    }]
}
