//! D01: the trader contract, with only its admin's own signature available.
use crate::engine::*;
use crate::world::*;
use crate::xyk::*;
use crate::{check};
use soroban_sdk::{Address, Map, Symbol, Val};

struct T {
    w: W,
    addr: Address,
    admin: Address,
    other: Address,
    pair: [Address; 2],
    out: Address,
    pools: std::vec::Vec<Pool>,
    toks: std::vec::Vec<Address>,
}

fn bals(t: &T, who: &Address) -> std::vec::Vec<i128> {
    t.toks.iter().map(|x| t.w.bal(x, who)).collect()
}

pub fn history(ctx: &mut Ctx) -> R {
    let w = W::new();
    w.epoch(&mut ctx.src);
    let lp_user = w.addr();
    let toks: std::vec::Vec<Address> = (0..4).map(|_| w.sac()).collect();
    for t in &toks {
        w.mint_sac(t, &lp_user, 1_000_000_000_000_000_000_000_000);
    }
    let (admin, other) = (w.addr(), w.addr());
    // output token: usually a third one, possibly one of the pair
    let out = if ctx.src.bool(5, 6) { toks[2].clone() } else { toks[1].clone() };
    let pair = [toks[0].clone(), toks[1].clone()];
    // balances beyond 64 bits, now and then
    let big = ctx.src.bool(1, 10);
    let mut pools = vec![];
    for (x, y) in [(0, 2), (1, 2), (0, 1), (2, 3)] {
        let (a, bb) = if toks[x] < toks[y] { (&toks[x], &toks[y]) } else { (&toks[y], &toks[x]) };
        let mut prm = gen_params(&mut ctx.src);
        if ctx.src.bool(2, 3) {
            prm.fee_bps = prm.fee_bps.min(300).min(prm.max_fee_bps);
            prm.max_spread = 10_000;
        }
        let p = deploy_pool(&w, "pool", a, bb, &prm, None)?;
        let (mut ra, mut rb) = gen_first(&mut ctx.src);
        if big {
            // deep on the side the contract sells
            let (deep, other) = (ctx.src.logu(10_000_000_000_000_000_000, 1_000_000_000_000_000_000_000), ctx.src.logu(1_000_000_000, 10_000_000_000_000_000));
            (ra, rb) = if *a == toks[x] { (deep, other) } else { (other, deep) };
        }
        let r = w.call::<()>(&p.addr, "provide_liquidity", (lp_user.clone(), Some(ra), None::<i128>, Some(rb), None::<i128>, None::<i64>, None::<u64>));
        ctx.log(format!("pool {}/{} fee={} max_spread={} reserves ({}, {}) {}", x, y, p.fee_bps, p.max_spread, ra, rb, r.is_ok()));
        pools.push(p);
    }
    let addr = w.deploy("trader");
    w.must::<()>(&addr, "initialize", (admin.clone(), w.str("trader"), (pair[0].clone(), pair[1].clone()), out.clone()))?;
    for t in &toks {
        for who in [&addr, &admin, &other] {
            if ctx.src.bool(4, 5) {
                let max = if big { 1_000_000_000_000_000_000_000 } else { 1_000_000_000_000 };
                w.mint_sac(t, who, ctx.src.logu(if big { 1_000_000_000_000_000 } else { 1 }, max));
            }
        }
    }
    let t = T { w, addr, admin, other, pair, out, pools, toks };
    let n = ctx.steps(3, 12);
    let mut done = 0;
    for _ in 0..n {
        ctx.src.begin();
        let r = step(ctx, &t, &mut done);
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = done >= 1;
    Ok(())
}

fn step(ctx: &mut Ctx, t: &T, done: &mut u32) -> R {
    let w = &t.w;
    if ctx.src.bool(1, 3) {
        w.pass(ctx.src.below(100));
    }
    let (before, mut adm, mut oth) = (bals(t, &t.addr), bals(t, &t.admin), bals(t, &t.other));
    let authorized = ctx.src.bool(7, 8);
    let sender = if authorized { &t.admin } else { &t.other };
    // proceeds go to a stranger, or now and then to somebody with a role
    let rcpt = match ctx.src.weighted(&[8, 1, 1, 1]) {
        0 => w.addr(),
        1 => t.admin.clone(),
        2 => t.other.clone(),
        _ => t.addr.clone(),
    };
    if ctx.src.bool(1, 4) {
        // transfer
        let s = &mut ctx.src;
        let ti = s.below(4) as usize;
        let tok = if s.bool(1, 2) { None } else { Some(t.toks[ti].clone()) };
        let real = tok.clone().unwrap_or(t.out.clone());
        let k = t.toks.iter().position(|x| *x == real).unwrap();
        let amt = match s.weighted(&[4, 2, 1]) {
            0 => s.logu(1, before[k].max(1)),
            1 => before[k] + s.range(-1, 1),
            _ => *s.pick(&[0i128, 0, -1, i128::MAX, i128::MIN]),
        };
        ctx.log(format!("transfer {} of {:?} (default output token) by admin: {}", amt, tok.as_ref().map(|_| ti), authorized));
        let r = w.call_signed::<()>(&[sender.clone()], &t.addr, "transfer", (sender.clone(), rcpt.clone(), amt, tok));
        let ok = authorized && amt >= 0 && amt <= before[k];
        if ok && amt > 0 {
            check!(ctx, "D01", r.is_ok(), "transfer-refused", "the admin's transfer of {} was refused: {:?}", amt, r);
        }
        if r.is_ok() {
            check!(ctx, "D01", ok, "transfer-accepted", "a transfer of {} (admin {}, balance {}) was accepted", amt, authorized, before[k]);
            *done += 1;
            ctx.label("transfer");
        }
        let moved = if r.is_ok() { amt } else { 0 };
        let to_self = rcpt == t.addr;
        let after = bals(t, &t.addr);
        let mut got = bals(t, &rcpt);
        for j in 0..4 {
            got[j] -= if rcpt == t.admin {
                adm[j]
            } else if rcpt == t.other {
                oth[j]
            } else if to_self {
                before[j]
            } else {
                0
            };
        }
        for j in 0..4 {
            let d = if j == k && !to_self { moved } else { 0 };
            check!(ctx, "D01", after[j] == before[j] - d && got[j] == d, "transfer-amount", "transfer of {} moved {} out and {} in of token {}", amt, before[j] - after[j], got[j], j);
        }
        if rcpt == t.admin {
            adm[k] += moved;
        } else if rcpt == t.other {
            oth[k] += moved;
        }
    } else {
        let s = &mut ctx.src;
        let pi = s.weighted(&[4, 4, 2, 1]);
        let p = &t.pools[pi];
        let ti = match s.weighted(&[6, 6, 1, 1]) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => 3,
        };
        let tok = t.toks[ti].clone();
        let inside = tok == p.a || tok == p.b;
        let i = info(w, &p.addr)?;
        let a_to_b = tok == p.a;
        let (op, ap) = if a_to_b { (i.ra, i.rb) } else { (i.rb, i.ra) };
        let amount: Option<u64> = match s.weighted(&[8, 6, 4, 2, 1]) {
            0 => Some(s.logu(1, before[ti].min(op / 20).clamp(1, u64::MAX as i128)) as u64),
            1 => None,
            2 => Some(s.logu(1, before[ti].clamp(1, u64::MAX as i128)) as u64),
            3 => Some((before[ti] + s.range(-1, 1)).clamp(0, u64::MAX as i128) as u64),
            _ => Some(*s.pick(&[0u64, 0, 1, u64::MAX])),
        };
        let x = amount.map(|a| a as i128).unwrap_or(before[ti]);
        let o = if inside && x > 0 && op > 0 { swap_math(op, ap, x, p.fee_bps) } else { None };
        let ret = o.as_ref().map(|o| o.ret).unwrap_or(0);
        let min = if s.bool(1, 3) { Some(near(s, ret, 0)) } else { None };
        let spread = match s.weighted(&[3, 2, 1]) {
            0 => None,
            1 => Some(p.max_spread),
            _ => Some(if s.bool(1, 2) { near(s, 5000, -1) as i64 * *s.pick(&[1, 1, 2]) } else { any_bps(s) }),
        };
        let deadline = if s.bool(1, 4) { gen_deadline(s, w.now()) } else { None };
        let max_fee = if s.bool(1, 4) { Some(near(s, p.fee_bps as i128, 0) as i64) } else { None };
        ctx.log(format!(
            "trade token{} in pool {} amount={} max_spread={} deadline={} min={} max_fee={} by admin: {} (contract has {}, reserves {:?})",
            ti,
            pi,
            opt(&amount),
            opt(&spread),
            opt(&deadline),
            opt(&min),
            opt(&max_fee),
            authorized,
            before[ti],
            i
        ));
        let req = SwapReq { a_to_b, amount: x, min, spread, deadline, max_fee };
        let plan = plan_swap(p, &i, w.now(), before[ti], &req);
        let in_pair = tok == t.pair[0] || tok == t.pair[1];
        let spread_in = spread.map(|s| (0..=10_000).contains(&s)).unwrap_or(true);
        let gate = authorized && in_pair && inside && spread_in;
        let r = w.call_signed::<()>(&[sender.clone()], &t.addr, "trade_token", (sender.clone(), tok.clone(), p.addr.clone(), amount, spread, deadline, min, max_fee));
        let after = bals(t, &t.addr);
        let ai = t.toks.iter().position(|k| *k == if a_to_b { p.b.clone() } else { p.a.clone() }).unwrap();
        match (&r, &plan, gate) {
            (Ok(_), _, false) => check!(ctx, "D01", false, "trade-accepted", "a trade (admin {}, in pair {}, in pool {}, spread ok {}) was accepted", authorized, in_pair, inside, spread_in),
            (Ok(_), Plan::No(why), _) => check!(ctx, "D01", false, "trade-accepted", "a trade outside its limits ({}) was accepted", why),
            (Err(e), Plan::Yes(_), true) => check!(ctx, "D01", false, "trade-refused", "the admin's trade was refused with only its own signature: {:?}", e),
            _ => {}
        }
        if r.is_ok() {
            let out = match &plan {
                Plan::Yes(o) => Some(o.ret),
                _ => None,
            };
            let got = after[ai] - before[ai];
            check!(ctx, "D01", before[ti] - after[ti] == x, "trade-spent", "a trade of {} spent {}", x, before[ti] - after[ti]);
            if let Some(o) = out {
                check!(ctx, "D01", got == o, "trade-proceeds", "a trade brought in {} instead of {}", got, o);
            }
            for j in 0..4 {
                check!(ctx, "D01", j == ti || j == ai || after[j] == before[j], "trade-other", "a trade moved token {}", j);
            }
            *done += 1;
            ctx.label(if amount.is_none() { "trade-all" } else { "trade" });
        } else {
            check!(ctx, "D01", after == before, "failed-trade-moved", "a refused trade moved funds");
            ctx.label("trade-refused");
        }
    }
    check!(ctx, "D01", bals(t, &t.admin) == adm && bals(t, &t.other) == oth, "others-funds", "funds of the admin or of another account moved");
    // queries
    let q: Map<Symbol, Val> = w.must(&t.addr, "query_balances", ())?;
    for (k, tok) in [("output_token", &t.out), ("token_a", &t.pair[0]), ("token_b", &t.pair[1])] {
        let m: Map<Symbol, Val> = w.field(&q, k)?;
        let x: i128 = w.field(&m, "amount")?;
        check!(ctx, "D01", x == w.bal(tok, &t.addr), "query-balances", "query_balances reports {} of {}, the contract has {}", x, k, w.bal(tok, &t.addr));
    }
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    vec![Prop {
        id: "D01",
        title: "The trader contract only converts and forwards its own funds",
        rule: "a case is a random trader setup over four constant-product pools and 3..12 trades and transfers by the admin or somebody else, with nothing signed except the caller's consent to that call; non-trivial = at least one trade or transfer executed",
        assumptions: &["pools are the repository's constant-product pools (the contract does not support stable pools); built-in assets of 7 decimals"],
        scenarios: vec![Scenario { name: "trader-history", run: history, quick: 1200, thorough: 24000 }],
    }]
}
