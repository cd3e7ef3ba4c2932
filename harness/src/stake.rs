//! K01-K03: the staking contract against a reference model of stakes and distributions.
use crate::engine::*;
use crate::world::*;
use crate::{check, check_any};
use num_bigint::BigInt;
use soroban_sdk::{Address, Map, Symbol, Val, Vec};
use std::collections::BTreeMap;

const DAY: u64 = 86_400;
const E18: i128 = 1_000_000_000_000_000_000;

#[derive(Clone, Debug, Default)]
struct User {
    /// (amount, ledger time), in bonding order
    stakes: std::vec::Vec<(i128, u64)>,
    last: u64,
    lp: i128,
}

struct Tok {
    addr: Address,
    flow: bool,
    /// effective time -> amount
    hist: BTreeMap<u64, i128>,
    funded: i128,
    paid: i128,
}

struct M {
    w: W,
    addr: Address,
    lp: Address,
    manager: Address,
    owner: Address,
    min_bond: i128,
    dist_max: i128,
    /// what one distribution time may carry, for a stake times it to fit 128 bits and a share of it 1e18 times over
    room: i128,
    users: std::vec::Vec<Address>,
    us: std::vec::Vec<User>,
    toks: std::vec::Vec<Tok>,
    /// effective time -> stake total counted for it
    totals: BTreeMap<u64, i128>,
    total: i128,
    last_withdrawal: u64,
}

impl M {
    /// What a user may withdraw of a token: its current stakes' part of every distribution since
    /// its last withdrawal, by the age of each stake at the distribution.
    fn owed(&self, ui: usize, ti: usize) -> i128 {
        let now = self.w.now();
        let u = &self.us[ui];
        let mut sum = 0i128;
        for (&t, &amount) in self.toks[ti].hist.iter() {
            if t <= u.last || t > now {
                continue;
            }
            let total = *self.totals.get(&t).unwrap_or(&0);
            if total <= 0 {
                continue;
            }
            for &(stake, since) in &u.stakes {
                let part: BigInt = BigInt::from(stake) * amount / total;
                let days = if t > since { (t - since) / DAY } else { 0 };
                let factor: i128 = if days >= 60 { E18 } else { days as i128 * E18 / 60 };
                let add: BigInt = part * factor / E18;
                sum += i128::try_from(add).unwrap();
            }
        }
        sum
    }
    fn bonded(&self, ui: usize) -> i128 {
        self.us[ui].stakes.iter().map(|s| s.0).sum()
    }
}

fn setup(ctx: &mut Ctx) -> R<M> {
    let w = W::new();
    let s = &mut ctx.src;
    w.epoch(s);
    let big = s.bool(1, 3);
    let min_bond = *s.pick(&[1i128, 10, 1000]);
    let n_tok = if s.bool(1, 12) { 4 + s.below(4) as usize } else { 1 + s.below(3) as usize };
    let lp = w.sac();
    let (manager, owner, admin) = (w.addr(), w.addr(), w.addr());
    let addr = w.deploy("stake");
    let maxc = 1 + s.below(10) as u32;
    w.must::<()>(&addr, "initialize", (admin, lp.clone(), min_bond, 1i128, manager.clone(), owner.clone(), maxc))?;
    let nu = if s.bool(1, 8) { 5 + s.below(6) as usize } else { 4 };
    let mut users: std::vec::Vec<Address> = (0..nu).map(|_| w.addr()).collect();
    // staff who stake
    if s.bool(1, 8) {
        users[1] = manager.clone();
    }
    if s.bool(1, 8) {
        users[2] = owner.clone();
    }
    // the contract multiplies a stake with a distribution, and a share of one with 1e18
    let (funds, dist_max) = if big {
        *s.pick(&[
            (1_000_000_000_000_000_000i128, 100_000_000_000_000_000i128),
            (1_000_000_000_000_000_000, 100_000_000_000_000_000_000),
            (100_000_000_000_000_000_000_000_000, 1_000_000_000_000),
        ])
    } else {
        (*s.pick(&[100_000i128, 1_000_000_000_000]), 100_000_000_000_000_000)
    };
    for u in &users {
        w.mint_sac(&lp, u, funds);
    }
    let mut toks = vec![];
    for k in 0..n_tok {
        // now and then rewards are paid in the staked token itself
        let t = if k == 0 && s.bool(1, 6) { lp.clone() } else { w.sac() };
        let mut flow = false;
        if s.bool(5, 6) {
            let who = if s.below(2) == 0 { &manager } else { &owner };
            w.must::<()>(&addr, "create_distribution_flow", (who.clone(), t.clone()))?;
            flow = true;
        }
        for p in [&manager, &owner] {
            w.mint_sac(&t, p, if t == lp { funds } else { 1_000_000_000_000_000_000_000_000 });
        }
        toks.push(Tok { addr: t, flow, hist: BTreeMap::new(), funded: 0, paid: 0 });
    }
    ctx.log(format!("stake contract min_bond={} reward tokens={} (first is the staked token: {})", min_bond, n_tok, toks[0].addr == lp));
    let us = users.iter().map(|u| User { lp: w.bal(&lp, u), ..Default::default() }).collect();
    Ok(M { w, addr, lp, manager, owner, min_bond, dist_max, room: 150_000_000_000_000_000_000.min(160_000_000_000_000_000_000_000_000_000_000_000_000 / funds), users, us, toks, totals: BTreeMap::new(), total: 0, last_withdrawal: u64::MAX })
}

fn pass(ctx: &mut Ctx, m: &M) {
    let s = &mut ctx.src;
    let dt = match s.weighted(&[3, 1, 2, 4, 2, 1]) {
        0 => 0,
        1 => 1,
        2 => s.below(DAY),
        3 => s.below(20) * DAY + *s.pick(&[0, 0, 1, DAY - 1]),
        4 => s.below(90) * DAY + s.below(DAY),
        _ => *s.pick(&[DAY, 60 * DAY, 60 * DAY - 1, 59 * DAY, 365 * DAY]),
    };
    if dt > 0 {
        m.w.pass(dt);
        ctx.log(format!("+{}s ({}d {}s)", dt, dt / DAY, dt % DAY));
    }
}

pub fn history(ctx: &mut Ctx) -> R {
    let mut m = setup(ctx)?;
    let n = ctx.steps(6, 26);
    let (mut paid, mut dists) = (0, 0);
    for _ in 0..n {
        ctx.src.begin();
        pass(ctx, &m);
        let kind = ctx.src.weighted(&[24, 16, 24, 20, 4, 4, 2, 1]);
        let r = match kind {
            0 => bond(ctx, &mut m),
            1 => unbond(ctx, &mut m),
            2 => distribute(ctx, &mut m, &mut dists),
            3 => withdraw(ctx, &mut m, &mut paid, None),
            4 => flow(ctx, &mut m),
            6 => burst(ctx, &mut m),
            7 => series(ctx, &mut m, &mut dists),
            _ => donate(ctx, &mut m),
        };
        let r = r.and_then(|_| verify(ctx, &m));
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = (dists >= 1 || ctx.prop == "K01") && m.us.iter().any(|u| !u.stakes.is_empty());
    if paid > 0 {
        ctx.label("paid-rewards");
    }
    // everybody can take everything owed and every stake at the end
    if ctx.src.bool(1, 2) {
        m.w.pass(1 + ctx.src.below(100) * DAY);
    }
    for ui in 0..m.users.len() {
        withdraw(ctx, &mut m, &mut paid, Some(ui))?;
        while let Some(&(a, t)) = m.us[ui].stakes.last() {
            let n = m.us[ui].stakes.len();
            do_unbond(ctx, &mut m, ui, a, t)?;
            if m.us[ui].stakes.len() == n {
                break; // refused: not this property's business
            }
        }
    }
    verify(ctx, &m)?;
    check_any!(ctx, ["K01"], m.total == 0, "total", "stakes remain after everyone left");
    Ok(())
}

fn bond(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let ui = s.below(m.users.len() as u64) as usize;
    let have = m.us[ui].lp;
    let amt = match s.weighted(&[8, 2, 1, 1]) {
        0 => s.logu(m.min_bond, (have / 2).max(m.min_bond)),
        1 => s.range(m.min_bond - 1, m.min_bond + 1),
        2 => have + s.range(-1, 1),
        _ => *s.pick(&[0i128, 0, -1, i128::MAX, i128::MIN]),
    };
    // the same amount twice in a row is a case of its own
    let amt = match m.us[ui].stakes.last() {
        Some(l) if s.bool(1, 4) => l.0,
        _ => amt,
    };
    ctx.log(format!("bond user{} {} (has {})", ui, amt, have));
    let r = m.w.call::<()>(&m.addr, "bond", (m.users[ui].clone(), amt));
    let ok = amt >= m.min_bond && amt <= have;
    if ok {
        check_any!(ctx, ["K01"], r.is_ok(), "bond-refused", "a valid bond of {} was refused: {:?}", amt, r);
    }
    if r.is_ok() {
        check_any!(ctx, ["K01"], ok, "bond-accepted", "a bond of {} (minimum {}, balance {}) was accepted", amt, m.min_bond, have);
        let now = m.w.now();
        m.us[ui].stakes.push((amt, now));
        m.us[ui].lp -= amt;
        m.total += amt;
        ctx.label("bond");
    } else {
        ctx.label("bond-refused");
    }
    Ok(())
}

/// One staker bonds many times, close together, and may take some of it back in any order.
fn burst(ctx: &mut Ctx, m: &mut M) -> R {
    let ui = ctx.src.below(m.users.len() as u64) as usize;
    let n = 3 + ctx.src.below(28);
    let step = *ctx.src.pick(&[0u64, 1, 5, DAY]);
    let amt = ctx.src.logu(m.min_bond, (m.us[ui].lp / 40).max(m.min_bond));
    ctx.log(format!("user{} bonds {} times from {} every {}s", ui, n, amt, step));
    for k in 0..n {
        let a = amt + (k % 3) as i128;
        if a > m.us[ui].lp {
            break;
        }
        let r = m.w.call::<()>(&m.addr, "bond", (m.users[ui].clone(), a));
        check_any!(ctx, ["K01"], r.is_ok(), "bond-refused", "a valid bond of {} was refused: {:?}", a, r);
        if r.is_err() {
            return Ok(());
        }
        let now = m.w.now();
        m.us[ui].stakes.push((a, now));
        m.us[ui].lp -= a;
        m.total += a;
        if step > 0 {
            m.w.pass(step);
        }
    }
    ctx.label("burst");
    for _ in 0..ctx.src.below(4) {
        let own = m.us[ui].stakes.clone();
        if own.is_empty() {
            break;
        }
        let (a, t) = *ctx.src.pick(&own);
        do_unbond(ctx, m, ui, a, t)?;
    }
    Ok(())
}

/// A long run of distributions, all within a second or spread over hours or days.
fn series(ctx: &mut Ctx, m: &mut M, dists: &mut u32) -> R {
    let ti = ctx.src.below(m.toks.len() as u64) as usize;
    if !m.toks[ti].flow {
        return Ok(());
    }
    let most = if ctx.src.bool(1, 3) { 60 } else { 20 };
    let n = 3 + ctx.src.below(most);
    let step = *ctx.src.pick(&[0u64, 1, 3600, DAY, 7 * DAY]);
    let amt = ctx.src.logu(1, 1_000_000_000_000);
    ctx.log(format!("token{} is distributed {} times from {} every {}s", ti, n, amt, step));
    for k in 0..n {
        distribution(ctx, m, dists, ti, m.manager.clone(), amt + (k % 5) as i128)?;
        if step > 0 {
            m.w.pass(step);
        }
    }
    ctx.label("series");
    Ok(())
}

fn unbond(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let mut ui = s.below(m.users.len() as u64) as usize;
    if m.us[ui].stakes.is_empty() && s.bool(5, 6) {
        ui = (0..m.users.len()).find(|j| !m.us[*j].stakes.is_empty()).unwrap_or(ui);
    }
    let all: std::vec::Vec<(i128, u64)> = m.us.iter().flat_map(|u| u.stakes.iter().copied()).collect();
    let own = m.us[ui].stakes.clone();
    let (a, t) = match s.weighted(&[6, 2, 1, 1, 1]) {
        0 if !own.is_empty() => *s.pick(&own),
        1 if !all.is_empty() => *s.pick(&all),
        2 if !own.is_empty() => {
            let x = *s.pick(&own);
            (if s.bool(1, 6) { *s.pick(&[0i128, -1, -x.0, i128::MAX]) } else { x.0 + s.range(-1, 1) }, x.1)
        }
        3 if own.len() > 1 => (s.pick(&own).0, s.pick(&own).1),
        _ => {
            let x = own.first().copied().unwrap_or((1, m.w.now()));
            (x.0, x.1 + s.below(2))
        }
    };
    do_unbond(ctx, m, ui, a, t)
}

fn do_unbond(ctx: &mut Ctx, m: &mut M, ui: usize, a: i128, t: u64) -> R {
    ctx.log(format!("unbond user{} {} bonded at {} (T0{:+}s)", ui, a, t, t as i128 - T0 as i128));
    let pos = m.us[ui].stakes.iter().position(|s| *s == (a, t));
    let r = m.w.call::<()>(&m.addr, "unbond", (m.users[ui].clone(), a, t));
    match pos {
        Some(i) => {
            check_any!(ctx, ["K01"], r.is_ok(), "unbond-refused", "user{} cannot unbond its stake of {} bonded at {}: {:?}", ui, a, t, r);
            if r.is_ok() {
                m.us[ui].stakes.remove(i);
                m.us[ui].lp += a;
                m.total -= a;
                ctx.label("unbond");
            }
        }
        None => {
            check_any!(ctx, ["K01"], r.is_err(), "unbond-accepted", "user{} unbonded ({}, {}) which is not one of its stakes {:?}", ui, a, t, m.us[ui].stakes);
            if r.is_ok() {
                return fail("model-diverged", "an unbond of no stake was accepted");
            }
            ctx.label("unbond-refused");
        }
    }
    Ok(())
}

fn distribute(ctx: &mut Ctx, m: &mut M, dists: &mut u32) -> R {
    let s = &mut ctx.src;
    let ti = s.below(m.toks.len() as u64) as usize;
    let who = match s.weighted(&[5, 5, 1]) {
        0 => m.manager.clone(),
        1 => m.owner.clone(),
        _ => m.users[s.below(m.users.len() as u64) as usize].clone(),
    };
    let have = m.w.bal(&m.toks[ti].addr, &who);
    let amt = match s.weighted(&[8, 1, 1]) {
        0 => s.logu(1, m.dist_max),
        1 => s.range(0, 60),
        _ => *s.pick(&[0i128, 0, -1, i128::MAX, i128::MIN]),
    };
    // occasionally more than the sender has
    let amt = if s.bool(1, 25) { have + 1 } else { amt };
    distribution(ctx, m, dists, ti, who, amt)
}

fn distribution(ctx: &mut Ctx, m: &mut M, dists: &mut u32, ti: usize, who: Address, amt: i128) -> R {
    let authorized = who == m.manager || who == m.owner;
    let tok = m.toks[ti].addr.clone();
    let have = m.w.bal(&tok, &who);
    let now = m.w.now();
    let already: i128 = m.toks[ti].hist.range(now..=now + 1).map(|x| *x.1).sum();
    if amt > 0 && amt <= have && already + amt > m.room {
        return Ok(());
    }
    ctx.log(format!("distribute token{} {} by {}", ti, amt, if authorized { "manager/owner" } else { "a user" }));
    let r = m.w.call::<()>(&m.addr, "distribute_rewards", (who.clone(), amt, tok.clone()));
    let ok = authorized && m.toks[ti].flow && amt >= 0 && amt <= have;
    check_any!(ctx, ["K03"], r.is_err() || ok, "distribution-accepted", "a distribution of {} (authorized {}, flow {}, balance {}) was accepted", amt, authorized, m.toks[ti].flow, have);
    if ok && amt > 0 {
        check_any!(ctx, ["K03", "K02"], r.is_ok(), "distribution-refused", "a valid distribution of {} was refused: {:?}", amt, r);
    }
    let took = have - m.w.bal(&tok, &who);
    check_any!(ctx, ["K03"], took == if r.is_ok() { amt } else { 0 }, "distribution-took", "a distribution of {} ({}) took {} from the sender", amt, r.is_ok(), took);
    if r.is_ok() {
        let now = m.w.now();
        // after a withdrawal in this very second it counts for the next one
        let t = if m.last_withdrawal == now { now + 1 } else { now };
        let total = m.total;
        m.totals.entry(t).or_insert(total);
        *m.toks[ti].hist.entry(t).or_insert(0) += amt;
        m.toks[ti].funded += amt;
        if tok == m.lp {
            if let Some(k) = m.users.iter().position(|u| *u == who) {
                m.us[k].lp -= amt;
            }
        }
        *dists += 1;
        ctx.label("distribution");
    } else {
        ctx.label("distribution-refused");
    }
    Ok(())
}

fn flow(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let ti = s.below(m.toks.len() as u64) as usize;
    let (who, authorized) = match s.weighted(&[3, 3, 2]) {
        0 => (m.manager.clone(), true),
        1 => (m.owner.clone(), true),
        _ => (m.users[0].clone(), false),
    };
    debug_assert!(m.users[0] != m.manager && m.users[0] != m.owner);
    ctx.log(format!("create_distribution_flow token{} authorized={}", ti, authorized));
    let r = m.w.call::<()>(&m.addr, "create_distribution_flow", (who, m.toks[ti].addr.clone()));
    check_any!(ctx, ["K03"], r.is_ok() == (authorized && !m.toks[ti].flow), "flow", "create_distribution_flow (authorized {}, existing {}) gave {:?}", authorized, m.toks[ti].flow, r);
    if r.is_ok() {
        m.toks[ti].flow = true;
    }
    Ok(())
}

fn donate(ctx: &mut Ctx, m: &mut M) -> R {
    // tokens sent to the contract change nobody's stake or claim
    let ui = ctx.src.below(m.users.len() as u64) as usize;
    let amt = ctx.src.logu(1, 1000).min(m.us[ui].lp);
    if amt > 0 && m.w.transfer(&m.lp, &m.users[ui], &m.addr, amt).is_ok() {
        m.us[ui].lp -= amt;
        ctx.log(format!("user{} sends {} staked tokens to the contract", ui, amt));
    }
    Ok(())
}

fn withdraw(ctx: &mut Ctx, m: &mut M, paid: &mut u32, who: Option<usize>) -> R {
    let ui = match who {
        Some(u) => u,
        None => ctx.src.below(m.users.len() as u64) as usize,
    };
    let u = m.users[ui].clone();
    let before: std::vec::Vec<i128> = m.toks.iter().map(|t| m.w.bal(&t.addr, &u)).collect();
    let owed: std::vec::Vec<i128> = (0..m.toks.len()).map(|t| m.owed(ui, t)).collect();
    ctx.log(format!("withdraw_rewards user{} (owed {:?})", ui, owed));
    let r = m.w.call::<()>(&m.addr, "withdraw_rewards", (u.clone(),));
    check_any!(ctx, ["K02", "K03"], r.is_ok(), "withdraw-refused", "user{} cannot withdraw its rewards {:?}: {:?}", ui, owed, r);
    if r.is_err() {
        return Ok(());
    }
    for ti in 0..m.toks.len() {
        let got = m.w.bal(&m.toks[ti].addr, &u) - before[ti];
        check_any!(ctx, ["K02"], got == owed[ti], "paid", "user{} was paid {} of token{}, owed {}", ui, got, ti, owed[ti]);
        m.toks[ti].paid += got;
        if m.toks[ti].addr == m.lp {
            m.us[ui].lp += got;
        }
        if got > 0 {
            *paid += 1;
        }
    }
    m.us[ui].last = m.w.now();
    m.last_withdrawal = m.w.now();
    ctx.label("withdraw");
    Ok(())
}

fn verify(ctx: &Ctx, m: &M) -> R {
    let w = &m.w;
    if ctx.on("K01") {
        let total: i128 = w.must(&m.addr, "query_total_staked", ())?;
        check!(ctx, "K01", total == m.total, "total", "query_total_staked says {}, the stakes add up to {}", total, m.total);
        let held = w.bal(&m.lp, &m.addr);
        check!(ctx, "K01", held >= m.total, "unbacked", "the contract holds {} staked tokens for stakes of {}", held, m.total);
        for (ui, u) in m.users.iter().enumerate() {
            let q: Map<Symbol, Val> = w.must(&m.addr, "query_staked", (u.clone(),))?;
            let sum: i128 = w.field(&q, "total_stake")?;
            let list: Vec<Val> = w.field(&q, "stakes")?;
            let mut got = vec![];
            for v in list.iter() {
                let s = w.to_map(v)?;
                got.push((w.field::<i128>(&s, "stake")?, w.field::<u64>(&s, "stake_timestamp")?));
            }
            let mut want = m.us[ui].stakes.clone();
            got.sort();
            want.sort();
            check!(ctx, "K01", got == want, "stakes", "user{} has stakes {:?}, recorded {:?}", ui, want, got);
            check!(ctx, "K01", sum == m.bonded(ui), "user-total", "user{}'s stakes add up to {}, reported total {}", ui, m.bonded(ui), sum);
            let lp = w.bal(&m.lp, u);
            check!(ctx, "K01", lp == m.us[ui].lp, "lp-balance", "user{} has {} staked tokens outside the contract instead of {}", ui, lp, m.us[ui].lp);
        }
    }
    if ctx.on("K02") || ctx.on("K03") {
        let mut claims = vec![0i128; m.toks.len()];
        for (ui, u) in m.users.iter().enumerate() {
            let q = w.call::<Map<Symbol, Val>>(&m.addr, "query_withdrawable_rewards", (u.clone(),));
            check_any!(ctx, ["K02"], q.is_ok(), "query-refused", "query_withdrawable_rewards fails for user{}: {:?}", ui, q);
            let Ok(q) = q else { continue };
            let list: Vec<Val> = w.field(&q, "rewards")?;
            let mut seen = 0;
            for v in list.iter() {
                let r = w.to_map(v)?;
                let a: Address = w.field(&r, "reward_address")?;
                let x: u128 = w.field(&r, "reward_amount")?;
                let Some(ti) = m.toks.iter().position(|t| t.addr == a && t.flow) else {
                    return fail("unknown-reward", "a reward in a token without a distribution flow is reported");
                };
                seen += 1;
                let x = x as i128;
                claims[ti] += x;
                let owed = m.owed(ui, ti);
                check!(ctx, "K02", x == owed, "withdrawable", "user{} may withdraw {} of token{}, owed {}", ui, x, ti, owed);
            }
            check!(ctx, "K02", seen == m.toks.iter().filter(|t| t.flow).count(), "rewards-missing", "{} reward tokens reported", seen);
        }
        for (ti, t) in m.toks.iter().enumerate() {
            check!(ctx, "K03", t.paid + claims[ti] <= t.funded, "overpaid", "token{}: {} paid and {} withdrawable of {} distributed", ti, t.paid, claims[ti], t.funded);
            let held = w.bal(&t.addr, &m.addr) - if t.addr == m.lp { m.total } else { 0 };
            check!(ctx, "K03", held >= claims[ti], "uncovered", "token{}: claims of {} but only {} held (stakes excluded)", ti, claims[ti], held);
            if t.addr != m.lp {
                check!(ctx, "K03", held == t.funded - t.paid, "leak", "token{}: {} held, distributed {} and paid {}", ti, held, t.funded, t.paid);
            }
        }
    }
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    const A: &[&str] = &["a stake times a distribution stays below 1e38 and a distribution below 1.7e20 (the contract's 128-bit working range); a direct deployment, all signatures granted"];
    let rule = "a case is a random history of 6..26 bonds, unbonds, distributions, reward withdrawals, new flows, bursts of bonds, series of distributions and donations by 4..10 users, a manager and an owner over time steps from zero to a year, ending with everybody leaving; every query is compared with the model after every step; non-trivial = a stake present at the end of the random part and (K02, K03) at least one distribution accepted";
    [("K01", "Staked shares are fully backed and always returnable"), ("K02", "Stakers are paid exactly what each distribution owes them"), ("K03", "Rewards paid out never exceed rewards funded")]
        .into_iter()
        .map(|(id, title)| Prop { id, title, rule, assumptions: A, scenarios: vec![Scenario { name: "stake-history", run: history, quick: 1500, thorough: 30000 }] })
        .collect()
}
