//! R01: the reward-distribution contract against a model of its schedules and of every user's part.
use crate::check;
use crate::engine::*;
use crate::world::*;
use num_bigint::BigInt;
use soroban_sdk::{contract, contractimpl, Address, Env, Map, String, Symbol, Val, Vec};

const DAY: u64 = 86_400;
const YEAR: u64 = 365 * DAY;
const E18: i128 = 1_000_000_000_000_000_000;

/// Stands in for the staking contract: the only one the rewards contract takes calls from.
#[contract]
pub struct Staking;

#[contractimpl]
impl Staking {
    pub fn go(env: Env, who: Option<Address>, c: Address, f: Symbol, args: Vec<Val>) -> Val {
        if let Some(w) = who {
            w.require_auth();
        }
        env.invoke_contract(&c, &f, args)
    }
}

struct User {
    addr: Address,
    stakes: std::vec::Vec<(i128, u64)>,
    /// (amount, own power, total power) of every distribution
    parts: std::vec::Vec<(i128, i128, i128)>,
    known: bool,
    paid: i128,
}

impl User {
    fn total(&self) -> i128 {
        self.stakes.iter().map(|s| s.0).sum()
    }
}

struct M {
    w: W,
    addr: Address,
    staking: Address,
    admin: Address,
    tok: Address,
    min_bond: i128,
    min_reward: i128,
    maxc: u32,
    users: std::vec::Vec<User>,
    /// (start, end, amount) of every funded schedule
    funds: std::vec::Vec<(u64, u64, i128)>,
    /// times the stored schedule bends at (empty: nothing scheduled yet)
    bends: std::vec::Vec<u64>,
    received: i128,
    paid: i128,
    distributed: i128,
    max_power: i128,
    n_dist: i128,
    /// some stakes are as large as the working range allows
    rich: bool,
}

fn floor_div(a: BigInt, b: BigInt) -> BigInt {
    num_integer::Integer::div_floor(&a, &b)
}

fn to_i(b: BigInt) -> i128 {
    i128::try_from(b).unwrap_or(i128::MAX)
}

/// Still locked at `t` of one schedule, rounded up
fn locked_of((s, e, amt): (u64, u64, i128), t: u64) -> i128 {
    if t <= s {
        amt
    } else if t >= e {
        0
    } else {
        amt - to_i(floor_div(BigInt::from(amt) * (t - s), BigInt::from(e - s)))
    }
}

impl M {
    fn power(&self, stake: i128) -> i128 {
        if stake < self.min_bond {
            0
        } else {
            stake / 1000
        }
    }
    fn locked(&self, t: u64) -> i128 {
        self.funds.iter().map(|f| locked_of(*f, t)).sum()
    }
    fn info(&self, stakes: &[(i128, u64)], total: i128) -> Val {
        let w = &self.w;
        let mut v: Vec<Val> = Vec::new(&w.env);
        for (s, t) in stakes {
            v.push_back(w.record(&[("stake", w.val(*s)), ("stake_timestamp", w.val(*t))]));
        }
        w.record(&[("stakes", w.val(v)), ("reward_debt", w.val(0u128)), ("last_reward_time", w.val(0u64)), ("total_stake", w.val(total))])
    }
    fn call(&self, who: Option<&Address>, f: &str, args: &[Val]) -> Result<Val, CallErr> {
        let w = &self.w;
        w.call::<Val>(&self.staking, "go", (who.cloned(), self.addr.clone(), Symbol::new(&w.env, f), w.vals(args)))
    }
    fn claim(&self, ui: usize) -> R<i128> {
        let u = &self.users[ui];
        let m: Map<Symbol, Val> = self.w.must(&self.addr, "query_withdrawable_reward", self.w.vals(&[self.w.val(u.addr.clone()), self.info(&u.stakes, u.total())]))?;
        Ok(self.w.field::<u128>(&m, "reward_amount")? as i128)
    }
    /// What the user may claim now lies between these two
    fn owed(&self, ui: usize) -> (i128, i128) {
        let u = &self.users[ui];
        // exact entitlement scaled by 2^64
        let mut e = BigInt::from(0);
        for (amt, own, all) in &u.parts {
            e += ((BigInt::from(*amt) * *own) << 64) / *all;
        }
        let per: BigInt = (BigInt::from(self.max_power) << 32) + (BigInt::from(1) << 33);
        let err: BigInt = per * (self.n_dist + 1) + (BigInt::from(1) << 64);
        let now = self.w.now();
        let (mut ws, mut tw) = (BigInt::from(0), BigInt::from(0));
        for (s, t) in &u.stakes {
            let days = ((now - t) / DAY).min(60);
            ws += BigInt::from(*s) * days;
            tw += BigInt::from(*s) * 60;
        }
        if tw == BigInt::from(0) {
            return (0, 0);
        }
        let mult = ws * E18 / tw;
        let part = |x: BigInt, up: bool| -> i128 {
            let x = x - (BigInt::from(u.paid) << 64);
            if x <= BigInt::from(0) {
                return 0;
            }
            let q: BigInt = x * &mult;
            let d: BigInt = BigInt::from(E18) << 64;
            to_i(if up { q / d } else { floor_div(q, d) - 1 })
        };
        (part(&e - &err, false).max(0), part(&e + &err, true))
    }
    fn bals(&self) -> std::vec::Vec<i128> {
        let mut v: std::vec::Vec<i128> = self.users.iter().map(|u| self.w.bal(&self.tok, &u.addr)).collect();
        v.push(self.w.bal(&self.tok, &self.admin));
        v.push(self.w.bal(&self.tok, &self.addr));
        v
    }
}

pub fn history(ctx: &mut Ctx) -> R {
    let w = W::new();
    let s = &mut ctx.src;
    w.epoch(s);
    let min_bond = *s.pick(&[1i128, 1000, 1000, 100_000]);
    let min_reward = *s.pick(&[1i128, 1000]);
    let maxc = if s.bool(1, 6) { 13 + s.below(28) as u32 } else { 2 + s.below(11) as u32 };
    let tok = w.sac();
    let admin = w.addr();
    let staking = w.env.register(Staking, ());
    let addr = w.deploy("stake_rewards");
    w.must::<()>(&addr, "initialize", (admin.clone(), staking.clone(), tok.clone(), maxc, min_reward, min_bond))?;
    w.mint_sac(&tok, &admin, 10_000_000_000_000_000_000);
    let nu = if s.bool(1, 6) { 4 + s.below(4) as usize } else { 3 };
    let users = (0..nu).map(|_| User { addr: w.addr(), stakes: vec![], parts: vec![], known: false, paid: 0 }).collect();
    ctx.log(format!("rewards contract min_bond={} min_reward={} max_complexity={}", min_bond, min_reward, maxc));
    let rich = ctx.src.bool(1, 10);
    let mut m = M { w, addr, staking, admin, tok, min_bond, min_reward, maxc, users, funds: vec![], bends: vec![], received: 0, paid: 0, distributed: 0, max_power: 0, n_dist: 0, rich };
    // somebody may have staked before
    if ctx.src.bool(2, 3) {
        let amt = ctx.src.logu(1000, 1_000_000_000_000);
        m.users[0].stakes.push((amt, m.w.now() - ctx.src.below(100 * DAY)));
        m.users[0].known = true;
        ctx.log(format!("user0 comes with a stake of {}", amt));
        let args = [m.w.val(m.users[0].addr.clone()), m.info(&m.users[0].stakes, amt)];
        if let Err(e) = m.call(None, "add_user", &args) {
            return fail("add-user", format!("adding a user was refused: {e:?}"));
        }
    }
    let n = ctx.steps(8, 30);
    let mut withdrawals = 0;
    // usually something is funded early
    if ctx.src.bool(3, 4) {
        ctx.src.begin();
        let b = m.bals();
        let r = fund(ctx, &mut m, &b);
        ctx.src.end();
        r?;
        let dt = ctx.src.below(20) * DAY;
        ctx.log(format!("{} s pass", dt));
        m.w.pass(dt);
    }
    for _ in 0..n {
        ctx.src.begin();
        let kind = ctx.src.weighted(&[10, 4, 10, 8, 8, 14, 2, 7, 1]);
        // time passes, the release of that time is distributed and somebody takes their part;
        // or many short-lived schedules are funded
        let kinds: &[usize] = match kind {
            7 => &[5, 2, 3],
            8 => &[4; 12],
            _ => &[kind],
        };
        let mut r = Ok(());
        for k in kinds {
            r = step(ctx, &mut m, &mut withdrawals, *k);
            if r.is_err() {
                break;
            }
        }
        ctx.src.end();
        r?;
        invariants(ctx, &m)?;
    }
    ctx.nontrivial = withdrawals > 0 && m.n_dist > 0;
    Ok(())
}

fn amounts(s: &mut Src) -> i128 {
    match s.weighted(&[4, 3, 2]) {
        0 => s.logu(10_000, 1_000_000_000_000),
        1 => s.logu(1, 10_000_000),
        _ => s.logu(1, 1_000_000_000_000_000),
    }
}

fn step(ctx: &mut Ctx, m: &mut M, withdrawals: &mut u32, kind: usize) -> R {
    let w = m.w.clone();
    let before = m.bals();
    let now = w.now();
    let nu = m.users.len();
    let nc = nu + 1;
    let mut ui = ctx.src.below(nu as u64) as usize;
    match kind {
        0 => {
            // bond
            // the contract multiplies a user's stakes with 60 days and 1e18
            let total: i128 = m.users[ui].total();
            let amt = if m.rich && total < 1_000_000_000_000_000_000 && ctx.src.bool(1, 3) { ctx.src.logu(1_000_000_000_000_000, 1_000_000_000_000_000_000) } else { amounts(&mut ctx.src) };
            let first = !m.users[ui].known && ctx.src.bool(1, 2);
            ctx.log(format!("user{} bonds {} (by {})", ui, amt, if first { "add_user" } else { "calculate_bond" }));
            let old = m.users[ui].total();
            m.users[ui].stakes.push((amt, now));
            let u = &m.users[ui];
            let r = if first { m.call(None, "add_user", &[w.val(u.addr.clone()), m.info(&u.stakes, u.total())]) } else { m.call(None, "calculate_bond", &[w.val(u.addr.clone()), m.info(&u.stakes, old)]) };
            m.users[ui].known = true;
            check!(ctx, "R01", r.is_ok(), "bond-refused", "recording a bond of {} failed: {:?}", amt, r);
            check!(ctx, "R01", m.bals() == before, "bond-moved", "recording a bond moved reward tokens");
        }
        1 => {
            if m.users[ui].stakes.is_empty() {
                return Ok(());
            }
            let k = ctx.src.below(m.users[ui].stakes.len() as u64) as usize;
            let q = m.claim(ui)?;
            let u = &m.users[ui];
            ctx.log(format!("user{} unbonds stake {:?} (claim {})", ui, u.stakes[k], q));
            let r = m.call(Some(&u.addr), "calculate_unbond", &[w.val(u.addr.clone()), m.info(&u.stakes, u.total()), w.val(u.stakes[k].0)]);
            check!(ctx, "R01", r.is_ok(), "unbond-refused", "recording an unbond failed: {:?}", r);
            let after = m.bals();
            check!(ctx, "R01", after[ui] - before[ui] == q && before[nc] - after[nc] == q, "unbond-pay", "an unbond paid {} of a claim of {}", after[ui] - before[ui], q);
            m.users[ui].paid += q;
            m.paid += q;
            m.users[ui].stakes.remove(k);
            ctx.label("unbond");
        }
        2 => {
            let total: i128 = m.users.iter().map(|u| u.total()).sum();
            let p = m.power(total);
            let q0: u128 = w.must(&m.addr, "query_distributed_reward", (m.tok.clone(),))?;
            ctx.log(format!("distribution over a stake of {}", total));
            let r = m.call(None, "distribute_rewards", &[w.val(total)]);
            check!(ctx, "R01", r.is_ok(), "distribute-refused", "a distribution failed: {:?}", r);
            check!(ctx, "R01", m.bals() == before, "distribute-moved", "a distribution moved tokens");
            let q1: u128 = w.must(&m.addr, "query_distributed_reward", (m.tok.clone(),))?;
            check!(ctx, "R01", q1 >= q0, "distributed-fell", "the distributed total fell from {} to {}", q0, q1);
            let d = (q1 - q0) as i128;
            if p == 0 {
                check!(ctx, "R01", d == 0, "distribute-nobody", "a distribution with nobody staking distributed {}", d);
            } else {
                let free = m.received - m.locked(now);
                let slack = m.funds.len() as i128 + 1;
                let new = m.distributed + d;
                check!(
                    ctx,
                    "R01",
                    new <= (free + slack).max(m.distributed) && new >= free - slack,
                    "distribute-amount",
                    "after a distribution {} of {} received are distributed, {} are locked by the schedules {:?} at {}",
                    new,
                    m.received,
                    m.locked(now),
                    m.funds,
                    now
                );
                m.distributed = new;
                if d > 0 {
                    let parts: std::vec::Vec<i128> = m.users.iter().map(|u| m.power(u.total())).collect();
                    for (u, own) in m.users.iter_mut().zip(parts) {
                        u.parts.push((d, own, p));
                    }
                    m.max_power = m.max_power.max(p);
                    m.n_dist += 1;
                    ctx.label("distribution");
                }
            }
        }
        3 => {
            // usually somebody with something to claim
            if ctx.src.bool(3, 4) {
                for k in 0..nu {
                    if m.claim((ui + k) % nu)? > 0 {
                        ui = (ui + k) % nu;
                        break;
                    }
                }
            }
            let q = m.claim(ui)?;
            let others: std::vec::Vec<i128> = (0..nu).filter(|k| *k != ui).map(|k| m.claim(k)).collect::<R<_>>()?;
            let u = &m.users[ui];
            ctx.log(format!("user{} withdraws {}", ui, q));
            let r = m.call(None, "withdraw_rewards", &[w.val(u.addr.clone()), m.info(&u.stakes, u.total())]);
            check!(ctx, "R01", r.is_ok(), "withdraw-refused", "a withdrawal of {} failed: {:?}", q, r);
            let after = m.bals();
            for k in 0..nc + 1 {
                let d = if k == ui { q } else if k == nc { -q } else { 0 };
                check!(ctx, "R01", after[k] - before[k] == d, "withdraw-pay", "a withdrawal of {} changed balance {} by {}", q, k, after[k] - before[k]);
            }
            m.users[ui].paid += q;
            m.paid += q;
            let now_others: std::vec::Vec<i128> = (0..nu).filter(|k| *k != ui).map(|k| m.claim(k)).collect::<R<_>>()?;
            check!(ctx, "R01", others == now_others, "others-claims", "a withdrawal changed the others' claims from {:?} to {:?}", others, now_others);
            if q > 0 {
                *withdrawals += 1;
                ctx.label("withdrawal");
            }
        }
        4 => fund(ctx, m, &before)?,
        5 => {
            let s = &mut ctx.src;
            let dt = match s.weighted(&[2, 4, 2, 1]) {
                0 => s.below(5),
                1 => s.below(30) * DAY,
                2 => s.logu(1, 200 * DAY as i128) as u64,
                _ => {
                    // exactly where a schedule bends
                    let b: std::vec::Vec<u64> = m.bends.iter().filter(|b| **b >= now).cloned().collect();
                    if b.is_empty() {
                        1
                    } else {
                        *s.pick(&b) - now
                    }
                }
            };
            ctx.log(format!("{} s pass", dt));
            w.pass(dt);
        }
        _ => {
            let amt = ctx.src.logu(1, 1_000_000);
            ctx.log(format!("{} tokens are sent to the contract", amt));
            w.mint_sac(&m.tok, &m.addr, amt);
            m.received += amt;
        }
    }
    Ok(())
}

fn fund(ctx: &mut Ctx, m: &mut M, before: &[i128]) -> R {
    let (na, nc) = (m.users.len(), m.users.len() + 1);
    let w = m.w.clone();
    let now = w.now();
    let s = &mut ctx.src;
    let amt = match s.weighted(&[6, 1, 1]) {
        0 => amounts(s),
        1 => m.min_reward + s.range(-1, 1),
        _ => 0,
    };
    let start = match s.weighted(&[4, 3, 2, 2, 1]) {
        0 => now,
        1 => now + s.below(1000),
        2 => now + s.below(100 * DAY),
        3 => m.bends.iter().filter(|b| **b >= now).cloned().next().unwrap_or(now),
        _ => now - 1,
    };
    let dur = match s.weighted(&[4, 3, 2, 1]) {
        0 => 1 + s.below(100 * DAY),
        1 => s.below(1000),
        2 => s.logu(1, 5 * YEAR as i128) as u64,
        _ => s.below(2),
    };
    let end = start + dur;
    let ended = matches!(m.bends.last(), Some(e) if *e < now);
    let mut bends = if ended { vec![] } else { m.bends.clone() };
    let combined = !ended;
    bends.push(start);
    bends.push(end);
    bends.sort();
    bends.dedup();
    ctx.log(format!("funding of {} from now+{} for {} (schedule bends {:?})", amt, start as i128 - now as i128, dur, m.bends.iter().map(|b| *b as i128 - now as i128).collect::<std::vec::Vec<_>>()));
    let r = m.call(Some(&m.admin), "fund_distribution", &[w.val(start), w.val(dur), w.val(amt)]);
    let after = m.bals();
    let ok = start >= now && amt >= m.min_reward && dur > 0 && (!combined || bends.len() as u32 <= m.maxc);
    if ok {
        check!(ctx, "R01", r.is_ok(), "fund-refused", "a valid funding was refused: {:?}", r);
    } else {
        check!(ctx, "R01", r.is_err(), "fund-accepted", "a funding of {} (minimum {}) for {} s at now{:+} giving a schedule of {} points (limit {}) was accepted", amt, m.min_reward, dur, start as i128 - now as i128, bends.len(), m.maxc);
    }
    if r.is_ok() {
        check!(ctx, "R01", before[na] - after[na] == amt && after[nc] - before[nc] == amt, "fund-amount", "a funding of {} took {}", amt, before[na] - after[na]);
        m.funds.push((start, end, amt));
        m.bends = bends;
        m.received += amt;
        ctx.label("funding");
    } else {
        check!(ctx, "R01", after == before, "refused-fund-moved", "a refused funding moved tokens");
        ctx.label("funding-refused");
    }
    Ok(())
}

fn invariants(ctx: &mut Ctx, m: &M) -> R {
    if !ctx.on("R01") {
        return Ok(());
    }
    let w = &m.w;
    let d: u128 = w.must(&m.addr, "query_distributed_reward", (m.tok.clone(),))?;
    let un: u128 = w.must(&m.addr, "query_undistributed_reward", (m.tok.clone(),))?;
    check!(ctx, "R01", d as i128 == m.distributed, "distributed", "the distributed total reads {} instead of {}", d, m.distributed);
    check!(ctx, "R01", (d + un) as i128 == m.received, "accounting", "{} distributed and {} undistributed, but {} received", d, un, m.received);
    let bal = w.bal(&m.tok, &m.addr);
    check!(ctx, "R01", bal == m.received - m.paid, "balance", "the contract holds {} of {} received and {} paid", bal, m.received, m.paid);
    let mut claims = 0;
    for k in 0..m.users.len() {
        let q = m.claim(k)?;
        let (lo, hi) = m.owed(k);
        check!(ctx, "R01", lo <= q && q <= hi, "claim", "user{} can claim {}, its part is between {} and {} (stakes {:?}, paid {})", k, q, lo, hi, m.users[k].stakes, m.users[k].paid);
        claims += q;
    }
    check!(ctx, "R01", claims + m.paid <= m.distributed, "claims-exceed", "claims of {} and payments of {} exceed the {} distributed", claims, m.paid, m.distributed);
    apr(ctx, m)
}

/// The yearly release per unit of power, as the query reports it
fn apr(ctx: &mut Ctx, m: &M) -> R {
    let w = &m.w;
    let now = w.now();
    let total: i128 = m.users.iter().map(|u| u.total()).sum();
    let p = m.power(total);
    if m.locked(now) > 4_000_000_000_000 {
        return Ok(()); // outside the working range of the query's fixed-point numbers
    }
    let r: Map<Symbol, Val> = w.must(&m.addr, "query_annualized_reward", (total,))?;
    let txt: String = w.field(&r, "amount")?;
    let txt = txt.to_string();
    let mut it = txt.split('.');
    let (a, b) = (it.next().unwrap_or("0"), it.next().unwrap_or(""));
    let atoms: BigInt = match format!("{a}{b:0<18}").parse() {
        Ok(x) => x,
        Err(_) => return fail("apr-text", format!("the annualized reward reads {txt:?}")),
    };
    let end = m.bends.last().cloned().unwrap_or(0);
    if p == 0 || end <= now {
        check!(ctx, "R01", atoms == BigInt::from(0), "apr", "the annualized reward reads {} with power {} and the schedules ended", txt, p);
        return Ok(());
    }
    let slack = m.funds.len() as u64 + 2;
    let left = end - now;
    let (payout, err): (BigInt, BigInt) = if left >= YEAR {
        (BigInt::from(m.locked(now) - m.locked(now + YEAR)) * E18, BigInt::from(slack) * E18)
    } else {
        (BigInt::from(m.locked(now)) * YEAR * E18 / left, BigInt::from(slack) * YEAR * E18 / left)
    };
    let got: BigInt = atoms * p;
    let diff = if got > payout { &got - &payout } else { &payout - &got };
    check!(ctx, "R01", diff <= err + p, "apr", "the annualized reward reads {} per unit of {} power; the schedules release {} in a year", txt, p, payout / E18);
    ctx.label("apr");
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    vec![Prop {
        id: "R01",
        title: "Funded reward curves release and account every token",
        rule: "a case is a rewards contract behind a stand-in for its staking contract, with random minima and complexity limit, and a history of 6..30 bonds, unbonds, fundings (overlapping, in the future, at each other's bends, invalid), distributions, withdrawals, gifts and waits, after each of which the totals and every user's claim are compared with the model; non-trivial = at least one distribution and one withdrawal with something to pay",
        assumptions: &[
            "the staking contract passes a bonded user's stakes including the new one and the total without it (calculate_bond), or the whole state (add_user), as the contract expects",
            "amounts stay within the 128-bit working range of the fixed-point type",
        ],
        scenarios: vec![Scenario { name: "rewards-history", run: history, quick: 1200, thorough: 40000 }],
    }]
}
