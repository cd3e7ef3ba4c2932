//! Stable pool: the amplified two-asset invariant solved exactly, and stateful histories (S01..S06).
use crate::engine::*;
use crate::world::*;
use crate::xyk::*;
use crate::{check, check_any};
use num_bigint::BigInt;
use soroban_sdk::{Address, Map, Symbol, Val, Vec};

/// Allowance for the contract's iterative solver, in 18-digit units (1e-8 token).
const TOL: i128 = 10_000_000_000;
/// Extra digits the reference carries.
const Q: i128 = 1_000_000_000_000;

fn p10(e: u32) -> BigInt {
    BigInt::from(10u32).pow(e)
}
/// amount of a token with `dec` decimals, at 18 + 12 digits
fn up(x: i128, dec: u32) -> BigInt {
    b(x) * p10(18 - dec) * b(Q)
}

/// The invariant D of `leverage * (x + y) + D = leverage * D + D^3 / (4 x y)`, rounded down.
pub fn inv(leverage: i128, x: &BigInt, y: &BigInt) -> BigInt {
    let s: BigInt = x + y;
    if *x <= b(0) || *y <= b(0) {
        return b(0);
    }
    let xy4 = x * y * 4;
    // f is convex and increasing: Newton from the sum comes down to the root
    let mut d = s.clone();
    for _ in 0..400 {
        let d2 = &d * &d;
        let f = &d2 * &d + &d * &xy4 * (leverage - 1) - &s * &xy4 * leverage;
        let df = &d2 * 3 + &xy4 * (leverage - 1);
        if f <= b(0) {
            break;
        }
        let step: BigInt = &f / &df;
        if step == b(0) {
            d -= 1;
        } else {
            d -= step;
        }
    }
    d
}

/// The balance y that belongs to x on the curve of invariant d.
pub fn solve(leverage: i128, x: &BigInt, d: &BigInt) -> BigInt {
    // leverage*4x*y^2 + (leverage*4x*(x-d) + 4x*d)*y - d^3 = 0
    let a = x * 4 * leverage;
    let bb = x * 4 * leverage * (x - d) + x * 4 * d;
    let c = d * d * d;
    let disc: BigInt = &bb * &bb + &a * &c * 4;
    (disc.sqrt() - &bb) / (&a * 2)
}

/// Whether the contract's 256-bit iteration for `solve` stays in range (its first step is the largest).
fn iterates(leverage: i128, x: &BigInt, d: &BigInt) -> bool {
    let q = b(Q);
    let (x, d) = (x / &q, d / &q);
    if x <= b(0) || d <= b(0) {
        return false;
    }
    let c = &d * &d * &d / (&x * 4 * leverage);
    let first = (&d * &d + c) / (&d + &x + &d / leverage);
    first < p10(38)
}

fn floor_div(n: &BigInt, d: &BigInt) -> BigInt {
    use num_integer::Integer;
    n.div_floor(d)
}

#[derive(Clone, Debug)]
pub struct StableCfg {
    pub dec: [u32; 2],
    pub amp: i128,
}

impl StableCfg {
    pub fn lev(&self) -> i128 {
        2 * self.amp
    }
    pub fn d(&self, i: &Info) -> BigInt {
        inv(self.lev(), &up(i.ra, self.dec[0]), &up(i.rb, self.dec[1]))
    }
}

/// A side below 1e-7 token: the pool is as good as empty for a solver with a tolerance of 1e-9.
pub fn dust(c: &StableCfg, i: &Info) -> bool {
    let least = p10(11) * b(Q);
    up(i.ra, c.dec[0]) < least || up(i.rb, c.dec[1]) < least
}

/// Range of the gross output of a swap: (low, high) in units of the bought asset; may be negative.
pub fn gross_range(c: &StableCfg, i: &Info, a_to_b: bool, x: i128) -> (i128, i128) {
    let (op, ap, od, ad) = if a_to_b { (i.ra, i.rb, c.dec[0], c.dec[1]) } else { (i.rb, i.ra, c.dec[1], c.dec[0]) };
    let d = c.d(i);
    if dust(c, i) {
        // an emptied pool has no curve: nothing is promised about the attempt
        return (i128::MIN / 2, ap.max(0));
    }
    let y = solve(c.lev(), &up(op + x, od), &d);
    let unit = p10(18 - ad) * b(Q);
    let t = b(TOL) * b(Q);
    // the remaining balance is rounded down to a whole unit; up when the bought token is the coarser one
    let coarse = if ad < od { 1 } else { 0 };
    let lo = b(ap) - floor_div(&(&y + &t), &unit) - coarse;
    let hi = b(ap) - floor_div(&(&y - &t), &unit) - coarse;
    (to_i(&lo).unwrap_or(i128::MIN / 2), to_i(&hi).unwrap_or(i128::MAX))
}

/// value of an amount at one for one, in units of the other token
pub fn convert(x: i128, from: u32, to: u32) -> Option<i128> {
    to_i(&(b(x) * p10(to) / p10(from)))
}

pub struct Sh {
    pub h: Hist,
    pub c: StableCfg,
}

pub fn gen_amp(s: &mut Src) -> u64 {
    match s.weighted(&[4, 4, 2, 1]) {
        0 => *s.pick(&[100u64, 6, 1, 10, 1000, 85]),
        1 => s.logu(1, 2_000) as u64,
        2 => s.logu(1, 1_000_000) as u64,
        _ => 1_000_000,
    }
}

pub fn make_token(w: &W, dec: u32) -> Address {
    if dec == 7 {
        w.sac()
    } else {
        let admin = w.addr();
        w.token(&admin, dec)
    }
}

pub fn setup(ctx: &mut Ctx) -> R<Sh> {
    let w = W::new();
    let s = &mut ctx.src;
    let (d1, d2) = *s.pick(&[(7u32, 7u32), (7, 7), (7, 7), (6, 7), (7, 18), (6, 18), (18, 18), (0, 7), (9, 6)]);
    let (t1, t2) = (make_token(&w, d1), make_token(&w, d2));
    let (ta, tb, dec) = if t1 < t2 { (t1, t2, [d1, d2]) } else { (t2, t1, [d2, d1]) };
    let mut prm = gen_params(s);
    prm.lp_decimals = 7;
    let amp = gen_amp(s);
    w.epoch(s);
    let mut p = deploy_pool(&w, "pool_stable", &ta, &tb, &prm, Some(amp))?;
    let users = users_for(s, &w, &mut p);
    let funds = 1_000_000_000_000_000_000_000_000_000i128; // 1e27
    for u in &users {
        for t in [&ta, &tb] {
            w.mint(t, u, funds)?;
        }
    }
    ctx.log(format!(
        "stable pool decimals={:?} amp={} fee={}bps max_slippage={} default_slippage={} max_spread={}",
        dec, amp, prm.fee_bps, prm.max_slip, prm.def_slip, prm.max_spread
    ));
    let mut h = Hist::new(w, p, users, funds);
    h.overlap = h.users.contains(&h.p.fee_to);
    Ok(Sh {
        h,
        c: StableCfg { dec, amp: amp as i128 },
    })
}

const I: i128 = i128::MAX;

fn fits(x: BigInt) -> bool {
    x <= b(I)
}

/// amounts of the first deposit: anything from dust to billions of tokens, mostly near balance
fn gen_first_stable(s: &mut Src, c: &StableCfg) -> (i128, i128) {
    // in 1e-6 tokens
    let max: i128 = if c.dec.contains(&18) { 150_000_000 } else { 1_000_000_000_000_000 };
    let m = s.logu(1000, max);
    let r = match s.weighted(&[4, 4, 2, 1]) {
        0 => (1, 1),
        1 => (s.range(10, 30), 20),
        2 => (s.range(1, 100), 10),
        _ => (s.logu(1, 10_000), 100),
    };
    let conv = |v: BigInt, d: u32| to_i(&(v * p10(d) / p10(6))).unwrap_or(1);
    let jitter = s.logu(0, 1_000_000);
    let x = conv(b(m), c.dec[0]) + jitter;
    let y = conv(b(m) * b(r.0) / b(r.1), c.dec[1]) + if r.0 == r.1 { 0 } else { s.logu(0, 1_000) };
    let (x, y) = (x.max(1), y.max(1));
    (x, y)
}

pub fn history(ctx: &mut Ctx) -> R {
    let mut sh = setup(ctx)?;
    let n = 5 + ctx.src.below(18);
    let (mut swaps, mut deps, mut wds) = (0u32, 0u32, 0u32);
    for step in 0..n {
        ctx.src.begin();
        let r = one_step(ctx, &mut sh, step, &mut swaps, &mut deps, &mut wds);
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = deps > 0 && (swaps + wds) >= 2;
    final_check(ctx, &sh)
}

fn one_step(ctx: &mut Ctx, sh: &mut Sh, step: u64, swaps: &mut u32, deps: &mut u32, wds: &mut u32) -> R {
    let w = sh.h.w.clone();
    let mut ui = ctx.src.below(3) as usize;
    let mut s0 = sh.h.start(ui)?;
    backing(ctx, &s0)?;
    let empty = s0.i.t == 0;
    let kind = if empty || step == 0 { ctx.src.weighted(&[0, 16, 1, 1, 0, 0, 0]) } else { ctx.src.weighted(&[20, 10, 10, 4, 2, 1, 2]) };
    if ctx.src.bool(1, 3) {
        w.pass(ctx.src.below(1000));
    }
    match kind {
        0 => {
            *swaps += 1;
            do_swap(ctx, sh, ui, &s0)
        }
        1 => {
            *deps += 1;
            do_deposit(ctx, sh, ui, &s0)
        }
        2 => {
            *wds += 1;
            if s0.user[2] == 0 && ctx.src.bool(7, 8) {
                if let Some(j) = (0..3).find(|j| sh.h.ub[*j][2] > 0) {
                    ui = j;
                    s0.user = sh.h.ub[j];
                }
            }
            do_withdraw(ctx, sh, ui, &s0)
        }
        3 => {
            let side = ctx.src.below(2) as usize;
            let cap = [s0.i.ra, s0.i.rb][side].saturating_mul(3).max(1000).min(s0.user[side]);
            let amt = ctx.src.logu(1, cap);
            let t = if side == 0 { sh.h.p.a.clone() } else { sh.h.p.b.clone() };
            let u = sh.h.users[ui].clone();
            if w.transfer(&t, &u, &sh.h.p.addr, amt).is_err() {
                return Ok(());
            }
            ctx.log(format!("donate user{} side{} {}", ui, side, amt));
            ctx.label("donation");
            let s1 = after(sh, ui)?;
            check!(ctx, "S01", s1.i == s0.i, "donation-moves-reserves", "a plain token transfer changed the recorded reserves {:?} -> {:?}", s0.i, s1.i);
            Ok(())
        }
        4 => do_config(ctx, sh),
        6 => move_shares(ctx, &mut sh.h, ui, &s0, ["S01", "S06"]),
        _ => crate::xyk::foreign_swap(ctx, &mut sh.h, ui, &s0, ["S01", "S03", "S05"]),
    }
}

fn after(sh: &mut Sh, ui: usize) -> R<Snap> {
    let s1 = snap(&sh.h, &sh.h.users[ui])?;
    sh.h.last = Some(s1.clone());
    sh.h.ub[ui] = s1.user;
    Ok(s1)
}

fn backing(ctx: &Ctx, s: &Snap) -> R {
    check!(ctx, "S01", s.i.ra <= s.pool[0] && s.i.rb <= s.pool[1], "unbacked", "reserves {:?} exceed the pool's balances {:?}", s.i, s.pool);
    check!(ctx, "S01", s.i.ra >= 0 && s.i.rb >= 0 && s.i.t >= 0, "negative", "negative reserves {:?}", s.i);
    Ok(())
}

fn do_config(ctx: &mut Ctx, sh: &mut Sh) -> R {
    let w = sh.h.w.clone();
    let fee = if ctx.src.bool(1, 2) { Some(gen_bps(&mut ctx.src)) } else { None };
    let slip = if ctx.src.bool(1, 3) { Some(gen_bps(&mut ctx.src)) } else { None };
    let spread = if ctx.src.bool(1, 3) { Some(gen_bps(&mut ctx.src)) } else { None };
    let fee_to = sh.h.new_fee_to(&mut ctx.src);
    ctx.log(format!("admin update_config fee={} max_slippage={} max_spread={} fee_recipient={}", opt(&fee), opt(&slip), opt(&spread), sh.h.who(&fee_to)));
    w.must::<()>(&sh.h.p.addr, "update_config", (sh.h.p.admin.clone(), None::<Address>, fee, fee_to.clone(), slip, spread))?;
    sh.h.set_fee_to(&fee_to);
    let p = &mut sh.h.p;
    p.fee_bps = fee.unwrap_or(p.fee_bps);
    p.max_slip = slip.unwrap_or(p.max_slip);
    p.max_spread = spread.unwrap_or(p.max_spread);
    ctx.label("config");
    Ok(())
}

/// Is an order that would yield `gross` acceptable?
fn judge(p: &Pool, c: &StableCfg, r: &SwapReq, gross: i128) -> Plan<SwapOut> {
    let (od, ad) = if r.a_to_b { (c.dec[0], c.dec[1]) } else { (c.dec[1], c.dec[0]) };
    if gross <= 0 {
        return Plan::No("no-price");
    }
    let Some(worth) = convert(r.amount, od, ad) else { return Plan::Unknown };
    let spread = (worth - gross).max(0);
    let fee = to_i(&(b(gross) * b(p.fee_bps as i128) / b(10_000))).unwrap();
    let ret = gross - fee;
    if r.min.map(|m| m > ret).unwrap_or(false) {
        return Plan::No("min");
    }
    match spread_ok(spread, gross, r.spread.unwrap_or(p.max_spread)) {
        None => return Plan::No("zero-output"),
        Some(false) => return Plan::No("spread"),
        _ => {}
    }
    let o = SwapOut { ret, fee, spread, gross };
    if fits(b(spread) * b(E18)) && fits(b(gross) * b(p.fee_bps as i128) * b(E18 / 10_000)) {
        Plan::Yes(o)
    } else {
        Plan::Maybe(o)
    }
}

fn precheck(p: &Pool, now: u64, balance: i128, r: &SwapReq) -> Option<&'static str> {
    if r.deadline.map(|d| now > d).unwrap_or(false) {
        return Some("deadline");
    }
    if r.amount <= 0 {
        return Some("amount");
    }
    if r.max_fee.map(|f| f < p.fee_bps).unwrap_or(false) {
        return Some("fee");
    }
    if let Some(s) = r.spread {
        if s < 0 || s > p.max_spread {
            return Some("spread-out-of-bounds");
        }
    }
    if balance < r.amount {
        return Some("balance");
    }
    None
}

fn do_swap(ctx: &mut Ctx, sh: &mut Sh, ui: usize, s0: &Snap) -> R {
    let w = sh.h.w.clone();
    let p = sh.h.p.clone();
    let c = sh.c.clone();
    let u = sh.h.users[ui].clone();
    let i = &s0.i;
    let a_to_b = ctx.src.below(2) == 0;
    let (oi, ai) = if a_to_b { (0, 1) } else { (1, 0) };
    let res_ = [i.ra, i.rb];
    let (op, ap) = (res_[oi], res_[ai]);
    let s = &mut ctx.src;
    let wild = s.bool(1, 3);
    // value of the whole ask side, in offer units
    let ask_worth = convert(ap, c.dec[ai], c.dec[oi]).unwrap_or(I / 4).max(1);
    let amount = match s.weighted(if wild { &[3, 3, 2, 1, 1] } else { &[5, 2, 0, 0, 0] }) {
        0 => s.logu(1, (ask_worth / 3).max(1)),
        1 => s.range(1, ask_worth),
        2 => s.logu(1, ask_worth.saturating_add(op).saturating_mul(3)),
        3 => near(s, s0.user[oi], 1),
        _ => s.range(-2, 2),
    };
    let (lo, hi) = if amount > 0 && amount < I / 4 { gross_range(&c, i, a_to_b, amount) } else { (0, 0) };
    let worth = convert(amount.max(0), c.dec[oi], c.dec[ai]).unwrap_or(0);
    let ret = to_i(&(b(hi.max(0)) - b(hi.max(0)) * b(p.fee_bps as i128) / b(10_000))).unwrap();
    let spread_bps = if hi > 0 { to_i(&(b((worth - hi).max(0)) * b(10_000) / b(hi))).unwrap_or(0) } else { 0 };
    let (mut min, mut spread, mut deadline, mut max_fee) = (None, None, None, None);
    if wild {
        min = match s.weighted(&[4, 4, 1]) {
            0 => None,
            1 => Some(near(s, ret, 0)),
            _ => Some(s.logu(0, ret.saturating_mul(2).max(1))),
        };
        spread = match s.weighted(&[5, 4, 2, 1]) {
            0 => None,
            1 => Some(near(s, spread_bps, -1).clamp(-1, 20_000) as i64),
            2 => Some(near(s, p.max_spread as i128, -1) as i64),
            _ => Some(any_bps(s)),
        };
        deadline = gen_deadline(s, w.now());
        max_fee = match s.weighted(&[6, 4, 1]) {
            0 => None,
            1 => Some(near(s, p.fee_bps as i128, -1).min(20_000) as i64),
            _ => Some(any_bps(s)),
        };
    } else {
        if s.bool(1, 3) {
            min = Some(s.logu(0, ret.max(0)));
        }
        if s.bool(1, 3) {
            let lo = (spread_bps + 1).clamp(0, p.max_spread as i128);
            spread = Some(s.range(lo, p.max_spread as i128) as i64);
        }
        if s.bool(1, 3) {
            max_fee = Some(s.range(p.fee_bps as i128, 10_000) as i64);
        }
        if s.bool(1, 4) {
            deadline = Some(w.now() + s.below(10));
        }
    }
    let r = SwapReq { a_to_b, amount, min, spread, deadline, max_fee };
    let offer = [&p.a, &p.b][oi];
    ctx.log(format!(
        "swap user{} {} {} min={} max_spread={} deadline={} max_fee={}  [reserves {} {}]",
        ui,
        if a_to_b { "A->B" } else { "B->A" },
        amount,
        opt(&min),
        opt(&spread),
        opt(&deadline.map(|d| d as i128 - w.now() as i128)),
        opt(&max_fee),
        i.ra,
        i.rb
    ));
    let mut quote = None;
    if ctx.on("S05") && amount > 0 && amount < I / 4 {
        quote = check_quotes(ctx, sh, i, a_to_b, amount, (lo, hi))?;
    }
    let pre = precheck(&p, w.now(), s0.user[oi], &r);
    let res = w.call::<i128>(&p.addr, "swap", opt_args(&w, &r, &u, offer));
    let s1 = after(sh, ui)?;
    let got = match &res {
        Ok(v) => *v,
        Err(_) => {
            check_any!(ctx, ["S01", "S03"], unchanged(s0, &s1), "failed-swap-moved-funds", "a refused swap changed balances");
            let mut reason = pre.unwrap_or("range");
            if pre.is_none() {
                let (jl, jh) = (judge(&p, &c, &r, lo), judge(&p, &c, &r, hi));
                // dust pools are outside the solver's precision
                if let (Plan::Yes(o), Plan::Yes(_)) = (&jl, &jh) {
                    let in_range = iterates(c.lev(), &up(op + amount, c.dec[oi]), &c.d(i)) && fits(b(op + amount) * p10(18 - c.dec[oi])) && fits(b(ap) * p10(18 - c.dec[ai]));
                    check_any!(ctx, ["S02", "S03"], !in_range, "swap-refused", "an order within all of its limits was refused: {:?}, expected {:?}", res, o);
                }
                if let Plan::No(x) = &jh {
                    reason = x;
                }
            }
            ctx.label(match reason {
                "min" => "swap-refused:min",
                "spread" => "swap-refused:spread",
                "deadline" => "swap-refused:deadline",
                "fee" => "swap-refused:fee",
                "spread-out-of-bounds" => "swap-refused:spread-bounds",
                "no-price" => "swap-refused:zero-output",
                _ => "swap-refused:other",
            });
            return Ok(());
        }
    };
    ctx.label("swap");
    if let Some(why) = pre {
        check!(ctx, "S03", false, "limit-ignored", "a swap that violates its limits ({}) was executed, returning {}", why, got);
        return Ok(());
    }
    let (dp, du, df) = swap_deltas(&p, &u, s0, &s1, ai, got);
    let gross = got + df[ai];
    check_any!(ctx, ["S02"], lo <= gross && gross <= hi, "swap-amount", "swap of {} on reserves ({}, {}) yields {} before the fee; the invariant gives {}..{}", amount, op, ap, gross, lo, hi);
    // never better than the curve by more than one unit
    check_any!(ctx, ["S06"], gross <= hi, "better-than-curve", "swap of {} on reserves ({}, {}) yields {} before the fee; the invariant gives {}..{}", amount, op, ap, gross, lo, hi);
    check_any!(ctx, ["S02"], gross >= 0 && gross <= ap && got >= 0, "swap-bounds", "swap of {} returned {} of a reserve of {}", amount, gross, ap);
    let fee = to_i(&(b(gross) * b(p.fee_bps as i128) / b(10_000))).unwrap();
    check_any!(ctx, ["S02"], df[ai] == fee && df[oi] == 0, "swap-fee", "fee recipient received {:?}, the fee is {} of {} at {}bps", df, fee, gross, p.fee_bps);
    check_any!(ctx, ["S01", "S02", "S03"], du[ai] == got && du[oi] == -amount && du[2] == 0, "swap-settlement", "trader's balances moved by {:?}, order was {} for {}", du, amount, got);
    check_any!(ctx, ["S01"], dp[oi] == amount && dp[ai] == -gross && dp[2] == 0, "swap-pool-balance", "pool balances moved by {:?} for an order of {} paying {} and fee {}", dp, amount, got, df[ai]);
    let di = [s1.i.ra - s0.i.ra, s1.i.rb - s0.i.rb];
    check_any!(ctx, ["S01", "S02"], di == [dp[0], dp[1]] && s1.i.t == s0.i.t, "swap-reserves", "recorded reserves moved by {:?}, balances by {:?}", di, dp);
    if let Plan::No(why) = judge(&p, &c, &r, gross) {
        check!(ctx, "S03", false, "limit-ignored", "a swap that violates its limits ({}) was executed, returning {} gross {}", why, got, gross);
    }
    if ctx.on("S06") {
        // one unit of slack
        let unit = [0i128, 1];
        let mut j = s1.i.clone();
        if ai == 0 {
            j.ra += unit[1];
        } else {
            j.rb += unit[1];
        }
        let (d0, d1) = (c.d(i), c.d(&j));
        check!(ctx, "S06", d1 + b(3 * TOL) * b(Q) >= d0, "invariant-fell", "the invariant fell over a swap: {:?} -> {:?}", s0.i, s1.i);
    }
    if let Some((q_ret, q_fee, q_spread)) = quote {
        check!(ctx, "S05", q_ret == got && q_fee == df[ai], "quote-differs", "simulate_swap({}) said {} fee {}, swap paid {} fee {}", amount, q_ret, q_fee, got, df[ai]);
        check!(ctx, "S05", q_spread == (worth - gross).max(0), "quote-spread", "simulate_swap said spread {}, one-for-one shortfall is {}", q_spread, (worth - gross).max(0));
    }
    backing(ctx, &s1)
}

fn check_quotes(ctx: &mut Ctx, sh: &Sh, i: &Info, a_to_b: bool, amount: i128, (lo, hi): (i128, i128)) -> R<Option<(i128, i128, i128)>> {
    let w = &sh.h.w;
    let p = &sh.h.p;
    let c = &sh.c;
    let (oi, ai) = if a_to_b { (0, 1) } else { (1, 0) };
    let (op, ap) = ([i.ra, i.rb][oi], [i.ra, i.rb][ai]);
    let (od, ad) = (c.dec[oi], c.dec[ai]);
    let offer = [&p.a, &p.b][oi];
    let mut out = None;
    match w.call::<Map<Symbol, Val>>(&p.addr, "simulate_swap", (offer.clone(), amount)) {
        Ok(m) => {
            let ret: i128 = w.field(&m, "ask_amount")?;
            let fee: i128 = w.field(&m, "commission_amount")?;
            let spread: i128 = w.field(&m, "spread_amount")?;
            let tot: i128 = w.field(&m, "total_return")?;
            check!(ctx, "S05", lo <= ret + fee && ret + fee <= hi, "quote-model", "simulate_swap({}) = {}+{}, the invariant gives {}..{}", amount, ret, fee, lo, hi);
            check!(ctx, "S05", tot == ret + fee + spread, "quote-total", "total_return {} is not the sum of its parts {:?}", tot, (ret, fee, spread));
            out = Some((ret, fee, spread));
            ctx.label("quote");
        }
        Err(e) => {
            let ok = iterates(c.lev(), &up(op + amount, od), &c.d(i)) && fits(b(op + amount) * p10(18 - od)) && fits(b(ap) * p10(18 - ad)) && fits(b(hi.max(0)) * b(p.fee_bps as i128) * b(E18 / 10_000));
            check!(ctx, "S05", lo < 0 || !ok, "quote-refused", "simulate_swap({}) failed ({:?}), expected {}..{}", amount, e, lo, hi);
        }
    }
    // reverse
    let s = &mut ctx.src;
    let want = match s.weighted(&[3, 2]) {
        0 => out.map(|o| o.0).unwrap_or(1).max(1),
        _ => s.logu(1, ap.max(1)),
    };
    if p.fee_bps >= 10_000 || want >= ap || dust(c, i) {
        return Ok(out);
    }
    let rate = b(p.fee_bps as i128) * b(E18 / 10_000);
    let inverse = b(E18) * b(E18) / (b(E18) - &rate);
    let before = b(want) * &inverse;
    let ok = fits(before.clone());
    let before = before / b(E18);
    if !ok || before >= b(ap) {
        return Ok(out);
    }
    let left = to_i(&(b(ap) - &before)).unwrap();
    let d = c.d(i);
    let x = solve(c.lev(), &up(left, ad), &d);
    let unit = p10(18 - od) * b(Q);
    let t = b(TOL) * b(Q);
    // a very small remainder makes the solution very sensitive to the tolerance
    let slack = &t + &x / b(100_000_000);
    let flo = floor_div(&(&x - &slack), &unit) - b(op);
    let fhi = floor_div(&(&x + &slack), &unit) - b(op);
    match w.call::<Map<Symbol, Val>>(&p.addr, "simulate_reverse_swap", (offer.clone(), want)) {
        Ok(m) => {
            let x: i128 = w.field(&m, "offer_amount")?;
            let sp: i128 = w.field(&m, "spread_amount")?;
            let cf: i128 = w.field(&m, "commission_amount")?;
            check!(ctx, "S05", flo <= b(x) && b(x) <= fhi, "reverse-model", "simulate_reverse_swap({}) on {:?} = {}, the invariant gives {}..{}", want, i, x, flo, fhi);
            check!(ctx, "S05", b(cf) == &before * &rate / b(E18), "reverse-fee", "simulate_reverse_swap({}) fee {}, expected {} of {}", want, cf, &before * &rate / b(E18), before);
            let worth = convert(x, od, ad).unwrap_or(0);
            check!(ctx, "S05", sp == (worth - want).max(0), "reverse-spread", "simulate_reverse_swap({}) spread {}, expected {}", want, sp, (worth - want).max(0));
            // what is quoted must do, give or take one unit and the solver's tolerance
            let extra = 1 + to_i(&(&slack / &unit)).unwrap_or(0);
            let (l2, _) = gross_range(c, i, a_to_b, x + extra);
            let net = to_i(&(b(l2.max(0)) - b(l2.max(0)) * b(p.fee_bps as i128) / b(10_000))).unwrap();
            let tol_units = to_i(&(b(2 * TOL) / p10(18 - ad))).unwrap();
            check!(ctx, "S05", net + 3 + tol_units >= want, "reverse-short", "simulate_reverse_swap({}) quoted {}, but {} only buys {}", want, x, x + extra, net);
            ctx.label("reverse-quote");
        }
        Err(e) => {
            let ok = flo >= b(0) && iterates(c.lev(), &up(left, ad), &d) && fits(&x / b(Q)) && fits(b(op) * p10(18 - od)) && fits(b(ap) * p10(18 - ad)) && fits(&before * &rate);
            check!(ctx, "S05", !ok, "reverse-refused", "simulate_reverse_swap({}) on {:?} failed: {:?}", want, i, e);
        }
    }
    Ok(out)
}

fn do_deposit(ctx: &mut Ctx, sh: &mut Sh, ui: usize, s0: &Snap) -> R {
    let w = sh.h.w.clone();
    let p = sh.h.p.clone();
    let c = sh.c.clone();
    let u = sh.h.users[ui].clone();
    let i = &s0.i;
    let s = &mut ctx.src;
    let wild = s.bool(1, 3);
    let first = i.t == 0;
    let (da, db) = if first {
        gen_first_stable(s, &c)
    } else {
        let cap = if c.dec.contains(&18) { 100_000_000_000_000_000_000 } else { 20_000_000_000_000_000 };
        let x = s.logu(1, i.ra.saturating_mul(4).min(cap).max(1));
        let y = match s.weighted(&[4, 3, 3]) {
            0 => to_i(&(b(x) * b(i.rb) / b(i.ra.max(1)))).unwrap_or(1).clamp(1, cap),
            1 => s.logu(1, i.rb.saturating_mul(4).min(cap).max(1)),
            _ => 1,
        };
        if s.below(2) == 0 {
            (x, y)
        } else {
            // the other side chosen freely
            let y = s.logu(1, i.rb.saturating_mul(4).min(cap).max(1));
            (if s.below(2) == 0 { 1 } else { x }, y)
        }
    };
    let (mut da, mut db) = (da, db);
    let slip = match s.weighted(if wild { &[4, 2, 2, 1] } else { &[4, 2, 0, 0] }) {
        0 => None,
        1 => Some(s.range(0, p.max_slip as i128) as i64),
        2 => Some(near(s, p.max_slip as i128, 0) as i64),
        _ => Some(any_bps(s)),
    };
    let deadline = if wild { gen_deadline(s, w.now()) } else { None };
    if wild && s.bool(1, 12) {
        if s.below(2) == 0 {
            da = s.range(-1, 0);
        } else {
            db = s.range(-1, 0);
        }
    }
    if wild && s.bool(1, 20) {
        da = s0.user[0] + 1;
    }
    // shares: range allowed by the solver's tolerance
    let valid = da > 0 && db > 0 && da < I / 4 && db < I / 4;
    let j = Info { ra: i.ra.saturating_add(da.max(0)), rb: i.rb.saturating_add(db.max(0)), t: i.t };
    let lp_dec = c.dec[0].max(c.dec[1]);
    let t = b(TOL) * b(Q);
    let (mut lo, mut hi) = (b(0), b(0));
    if valid {
        if first {
            // one share per token: the invariant at the highest amplification
            let d = inv(2_000_000, &up(j.ra, c.dec[0]), &up(j.rb, c.dec[1]));
            let unit = p10(18 - lp_dec) * b(Q);
            lo = floor_div(&(&d - &t), &unit) - 1000;
            hi = floor_div(&(&d + &t), &unit) - 1000;
        } else {
            let (d0, d1) = (c.d(i), c.d(&j));
            let grow: BigInt = &d1 - &d0;
            if d0 > b(0) {
                lo = floor_div(&(b(i.t) * (&grow - &t)), &(&d0 + &t));
                hi = floor_div(&(b(i.t) * (&grow + &t)), &d0);
            } else {
                // an emptied pool: nothing is promised
                lo = b(-1);
                hi = b(I);
            }
        }
    }
    let min_shares: Option<u128> = match s.weighted(if wild { &[2, 3] } else { &[3, 1] }) {
        0 => None,
        _ => {
            let m = to_i(&hi).unwrap_or(0).max(0);
            Some(if wild { near(s, m, 0) } else { s.logu(0, to_i(&lo).unwrap_or(0).max(0)) } as u128)
        }
    };
    ctx.log(format!(
        "provide user{} ({}, {}) slippage={} deadline={} min_shares={}  [reserves {} {} shares {}]",
        ui,
        da,
        db,
        opt(&slip),
        opt(&deadline.map(|d| d as i128 - w.now() as i128)),
        opt(&min_shares),
        i.ra,
        i.rb,
        i.t
    ));
    let mut no: Option<&'static str> = None;
    if !valid {
        no = Some("amount");
    }
    if deadline.map(|d| w.now() > d).unwrap_or(false) {
        no = Some("deadline");
    }
    if slip.unwrap_or(p.def_slip) > p.max_slip {
        no = Some("slippage");
    }
    if da > s0.user[0] || db > s0.user[1] {
        no = Some("balance");
    }
    if no.is_none() && (hi < b(0) || (first && hi < b(1)) || min_shares.map(|m| hi < BigInt::from(m)).unwrap_or(false)) {
        no = Some("shares");
    }
    let sure = no.is_none()
        && lo >= b(if first { 1 } else { 0 })
        && min_shares.map(|m| lo >= BigInt::from(m)).unwrap_or(true)
        && fits(up(j.ra, c.dec[0]) / b(Q) * 4)
        && fits(up(j.rb, c.dec[1]) / b(Q) * 4)
        // a reserve sent in before the first deposit is not part of it
        && (!first || (i.ra == 0 && i.rb == 0));
    let res = w.call::<()>(&p.addr, "provide_liquidity", (u.clone(), da, db, slip, deadline, min_shares));
    let s1 = after(sh, ui)?;
    if res.is_err() {
        check_any!(ctx, ["S01", "S04"], unchanged(s0, &s1), "failed-deposit-moved-funds", "a refused deposit changed balances");
        check!(ctx, "S04", !sure, "deposit-refused", "a deposit within its limits was refused ({:?}); expected {}..{} shares", res, lo, hi);
        ctx.label("deposit-refused");
        return Ok(());
    }
    ctx.label(if first { "first-deposit" } else { "deposit" });
    if let Some(why) = no {
        check!(ctx, "S04", false, "deposit-limit-ignored", "a deposit that violates its limits ({}) was executed", why);
        return Ok(());
    }
    let (dp, du, df) = plain_deltas(&p, &u, s0, &s1);
    check_any!(ctx, ["S01", "S04"], du[0] == -da && du[1] == -db, "deposit-amounts", "deposit took {:?} instead of ({}, {})", du, da, db);
    check_any!(ctx, ["S01"], dp == [da, db, 0] && df == [0, 0], "deposit-settlement", "pool balances moved by {:?} for a deposit of ({}, {})", dp, da, db);
    check_any!(ctx, ["S01"], s1.i.ra == s1.pool[0] && s1.i.rb == s1.pool[1], "deposit-reserves", "after a deposit the reserves {:?} differ from the balances {:?}", s1.i, s1.pool);
    check_any!(ctx, ["S01"], s1.i.t - s0.i.t == du[2], "share-supply", "{} shares were issued but the total moved from {} to {}", du[2], s0.i.t, s1.i.t);
    if !first || (i.ra == 0 && i.rb == 0) {
        check!(ctx, "S04", lo <= b(du[2]) && b(du[2]) <= hi, "deposit-shares", "deposit of ({}, {}) on {:?} minted {} shares; the invariant gives {}..{}", da, db, i, du[2], lo, hi);
    }
    check!(ctx, "S04", min_shares.map(|m| du[2] as u128 >= m).unwrap_or(true), "min-shares", "minted {} shares, below the minimum {:?}", du[2], min_shares);
    if !first {
        check_any!(ctx, ["S04", "S06"], b(du[2]) <= hi, "deposit-dilutes", "deposit of ({}, {}) on {:?} minted {} shares, more than the {} its share of the invariant", da, db, i, du[2], hi);
        share_value(ctx, &c, i, &s1.i, "deposit-dilutes")?;
    }
    backing(ctx, &s1)
}

/// invariant per share does not fall (beyond the solver's tolerance)
fn share_value(ctx: &mut Ctx, c: &StableCfg, i: &Info, j: &Info, sig: &str) -> R {
    if i.t == 0 || j.t == 0 {
        return Ok(());
    }
    let (d0, d1) = (c.d(i), c.d(j));
    check_any!(ctx, ["S04", "S06"], (d1 + b(3 * TOL) * b(Q)) * b(i.t) >= d0 * b(j.t), sig, "the invariant behind a share fell: {:?} -> {:?}", i, j);
    Ok(())
}

fn do_withdraw(ctx: &mut Ctx, sh: &mut Sh, ui: usize, s0: &Snap) -> R {
    let w = sh.h.w.clone();
    let p = sh.h.p.clone();
    let c = sh.c.clone();
    let u = sh.h.users[ui].clone();
    let i = &s0.i;
    let s = &mut ctx.src;
    let held = s0.user[2];
    let wild = held == 0 || s.bool(1, 3);
    let shs = match s.weighted(if wild { &[5, 3, 2, 1] } else { &[6, 1, 0, 0] }) {
        0 => {
            let lo = (i.t / i.ra.min(i.rb).max(1) + 1).min(held).max(1);
            s.logu(lo, held.max(1))
        }
        1 => held,
        2 => near(s, held, 0),
        _ => s.range(-1, 1),
    };
    let (x, y) = if i.t > 0 && shs > 0 {
        let (x, y, _) = share_of(i, shs);
        (x, y)
    } else {
        (1, 1)
    };
    let lim = |s: &mut Src, v: i128| {
        if !s.bool(1, 2) {
            1
        } else if wild {
            near(s, v, 0)
        } else {
            s.logu(1, v.max(1))
        }
    };
    let ma = lim(s, x);
    let mb = lim(s, y);
    let deadline = if wild { gen_deadline(s, w.now()) } else { None };
    ctx.log(format!(
        "withdraw user{} shares={} of {} min=({},{}) deadline={}  [reserves {} {} shares {}]",
        ui,
        shs,
        held,
        ma,
        mb,
        opt(&deadline.map(|d| d as i128 - w.now() as i128)),
        i.ra,
        i.rb,
        i.t
    ));
    let plan = plan_withdraw(i, w.now(), held, shs, ma, mb, deadline);
    let mut quote = None;
    if ctx.on("S05") && shs > 0 && i.t > 0 {
        let (ex, ey, fit) = share_of(i, shs);
        match w.call::<Vec<Val>>(&p.addr, "query_share", (shs,)) {
            Ok(v) => {
                let f = |k: u32| -> R<(Address, i128)> {
                    let m = w.to_map(v.get(k).unwrap())?;
                    Ok((w.field(&m, "address")?, w.field(&m, "amount")?))
                };
                let (qa, qb) = (f(0)?, f(1)?);
                check!(ctx, "S05", qa.0 == p.a && qb.0 == p.b, "share-assets", "query_share names the wrong assets");
                check!(ctx, "S05", (qa.1, qb.1) == (ex, ey), "share-model", "query_share({}) on {:?} = ({}, {}), expected ({}, {})", shs, i, qa.1, qb.1, ex, ey);
                quote = Some((qa.1, qb.1));
                ctx.label("share-quote");
            }
            Err(e) => check!(ctx, "S05", !fit, "share-refused", "query_share({}) failed: {:?}", shs, e),
        }
    }
    let res = w.call::<(i128, i128)>(&p.addr, "withdraw_liquidity", (u.clone(), shs, ma, mb, deadline));
    let s1 = after(sh, ui)?;
    let got = match &res {
        Err(_) => {
            check_any!(ctx, ["S01", "S04"], unchanged(s0, &s1), "failed-withdrawal-moved-funds", "a refused withdrawal changed balances");
            if let Plan::Yes(o) = &plan {
                check!(ctx, "S04", false, "withdrawal-refused", "a withdrawal within its limits was refused ({:?}); expected {:?}", res, o);
            }
            ctx.label("withdraw-refused");
            return Ok(());
        }
        Ok(v) => *v,
    };
    ctx.label("withdraw");
    let o = match &plan {
        Plan::No(reason) => {
            check!(ctx, "S04", false, "withdrawal-limit-ignored", "a withdrawal that violates its limits ({}) was executed", reason);
            return Ok(());
        }
        Plan::Yes(o) | Plan::Maybe(o) => *o,
        Plan::Unknown => return Ok(()),
    };
    let (dp, du, df) = plain_deltas(&p, &u, s0, &s1);
    check!(ctx, "S04", got == o, "withdrawal-amount", "withdrawing {} of {} shares on ({}, {}) returned {:?} instead of {:?}", shs, i.t, i.ra, i.rb, got, o);
    check_any!(ctx, ["S01", "S04"], (du[0], du[1]) == got && du[2] == -shs, "withdrawal-settlement", "holder's balances moved by {:?} for {} shares and {:?}", du, shs, got);
    check_any!(ctx, ["S01"], dp == [-got.0, -got.1, 0] && df == [0, 0], "withdrawal-pool", "pool balances moved by {:?} for a withdrawal of {:?}", dp, got);
    check_any!(ctx, ["S01", "S04"], s1.i.ra == i.ra - du[0] && s1.i.rb == i.rb - du[1] && s1.i.t == i.t - shs, "withdrawal-reserves", "records went from {:?} to {:?} for {:?}", i, s1.i, got);
    share_value(ctx, &c, i, &s1.i, "withdrawal-dilutes")?;
    if let Some(q) = quote {
        check!(ctx, "S05", q == got, "share-differs", "query_share said {:?}, the withdrawal paid {:?}", q, got);
    }
    backing(ctx, &s1)
}

fn final_check(ctx: &mut Ctx, sh: &Sh) -> R {
    let w = &sh.h.w;
    let p = &sh.h.p;
    let i = info(w, &p.addr)?;
    for (k, t) in [&p.a, &p.b].iter().enumerate() {
        let s: i128 = sh.h.holders().iter().map(|u| w.bal(t, u)).sum();
        check!(ctx, "S01", s == sh.h.minted[k], "conservation", "asset {} total over all holders is {} instead of {}", k, s, sh.h.minted[k]);
    }
    let s: i128 = sh.h.holders().iter().map(|u| w.bal(&p.lp, u)).sum();
    check_any!(ctx, ["S01", "S04"], s == i.t, "share-supply", "holders have {} shares, pool reports {}", s, i.t);
    let issued: i128 = w.must(&p.addr, "query_total_issued_lp", ())?;
    check_any!(ctx, ["S01", "S05"], issued == i.t, "share-supply", "query_total_issued_lp {} but pool info {}", issued, i.t);
    if ctx.on("S01") || ctx.on("S04") {
        for u in &sh.h.users {
            let s = w.bal(&p.lp, u);
            if s == 0 {
                continue;
            }
            let i = info(w, &p.addr)?;
            let (x, y, fit) = share_of(&i, s);
            if x == 0 || y == 0 || !fit {
                continue;
            }
            let (a0, b0) = (w.bal(&p.a, u), w.bal(&p.b, u));
            let r = w.call::<(i128, i128)>(&p.addr, "withdraw_liquidity", (u.clone(), s, 1i128, 1i128, None::<u64>));
            check_any!(ctx, ["S01", "S04"], r.is_ok(), "exit-refused", "a holder of {} of {} shares cannot withdraw: {:?}", s, i.t, r);
            let (a1, b1) = (w.bal(&p.a, u), w.bal(&p.b, u));
            check_any!(ctx, ["S01", "S04"], (a1 - a0, b1 - b0) == (x, y), "exit-amount", "withdrawing {} of {} shares paid {:?} instead of {:?}", s, i.t, (a1 - a0, b1 - b0), (x, y));
            ctx.label("exit");
        }
        let i = info(w, &p.addr)?;
        check_any!(ctx, ["S01", "S04"], i.ra <= w.bal(&p.a, &p.addr) && i.rb <= w.bal(&p.b, &p.addr), "unbacked", "reserves {:?} exceed the balances after everyone left", i);
    }
    Ok(())
}

/// An attacker trades, deposits and withdraws at will against an honest depositor and then leaves;
/// the pool must not be worth less than before (beyond one unit per swap and the solver's tolerance).
pub fn attack(ctx: &mut Ctx) -> R {
    let mut sh = setup(ctx)?;
    let w = sh.h.w.clone();
    let c = sh.c.clone();
    let p = sh.h.p.clone();
    // no fee, no spread limit: the attacker's best case
    w.must::<()>(&p.addr, "update_config", (p.admin.clone(), None::<Address>, Some(0i64), None::<Address>, Some(10_000i64), Some(10_000i64)))?;
    let (honest, att) = (sh.h.users[0].clone(), sh.h.users[1].clone());
    let (x, y) = gen_first_stable(&mut ctx.src, &c);
    ctx.log(format!("honest deposit ({}, {})", x, y));
    if w.call::<()>(&p.addr, "provide_liquidity", (honest.clone(), x, y, Some(0i64), None::<u64>, None::<u128>)).is_err() {
        return Ok(());
    }
    let i0 = info(&w, &p.addr)?;
    let d0 = c.d(&i0);
    let mut slack = b(0);
    let n = 2 + ctx.src.below(10);
    let mut done = 0;
    for _ in 0..n {
        let i = info(&w, &p.addr)?;
        let held = w.bal(&p.lp, &att);
        let s = &mut ctx.src;
        match s.weighted(&[4, 2, 2]) {
            0 => {
                let a_to_b = s.below(2) == 0;
                let (oi, ai) = if a_to_b { (0, 1) } else { (1, 0) };
                let worth = convert([i.ra, i.rb][ai], c.dec[ai], c.dec[oi]).unwrap_or(1).max(1);
                let amt = if s.below(2) == 0 { s.range(1, worth) } else { s.logu(1, worth) };
                let off = [&p.a, &p.b][oi].clone();
                let r = w.call::<i128>(&p.addr, "swap", (att.clone(), off, amt, None::<i128>, None::<i64>, None::<u64>, None::<i64>));
                ctx.log(format!("attacker swaps {} {} -> {:?}", if a_to_b { "A->B" } else { "B->A" }, amt, r));
                if r.is_ok() {
                    done += 1;
                    let j = info(&w, &p.addr)?;
                    let mut k = j.clone();
                    if ai == 0 {
                        k.ra += 1
                    } else {
                        k.rb += 1
                    }
                    slack += c.d(&k) - c.d(&j) + b(3 * TOL) * b(Q);
                }
            }
            1 => {
                let (da, db) = (s.logu(1, i.ra.saturating_mul(3).max(1)), s.logu(1, i.rb.saturating_mul(3).max(1)));
                let r = w.call::<()>(&p.addr, "provide_liquidity", (att.clone(), da, db, Some(0i64), None::<u64>, None::<u128>));
                ctx.log(format!("attacker deposits ({}, {}) -> {:?}", da, db, r));
                if r.is_ok() {
                    done += 1;
                    slack += b(3 * TOL) * b(Q);
                }
            }
            _ => {
                if held > 0 {
                    let sh_ = if s.below(2) == 0 { held } else { s.logu(1, held) };
                    let r = w.call::<(i128, i128)>(&p.addr, "withdraw_liquidity", (att.clone(), sh_, 1i128, 1i128, None::<u64>));
                    ctx.log(format!("attacker withdraws {} of {} -> {:?}", sh_, held, r));
                    if r.is_ok() {
                        done += 1;
                    }
                }
            }
        }
    }
    let held = w.bal(&p.lp, &att);
    if held > 0 {
        let r = w.call::<(i128, i128)>(&p.addr, "withdraw_liquidity", (att.clone(), held, 1i128, 1i128, None::<u64>));
        ctx.log(format!("attacker leaves with {} -> {:?}", held, r));
    }
    let i1 = info(&w, &p.addr)?;
    let d1 = c.d(&i1);
    ctx.nontrivial = done >= 2;
    sh.h.last = None;
    // compare per share (the attacker may be left with a few shares worth nothing)
    check!(
        ctx,
        "S06",
        (&d1 + &slack) * b(i0.t) >= &d0 * b(i1.t.min(i0.t)),
        "extracted",
        "the pool's invariant fell from {} to {} (allowance {}): {:?} -> {:?}",
        d0,
        d1,
        slack,
        i0,
        i1
    );
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    const A: &[&str] = &["a direct pool deployment, all signatures granted; tokens of 0 to 18 decimals (the built-in asset contract for 7, the repository's token otherwise; S01 also assets that keep part of every transfer); solver tolerance 1e-8 token"];
    let rule = "a case is a random stable pool (decimals, amplification, fees, limits) and a history of 5..22 swaps, deposits, withdrawals, donations and settings changes by three users with limits around the predicted outcome; non-trivial = at least one deposit and two swaps/withdrawals attempted (attack scenario: at least two attacker operations executed; pools of assets that keep part of every transfer: two swaps or withdrawals executed)";
    [
        ("S01", "Stable pool funds always match its books"),
        ("S02", "Stable swaps follow the amplified invariant less the fee"),
        ("S03", "Stable swap limits are always honoured"),
        ("S04", "Stable deposits mint fair shares and withdrawals are pro rata"),
        ("S05", "Stable quotes equal what execution does"),
        ("S06", "No value can be extracted from a stable pool"),
    ]
    .into_iter()
    .map(|(id, title)| {
        let mut sc = vec![Scenario { name: "stable-history", run: history, quick: 1600, thorough: 32000 }];
        if id == "S06" {
            sc = vec![
                Scenario { name: "attack", run: attack, quick: 1200, thorough: 24000 },
                Scenario { name: "stable-history", run: history, quick: 700, thorough: 16000 },
            ];
        }
        if id == "S01" {
            sc.push(Scenario { name: "taxed", run: crate::taxed::stable, quick: 1000, thorough: 20000 });
        }
        Prop { id, title, rule, assumptions: A, scenarios: sc }
    })
    .collect()
}
