//! M01-M02: routes through the router against the same swaps made one by one.
use crate::engine::*;
use crate::factory::*;
use crate::probe::probe;
use crate::world::*;
use crate::xyk::{gen_bps, gen_deadline, gen_params, info, Info};
use crate::{check, check_any};
use soroban_sdk::{Address, Map, String, Symbol, TryFromVal, Val, Vec};

#[derive(Clone)]
struct Hop {
    offer: Address,
    ask: Address,
    min: Option<i128>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct State {
    bal: std::vec::Vec<i128>,
    pools: std::vec::Vec<Info>,
}

struct M {
    f: Fac,
    accounts: std::vec::Vec<Address>,
}

fn state(w: &W, m: &[Address], toks: &[Address], pools: &[Address]) -> R<State> {
    let mut bal = vec![];
    for t in toks {
        for a in m {
            bal.push(w.bal(t, a));
        }
    }
    let mut p = vec![];
    for x in pools {
        p.push(info(w, x)?);
    }
    Ok(State { bal, pools: p })
}

impl M {
    fn lists(&self) -> (std::vec::Vec<Address>, std::vec::Vec<Address>, std::vec::Vec<Address>) {
        (self.accounts.clone(), self.f.toks.iter().map(|t| t.addr.clone()).collect(), self.f.pools.iter().map(|p| p.p.addr.clone()).collect())
    }
    fn state(&self) -> R<State> {
        let (a, t, p) = self.lists();
        state(&self.f.w, &a, &t, &p)
    }
    fn pool(&self, x: &Address, y: &Address) -> Option<&FPool> {
        self.f.pools.iter().find(|p| (p.p.a == *x && p.p.b == *y) || (p.p.a == *y && p.p.b == *x))
    }
    fn name(&self, x: &Address) -> std::string::String {
        match self.f.toks.iter().position(|t| t.addr == *x) {
            Some(i) => format!("t{i}"),
            None => "unknown".into(),
        }
    }
}

fn setup_router(ctx: &mut Ctx) -> R<M> {
    let decs: &[u32] = *ctx.src.pick(&[&[7u32, 7, 7, 7][..], &[7, 7, 7], &[7, 7, 6, 7], &[7, 7, 7, 7, 7]]);
    let funds = 1_000_000_000_000_000_000_000;
    let mut f = setup(ctx, decs, 2, funds)?;
    let n = decs.len();
    let uniform = ctx.src.weighted(&[4, 3, 2]); // all xyk, all stable, mixed
    let pairs: std::vec::Vec<(usize, usize)> = (0..n).flat_map(|x| (x + 1..n).map(move |y| (x, y))).collect();
    let (pa, mg) = (f.w.addr(), f.w.addr());
    let mut accounts = f.users.clone();
    accounts.push(f.multihop.clone());
    accounts.push(f.addr.clone());
    for (a, b) in pairs {
        if !ctx.src.bool(3, 4) {
            continue;
        }
        let s = &mut ctx.src;
        let stable = match uniform {
            0 => false,
            1 => true,
            _ => s.bool(1, 2),
        };
        let mut prm = gen_params(s);
        if s.bool(3, 4) {
            prm.max_spread = 10_000;
        }
        prm.max_slip = 10_000;
        let r = Req { stable, amp: if stable { Some(*s.pick(&[100u64, 10, 1000])) } else { None }, a, b, inner_slip: 100, min_bond: 10, min_reward: 10, complexity: 5, prm, name: "Pool".into(), symbol: "LP".into() };
        // a trader may be where the fees go
        let ft = if ctx.src.bool(1, 8) { f.users[ctx.src.below(2) as usize].clone() } else { f.w.addr() };
        let c = f.creators[0].clone();
        let args = creation_args(&f, &c, &r, [&pa, &ft, &mg]);
        let addr: Address = f.w.must(&f.addr, "create_liquidity_pool", args)?;
        let p = adopt(&f, addr, &r, [&pa, &ft, &mg])?;
        accounts.push(p.p.addr.clone());
        accounts.push(ft);
        f.pools.push(p);
        let s = &mut ctx.src;
        let x = s.logu(100_000, 1_000_000_000_000_000);
        let y = if stable || s.bool(1, 2) { x + x / 100 * s.range(-30, 30) } else { s.logu(100_000, 1_000_000_000_000_000) };
        let k = f.pools.len() - 1;
        let amt = if stable { [x * 10i128.pow(f.pools[k].dec[0]) / 10_000_000, y * 10i128.pow(f.pools[k].dec[1]) / 10_000_000] } else { [x, y] };
        ctx.log(format!("pool t{} t{} stable={} fee={} max_spread={} holds {:?}", a, b, stable, r.prm.fee_bps, r.prm.max_spread, amt));
        let res = deposit(&f, k, 0, [amt[0].max(1), amt[1].max(1)]);
        if let Err(e) = res {
            return fail("setup-deposit", format!("the first deposit was refused: {e:?}"));
        }
    }
    Ok(M { f, accounts })
}

fn route(s: &mut Src, m: &M) -> std::vec::Vec<Hop> {
    let n = if s.bool(1, 8) { 4 + s.below(5) } else { s.below(4) + 1 };
    let mut v: std::vec::Vec<Hop> = vec![];
    if m.f.pools.is_empty() {
        return v;
    }
    let p0 = s.pick(&m.f.pools).clone();
    let mut at = if s.bool(1, 2) { p0.p.a.clone() } else { p0.p.b.clone() };
    let repeat = n > 4 || s.bool(1, 6);
    for _ in 0..n {
        let next: std::vec::Vec<Address> = m
            .f
            .pools
            .iter()
            .filter(|p| p.p.a == at || p.p.b == at)
            .map(|p| if p.p.a == at { p.p.b.clone() } else { p.p.a.clone() })
            .filter(|t| repeat || !v.iter().any(|h| (h.offer == at && h.ask == *t) || (h.ask == at && h.offer == *t)))
            .collect();
        if next.is_empty() {
            break;
        }
        let t = s.pick(&next).clone();
        v.push(Hop { offer: at.clone(), ask: t.clone(), min: None });
        at = t;
    }
    // now and then break it
    if s.bool(1, 12) && !v.is_empty() {
        let i = s.below(v.len() as u64) as usize;
        match s.below(5) {
            0 => v.clear(),
            1 => v[i].ask = m.f.toks[s.below(m.f.toks.len() as u64) as usize].addr.clone(),
            2 => v[i].offer = m.f.toks[s.below(m.f.toks.len() as u64) as usize].addr.clone(),
            3 => {
                v.remove(i);
            }
            _ => {
                let h = v[i].clone();
                v.push(h);
            }
        }
    }
    v
}

fn chained(v: &[Hop]) -> bool {
    !v.is_empty() && v.windows(2).all(|h| h[0].ask == h[1].offer)
}

fn ops(w: &W, v: &[Hop]) -> Vec<Val> {
    let mut o: Vec<Val> = Vec::new(&w.env);
    for h in v {
        o.push_back(w.record(&[("offer_asset", w.val(h.offer.clone())), ("ask_asset", w.val(h.ask.clone())), ("ask_asset_min_amount", w.val(h.min))]));
    }
    o
}

/// One pool's own quote: (amount, fee, spread)
fn pool_quote(w: &W, pool: &Address, f: &str, key: &str, asset: &Address, amt: i128) -> Result<(i128, i128, i128), CallErr> {
    let r = w.call::<Map<Symbol, Val>>(pool, f, (asset.clone(), amt))?;
    let g = |k: &str| w.field::<i128>(&r, k).map_err(|_| CallErr::Conv);
    Ok((g(key)?, g("commission_amount")?, g("spread_amount")?))
}

pub fn history(ctx: &mut Ctx) -> R {
    let m = setup_router(ctx)?;
    if m.f.pools.is_empty() {
        return Ok(());
    }
    let n = ctx.steps(3, 12);
    for _ in 0..n {
        ctx.src.begin();
        let kind = ctx.src.weighted(if ctx.prop == "M02" { &[2, 5, 5, 1, 1] } else { &[8, 1, 0, 1, 1] });
        let r = match kind {
            0 => swap(ctx, &m),
            1 => quote(ctx, &m),
            2 => reverse(ctx, &m),
            3 => {
                // someone trades directly with a pool
                let p = ctx.src.pick(&m.f.pools).clone();
                let i = info(&m.f.w, &p.p.addr)?;
                let ab = ctx.src.bool(1, 2);
                let amt = ctx.src.logu(1, if ab { i.ra } else { i.rb });
                ctx.log(format!("direct swap of {}", amt));
                let none: Val = m.f.w.val(());
                let u = m.f.users[1].clone();
                let args = m.f.w.vals(&[m.f.w.val(u), m.f.w.val(if ab { p.p.a.clone() } else { p.p.b.clone() }), m.f.w.val(amt), none, none, none, none]);
                let _ = m.f.w.call::<i128>(&p.p.addr, "swap", args);
                Ok(())
            }
            _ => {
                let d = ctx.src.below(10_000);
                m.f.w.pass(d);
                Ok(())
            }
        };
        ctx.src.end();
        r?;
    }
    Ok(())
}

fn show(m: &M, v: &[Hop]) -> std::string::String {
    v.iter().map(|h| format!("{}->{}{}", m.name(&h.offer), m.name(&h.ask), h.min.map(|x| format!("(min {x})")).unwrap_or_default())).collect::<std::vec::Vec<_>>().join(" ")
}

fn amount(s: &mut Src, m: &M, v: &[Hop]) -> R<i128> {
    let Some(h) = v.first() else { return Ok(1000) };
    let Some(p) = m.pool(&h.offer, &h.ask) else { return Ok(1000) };
    let i = info(&m.f.w, &p.p.addr)?;
    let off = if p.p.a == h.offer { i.ra } else { i.rb };
    Ok(match s.weighted(&[12, 3, 1, 1]) {
        0 => s.logu((off / 1_000_000).max(1), (off / 20).max(1)),
        1 => s.logu((off / 1000).max(1), off.max(1)),
        2 => s.range(-1, 1),
        _ => s.logu(1, 1_000_000_000_000_000_000_000_000),
    })
}

type Chain = (Option<usize>, std::vec::Vec<i128>, State);

/// The same swaps one after another, undone afterwards: where it failed, the outputs, the state reached
fn one_by_one(m: &M, ui: usize, v: &[Hop], amt: i128, spread: Option<i64>, deadline: Option<u64>, max_fee: Option<i64>) -> R<Chain> {
    let (accs, toks, pools) = m.lists();
    let u = m.f.users[ui].clone();
    let hops: std::vec::Vec<(Option<Address>, Hop)> = v.iter().map(|h| (m.pool(&h.offer, &h.ask).map(|p| p.p.addr.clone()), h.clone())).collect();
    let r = probe(&m.f.w, move |w| -> R<Chain> {
        let mut x = amt;
        let mut outs = vec![];
        let mut failed = None;
        for (i, (p, h)) in hops.iter().enumerate() {
            let Some(p) = p else {
                failed = Some(i);
                break;
            };
            let args = w.vals(&[w.val(u.clone()), w.val(h.offer.clone()), w.val(x), w.val(h.min), w.val(spread), w.val(deadline), w.val(max_fee)]);
            match w.call::<i128>(p, "swap", args) {
                Ok(o) => x = o,
                Err(_) => {
                    failed = Some(i);
                    break;
                }
            }
            outs.push(x);
        }
        Ok((failed, outs, state(w, &accs, &toks, &pools)?))
    })?;
    r
}

fn swap(ctx: &mut Ctx, m: &M) -> R {
    let w = m.f.w.clone();
    if ctx.src.bool(1, 7) {
        return tight(ctx, m);
    }
    let ui = ctx.src.below(2) as usize;
    swap_by(ctx, m, ui, None)
}

/// A route by somebody who holds just about what it offers
fn tight(ctx: &mut Ctx, m: &M) -> R {
    let w = m.f.w.clone();
    let v = route(&mut ctx.src, m);
    let ui = ctx.src.below(2) as usize;
    let Some(tok) = v.first().map(|h| h.offer.clone()) else { return Ok(()) };
    if !m.f.toks.iter().any(|t| t.addr == tok) {
        return Ok(());
    }
    let amt = amount(&mut ctx.src, m, &v)?;
    let (u, o) = (m.f.users[ui].clone(), m.f.users[1 - ui].clone());
    let has = w.bal(&tok, &u);
    let keep = match ctx.src.weighted(&[3, 3, 1, 2]) {
        0 => amt - 1,
        1 => amt,
        2 => amt + 1,
        _ => amt / 2,
    }
    .clamp(0, has);
    ctx.log(format!("user{} keeps {} of {}", ui, keep, m.name(&tok)));
    w.must::<()>(&tok, "transfer", (u.clone(), o.clone(), has - keep))?;
    swap_by(ctx, m, ui, Some((v, amt)))?;
    w.must::<()>(&tok, "transfer", (o, u, has - keep))
}

fn swap_by(ctx: &mut Ctx, m: &M, ui: usize, given: Option<(std::vec::Vec<Hop>, i128)>) -> R {
    let w = m.f.w.clone();
    let fixed = given.is_some();
    let (mut v, mut amt) = match given {
        Some(x) => x,
        None => {
            let v = route(&mut ctx.src, m);
            let amt = amount(&mut ctx.src, m, &v)?;
            (v, amt)
        }
    };
    // what it would pay without limits guides the choice of limits
    let (mut failed, mut outs, _) = one_by_one(m, ui, &v, amt, None, None, None)?;
    if !fixed && failed.is_some() && amt > 1000 && ctx.src.bool(2, 3) {
        amt = 1 + amt / 1000;
        (failed, outs, _) = one_by_one(m, ui, &v, amt, None, None, None)?;
    }
    let s = &mut ctx.src;
    let plain = failed.is_none() && s.bool(2, 5);
    for (h, o) in v.iter_mut().zip(outs.iter()) {
        if !plain && s.bool(1, 5) {
            h.min = Some(crate::xyk::near(s, *o, 0));
        }
    }
    let spread = if !plain && s.bool(1, 5) { Some(if s.bool(1, 2) { s.range(100, 5_000) as i64 } else { gen_bps(s) }) } else { None };
    let deadline = if !plain && s.bool(1, 2) { gen_deadline(s, w.now()) } else { None };
    let max_fee = if !plain && s.bool(1, 6) { Some(gen_bps(s)) } else { None };
    let kind = match s.weighted(&[6, 1]) {
        0 => v.first().and_then(|h| m.pool(&h.offer, &h.ask)).map(|p| p.stable as u32).unwrap_or(0),
        _ => s.below(2) as u32,
    };
    ctx.log(format!("route {} of {} by user{} spread={} deadline={} max_fee={} type={}", show(m, &v), amt, ui, opt(&spread), opt(&deadline.map(|d| d as i64 - w.now() as i64)), opt(&max_fee), kind));
    let before = m.state()?;
    let (failed, outs, after) = one_by_one(m, ui, &v, amt, spread, deadline, max_fee)?;
    let u = m.f.users[ui].clone();
    let args = w.vals(&[w.val(u), w.val(ops(&w, &v)), w.val(spread), w.val(amt), w.val(kind), w.val(deadline), w.val(max_fee)]);
    let r = w.call::<()>(&m.f.multihop, "swap", args);
    let now = m.state()?;
    let ok = chained(&v) && failed.is_none();
    check!(ctx, "M01", r.is_ok() == ok, if ok { "route-refused" } else { "route-accepted" }, "a route (chained {}; its swaps one by one: first failure {:?} of {}) gave {:?}", chained(&v), failed, v.len(), r);
    if r.is_ok() {
        check!(ctx, "M01", now == after, "route-effect", "the route left {:?}\nits swaps one by one {:?}", now, after);
        ctx.label(match v.len() {
            1 => "route-1",
            2 => "route-2",
            _ => "route-3+",
        });
        if v.len() >= 2 && ctx.on("M01") {
            ctx.nontrivial = true;
        }
        let _ = outs;
    } else {
        check!(ctx, "M01", now == before, "refused-effect", "a refused route changed the state from {:?} to {:?}", before, now);
        ctx.label("route-refused");
    }
    Ok(())
}

fn response(w: &W, r: &Map<Symbol, Val>, key: &str) -> R<(i128, std::vec::Vec<(String, i128)>, std::vec::Vec<i128>)> {
    let a: i128 = w.field(r, key)?;
    let c: Vec<Val> = w.field(r, "commission_amounts")?;
    let sp: Vec<i128> = w.field(r, "spread_amount")?;
    let mut cs = vec![];
    for x in c.iter() {
        match <(String, i128)>::try_from_val(&w.env, &x) {
            Ok(t) => cs.push(t),
            Err(_) => return fail("bad-response", "a commission is not a pair"),
        }
    }
    Ok((a, cs, sp.iter().collect()))
}

fn once_each(v: &[Hop]) -> bool {
    for i in 0..v.len() {
        for j in 0..i {
            if (v[i].offer == v[j].offer && v[i].ask == v[j].ask) || (v[i].offer == v[j].ask && v[i].ask == v[j].offer) {
                return false;
            }
        }
    }
    true
}

fn types(m: &M, v: &[Hop]) -> Option<u32> {
    let k: std::vec::Vec<bool> = v.iter().filter_map(|h| m.pool(&h.offer, &h.ask)).map(|p| p.stable).collect();
    match k.first() {
        Some(x) if k.iter().all(|y| y == x) => Some(*x as u32),
        _ => None,
    }
}

fn quote(ctx: &mut Ctx, m: &M) -> R {
    let w = m.f.w.clone();
    let v = route(&mut ctx.src, m);
    let amt = amount(&mut ctx.src, m, &v)?;
    let kind = match (types(m, &v), ctx.src.bool(1, 8)) {
        (Some(k), false) => k,
        _ => ctx.src.below(2) as u32,
    };
    ctx.log(format!("quote {} of {} type={}", show(m, &v), amt, kind));
    let before = m.state()?;
    let r = w.call::<Map<Symbol, Val>>(&m.f.multihop, "simulate_swap", (ops(&w, &v), amt, kind));
    check!(ctx, "M02", m.state()? == before, "quote-effect", "a quote changed the state");
    // the chain of the pools' own quotes
    let mut x = Ok(amt);
    let (mut fees, mut spreads) = (vec![], vec![]);
    for h in &v {
        let Ok(a) = x else { break };
        x = match m.pool(&h.offer, &h.ask) {
            Some(p) => match pool_quote(&w, &p.p.addr, "simulate_swap", "ask_amount", &h.offer, a) {
                Ok((o, f, s)) => {
                    fees.push((w.must::<String>(&h.offer, "symbol", ())?, f));
                    spreads.push(s);
                    Ok(o)
                }
                Err(e) => Err(e),
            },
            None => Err(CallErr::Conv),
        };
    }
    let good = chained(&v) && x.is_ok();
    match &r {
        Ok(q) => {
            check!(ctx, "M02", good, "quote-accepted", "a quote was given for a route that is broken (chained {}) or has no quote at some hop", chained(&v));
            let (a, fs, ss) = response(&w, q, "ask_amount")?;
            check!(ctx, "M02", Ok(a) == x && fs == fees && ss == spreads, "quote", "the route's quote is {} with fees {:?} and spreads {:?}; hop by hop it is {:?}, {:?}, {:?}", a, fs, ss, x, fees, spreads);
            ctx.label("quote");
            if once_each(&v) {
                let (failed, outs, _) = one_by_one(m, 0, &v, amt, None, None, None)?;
                if failed.is_none() {
                    check!(ctx, "M02", outs.last() == Some(&a), "quote-execution", "the route was quoted {} but pays {:?}", a, outs.last());
                    ctx.label("quote-executed");
                    if v.len() >= 2 && ctx.on("M02") {
                        ctx.nontrivial = true;
                    }
                }
            }
        }
        Err(e) => {
            check!(ctx, "M02", !(good && types(m, &v) == Some(kind)), "quote-refused", "no quote ({:?}) for a route whose hops all have one", e);
            ctx.label("quote-refused");
        }
    }
    Ok(())
}

fn reverse(ctx: &mut Ctx, m: &M) -> R {
    let w = m.f.w.clone();
    let mut v = route(&mut ctx.src, m);
    // given last hop first
    v.reverse();
    let Some(kind) = types(m, &v) else { return Ok(()) };
    let broken = v.is_empty() || v.windows(2).any(|h| h[0].offer != h[1].ask);
    let h0 = v[0].clone();
    let Some(p0) = m.pool(&h0.offer, &h0.ask) else { return Ok(()) };
    let i = info(&w, &p0.p.addr)?;
    let out = if p0.p.a == h0.ask { i.ra } else { i.rb };
    let amt = match ctx.src.weighted(&[8, 1]) {
        0 => ctx.src.logu(1, (out / 2).max(1)),
        _ => ctx.src.logu(0, out.saturating_mul(2).max(1)),
    };
    ctx.log(format!("reverse quote {} of {} type={}", show(m, &v), amt, kind));
    let before = m.state()?;
    let r = w.call::<Map<Symbol, Val>>(&m.f.multihop, "simulate_reverse_swap", (ops(&w, &v), amt, kind));
    check!(ctx, "M02", m.state()? == before, "quote-effect", "a reverse quote changed the state");
    let mut x = Ok(amt);
    let (mut fees, mut spreads) = (vec![], vec![]);
    for h in &v {
        let Ok(a) = x else { break };
        x = match m.pool(&h.offer, &h.ask) {
            Some(p) => {
                let asset = if p.stable { &h.offer } else { &h.ask };
                match pool_quote(&w, &p.p.addr, "simulate_reverse_swap", "offer_amount", asset, a) {
                    Ok((o, f, s)) => {
                        fees.push((w.must::<String>(&h.ask, "symbol", ())?, f));
                        spreads.push(s);
                        Ok(o)
                    }
                    Err(e) => Err(e),
                }
            }
            None => Err(CallErr::Conv),
        };
    }
    let good = !broken && x.is_ok();
    check_any!(ctx, ["M02"], r.is_ok() == good, if good { "reverse-refused" } else { "reverse-accepted" }, "a reverse quote (in order {}, hop by hop {:?}) gave {:?}", !broken, x, r.is_ok());
    if let Ok(q) = &r {
        let (a, fs, ss) = response(&w, q, "offer_amount")?;
        check!(ctx, "M02", Ok(a) == x && fs == fees && ss == spreads, "reverse-quote", "the route's reverse quote is {} with fees {:?} and spreads {:?}; hop by hop it is {:?}, {:?}, {:?}", a, fs, ss, x, fees, spreads);
        ctx.label("reverse-quote");
        // and the first traded hop really yields what the next one needs, within rounding
        if v.len() >= 2 && ctx.on("M02") {
            ctx.nontrivial = true;
        }
    } else {
        ctx.label("reverse-refused");
    }
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    const A: &[&str] = &["M02 compares with execution only for routes that use each pool once (a quote cannot see what its own earlier hops do to a pool used again); each pool's own quotes and swaps are judged by X02, X06, S02 and S05"];
    let rule = "a case is a factory with 3 to 5 tokens and pools of either type on most pairs with random reserves, fees and limits, then 3..12 routes of 1 to 8 hops (some broken, some using a pool twice) with limits at and next to each hop's outcome, quotes, reverse quotes and direct swaps; every route is compared with the same swaps made one by one in the same state (undone afterwards); non-trivial = a route of two or more hops executed (M02: quoted)";
    [("M01", "A multihop swap is exactly its chain of pool swaps"), ("M02", "Multihop quotes match route execution")]
        .into_iter()
        .map(|(id, title)| Prop { id, title, rule, assumptions: A, scenarios: vec![Scenario { name: "route-history", run: history, quick: 700, thorough: 15000 }] })
        .collect()
}
