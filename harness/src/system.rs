//! U01, Q01, W01, E01: all contracts together, watched from outside.
use crate::admin::{gen_op, setup_with, stake_info, stakes_of, Op, Sys};
use crate::check;
use crate::engine::*;
use crate::settings::{code_of, sc, variant};
use crate::world::*;
use crate::xyk::{b, info};
use soroban_sdk::xdr::{ContractEventBody, ScAddress, ScVal};
use soroban_sdk::{Address, Map, Symbol, TryFromVal, Val, Vec};
use std::collections::BTreeMap;

const PAIRS: [(usize, usize); 4] = [(0, 1), (1, 2), (1, 3), (2, 3)];

pub fn build(ctx: &mut Ctx) -> R<Sys> {
    let y = plain(ctx)?;
    rewards(ctx, &y)?;
    Ok(y)
}

pub fn plain(ctx: &mut Ctx) -> R<Sys> {
    setup_with(ctx, &[7, 7, 7, 7], &PAIRS)
}

pub fn rewards(ctx: &mut Ctx, y: &Sys) -> R {
    // rewards that are owed: some in full, some in part, some next to nothing
    let w = &y.w;
    for fp in &y.f.pools {
        if ctx.src.bool(2, 3) {
            w.pass(ctx.src.below(50) * DAY);
            let x = ctx.src.logu(1, 1_000_000_000);
            w.must::<()>(&fp.p.stake, "distribute_rewards", (fp.manager.clone(), x, y.f.toks[0].addr.clone()))?;
        }
    }
    // a schedule claimed in full, or in part
    if ctx.src.bool(1, 2) {
        w.pass(ctx.src.logu(1, 3_000) as u64);
        let u = ctx.src.pick(&y.f.users).clone();
        let _ = w.call::<()>(&y.vest, "claim", (u, 0u64));
    }
    Ok(())
}

const DAY: u64 = 86_400;

/// How long nothing happens before the next step.
pub fn pause(s: &mut Src) -> u64 {
    match s.weighted(&[12, 5, 1]) {
        0 => 0,
        1 => s.below(100_000),
        _ => s.below(70) * DAY,
    }
}

fn op(w: &W, c: &Address, contract: &'static str, f: &'static str, args: &[Val], signers: &[&Address]) -> Op {
    Op { c: c.clone(), contract, f, args: w.vals(args), signers: signers.iter().map(|a| (*a).clone()).collect(), forged: None, sr_user: None }
}

/// An operation on any contract: those of `admin::gen_op`, and others that involve several contracts.
pub fn next_op(ctx: &mut Ctx, y: &Sys) -> R<Option<Op>> {
    let w = &y.w;
    if ctx.src.bool(3, 5) {
        return gen_op(ctx, y);
    }
    let s = &mut ctx.src;
    let k = s.below(4) as usize;
    let p = &y.f.pools[k].p;
    let stable = y.f.pools[k].stable;
    let ui = s.below(3) as usize;
    let u = y.f.users[ui].clone();
    let uv = w.val(u.clone());
    let none: Val = w.val(());
    let amount = s.logu(1, 1_000_000_000);
    Ok(Some(match s.weighted(&[5, 4, 2, 2, 3, 3, 2, 2]) {
        0 => {
            // a route through one to three pools of a kind, each at most once
            let routes: [&[usize]; 14] = [&[0, 1, 3], &[3, 1, 0], &[0, 1], &[1, 0], &[1, 3], &[3, 1], &[1, 2], &[2, 1], &[2, 3], &[3, 2], &[1, 2, 3], &[3, 2, 1], &[0, 1, 2, 3], &[3, 1, 2]];
            let r = *s.pick(&routes);
            let mut o: Vec<Val> = Vec::new(&w.env);
            for x in r.windows(2) {
                let (a, z) = (y.f.toks[x[0]].addr.clone(), y.f.toks[x[1]].addr.clone());
                o.push_back(w.record(&[("offer_asset", w.val(a)), ("ask_asset", w.val(z)), ("ask_asset_min_amount", none)]));
            }
            let xyk = r.windows(2).all(|x| pool_index(x[0], x[1]).map(|i| i % 2 == 0).unwrap_or(false));
            let hops = w.val(o);
            let spread = *s.pick(&[Some(5000i64), None]);
            op(w, &y.f.multihop, "multihop", "swap", &[uv, hops, w.val(spread), w.val(amount), w.val(if xyk { 0u32 } else { 1u32 }), none, none], &[&u])
        }
        1 => op(w, &p.stake, "stake", "withdraw_rewards", &[uv], &[]),
        2 => {
            let x = amount.max(10);
            op(w, &p.stake, "stake", "bond", &[uv, w.val(x)], &[&u])
        }
        3 => {
            let x = s.logu(1, w.bal(&p.lp, &u).max(2));
            op(w, &p.addr, if stable { "pool_stable" } else { "pool" }, "withdraw_liquidity", &[uv, w.val(x), w.val(1i128), w.val(1i128), none], &[&u])
        }
        4 => {
            let t = if s.bool(1, 2) { &p.a } else { &p.b };
            let x = s.logu(1, 100_000_000_000);
            let (name, min) = (if stable { "pool_stable" } else { "pool" }, if s.bool(1, 2) { Some(1i128) } else { None });
            op(w, &p.addr, name, "swap", &[uv, w.val(t.clone()), w.val(x), w.val(min), none, w.val(Some(w.now())), none], &[&u])
        }
        5 => {
            let i = info(w, &p.addr)?;
            if stable {
                let z = s.logu(1, 1_000_000_000);
                op(w, &p.addr, "pool_stable", "provide_liquidity", &[uv, w.val(amount), w.val(z), w.val(Some(p.max_slip)), none, w.val(Some(0u128))], &[&u])
            } else {
                // off the ratio by up to a few percent
                let other = i128::try_from(b(amount) * b(i.rb) / b(i.ra)).unwrap_or(amount);
                let other = other + other / 100 * s.range(-3, 3);
                op(w, &p.addr, "pool", "provide_liquidity", &[uv, w.val(Some(amount)), w.val(Some(1i128)), w.val(Some(other.max(1))), w.val(Some(1i128)), w.val(Some(p.max_slip)), none], &[&u])
            }
        }
        7 => {
            let x = s.logu(1, 1_000_000_000);
            let mg = &y.f.pools[k].manager;
            op(w, &p.stake, "stake", "distribute_rewards", &[w.val(mg.clone()), w.val(x), w.val(y.f.toks[0].addr.clone())], &[mg])
        }
        _ => {
            let st = stakes_of(y, k, &u)?;
            if st.is_empty() {
                return Ok(None);
            }
            let (x, t) = *s.pick(&st);
            op(w, &p.stake, "stake", "unbond", &[uv, w.val(x), w.val(t)], &[&u])
        }
    }))
}

fn pool_index(x: usize, z: usize) -> Option<usize> {
    PAIRS.iter().position(|p| *p == (x.min(z), x.max(z)))
}

// ---- what can be seen from outside -----------------------------------------------------------

pub struct Query {
    pub name: std::string::String,
    pub c: Address,
    pub f: &'static str,
    pub args: std::vec::Vec<Val>,
}

pub fn queries(y: &Sys) -> std::vec::Vec<Query> {
    let w = &y.w;
    let mut v = vec![];
    let mut add = |name: &str, c: &Address, f: &'static str, args: &[Val]| v.push(Query { name: format!("{name}.{f}"), c: c.clone(), f, args: args.to_vec() });
    let users: std::vec::Vec<Address> = y.f.users.clone();
    for (k, fp) in y.f.pools.iter().enumerate() {
        let p = &fp.p;
        let n = format!("pool{k}");
        for f in ["query_config", "query_pool_info", "query_pool_info_for_factory", "query_total_issued_lp", "query_share_token_address", "query_stake_contract_address"] {
            add(&n, &p.addr, f, &[]);
        }
        for x in [1000i128, 123_456_789] {
            for t in [&p.a, &p.b] {
                add(&n, &p.addr, "simulate_swap", &[w.val(t.clone()), w.val(x)]);
                add(&n, &p.addr, "simulate_reverse_swap", &[w.val(t.clone()), w.val(x / 1000)]);
            }
            add(&n, &p.addr, "query_share", &[w.val(x)]);
        }
        let n = format!("stake{k}");
        for f in ["query_config", "query_admin", "query_total_staked"] {
            add(&n, &p.stake, f, &[]);
        }
        for u in &users {
            add(&n, &p.stake, "query_staked", &[w.val(u.clone())]);
            add(&n, &p.stake, "query_withdrawable_rewards", &[w.val(u.clone())]);
        }
        add("factory", &y.f.addr, "query_pool_details", &[w.val(p.addr.clone())]);
        add("factory", &y.f.addr, "query_for_pool_by_token_pair", &[w.val(p.b.clone()), w.val(p.a.clone())]);
        for f in ["decimals", "name", "symbol"] {
            add(&format!("share token {k}"), &p.lp, f, &[]);
        }
        add(&format!("share token {k}"), &p.lp, "allowance", &[w.val(users[0].clone()), w.val(users[2].clone())]);
    }
    for f in ["get_admin", "get_config", "query_pools", "query_all_pools_details"] {
        add("factory", &y.f.addr, f, &[]);
    }
    for u in &users {
        for staking in [true, false] {
            add("factory", &y.f.addr, "query_user_portfolio", &[w.val(u.clone()), w.val(staking)]);
        }
    }
    let mut hops: Vec<Val> = Vec::new(&w.env);
    for x in [(0usize, 1usize), (1, 3)] {
        hops.push_back(w.record(&[("offer_asset", w.val(y.f.toks[x.0].addr.clone())), ("ask_asset", w.val(y.f.toks[x.1].addr.clone())), ("ask_asset_min_amount", w.val(()))]));
    }
    for f in ["simulate_swap", "simulate_reverse_swap"] {
        add("multihop", &y.f.multihop, f, &[w.val(hops.clone()), w.val(10_000i128), w.val(0u32)]);
    }
    for f in ["query_token_info", "query_minter", "query_vesting_contract_balance"] {
        add("vesting", &y.vest, f, &[]);
    }
    for u in &users {
        add("vesting", &y.vest, "query_balance", &[w.val(u.clone())]);
        add("vesting", &y.vest, "query_all_vesting_info", &[w.val(u.clone())]);
        for i in 0..3u64 {
            add("vesting", &y.vest, "query_vesting_info", &[w.val(u.clone()), w.val(i)]);
            add("vesting", &y.vest, "query_available_to_claim", &[w.val(u.clone()), w.val(i)]);
        }
    }
    for f in ["query_balances", "query_trading_pairs", "query_admin_address", "query_contract_name", "query_output_token_info"] {
        add("trader", &y.trader, f, &[]);
    }
    for f in ["query_config", "query_admin"] {
        add("rewards", &y.sr, f, &[]);
    }
    add("rewards", &y.sr, "query_annualized_reward", &[w.val(3_000_000_000i128)]);
    for f in ["query_distributed_reward", "query_undistributed_reward"] {
        add("rewards", &y.sr, f, &[w.val(y.sr_tok.clone())]);
    }
    for (ui, x) in &y.sr_users {
        add("rewards", &y.sr, "query_withdrawable_reward", &[w.val(users[*ui].clone()), stake_info(w, &[*x], *x)]);
    }
    for f in ["decimals", "name", "symbol"] {
        add("token", &y.tok, f, &[]);
    }
    for k in 0..3 {
        add("token", &y.tok, "allowance", &[w.val(users[k].clone()), w.val(users[(k + 1) % 3].clone())]);
    }
    v
}

type Seen = Result<ScVal, CallErr>;

fn ask(w: &W, q: &Query) -> Seen {
    w.call::<Val>(&q.c, q.f, w.vals(&q.args)).map(|v| sc(w, v))
}

/// The accounts whose balances are watched.
pub fn holders(y: &Sys) -> (std::vec::Vec<(std::string::String, Address)>, usize) {
    let mut v: std::vec::Vec<(std::string::String, Address)> = vec![];
    for (k, u) in y.f.users.iter().enumerate() {
        v.push((format!("user {k}"), u.clone()));
    }
    for (n, a) in [
        ("factory", &y.f.addr),
        ("router", &y.f.multihop),
        ("vesting contract", &y.vest),
        ("vesting admin", &y.vest_admin),
        ("minter", &y.minter),
        ("trader contract", &y.trader),
        ("rewards contract", &y.sr),
    ] {
        v.push((n.to_string(), a.clone()));
    }
    let main = v.len();
    for (k, fp) in y.f.pools.iter().enumerate() {
        v.push((format!("pool {k}"), fp.p.addr.clone()));
        v.push((format!("staking contract {k}"), fp.p.stake.clone()));
        v.push((format!("fee recipient {k}"), fp.p.fee_to.clone()));
        v.push((format!("manager {k}"), fp.manager.clone()));
        v.push((format!("pool administrator {k}"), fp.p.admin.clone()));
    }
    for (n, a) in [
        ("factory administrator", &y.f.admin),
        ("trader admin", &y.trader_admin),
        ("rewards admin", &y.sr_admin),
        ("staking account", &y.staking),
        ("token admin", &y.tok_admin),
        ("intruder", &y.intruder),
    ] {
        v.push((n.to_string(), a.clone()));
    }
    (v, main)
}

struct Purses {
    who: std::vec::Vec<(std::string::String, Address)>,
    assets: std::vec::Vec<Address>,
    bal: std::vec::Vec<std::vec::Vec<i128>>,
    watched: std::vec::Vec<std::vec::Vec<bool>>,
}

impl Purses {
    fn take(y: &Sys) -> Purses {
        let (who, main) = holders(y);
        let assets = y.assets();
        // The repository's own tokens are looked up for the main accounts, and a share token for its
        // pool and staking contract: should the others get any, the total changes.
        let builtin = |t: &Address| *t == y.sr_tok || y.f.toks.iter().any(|x| x.addr == *t);
        let own = |t: &Address, a: &Address| y.f.pools.iter().any(|p| p.p.lp == *t && (p.p.addr == *a || p.p.stake == *a));
        let watched: std::vec::Vec<std::vec::Vec<bool>> =
            who.iter().enumerate().map(|(i, (_, a))| assets.iter().map(|t| i < main || builtin(t) || own(t, a)).collect()).collect();
        let bal = who.iter().enumerate().map(|(i, (_, a))| assets.iter().enumerate().map(|(j, t)| if watched[i][j] { y.w.bal(t, a) } else { 0 }).collect()).collect();
        Purses { who, assets, bal, watched }
    }
    fn at(&self, who: &Address, t: &Address) -> i128 {
        let i = self.who.iter().position(|x| x.1 == *who).expect("a watched account");
        let j = self.assets.iter().position(|x| x == t).expect("a watched asset");
        self.bal[i][j]
    }
    fn name(&self, a: &Address) -> std::string::String {
        self.who.iter().find(|x| x.1 == *a).map(|x| x.0.clone()).unwrap_or("somebody".into())
    }
}

/// The part of the op's arguments that are addresses of watched accounts.
fn named(w: &W, o: &Op) -> std::vec::Vec<Address> {
    o.args.iter().filter_map(|v| Address::try_from_val(&w.env, &v).ok()).collect()
}

/// Route of a multihop swap, a plain swap or a trade: (pool, sold asset, bought asset)
fn legs(y: &Sys, o: &Op) -> std::vec::Vec<(usize, Address, Address)> {
    let w = &y.w;
    let find = |x: &Address, z: &Address| y.f.pools.iter().position(|p| (p.p.a == *x && p.p.b == *z) || (p.p.a == *z && p.p.b == *x));
    let mut v = vec![];
    match (o.contract, o.f) {
        ("pool" | "pool_stable", "swap") => {
            let k = y.f.pools.iter().position(|p| p.p.addr == o.c).unwrap();
            let x = Address::try_from_val(&w.env, &o.args.get(1).unwrap()).unwrap();
            let p = &y.f.pools[k].p;
            let z = if p.a == x { p.b.clone() } else { p.a.clone() };
            v.push((k, x, z));
        }
        ("multihop", "swap") => {
            let hops = Vec::<Val>::try_from_val(&w.env, &o.args.get(1).unwrap()).unwrap();
            for h in hops.iter() {
                let m = Map::<Symbol, Val>::try_from_val(&w.env, &h).unwrap();
                let x: Address = Address::try_from_val(&w.env, &m.get(Symbol::new(&w.env, "offer_asset")).unwrap()).unwrap();
                let z: Address = Address::try_from_val(&w.env, &m.get(Symbol::new(&w.env, "ask_asset")).unwrap()).unwrap();
                if let Some(k) = find(&x, &z) {
                    v.push((k, x, z));
                }
            }
        }
        ("trader", "trade_token") => {
            let x = Address::try_from_val(&w.env, &o.args.get(1).unwrap()).unwrap();
            let pa = Address::try_from_val(&w.env, &o.args.get(2).unwrap()).unwrap();
            if let Some(k) = y.f.pools.iter().position(|p| p.p.addr == pa) {
                let p = &y.f.pools[k].p;
                let z = if p.a == x { p.b.clone() } else { p.a.clone() };
                v.push((k, x, z));
            }
        }
        _ => {}
    }
    v
}

// ---- U01, Q01: a second world without the upgrades or queries ---------------------------------

fn say(x: &Seen) -> std::string::String {
    match x {
        Ok(v) => {
            let s = format!("{v:?}");
            if s.len() > 600 {
                format!("{}...", s.chars().take(600).collect::<std::string::String>())
            } else {
                s
            }
        }
        Err(e) => format!("{e:?}"),
    }
}

fn compare(ctx: &mut Ctx, id: &str, what: &str, y: &Sys, z: &Sys, only: Option<&Address>) -> R {
    let (qa, qb) = (queries(y), queries(z));
    for (a, c) in qa.iter().zip(&qb) {
        if only.map(|x| *x != a.c).unwrap_or(false) {
            continue;
        }
        let (x, v) = (ask(&y.w, a), ask(&z.w, c));
        check!(ctx, id, x == v, format!("{what}-{}", a.f), "{} answers {} instead of {}", a.name, say(&x), say(&v));
    }
    if only.is_some() {
        return Ok(());
    }
    let (pa, pb) = (Purses::take(y), Purses::take(z));
    for (i, (n, _)) in pa.who.iter().enumerate() {
        for j in 0..pa.assets.len() {
            check!(ctx, id, pa.bal[i][j] == pb.bal[i][j], format!("{what}-balance"), "{} holds {} of asset {} instead of {}", n, pa.bal[i][j], j, pb.bal[i][j]);
        }
    }
    Ok(())
}

fn over(y: &Sys, z: &Sys, v: &Val) -> Val {
    let x = ScVal::try_from_val(&y.w.env, v).expect("a value");
    Val::try_from_val(&z.w.env, &x).expect("a value")
}
fn over_addr(y: &Sys, z: &Sys, a: &Address) -> Address {
    Address::try_from_val(&z.w.env, &ScAddress::from(a.clone())).unwrap_or_else(|_| panic!("{}", y.name(a)))
}

/// Replaces the code of one contract by other code that does the same.
fn upgrade(ctx: &mut Ctx, y: &Sys, z: &Sys, n: u8) -> R {
    let w = &y.w;
    let s = &mut ctx.src;
    let k = s.below(4) as usize;
    let fp = &y.f.pools[k];
    let pk = if fp.stable { "pool_stable" } else { "pool" };
    let (kind, c, admin): (&'static str, Address, Address) = match s.weighted(&[4, 3, 2, 1, 2, 2]) {
        0 => (pk, fp.p.addr.clone(), fp.p.admin.clone()),
        1 => ("stake", fp.p.stake.clone(), fp.p.admin.clone()),
        2 => ("factory", y.f.addr.clone(), y.f.admin.clone()),
        3 => ("multihop", y.f.multihop.clone(), y.f.admin.clone()),
        4 => ("vesting", y.vest.clone(), y.vest_admin.clone()),
        _ => ("stake_rewards", y.sr.clone(), y.sr_admin.clone()),
    };
    w.env.budget().reset_limits(u64::MAX, u64::MAX);
    let h = variant(w, kind, n);
    let (f, args) = match kind {
        "factory" => ("update", vec![w.val(h.clone()), w.val(w.upload("pool_stable"))]),
        "pool" if s.bool(1, 2) => ("upgrade", vec![w.val(h.clone()), w.val(fp.p.def_slip)]),
        "pool_stable" if s.bool(1, 2) => ("upgrade", vec![w.val(h.clone())]),
        _ => ("update", vec![w.val(h.clone())]),
    };
    ctx.log(format!("{f} of {kind}{}", if kind.starts_with("pool") || kind == "stake" { format!(" {k}") } else { String::new() }));
    let none = w.call_signed::<Val>(&[y.intruder.clone()], &c, f, w.vals(&args));
    check!(ctx, "U01", none.is_err(), format!("upgrade-{kind}-by-anybody"), "an intruder replaced the code of a {}", kind);
    let r = w.call_signed::<Val>(&[admin], &c, f, w.vals(&args));
    check!(ctx, "U01", r.is_ok(), format!("upgrade-{kind}-refused"), "the administrator cannot replace the code of a {}: {:?}", kind, r);
    check!(ctx, "U01", code_of(w, &c) == Some(h.to_array()), format!("upgrade-{kind}-code"), "a {} does not run the code it was given", kind);
    ctx.label(kind);
    compare(ctx, "U01", &format!("after-upgrade-{kind}"), y, z, Some(&c))
}

fn twins(ctx: &mut Ctx, id: &'static str) -> R {
    let p = ctx.src.pos();
    let mut y = build(ctx)?;
    let tape = ctx.src.since(p);
    let saved = std::mem::replace(&mut ctx.src, Src::replay(tape));
    let z = build(ctx);
    ctx.src = saved;
    let mut z = z?;
    let n = ctx.steps(6, 16);
    let (mut done, mut extra) = (0, 0u8);
    let mut since = 0;
    for _ in 0..n {
        ctx.src.begin();
        let r = twin_step(ctx, id, &mut y, &mut z, &mut done, &mut extra, &mut since);
        ctx.src.end();
        r?;
    }
    if extra > 0 {
        compare(ctx, id, "in-the-end", &y, &z, None)?;
    }
    ctx.nontrivial = extra > 0 && since >= 2;
    Ok(())
}

fn twin_step(ctx: &mut Ctx, id: &'static str, y: &mut Sys, z: &mut Sys, done: &mut u32, extra: &mut u8, since: &mut u32) -> R {
    let dt = pause(&mut ctx.src);
    if dt > 0 {
        y.w.pass(dt);
        z.w.pass(dt);
    }
    if !id.is_empty() && ctx.src.bool(1, 4) {
        *extra += 1;
        if id == "U01" {
            return upgrade(ctx, y, z, *extra);
        }
        // a few questions, some of them twice
        let qs = queries(y);
        let k = 1 + ctx.src.below(12);
        for _ in 0..k {
            let q = ctx.src.pick(&qs);
            // nobody has to sign a question
            let x = y.w.call_signed::<Val>(&[], &q.c, q.f, y.w.vals(&q.args)).map(|v| sc(&y.w, v));
            let v = ask(&y.w, q);
            ctx.log(format!("ask {}", q.name));
            check!(ctx, id, x == v, format!("asked-twice-{}", q.f), "{} answers {} and then {}", q.name, say(&x), say(&v));
        }
        ctx.label("queries");
        return Ok(());
    }
    let Some(o) = next_op(ctx, y)? else { return Ok(()) };
    let at = format!("{}.{}", o.contract, o.f);
    let (r, r2) = both(y, z, &o);
    ctx.log(format!("{at}: {}", if r.is_ok() { "done".to_string() } else { format!("{r:?}") }));
    check!(ctx, if id.is_empty() { "U01" } else { id }, r == r2, format!("different-{}-{}", o.contract, o.f), "{} gives {} instead of {}", at, say(&r), say(&r2));
    if r.is_ok() {
        *done += 1;
        if *extra > 0 {
            *since += 1;
        }
        if let Some(x) = o.sr_user {
            y.sr_users.push(x);
            z.sr_users.push(x);
        }
        ctx.label(o.f);
    } else {
        ctx.label("refused");
    }
    Ok(())
}

fn upgrades(ctx: &mut Ctx) -> R {
    twins(ctx, "U01")
}

/// Contracts deployed with the reference code, used, and then given the code under test.
fn takeover(ctx: &mut Ctx) -> R {
    let p = ctx.src.pos();
    let old = OldCode::new();
    let mut y = build(ctx)?;
    drop(old);
    let tape = ctx.src.since(p);
    let saved = std::mem::replace(&mut ctx.src, Src::replay(tape));
    let z = build(ctx);
    ctx.src = saved;
    let mut z = z?;
    // the same operations with the old code and with the code under test
    let n = ctx.steps(2, 10);
    let (mut same, mut done) = (true, 0);
    for _ in 0..n {
        ctx.src.begin();
        let old = OldCode::new();
        let r = takeover_step(ctx, &mut y, &mut z, &mut same, &mut done);
        drop(old);
        ctx.src.end();
        r?;
    }
    // only what both codes say alike can be held against the upgrade
    let (qa, qb) = (queries(&y), queries(&z));
    let said: std::vec::Vec<(Seen, Seen)> = qa.iter().zip(&qb).map(|(a, c)| (ask(&y.w, a), ask(&z.w, c))).collect();
    same &= said.iter().zip(&qa).all(|(s, q)| s.0 == s.1 || q.f == "get_config");
    let list = [("factory", &y.f.addr, &y.f.admin), ("multihop", &y.f.multihop, &y.f.admin), ("vesting", &y.vest, &y.vest_admin), ("stake_rewards", &y.sr, &y.sr_admin)];
    let mut all: std::vec::Vec<(&'static str, Address, Address)> = list.iter().map(|(k, c, a)| (*k, (*c).clone(), (*a).clone())).collect();
    for fp in &y.f.pools {
        all.push((if fp.stable { "pool_stable" } else { "pool" }, fp.p.addr.clone(), fp.p.admin.clone()));
        all.push(("stake", fp.p.stake.clone(), fp.p.admin.clone()));
    }
    let w = &y.w;
    for (kind, c, admin) in &all {
        let h = w.upload(kind);
        let args = if *kind == "factory" { w.vals(&[w.val(h.clone()), w.val(w.upload("pool_stable"))]) } else { w.vals(&[w.val(h.clone())]) };
        let r = w.call_signed::<Val>(&[admin.clone()], c, "update", args);
        check!(ctx, "U01", r.is_ok(), format!("takeover-{kind}-refused"), "the administrator cannot replace the code of a {}: {:?}", kind, r);
        check!(ctx, "U01", code_of(w, c) == Some(h.to_array()), format!("takeover-{kind}-code"), "a {} does not run the code it was given", kind);
    }
    ctx.log(format!("all contracts upgraded ({} operations before)", done));
    for ((a, c), (x, v)) in qa.iter().zip(&qb).zip(&said) {
        if x != v {
            ctx.label("codes differ");
            continue;
        }
        let now = ask(&y.w, a);
        let _ = c;
        check!(ctx, "U01", now == *v, format!("takeover-{}", a.f), "with the records of the previous code {} answers {} instead of {}", a.name, say(&now), say(v));
    }
    ctx.nontrivial = done >= 2 && same;
    if !same {
        ctx.label("histories differ");
        return Ok(());
    }
    // and then the same operations once more, now with the same code
    let n = ctx.steps(4, 12);
    let (mut done, mut extra, mut since) = (0, 0, 0);
    for _ in 0..n {
        ctx.src.begin();
        let r = twin_step(ctx, "", &mut y, &mut z, &mut done, &mut extra, &mut since);
        ctx.src.end();
        r?;
    }
    let (qa, qb) = (queries(&y), queries(&z));
    for (a, c) in qa.iter().zip(&qb) {
        let (x, v) = (ask(&y.w, a), ask(&z.w, c));
        check!(ctx, "U01", x == v || a.f == "get_config", format!("taken-over-{}", a.f), "after a takeover {} answers {} instead of {}", a.name, say(&x), say(&v));
    }
    Ok(())
}

fn takeover_step(ctx: &mut Ctx, y: &mut Sys, z: &mut Sys, same: &mut bool, done: &mut u32) -> R {
    if ctx.src.bool(1, 3) {
        let dt = ctx.src.below(1_000_000);
        y.w.pass(dt);
        z.w.pass(dt);
    }
    let Some(o) = next_op(ctx, y)? else { return Ok(()) };
    if o.f == "update" || o.f == "upgrade" || o.f == "update_wasm_hashes" {
        return Ok(());
    }
    let (r, r2) = both(y, z, &o);
    ctx.log(format!("{}.{}: {}", o.contract, o.f, if r.is_ok() { "done".to_string() } else { format!("{r:?}") }));
    *same &= r == r2;
    if r.is_ok() {
        *done += 1;
        ctx.label(o.f);
        if let Some(x) = o.sr_user {
            y.sr_users.push(x);
            z.sr_users.push(x);
        }
    }
    Ok(())
}

/// The operation in the other world.
pub fn moved(y: &Sys, z: &Sys, o: &Op) -> (Address, Vec<Val>) {
    let args: std::vec::Vec<Val> = o.args.iter().map(|v| over(y, z, &v)).collect();
    (over_addr(y, z, &o.c), z.w.vals(&args))
}

fn both(y: &Sys, z: &Sys, o: &Op) -> (Seen, Seen) {
    let r: Seen = y.w.call::<Val>(&o.c, o.f, o.args.clone()).map(|v| sc(&y.w, v));
    let (c, args) = moved(y, z, o);
    let r2: Seen = z.w.call::<Val>(&c, o.f, args).map(|v| sc(&z.w, v));
    (r, r2)
}

fn asking(ctx: &mut Ctx) -> R {
    twins(ctx, "Q01")
}

// ---- W01, E01 ----------------------------------------------------------------------------------

struct Ev {
    from: [u8; 32],
    topics: std::vec::Vec<ScVal>,
    data: ScVal,
}

fn events(w: &W, from: usize) -> (usize, std::vec::Vec<Ev>) {
    let all = w.env.host().get_events().expect("events").0;
    let n = all.len();
    let mut v = vec![];
    for e in all.into_iter().skip(from) {
        if e.failed_call {
            continue;
        }
        let ContractEventBody::V0(x) = e.event.body;
        let Some(id) = e.event.contract_id else { continue };
        if e.event.type_ != soroban_sdk::xdr::ContractEventType::Contract {
            continue;
        }
        v.push(Ev { from: id.0, topics: x.topics.to_vec(), data: x.data });
    }
    (n, v)
}

fn id_of(a: &Address) -> [u8; 32] {
    match ScAddress::from(a.clone()) {
        ScAddress::Contract(h) => h.0,
        _ => [0; 32],
    }
}
fn text(v: &ScVal) -> std::string::String {
    match v {
        ScVal::String(s) => s.to_utf8_string_lossy(),
        ScVal::Symbol(s) => s.0.to_utf8_string_lossy(),
        _ => "?".into(),
    }
}
fn number(v: &ScVal) -> i128 {
    match v {
        ScVal::I128(x) => ((x.hi as i128) << 64) | x.lo as i128,
        ScVal::U128(x) => ((x.hi as i128) << 64) | x.lo as i128,
        ScVal::U64(x) => *x as i128,
        _ => i128::MIN,
    }
}

struct Watch {
    purses: Purses,
    events: usize,
    /// the shares each pool says it has issued
    issued: std::vec::Vec<(Address, i128)>,
}

impl Watch {
    fn take(y: &Sys, events: usize) -> R<Watch> {
        let mut v = vec![];
        for p in &y.f.pools {
            v.push((p.p.addr.clone(), issued(y, &p.p.addr)?));
        }
        Ok(Watch { purses: Purses::take(y), events, issued: v })
    }
}

fn issued(y: &Sys, pool: &Address) -> R<i128> {
    y.w.must(pool, "query_total_issued_lp", ())
}

fn history(ctx: &mut Ctx) -> R {
    let mut y = build(ctx)?;
    let n = ctx.steps(6, 18);
    let mut done = 0;
    let mut wt = Watch::take(&y, events(&y.w, 0).0)?;
    for _ in 0..n {
        ctx.src.begin();
        let dt = pause(&mut ctx.src);
        if dt > 0 {
            y.w.pass(dt);
        }
        let r = watched(ctx, &mut y, &mut wt, &mut done);
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = done >= 3;
    Ok(())
}

/// The accounts an operation concerns.
fn concerned(y: &Sys, o: &Op) -> std::vec::Vec<Address> {
    let mut v = o.signers.clone();
    v.extend(named(&y.w, o));
    v.push(o.c.clone());
    for (k, _, _) in legs(y, o) {
        v.push(y.f.pools[k].p.addr.clone());
        v.push(y.f.pools[k].p.fee_to.clone());
    }
    match (o.contract, o.f) {
        ("vesting", _) => v.push(y.vest.clone()),
        ("token", _) => v.retain(|a| *a != o.c),
        _ => {}
    }
    v
}

fn watched(ctx: &mut Ctx, y: &mut Sys, wt: &mut Watch, done: &mut u32) -> R {
    let w = y.w.clone();
    let Some(o) = next_op(ctx, y)? else { return Ok(()) };
    let at = format!("{}.{}", o.contract, o.f);
    let route = legs(y, &o);
    let quoted = quote(y, &o, &route);
    let r: Result<Val, CallErr> = w.call::<Val>(&o.c, o.f, o.args.clone());
    ctx.log(format!("{at}: {}", if r.is_ok() { "done".to_string() } else { format!("{r:?}") }));
    let (cursor, evs) = events(&w, wt.events);
    let old = std::mem::replace(wt, Watch::take(y, cursor)?);
    let (was, now) = (&old.purses, &wt.purses);
    let ok = r.is_ok();
    // ---- who holds what
    let parties = concerned(y, &o);
    let sig = |x: &str| format!("{x}-{}-{}", o.contract, o.f);
    for (i, (n, a)) in was.who.iter().enumerate() {
        for j in 0..was.assets.len() {
            let d = now.bal[i][j] - was.bal[i][j];
            check!(ctx, "W01", now.bal[i][j] >= 0, sig("negative"), "{} leaves {} with {} of asset {}", at, n, now.bal[i][j], j);
            check!(ctx, "W01", ok || d == 0, sig("refused"), "a refused {} changed what {} holds of asset {} by {}", at, n, j, d);
            check!(ctx, "W01", d == 0 || parties.contains(a), sig("bystander"), "{} changed what {} holds of asset {} by {}", at, n, j, d);
        }
    }
    for (n, a) in [("factory", &y.f.addr), ("router", &y.f.multihop)] {
        for (j, t) in now.assets.iter().enumerate() {
            check!(ctx, "W01", now.at(a, t) == 0, sig("stranded"), "{} leaves {} of asset {} with the {}", at, now.at(a, t), j, n);
        }
    }
    // tokens only come and go where something is minted or burned
    // (shares are issued and redeemed by deposits and withdrawals)
    let minting = (o.contract == "pool" || o.contract == "pool_stable") && (o.f == "provide_liquidity" || o.f == "withdraw_liquidity");
    let amount = |i: u32| number(&sc(&w, o.args.get(i).unwrap()));
    for (j, t) in now.assets.iter().enumerate() {
        let total: i128 = (0..now.who.len()).map(|i| now.bal[i][j] - was.bal[i][j]).sum();
        let want = match (o.contract, o.f) {
            ("token", "mint") if ok && o.c == *t => amount(1),
            ("token", "burn") if ok && o.c == *t => -amount(1),
            ("token", "burn_from") if ok && o.c == *t => -amount(2),
            ("vesting", "burn") if ok && y.vtok == *t => -amount(1),
            ("vesting", "mint") if ok && y.vtok == *t => amount(1),
            _ if minting && y.f.pools.iter().any(|p| p.p.addr == o.c && p.p.lp == *t) => issued(y, &o.c)? - old.issued.iter().find(|x| x.0 == o.c).map(|x| x.1).unwrap_or(0),
            _ => 0,
        };
        check!(ctx, "W01", total == want, sig("total"), "{} changed the total of asset {} by {} instead of {}", at, j, total, want);
    }
    for (k, fp) in y.f.pools.iter().enumerate() {
        let i = info(&w, &fp.p.addr)?;
        for (t, x) in [(&fp.p.a, i.ra), (&fp.p.b, i.rb)] {
            let have = now.at(&fp.p.addr, t);
            check!(ctx, "W01", x <= have, sig("pool-books"), "after {} pool {} records {} of an asset but holds {}", at, k, x, have);
        }
        let staked: i128 = w.must(&fp.p.stake, "query_total_staked", ())?;
        let have = now.at(&fp.p.stake, &fp.p.lp);
        check!(ctx, "W01", staked <= have, sig("stake-books"), "after {} the staking contract {} records {} shares staked but holds {}", at, k, staked, have);
    }
    if ctx.on("E01") {
        reported(ctx, y, &o, &r, was, now, &evs, &route, &quoted)?;
    }
    if ok {
        *done += 1;
        if let Some(x) = o.sr_user {
            y.sr_users.push(x);
        }
        ctx.label(o.f);
    } else {
        ctx.label("refused");
    }
    Ok(())
}

/// What the pools quote for each leg of a route before it is executed: (amount sold, bought, spread)
fn quote(y: &Sys, o: &Op, route: &[(usize, Address, Address)]) -> std::vec::Vec<(i128, i128, i128)> {
    let w = &y.w;
    let mut v = vec![];
    if route.is_empty() {
        return v;
    }
    let mut x = match (o.contract, o.f) {
        ("multihop", _) => number(&sc(w, o.args.get(3).unwrap())),
        ("trader", _) => number(&sc(w, o.args.get(3).unwrap())),
        _ => number(&sc(w, o.args.get(2).unwrap())),
    };
    for (k, sell, _) in route {
        let Ok(m) = w.call::<Map<Symbol, Val>>(&y.f.pools[*k].p.addr, "simulate_swap", (sell.clone(), x)) else { return vec![] };
        let (Ok(ask), Ok(spread)) = (w.field::<i128>(&m, "ask_amount"), w.field::<i128>(&m, "spread_amount")) else { return vec![] };
        v.push((x, ask, spread));
        x = ask;
    }
    v
}

type Expected = std::vec::Vec<([u8; 32], &'static str, &'static str, ScVal)>;

#[allow(clippy::too_many_arguments)]
fn reported(ctx: &mut Ctx, y: &Sys, o: &Op, r: &Result<Val, CallErr>, was: &Purses, now: &Purses, evs: &[Ev], route: &[(usize, Address, Address)], quoted: &[(i128, i128, i128)]) -> R {
    let w = &y.w;
    let at = format!("{}.{}", o.contract, o.f);
    let sig = |x: &str| format!("{x}-{}-{}", o.contract, o.f);
    if r.is_err() {
        check!(ctx, "E01", evs.is_empty(), sig("refused"), "a refused {} left {} events", at, evs.len());
        return Ok(());
    }
    let d = |who: &Address, t: &Address| now.at(who, t) - was.at(who, t);
    // ---- the token events account for every change of a balance
    let ids: std::vec::Vec<[u8; 32]> = was.assets.iter().map(id_of).collect();
    let mut net: BTreeMap<(usize, ScAddress), i128> = BTreeMap::new();
    let mut approvals: std::vec::Vec<(usize, &Ev)> = vec![];
    for e in evs {
        let Some(j) = ids.iter().position(|x| *x == e.from) else { continue };
        let who = |k: usize| match e.topics.get(k) {
            Some(ScVal::Address(a)) => Some(a.clone()),
            _ => None,
        };
        let x = number(&e.data);
        let kind = text(&e.topics[0]);
        let (from, to) = match kind.as_str() {
            "transfer" => (who(1), who(2)),
            "mint" => (None, who(2)),
            "burn" => (who(1), None),
            "approve" => {
                approvals.push((j, e));
                continue;
            }
            _ => continue,
        };
        check!(ctx, "E01", x >= 0, sig("event-amount"), "{} reports a {} of {}", at, kind, x);
        if let Some(a) = from {
            *net.entry((j, a)).or_insert(0) -= x;
        }
        if let Some(a) = to {
            *net.entry((j, a)).or_insert(0) += x;
        }
    }
    for (i, (n, a)) in was.who.iter().enumerate() {
        for j in 0..was.assets.len() {
            if !was.watched[i][j] {
                continue;
            }
            let moved = now.bal[i][j] - was.bal[i][j];
            let said = net.get(&(j, ScAddress::from(a.clone()))).copied().unwrap_or(0);
            check!(ctx, "E01", moved == said, sig("token-events"), "{} changed what {} holds of asset {} by {}, its events say {}", at, n, j, moved, said);
        }
    }
    if o.f == "approve" {
        let want = [sc(w, o.args.get(0).unwrap()), sc(w, o.args.get(1).unwrap())];
        let data = sc(w, (number(&sc(w, o.args.get(2).unwrap())), u32::try_from_val(&w.env, &o.args.get(3).unwrap()).unwrap()));
        let good = approvals.len() == 1 && was.assets[approvals[0].0] == o.c && approvals[0].1.topics[1..3] == want && approvals[0].1.data == data;
        check!(ctx, "E01", good, sig("approval-event"), "{} is reported as {:?}", at, approvals.iter().map(|x| (&x.1.topics, &x.1.data)).collect::<std::vec::Vec<_>>());
    } else {
        check!(ctx, "E01", approvals.is_empty(), sig("approval-event"), "{} reports an approval", at);
    }
    // ---- what the contracts report
    let mut want: Expected = vec![];
    let addr = |a: &Address| sc(w, a.clone());
    let me = id_of(&o.c);
    let arg = |i: u32| o.args.get(i).unwrap();
    let arg_addr = |i: u32| Address::try_from_val(&w.env, &arg(i)).unwrap();
    let payer = |o: &Op| if o.contract == "trader" { y.trader.clone() } else { arg_addr(0) };
    for (l, (k, sell, buy)) in route.iter().enumerate() {
        let p = &y.f.pools[*k];
        let id = id_of(&p.p.addr);
        let paid_in = d(&p.p.addr, sell);
        let bought = -d(&p.p.addr, buy) - d(&p.p.fee_to, buy);
        want.push((id, "swap", "sender", addr(&payer(o))));
        want.push((id, "swap", "sell_token", addr(sell)));
        want.push((id, "swap", "offer_amount", sc(w, paid_in)));
        want.push((id, "swap", "buy_token", addr(buy)));
        want.push((id, "swap", "return_amount", sc(w, bought)));
        if let Some(q) = quoted.get(l) {
            want.push((id, "swap", "spread_amount", sc(w, q.2)));
        }
        if !p.stable {
            want.push((id, "swap", "actual received amount", sc(w, paid_in)));
            want.push((id, "swap", "referral_fee_amount", sc(w, 0i128)));
        }
        if o.contract == "trader" {
            want.push((me, "Trader: Trade Token", "user: ", addr(&arg_addr(0))));
            want.push((me, "Trader: Trade Token", "offer asset: ", addr(sell)));
            want.push((me, "Trader: Trade Token", "amount received: ", sc(w, d(&y.trader, buy))));
        }
    }
    let pool = y.f.pools.iter().find(|p| p.p.addr == o.c);
    let staked = y.f.pools.iter().find(|p| p.p.stake == o.c);
    match (o.contract, o.f) {
        ("pool" | "pool_stable", "provide_liquidity") => {
            let p = &pool.unwrap().p;
            want.push((me, "provide_liquidity", "sender", addr(&arg_addr(0))));
            want.push((me, "provide_liquidity", "token_a", addr(&p.a)));
            want.push((me, "provide_liquidity", "token_a-amount", sc(w, d(&p.addr, &p.a))));
            want.push((me, "provide_liquidity", "token_b", addr(&p.b)));
            want.push((me, "provide_liquidity", "token_b-amount", sc(w, d(&p.addr, &p.b))));
        }
        ("pool" | "pool_stable", "withdraw_liquidity") => {
            let p = &pool.unwrap().p;
            want.push((me, "withdraw_liquidity", "sender", addr(&arg_addr(0))));
            want.push((me, "withdraw_liquidity", "shares_amount", sc(w, -d(&arg_addr(0), &p.lp))));
            want.push((me, "withdraw_liquidity", "return_amount_a", sc(w, d(&arg_addr(0), &p.a))));
            want.push((me, "withdraw_liquidity", "return_amount_b", sc(w, d(&arg_addr(0), &p.b))));
        }
        ("stake", "bond") | ("stake", "unbond") => {
            let p = &staked.unwrap().p;
            want.push((me, o.f, "user", addr(&arg_addr(0))));
            want.push((me, o.f, "token", addr(&p.lp)));
            want.push((me, o.f, "amount", sc(w, d(&arg_addr(0), &p.lp).abs())));
        }
        ("stake", "create_distribution_flow") => want.push((me, "create_distribution_flow", "asset", addr(&arg_addr(1)))),
        ("stake", "distribute_rewards") => want.push((me, "distribute_rewards", "asset", addr(&arg_addr(2)))),
        ("stake", "withdraw_rewards") => want.push((me, "withdraw_rewards", "user", addr(&arg_addr(0)))),
        ("factory", "create_liquidity_pool") => want.push((me, "create", "liquidity_pool", sc(w, *r.as_ref().unwrap()))),
        ("vesting", "claim") => want.push((me, "Claim", "Claimed tokens: ", sc(w, d(&arg_addr(0), &y.vtok)))),
        ("vesting", "burn") => {
            want.push((me, "Burn", "Burned from: ", addr(&arg_addr(0))));
            want.push((me, "Burn", "Burned tokens: ", sc(w, -d(&arg_addr(0), &y.vtok) as u128)));
        }
        ("vesting", "mint") => {
            want.push((me, "Mint", "sender: ", addr(&arg_addr(0))));
            want.push((me, "Mint", "Minted tokens: ", sc(w, d(&y.vest, &y.vtok))));
        }
        ("vesting", "update_minter") => want.push((me, "Update minter", "Updated minter to: ", addr(&arg_addr(1)))),
        ("vesting", "update_minter_capacity") => want.push((me, "Update minter capacity", "Updated minter capacity to: ", sc(w, arg(1)))),
        ("stake_rewards", "fund_distribution") => {
            let paid = d(&y.sr, &y.sr_tok);
            let (t0, dur) = (number(&sc(w, arg(0))) as u64, number(&sc(w, arg(1))) as u64);
            want.push((me, "fund_reward_distribution", "asset", addr(&y.sr_tok)));
            want.push((me, "fund_reward_distribution", "amount", sc(w, paid)));
            want.push((me, "fund_reward_distribution", "start_time", sc(w, t0)));
            want.push((me, "fund_reward_distribution", "end_time", sc(w, t0 + dur)));
        }
        ("stake_rewards", "add_user") => want.push((me, "stake_rewards", "add_user", addr(&arg_addr(0)))),
        ("stake_rewards", "calculate_bond") => want.push((me, "calculate_bond", "user", addr(&arg_addr(0)))),
        ("stake_rewards", "calculate_unbond") => want.push((me, "calculate_unbond", "user", addr(&arg_addr(0)))),
        _ => {}
    }
    if o.contract == "stake_rewards" && (o.f == "withdraw_rewards" || o.f == "calculate_unbond") {
        let got = d(&arg_addr(0), &y.sr_tok);
        let said = evs.iter().any(|e| e.from == me && text(&e.topics[0]) == "withdraw_rewards" && text(&e.topics[1]) == "user");
        if o.f == "withdraw_rewards" || said {
            want.push((me, "withdraw_rewards", "user", addr(&arg_addr(0))));
        }
        if got > 0 {
            want.push((me, "withdraw_rewards", "reward_token", addr(&y.sr_tok)));
            want.push((me, "withdraw_rewards", "reward_amount", sc(w, got)));
        }
    }
    // compare: everything the contracts said under the topics above, in whatever order
    let known: [&str; 22] = [
        "swap", "provide_liquidity", "withdraw_liquidity", "bond", "unbond", "create_distribution_flow", "distribute_rewards", "withdraw_rewards", "create", "Claim", "Burn", "Mint", "Update minter",
        "Update minter capacity", "fund_reward_distribution", "stake_rewards", "calculate_bond", "calculate_unbond", "Trader: Trade Token", "Initialize", "Trader: Initialize", "initialize",
    ];
    let mut left: std::vec::Vec<([u8; 32], std::string::String, std::string::String, ScVal)> = vec![];
    for e in evs {
        if ids.contains(&e.from) || e.topics.len() != 2 {
            continue;
        }
        let (x, z) = (text(&e.topics[0]), text(&e.topics[1]));
        if known.contains(&x.as_str()) {
            left.push((e.from, x, z, e.data.clone()));
        }
    }
    for (id, x, z, v) in &want {
        match left.iter().position(|e| e.0 == *id && e.1 == *x && e.2 == *z && e.3 == *v) {
            Some(i) => {
                left.remove(i);
            }
            None => {
                let said: std::vec::Vec<_> = left.iter().filter(|e| e.1 == *x && e.2 == *z).map(|e| say(&Ok(e.3.clone()))).collect();
                check!(ctx, "E01", false, sig(&format!("event-{}", z.trim().trim_end_matches(':').replace(' ', "-"))), "{} should report {} {} = {}, it reports {:?}", at, x, z, say(&Ok(v.clone())), said);
            }
        }
    }
    for (_, x, z, v) in &left {
        let fine = match (o.contract, o.f) {
            // assets of the flows the staking contract has, paid or not
            ("stake", "withdraw_rewards") => z == "reward_token",
            // the new pool and staking contract report their initialization
            ("factory", "create_liquidity_pool") => x == "initialize",
            ("stake_rewards", "distribute_rewards") => x == "distribute_rewards",
            _ => quoted.is_empty() && z == "spread_amount",
        };
        check!(ctx, "E01", fine, sig("unfounded-event"), "{} reports {} {} = {} for no reason", at, x, z, say(&Ok(v.clone())));
    }
    if (o.contract, o.f) == ("stake", "withdraw_rewards") {
        let u = arg_addr(0);
        for t in &was.assets {
            let said = left.iter().filter(|e| e.3 == addr(t)).count();
            let got = d(&u, t);
            check!(ctx, "E01", got == 0 || said == 1, sig("event-reward_token"), "a reward of {} is reported {} times", got, said);
        }
    }
    if (o.contract, o.f) == ("stake_rewards", "distribute_rewards") {
        for (_, _, z, v) in &left {
            let good = match z.as_str() {
                "asset" => *v == addr(&y.sr_tok),
                _ => number(v) > 0 && number(v) <= now.at(&y.sr, &y.sr_tok),
            };
            check!(ctx, "E01", good, sig("event-amount"), "{} reports {} = {}", at, z, say(&Ok(v.clone())));
        }
    }
    let _ = was.name(&o.c);
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    vec![
        Prop {
            id: "U01",
            title: "Replacing a contract's code keeps everything it records",
            rule: "a case is two equal worlds of all contracts in use and 6..16 operations done in both, with the code of random contracts of the first replaced in between by code that does the same; non-trivial = a replacement, and two accepted operations after it",
            assumptions: &["the replacing code reads the records the way the current code does"],
            scenarios: vec![Scenario { name: "upgrades", run: upgrades, quick: 160, thorough: 8000 }, Scenario { name: "takeover", run: takeover, quick: 120, thorough: 8000 }],
        },
        Prop {
            id: "Q01",
            title: "Queries need no signature and change nothing",
            rule: "a case is two equal worlds of all contracts in use and 6..16 operations done in both, with random queries asked in the first in between; non-trivial = queries asked, and two accepted operations after them",
            assumptions: &["the lifetime of storage entries is not looked at"],
            scenarios: vec![Scenario { name: "questions", run: asking, quick: 300, thorough: 10000 }],
        },
        Prop {
            id: "W01",
            title: "Across the whole system tokens move only between the parties of an operation",
            rule: "a case is a world of all contracts in use and 6..18 operations on random contracts, with the balances of all accounts and contracts compared before and after each; non-trivial = at least three operations went through",
            assumptions: &["the traded assets and reward tokens are the built-in asset contract's or the repository's own"],
            scenarios: vec![Scenario { name: "system", run: history, quick: 300, thorough: 10000 }],
        },
        Prop {
            id: "E01",
            title: "Events report exactly what happened",
            rule: "a case is a world of all contracts in use and 6..18 operations on random contracts, the events of each compared with the balances that changed; non-trivial = at least three operations went through",
            assumptions: &["the order of the events of one operation does not matter"],
            scenarios: vec![Scenario { name: "system", run: history, quick: 300, thorough: 10000 }],
        },
    ]
}
