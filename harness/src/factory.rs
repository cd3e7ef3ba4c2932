//! F01-F03: the factory's registry, pool creation and portfolios.
use crate::engine::*;
use crate::stable::{gross_range, StableCfg};
use crate::world::*;
use crate::xyk::{b, gen_bps, info, init_info, plan_deposit, share_of, DepositReq, Info, InitParams, Plan, Pool};
use crate::{check, check_any};
use soroban_sdk::{Address, Map, Symbol, TryFromVal, Val, Vec};

pub struct Tok {
    pub addr: Address,
    pub dec: u32,
}

#[derive(Clone)]
pub struct FPool {
    pub p: Pool,
    pub stable: bool,
    pub amp: u64,
    pub dec: [u32; 2],
    pub manager: Address,
    pub min_bond: i128,
    pub min_reward: i128,
    pub complexity: u32,
    pub max_referral: i64,
    /// LP tokens that left users' wallets into the staking contract: (user, amount, time)
    pub stakes: std::vec::Vec<(usize, i128, u64)>,
}

pub struct Fac {
    pub w: W,
    pub addr: Address,
    pub multihop: Address,
    pub admin: Address,
    pub creators: std::vec::Vec<Address>,
    pub allowed: std::vec::Vec<bool>,
    pub lp_dec: u32,
    pub toks: std::vec::Vec<Tok>,
    pub users: std::vec::Vec<Address>,
    pub pools: std::vec::Vec<FPool>,
    pub funds: i128,
}

pub fn deploy(w: &W, admin: &Address, creators: &[Address], lp_dec: u32) -> R<(Address, Address)> {
    let addr = w.deploy("factory");
    let mut wl: Vec<Address> = Vec::new(&w.env);
    for c in creators {
        wl.push_back(c.clone());
    }
    let args = w.vals(&[
        w.val(admin.clone()),
        w.val(w.upload("multihop")),
        w.val(w.upload("pool")),
        w.val(w.upload("pool_stable")),
        w.val(w.upload("stake")),
        w.val(w.upload("token")),
        w.val(wl),
        w.val(lp_dec),
    ]);
    w.must::<()>(&addr, "initialize", args)?;
    let cfg: Map<Symbol, Val> = w.must(&addr, "get_config", ())?;
    let mh: Address = w.field(&cfg, "multihop_address")?;
    Ok((addr, mh))
}

/// tokens in address order
pub fn tokens(w: &W, decs: &[u32]) -> std::vec::Vec<Tok> {
    let mut v: std::vec::Vec<Tok> = decs.iter().map(|d| Tok { addr: crate::stable::make_token(w, *d), dec: *d }).collect();
    v.sort_by(|x, y| x.addr.cmp(&y.addr));
    v
}

pub fn setup(ctx: &mut Ctx, decs: &[u32], n_users: usize, funds: i128) -> R<Fac> {
    setup_with(ctx, decs, n_users, funds, false)
}

/// With `mixed`, more creators than three and people in several roles.
fn setup_with(ctx: &mut Ctx, decs: &[u32], n_users: usize, funds: i128, mixed: bool) -> R<Fac> {
    let w = W::new();
    let s = &mut ctx.src;
    w.epoch(s);
    let admin = w.addr();
    let nc = if mixed && s.bool(1, 8) { 4 + s.below(9) as usize } else { 3 };
    let mut creators: std::vec::Vec<Address> = (0..nc).map(|_| w.addr()).collect();
    let nw = 1 + s.below(nc as u64 - 1) as usize;
    let lp_dec = *s.pick(&[7u32, 7, 6, 18, 0]);
    let toks = tokens(&w, decs);
    let users: std::vec::Vec<Address> = (0..n_users).map(|_| w.addr()).collect();
    if mixed && s.bool(1, 6) {
        creators[0] = users[0].clone();
    }
    if mixed && s.bool(1, 6) {
        creators[nc - 1] = admin.clone();
    }
    let (addr, multihop) = deploy(&w, &admin, &creators[..nw], lp_dec)?;
    for t in &toks {
        for u in &users {
            w.mint(&t.addr, u, funds)?;
        }
    }
    ctx.log(format!("factory: {} of {} creators whitelisted, share tokens with {} decimals, tokens with {:?} decimals", nw, nc, lp_dec, toks.iter().map(|t| t.dec).collect::<std::vec::Vec<_>>()));
    Ok(Fac { w, addr, multihop, admin, allowed: (0..nc).map(|i| i < nw).collect(), creators, lp_dec, toks, users, pools: vec![], funds })
}

pub struct Req {
    pub stable: bool,
    pub amp: Option<u64>,
    pub a: usize,
    pub b: usize,
    pub prm: InitParams,
    pub inner_slip: i64,
    pub min_bond: i128,
    pub min_reward: i128,
    pub complexity: u32,
    pub name: std::string::String,
    pub symbol: std::string::String,
}

pub fn creation_args(f: &Fac, sender: &Address, r: &Req, who: [&Address; 3]) -> Vec<Val> {
    let w = &f.w;
    let mut q = r.prm.clone();
    q.def_slip = r.inner_slip;
    let li = init_info(w, who[0], who[1], &f.toks[r.a].addr, &f.toks[r.b].addr, &q, who[2], r.min_bond, r.min_reward);
    let mut m = Map::<Symbol, Val>::try_from_val(&w.env, &li).unwrap();
    let mut st = Map::<Symbol, Val>::try_from_val(&w.env, &m.get(Symbol::new(&w.env, "stake_init_info")).unwrap()).unwrap();
    st.set(Symbol::new(&w.env, "max_complexity"), w.val(r.complexity));
    m.set(Symbol::new(&w.env, "stake_init_info"), w.val(st));
    w.vals(&[
        w.val(sender.clone()),
        w.val(m),
        w.val(w.str(&r.name)),
        w.val(w.str(&r.symbol)),
        w.val(if r.stable { 1u32 } else { 0u32 }),
        w.val(r.amp),
        w.val(r.prm.def_slip),
        w.val(r.prm.max_fee_bps),
    ])
}

/// Registers the pool the factory returned, reading its satellites' addresses from the pool.
pub fn adopt(f: &Fac, addr: Address, r: &Req, who: [&Address; 3]) -> R<FPool> {
    let w = &f.w;
    let lp: Address = w.must(&addr, "query_share_token_address", ())?;
    let stake: Address = w.must(&addr, "query_stake_contract_address", ())?;
    Ok(FPool {
        p: Pool {
            addr,
            a: f.toks[r.a].addr.clone(),
            b: f.toks[r.b].addr.clone(),
            lp,
            stake,
            admin: who[0].clone(),
            fee_to: who[1].clone(),
            fee_bps: r.prm.fee_bps,
            max_slip: r.prm.max_slip,
            def_slip: if r.stable { r.inner_slip } else { r.prm.def_slip },
            max_spread: r.prm.max_spread,
        },
        stable: r.stable,
        amp: r.amp.unwrap_or(0),
        dec: [f.toks[r.a].dec, f.toks[r.b].dec],
        manager: who[2].clone(),
        min_bond: r.min_bond,
        min_reward: r.min_reward,
        complexity: r.complexity,
        max_referral: r.prm.max_referral,
        stakes: vec![],
    })
}

fn gen_req(s: &mut Src, f: &Fac, calm: bool) -> Req {
    let n = f.toks.len() as u64;
    let (x, y) = (s.below(n) as usize, s.below(n) as usize);
    let free: std::vec::Vec<(usize, usize)> = (0..f.toks.len())
        .flat_map(|x| (x + 1..f.toks.len()).map(move |y| (x, y)))
        .filter(|(x, y)| !f.pools.iter().any(|p| p.p.a == f.toks[*x].addr && p.p.b == f.toks[*y].addr))
        .collect();
    let (a, bb) = match s.weighted(if calm { &[0, 0, 1, 20] } else { &[5, 1, 1, 20] }) {
        3 if !free.is_empty() => *s.pick(&free),
        0 | 3 => {
            let y = if x == y { (x + 1) % n as usize } else { y };
            (x.min(y), x.max(y))
        }
        1 => (x, y),
        _ => (x.max(y), x.min(y)),
    };
    let stable = s.bool(2, 5);
    let amp = match (stable, s.weighted(if calm { &[1] } else { &[10, 1, 1, 1] })) {
        (_, 0) => Some(*s.pick(&[100u64, 6, 1, 1000, 1_000_000])),
        (_, 1) => None,
        (_, 2) => Some(0),
        _ => Some(1_000_001),
    };
    let amp = if stable { amp } else if s.bool(1, 4) { amp } else { None };
    let mut prm = crate::xyk::gen_params(s);
    prm.lp_decimals = f.lp_dec;
    prm.max_referral = gen_bps(s);
    let mut r = Req {
        stable,
        amp,
        a,
        b: bb,
        inner_slip: gen_bps(s),
        prm,
        min_bond: s.logu(1, if calm { 1000 } else { 1_000_000 }),
        min_reward: s.logu(1, 1_000_000),
        complexity: 1 + s.below(20) as u32,
        name: std::string::String::from(*s.pick(&["Pool", "", "A rather long name for a share token"])),
        symbol: std::string::String::from(*s.pick(&["LP", "PHO-XLM"])),
    };
    if s.bool(1, if calm { 20 } else { 3 }) {
        let bad = |s: &mut Src| *s.pick(&[-1i64, 10_001, i64::MIN, i64::MAX]);
        match s.below(10) {
            0 => r.prm.fee_bps = bad(s),
            1 => r.prm.max_fee_bps = bad(s),
            2 => r.prm.max_slip = bad(s),
            3 => r.prm.max_spread = bad(s),
            4 => r.prm.max_referral = bad(s),
            5 => r.prm.def_slip = bad(s),
            6 => r.min_bond = -s.range(0, 5),
            7 => r.min_reward = -s.range(0, 5),
            8 => r.complexity = 0,
            _ => {
                r.prm.max_fee_bps = if s.bool(1, 3) { 0 } else { s.range(0, 9_999) as i64 };
                r.prm.fee_bps = r.prm.max_fee_bps + 1;
            }
        }
    }
    r
}

fn valid(f: &Fac, r: &Req, who: usize) -> Result<(), &'static str> {
    let bps = |x: i64| (0..=10_000).contains(&x);
    if !f.allowed[who] {
        return Err("not whitelisted");
    }
    if f.toks[r.a].addr >= f.toks[r.b].addr {
        return Err("token order");
    }
    if f.pools.iter().any(|p| p.p.a == f.toks[r.a].addr && p.p.b == f.toks[r.b].addr) {
        return Err("pair exists");
    }
    if r.min_bond <= 0 || r.min_reward <= 0 {
        return Err("minimum");
    }
    if r.complexity == 0 {
        return Err("complexity");
    }
    let p = &r.prm;
    if ![p.fee_bps, p.max_fee_bps, p.max_slip, p.max_spread, p.max_referral, p.def_slip].iter().all(|x| bps(*x)) {
        return Err("bps");
    }
    if p.fee_bps > p.max_fee_bps {
        return Err("fee above maximum");
    }
    if r.stable && !matches!(r.amp, Some(1..=1_000_000)) {
        return Err("amplification");
    }
    Ok(())
}

fn create(ctx: &mut Ctx, f: &mut Fac) -> R {
    let who_i = if ctx.src.bool(1, if ctx.prop == "F03" { 30 } else { 6 }) { ctx.src.below(f.creators.len() as u64) as usize } else { (0..f.creators.len()).rev().find(|i| f.allowed[*i]).unwrap_or(0) };
    // portfolios need pools more than refusals
    let calm = ctx.prop == "F03";
    let r = gen_req(&mut ctx.src, f, calm);
    let w = f.w.clone();
    let (mut pa, mut ft, mut mg) = (w.addr(), w.addr(), w.addr());
    let sender = f.creators[who_i].clone();
    if ctx.src.bool(1, 4) {
        // the people named in the request may be each other, the creator or a user
        for x in [&mut pa, &mut ft, &mut mg] {
            match ctx.src.weighted(&[3, 1, 1]) {
                1 => *x = sender.clone(),
                2 => *x = f.users[0].clone(),
                _ => {}
            }
        }
    }
    ctx.log(format!("create by {} stable={} amp={:?} tokens {},{} {:?} inner_slip={} min_bond={} min_reward={} complexity={}", who_i, r.stable, r.amp, r.a, r.b, r.prm, r.inner_slip, r.min_bond, r.min_reward, r.complexity));
    let args = creation_args(f, &sender, &r, [&pa, &ft, &mg]);
    let ok = valid(f, &r, who_i);
    let res = w.call_signed::<Address>(&[sender], &f.addr, "create_liquidity_pool", args);
    match (&ok, &res) {
        (Ok(_), Err(e)) => check_any!(ctx, ["F01", "F02"], false, "creation-refused", "a valid pool creation was refused: {:?}", e),
        (Err(e), Ok(_)) => check_any!(ctx, ["F01", "F02"], false, "creation-accepted", "a pool was created although: {}", e),
        _ => {}
    }
    let Ok(addr) = res else {
        ctx.label("creation-refused");
        return Ok(());
    };
    ctx.label(if r.stable { "created-stable" } else { "created-xyk" });
    let p = adopt(f, addr, &r, [&pa, &ft, &mg])?;
    if ctx.on("F02") {
        faithful(ctx, f, &p, &r)?;
    }
    f.pools.push(p);
    if ctx.on("F02") {
        behaves(ctx, f)?;
    }
    if ctx.prop == "F03" && ctx.src.bool(3, 4) {
        let ui = ctx.src.below(f.users.len() as u64) as usize;
        let x = ctx.src.logu(1_000_000, 1_000_000_000_000_000);
        ctx.log(format!("user{} deposits {},{} in it", ui, x, x));
        let r = deposit(f, f.pools.len() - 1, ui, [x, x]);
        ctx.label(if r.is_ok() { "deposit" } else { "deposit-refused" });
    }
    Ok(())
}

/// The created contracts report exactly what was requested.
fn faithful(ctx: &Ctx, f: &Fac, p: &FPool, r: &Req) -> R {
    let w = &f.w;
    let c: Map<Symbol, Val> = w.must(&p.p.addr, "query_config", ())?;
    let adr = |k: &str, x: &Address| -> R { if w.field::<Address>(&c, k)? == *x { Ok(()) } else { fail(format!("config-{k}"), format!("the pool's {k} is not the requested one")) } };
    adr("token_a", &p.p.a)?;
    adr("token_b", &p.p.b)?;
    adr("share_token", &p.p.lp)?;
    adr("stake_contract", &p.p.stake)?;
    adr("fee_recipient", &p.p.fee_to)?;
    let num = |k: &str, x: i64| -> R {
        let v = w.field::<i64>(&c, k)?;
        if v == x {
            Ok(())
        } else {
            fail(format!("config-{k}"), format!("the pool's {k} is {v}, requested {x}"))
        }
    };
    num("total_fee_bps", r.prm.fee_bps)?;
    num("max_allowed_slippage_bps", r.prm.max_slip)?;
    num("max_allowed_spread_bps", r.prm.max_spread)?;
    if r.stable {
        num("default_slippage_bps", r.inner_slip)?;
    } else {
        num("max_referral_bps", r.prm.max_referral)?;
    }
    let kind: u32 = w.field(&c, "pool_type")?;
    check!(ctx, "F02", kind == r.stable as u32, "config-pool-type", "a stable={} pool reports type {}", r.stable, kind);
    let i = info(w, &p.p.addr)?;
    check!(ctx, "F02", i == Info { ra: 0, rb: 0, t: 0 }, "not-empty", "a new pool reports {:?}", i);
    // share token
    let dec: u32 = w.must(&p.p.lp, "decimals", ())?;
    let want = if r.stable { p.dec[0].max(p.dec[1]) } else { f.lp_dec };
    check!(ctx, "F02", dec == want, "share-decimals", "the share token has {} decimals, must have {}", dec, want);
    let nm: soroban_sdk::String = w.must(&p.p.lp, "name", ())?;
    let sy: soroban_sdk::String = w.must(&p.p.lp, "symbol", ())?;
    check!(ctx, "F02", nm == w.str(&r.name) && sy == w.str(&r.symbol), "share-name", "the share token is named {:?} {:?}, requested {} {}", nm, sy, r.name, r.symbol);
    for a in [&p.p.admin, &f.admin, &f.creators[0], &p.manager] {
        let m = w.call_signed::<()>(&[a.clone()], &p.p.lp, "mint", (f.users[0].clone(), 1i128));
        check!(ctx, "F02", m.is_err(), "share-admin", "someone other than the pool could mint share tokens");
    }
    // staking contract
    let sc: Map<Symbol, Val> = w.must(&p.p.stake, "query_config", ())?;
    let sc: Map<Symbol, Val> = w.field(&sc, "config")?;
    let a = |k: &str| w.field::<Address>(&sc, k);
    check!(ctx, "F02", a("lp_token")? == p.p.lp, "stake-token", "the staking contract stakes another token");
    check!(ctx, "F02", a("manager")? == p.manager, "stake-manager", "the staking contract has another manager");
    check!(ctx, "F02", a("owner")? == f.addr, "stake-owner", "the staking contract's owner is not the factory");
    let (mb, mr): (i128, i128) = (w.field(&sc, "min_bond")?, w.field(&sc, "min_reward")?);
    check!(ctx, "F02", mb == r.min_bond && mr == r.min_reward, "stake-minima", "minimum bond {} and reward {}, requested {} and {}", mb, mr, r.min_bond, r.min_reward);
    let mc: u32 = w.field(&sc, "max_complexity")?;
    check!(ctx, "F02", mc == r.complexity, "stake-complexity", "complexity limit {}, requested {}", mc, r.complexity);
    let sa: Address = w.must(&p.p.stake, "query_admin", ())?;
    check!(ctx, "F02", sa == p.p.admin, "stake-admin", "the staking contract has another admin");
    // the admin, and only it, governs the pool
    let keep = |who: &Address| {
        let none: Val = w.val(());
        if r.stable {
            w.call_signed::<()>(&[who.clone()], &p.p.addr, "update_config", w.vals(&[w.val(who.clone()), none, none, none, none, none]))
        } else {
            w.call_signed::<()>(&[who.clone()], &p.p.addr, "update_config", w.vals(&[none; 6]))
        }
    };
    check!(ctx, "F02", keep(&p.p.admin).is_ok(), "pool-admin", "the requested admin cannot administer the pool");
    check!(ctx, "F02", [&f.admin, &f.creators[0]].iter().all(|x| **x == p.p.admin || keep(x).is_err()), "pool-admin", "someone other than the requested admin can administer the pool");
    Ok(())
}

/// Parameters that no query reports (default slippage, amplification) show in what the pool does.
fn behaves(ctx: &mut Ctx, f: &mut Fac) -> R {
    let k = f.pools.len() - 1;
    let x = if f.pools[k].dec[0].max(f.pools[k].dec[1]) > 9 { 10_000_000_000 } else { 1_000_000_000 };
    let q = if f.pools[k].stable { [x * 10i128.pow(f.pools[k].dec[0]) / 1_000_000_000, x * 10i128.pow(f.pools[k].dec[1]) / 1_000_000_000] } else { [x, x] };
    let r = deposit(f, k, 0, q);
    check!(ctx, "F02", r.is_ok(), "new-pool-refuses-deposit", "a first deposit of {:?} was refused by a new pool: {:?}", q, r);
    let w = f.w.clone();
    let p = f.pools[k].clone();
    let i = info(&w, &p.p.addr)?;
    if p.stable {
        let a_to_b = ctx.src.bool(1, 2);
        let off = if a_to_b { i.ra } else { i.rb };
        let amt = off / 2 + ctx.src.range(0, off / 2);
        let asset = if a_to_b { p.p.a.clone() } else { p.p.b.clone() };
        let s: Map<Symbol, Val> = w.must(&p.p.addr, "simulate_swap", (asset, amt))?;
        let gross = w.field::<i128>(&s, "ask_amount")? + w.field::<i128>(&s, "commission_amount")?;
        let (lo, hi) = gross_range(&StableCfg { dec: p.dec, amp: p.amp as i128 }, &i, a_to_b, amt);
        check!(ctx, "F02", gross >= lo && gross <= hi, "amplification", "a quote of {} in a new stable pool gives {}, at the requested amplification {} it must be in {}..{}", amt, gross, p.amp, lo, hi);
    } else {
        // the excess of b over the pool's ratio sits at the edge of the default tolerance
        let db = i.rb / 10 * (10_000 + p.p.def_slip as i128 + ctx.src.range(-2, 2)) / 10_000 + ctx.src.range(-1, 1);
        let rq = DepositReq { da: Some(i.ra / 10), db: Some(db), ma: None, mb: None, slip: None, deadline: None };
        let plan = plan_deposit(&p.p, &i, w.now(), i.ra, i.rb, f.funds / 2, f.funds / 2, &rq);
        let u = f.users[0].clone();
        let none: Val = w.val(());
        let res = w.call::<()>(&p.p.addr, "provide_liquidity", w.vals(&[w.val(u), w.val(rq.da), none, w.val(rq.db), none, none, none]));
        match plan {
            Plan::Yes(_) => check!(ctx, "F02", res.is_ok(), "default-slippage", "a deposit of {:?}/{:?} within the requested default slippage of {} bps was refused: {:?}", rq.da, rq.db, p.p.def_slip, res),
            Plan::No(e) => check!(ctx, "F02", res.is_err(), "default-slippage", "a deposit of {:?}/{:?} was accepted although: {} (default slippage {} bps)", rq.da, rq.db, e, p.p.def_slip),
            _ => {}
        }
        ctx.label(if res.is_ok() { "slippage-ok" } else { "slippage-refused" });
    }
    Ok(())
}

/// A plain deposit with the widest limits.
pub fn deposit(f: &Fac, k: usize, ui: usize, amt: [i128; 2]) -> Result<(), CallErr> {
    let w = &f.w;
    let p = &f.pools[k];
    let none: Val = w.val(());
    let u = w.val(f.users[ui].clone());
    let args = if p.stable {
        w.vals(&[u, w.val(amt[0]), w.val(amt[1]), w.val(Some(p.p.max_slip)), none, none])
    } else {
        w.vals(&[u, w.val(Some(amt[0])), none, w.val(Some(amt[1])), none, w.val(Some(p.p.max_slip)), none])
    };
    w.call::<()>(&p.p.addr, "provide_liquidity", args)
}

pub fn history(ctx: &mut Ctx) -> R {
    let decs: &[u32] = *ctx.src.pick(&[&[7u32, 7, 7, 7][..], &[7, 7, 6, 18, 7], &[7, 7, 7], &[6, 7]]);
    let funds = 1_000_000_000_000_000_000_000_000_000;
    let many = ctx.src.bool(1, 20);
    let decs: &[u32] = if many { &[7, 7, 6, 7, 18, 7, 7] } else { decs };
    let nu = if ctx.src.bool(1, 8) { 4 + ctx.src.below(4) as usize } else { 3 };
    let mut f = setup_with(ctx, decs, nu, funds, true)?;
    let n = if many { ctx.steps(15, 30) } else { ctx.steps(5, 20) };
    let mut staked = false;
    for k in 0..n {
        ctx.src.begin();
        let kind = if k == 0 || f.pools.is_empty() { 0 } else { ctx.src.weighted(if ctx.prop == "F03" { &[4, 1, 5, 2, 2, 6, 3] } else { &[8, 2, 3, 1, 2, 1, 1] }) };
        let r = match kind {
            0 => create(ctx, &mut f),
            1 => whitelist(ctx, &mut f),
            2 => {
                let i = ctx.src.below(f.pools.len() as u64) as usize;
                let ui = ctx.src.below(f.users.len() as u64) as usize;
                let x = ctx.src.logu(1_000, 1_000_000_000_000_000);
                let y = if ctx.src.bool(2, 3) { x } else { ctx.src.logu(1_000, 1_000_000_000_000_000) };
                ctx.log(format!("user{} deposits {},{} in pool {}", ui, x, y, i));
                let r = deposit(&f, i, ui, [x, y]);
                ctx.label(if r.is_ok() { "deposit" } else { "deposit-refused" });
                Ok(())
            }
            3 => {
                let i = ctx.src.below(f.pools.len() as u64) as usize;
                let ui = ctx.src.below(f.users.len() as u64) as usize;
                let u = f.users[ui].clone();
                let have = f.w.bal(&f.pools[i].p.lp, &u);
                let x = if ctx.src.bool(1, 2) { have } else { ctx.src.logu(1, have.max(1)) };
                ctx.log(format!("user{} withdraws {} shares from pool {}", ui, x, i));
                let none: Val = f.w.val(());
                let _ = f.w.call::<(i128, i128)>(&f.pools[i].p.addr, "withdraw_liquidity", f.w.vals(&[f.w.val(u), f.w.val(x), f.w.val(1i128), f.w.val(1i128), none]));
                Ok(())
            }
            4 => {
                let i = ctx.src.below(f.pools.len() as u64) as usize;
                let ui = ctx.src.below(f.users.len() as u64) as usize;
                let off = if ctx.src.bool(1, 2) { f.pools[i].p.a.clone() } else { f.pools[i].p.b.clone() };
                let x = ctx.src.logu(1, 1_000_000_000_000_000);
                ctx.log(format!("user{} swaps {} in pool {}", ui, x, i));
                let none: Val = f.w.val(());
                let args = f.w.vals(&[f.w.val(f.users[ui].clone()), f.w.val(off), f.w.val(x), none, none, none, none]);
                let _ = f.w.call::<i128>(&f.pools[i].p.addr, "swap", args);
                Ok(())
            }
            5 => bond(ctx, &mut f),
            _ => unbond(ctx, &mut f),
        };
        staked |= f.pools.iter().any(|p| !p.stakes.is_empty());
        if ctx.src.bool(1, 4) {
            let d = ctx.src.below(200_000);
            f.w.pass(d);
        }
        let r = r.and_then(|_| registry(ctx, &f)).and_then(|_| portfolios(ctx, &f));
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = match ctx.prop {
        "F03" => staked,
        "F01" => f.pools.len() >= 2,
        _ => !f.pools.is_empty(),
    };
    if ctx.on("F02") {
        // the pool itself is what may mint its share token
        for p in &f.pools {
            f.w.must::<()>(&p.p.lp, "mint", (f.users[0].clone(), 1i128))?;
            let s = f.w.auth_signers();
            check!(ctx, "F02", s == vec![p.p.addr.clone()], "share-admin", "the share token asks someone other than its pool for permission to mint");
        }
        let mh: Map<Symbol, Val> = f.w.must(&f.addr, "get_config", ())?;
        let m: Address = f.w.field(&mh, "multihop_address")?;
        check!(ctx, "F02", m == f.multihop, "multihop", "the factory's router changed");
    }
    Ok(())
}

fn whitelist(ctx: &mut Ctx, f: &mut Fac) -> R {
    let s = &mut ctx.src;
    let by_admin = s.bool(3, 4);
    let mut add = vec![];
    let mut rem = vec![];
    for i in 0..f.creators.len() {
        if s.bool(1, 3) {
            add.push(i);
            if s.bool(1, 10) {
                add.push(i);
            }
        }
        if s.bool(1, 4) {
            rem.push(i);
        }
    }
    let w = f.w.clone();
    let who = if by_admin { f.admin.clone() } else { f.creators[0].clone() };
    let list = |v: &[usize]| {
        let mut l: Vec<Address> = Vec::new(&w.env);
        for i in v {
            l.push_back(f.creators[*i].clone());
        }
        l
    };
    ctx.log(format!("update whitelist by admin {}: add {:?} remove {:?}", by_admin, add, rem));
    let r = w.call_signed::<()>(&[who.clone()], &f.addr, "update_whitelisted_accounts", (who.clone(), list(&add), list(&rem)));
    check!(ctx, "F02", r.is_ok() == by_admin, "whitelist", "a whitelist update by the admin: {} gave {:?}", by_admin, r);
    if r.is_ok() {
        for i in add {
            f.allowed[i] = true;
        }
        for i in rem {
            f.allowed[i] = false;
        }
        ctx.label("whitelist");
    }
    Ok(())
}

fn bond(ctx: &mut Ctx, f: &mut Fac) -> R {
    let i = ctx.src.below(f.pools.len() as u64) as usize;
    let mut ui = ctx.src.below(f.users.len() as u64) as usize;
    let w = f.w.clone();
    if w.bal(&f.pools[i].p.lp, &f.users[ui]) == 0 {
        ui = (0..f.users.len()).find(|j| w.bal(&f.pools[i].p.lp, &f.users[*j]) > 0).unwrap_or(ui);
    }
    let have = w.bal(&f.pools[i].p.lp, &f.users[ui]);
    let amt = if ctx.src.bool(1, 4) { have } else { ctx.src.logu(1, have.max(1)) };
    ctx.log(format!("user{} stakes {} shares of pool {}", ui, amt, i));
    let r = w.call::<()>(&f.pools[i].p.stake, "bond", (f.users[ui].clone(), amt));
    if r.is_ok() {
        let now = w.now();
        f.pools[i].stakes.push((ui, amt, now));
        ctx.label("bond");
    }
    Ok(())
}

fn unbond(ctx: &mut Ctx, f: &mut Fac) -> R {
    let all: std::vec::Vec<(usize, usize)> = f.pools.iter().enumerate().flat_map(|(i, p)| (0..p.stakes.len()).map(move |j| (i, j))).collect();
    if all.is_empty() {
        return Ok(());
    }
    let (i, j) = *ctx.src.pick(&all);
    let (ui, amt, at) = f.pools[i].stakes[j];
    ctx.log(format!("user{} unstakes {} shares of pool {}", ui, amt, i));
    f.w.must::<()>(&f.pools[i].p.stake, "unbond", (f.users[ui].clone(), amt, at))?;
    // the first recorded stake equal to it goes
    let pos = f.pools[i].stakes.iter().position(|s| *s == (ui, amt, at)).unwrap();
    f.pools[i].stakes.remove(pos);
    ctx.label("unbond");
    Ok(())
}

fn details(w: &W, m: &Map<Symbol, Val>) -> R<(Address, [(Address, i128); 3], Address, i64)> {
    let pr: Map<Symbol, Val> = w.field(m, "pool_response")?;
    let asset = |k: &str| -> R<(Address, i128)> {
        let a: Map<Symbol, Val> = w.field(&pr, k)?;
        Ok((w.field(&a, "address")?, w.field(&a, "amount")?))
    };
    Ok((w.field(m, "pool_address")?, [asset("asset_a")?, asset("asset_b")?, asset("asset_lp_share")?], w.field(&pr, "stake_address")?, w.field(m, "total_fee_bps")?))
}

fn registry(ctx: &Ctx, f: &Fac) -> R {
    if !ctx.on("F01") && !ctx.on("F02") {
        return Ok(());
    }
    let w = &f.w;
    let list: Vec<Address> = w.must(&f.addr, "query_pools", ())?;
    check_any!(ctx, ["F01", "F02"], list.len() as usize == f.pools.len(), "pool-list", "{} pools created, {} listed", f.pools.len(), list.len());
    for (x, p) in list.iter().zip(f.pools.iter()) {
        check_any!(ctx, ["F01"], x == p.p.addr, "pool-list", "the pool list differs from the pools created, in order");
    }
    if !ctx.on("F01") {
        return Ok(());
    }
    for x in 0..f.toks.len() {
        for y in 0..f.toks.len() {
            let (tx, ty) = (&f.toks[x].addr, &f.toks[y].addr);
            let exp = f.pools.iter().find(|p| (p.p.a == *tx && p.p.b == *ty) || (p.p.a == *ty && p.p.b == *tx));
            let r = w.call::<Address>(&f.addr, "query_for_pool_by_token_pair", (tx.clone(), ty.clone()));
            let ok = match (&r, exp) {
                (Ok(a), Some(p)) => *a == p.p.addr,
                (Err(_), None) => true,
                _ => false,
            };
            check!(ctx, "F01", ok, "pair-lookup", "looking up tokens {} and {} (has a pool: {}) gave {:?}", x, y, exp.is_some(), r.is_ok());
        }
    }
    let all: Vec<Val> = w.must(&f.addr, "query_all_pools_details", ())?;
    check!(ctx, "F01", all.len() as usize == f.pools.len(), "details-count", "details of {} pools reported for {} pools", all.len(), f.pools.len());
    for (k, p) in f.pools.iter().enumerate() {
        let one = details(w, &w.must(&f.addr, "query_pool_details", (p.p.addr.clone(),))?)?;
        let from_all = details(w, &w.to_map(all.get(k as u32).unwrap())?)?;
        check!(ctx, "F01", one == from_all, "details-differ", "pool {}'s details differ between the two queries", k);
        let (addr, [a, bb, l], st, fee) = one;
        check!(ctx, "F01", addr == p.p.addr && a.0 == p.p.a && bb.0 == p.p.b && l.0 == p.p.lp && st == p.p.stake, "details-addresses", "pool {}'s details name other contracts", k);
        let (ra, rb) = (w.bal(&p.p.a, &p.p.addr), w.bal(&p.p.b, &p.p.addr));
        let mut supply = b(w.bal(&p.p.lp, &p.p.addr)) + w.bal(&p.p.lp, &p.p.stake);
        for u in &f.users {
            supply += w.bal(&p.p.lp, u);
        }
        // a stable pool keeps its locked minimum out of the token's supply
        let i = info(w, &p.p.addr)?;
        let shares = if p.stable { b(l.1) == b(i.t) } else { b(l.1) == supply && l.1 == i.t };
        check!(ctx, "F01", a.1 == ra && bb.1 == rb && shares, "details-amounts", "pool {} holds {} and {} with {} shares, details report {}, {}, {}", k, ra, rb, supply, a.1, bb.1, l.1);
        check!(ctx, "F01", fee == p.p.fee_bps, "details-fee", "pool {}'s fee is {}, reported {}", k, p.p.fee_bps, fee);
    }
    Ok(())
}

fn beyond(f: &Fac, p: &FPool, ui: usize) -> bool {
    let held = f.w.bal(&p.p.lp, &f.users[ui]) + p.stakes.iter().filter(|s| s.0 == ui).map(|s| s.1).sum::<i128>();
    match info(&f.w, &p.p.addr) {
        Ok(i) => i.t > 0 && !share_of(&i, held).2,
        Err(_) => true,
    }
}

fn portfolios(ctx: &Ctx, f: &Fac) -> R {
    if !ctx.on("F03") {
        return Ok(());
    }
    let w = &f.w;
    for (ui, u) in f.users.iter().enumerate() {
        for staking in [false, true] {
            let r = w.call::<Map<Symbol, Val>>(&f.addr, "query_user_portfolio", (u.clone(), staking));
            let r = match r {
                Ok(r) => r,
                // shares beyond the 128-bit working range have no quote
                Err(_) if f.pools.iter().any(|p| beyond(f, p, ui)) => return Ok(()),
                Err(e) => return fail("portfolio-unavailable", format!("user{ui}'s portfolio (staking {staking}) is not available: {e:?}")),
            };
            let lp: Vec<Val> = w.field(&r, "lp_portfolio")?;
            let st: Vec<Val> = w.field(&r, "stake_portfolio")?;
            let (mut k, mut j) = (0u32, 0u32);
            for (pi, p) in f.pools.iter().enumerate() {
                let mine: std::vec::Vec<(i128, u64)> = p.stakes.iter().filter(|s| s.0 == ui).map(|s| (s.1, s.2)).collect();
                let held = w.bal(&p.p.lp, u) + mine.iter().map(|s| s.0).sum::<i128>();
                if held > 0 {
                    let Some(e) = lp.get(k) else { return fail("portfolio-missing", format!("user{ui} holds {held} shares of pool {pi}, which its portfolio does not list")) };
                    k += 1;
                    let e = w.to_map(e)?;
                    let t: (Val, Val) = w.field(&e, "assets")?;
                    let (x, y) = (w.to_map(t.0)?, w.to_map(t.1)?);
                    let (xa, xv, ya, yv): (Address, i128, Address, i128) = (w.field(&x, "address")?, w.field(&x, "amount")?, w.field(&y, "address")?, w.field(&y, "amount")?);
                    let i = info(w, &p.p.addr)?;
                    let (ea, eb, _) = share_of(&i, held);
                    check!(ctx, "F03", xa == p.p.a && ya == p.p.b, "portfolio-order", "user{}'s portfolio entry {} is not for pool {}", ui, k - 1, pi);
                    check!(ctx, "F03", xv == ea && yv == eb, "portfolio-amount", "user{} holds {} of the {} shares of pool {} ({}, {}), worth {} and {}; the portfolio says {} and {}", ui, held, i.t, pi, i.ra, i.rb, ea, eb, xv, yv);
                }
                if staking && !mine.is_empty() {
                    let Some(e) = st.get(j) else { return fail("stake-missing", format!("user{ui}'s stakes in pool {pi} are not in its portfolio")) };
                    j += 1;
                    let e = w.to_map(e)?;
                    let c: Address = w.field(&e, "staking_contract")?;
                    check!(ctx, "F03", c == p.p.stake, "stake-contract", "user{}'s stake entry is not for pool {}", ui, pi);
                    let l: Vec<Val> = w.field(&e, "stakes")?;
                    let mut got = vec![];
                    for s in l.iter() {
                        let s = w.to_map(s)?;
                        got.push((w.field::<i128>(&s, "stake")?, w.field::<u64>(&s, "stake_timestamp")?));
                    }
                    let (mut x, mut y) = (got, mine);
                    x.sort();
                    y.sort();
                    check!(ctx, "F03", x == y, "stakes", "user{} has the stakes {:?} in pool {}, reported {:?}", ui, y, pi, x);
                }
            }
            check!(ctx, "F03", lp.len() == k && st.len() == j, "portfolio-extra", "user{}'s portfolio lists {} pools and {} stakings, must list {} and {}", ui, lp.len(), st.len(), k, j);
        }
    }
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    const A: &[&str] = &["tokens are the built-in asset or the repository's token; pools stay within the 128-bit working range"];
    let rule = "a case is a factory with up to 5 tokens of various decimals and 5..20 pool creations of both types (valid or broken in one way, by whitelisted accounts or not, pairs repeated, reversed or equal), whitelist updates, deposits, withdrawals, swaps, stakings and unstakings; non-trivial = a pool was created (F01: at least two; F03: someone had a stake)";
    [("F01", "The factory's registry is exact"), ("F02", "Pool creation is gated and passes parameters faithfully"), ("F03", "User portfolios report exactly the user's positions")]
        .into_iter()
        .map(|(id, title)| Prop { id, title, rule, assumptions: A, scenarios: vec![Scenario { name: "factory-history", run: history, quick: if id == "F03" { 500 } else { 800 }, thorough: 20000 }] })
        .collect()
}
