//! A01: every entry point of every contract, run with and without the signatures it needs.
use crate::check;
use crate::engine::*;
use crate::factory::{creation_args, deposit, Fac, Req};
use crate::vesting::Cv;
use crate::world::*;
use crate::xyk::{b, info, InitParams};
use soroban_sdk::testutils::{AuthorizedFunction, AuthorizedInvocation};
use soroban_sdk::{Address, Symbol, Val, Vec};

pub struct Sys {
    pub w: W,
    pub f: Fac,
    pub out: Address,
    pub vest: Address,
    pub vtok: Address,
    pub vest_admin: Address,
    pub minter: Address,
    pub trader: Address,
    pub trader_admin: Address,
    pub sr: Address,
    pub sr_tok: Address,
    pub sr_admin: Address,
    pub staking: Address,
    pub tok: Address,
    pub tok_admin: Address,
    pub intruder: Address,
    /// users known to the rewards contract
    pub sr_users: std::vec::Vec<(usize, i128)>,
}

const FUNDS: i128 = 1_000_000_000_000_000_000;

impl Sys {
    pub fn user(&self, s: &mut Src) -> Address {
        s.pick(&self.f.users).clone()
    }
    pub fn people(&self) -> std::vec::Vec<(&'static str, Address)> {
        let mut v: std::vec::Vec<(&'static str, Address)> = vec![
            ("vesting admin", self.vest_admin.clone()),
            ("minter", self.minter.clone()),
            ("trader admin", self.trader_admin.clone()),
            ("rewards admin", self.sr_admin.clone()),
            ("staking contract", self.staking.clone()),
            ("token admin", self.tok_admin.clone()),
            ("factory admin", self.f.admin.clone()),
            ("intruder", self.intruder.clone()),
        ];
        for u in &self.f.users {
            v.push(("user", u.clone()));
        }
        for c in &self.f.creators {
            v.push(("creator", c.clone()));
        }
        for p in &self.f.pools {
            v.push(("pool admin", p.p.admin.clone()));
            v.push(("fee recipient", p.p.fee_to.clone()));
            v.push(("pool manager", p.manager.clone()));
        }
        v
    }
    pub fn name(&self, a: &Address) -> &'static str {
        self.people().into_iter().find(|(_, x)| x == a).map(|(n, _)| n).unwrap_or("someone else")
    }
    pub fn assets(&self) -> std::vec::Vec<Address> {
        let mut v: std::vec::Vec<Address> = self.f.toks.iter().map(|t| t.addr.clone()).collect();
        for p in &self.f.pools {
            v.push(p.p.lp.clone());
        }
        v.extend([self.vtok.clone(), self.sr_tok.clone(), self.tok.clone()]);
        v
    }
    fn purse(&self, who: &Address) -> std::vec::Vec<i128> {
        self.assets().iter().map(|t| self.w.bal(t, who)).collect()
    }
}

fn params(s: &mut Src) -> InitParams {
    InitParams {
        fee_bps: s.range(0, 500) as i64,
        max_fee_bps: 1000,
        max_slip: 5000,
        def_slip: 1000,
        max_spread: 5000,
        max_referral: 500,
        lp_decimals: 7,
    }
}

fn request(s: &mut Src, stable: bool, a: usize, bb: usize) -> Req {
    Req {
        stable,
        amp: if stable { Some(100) } else { None },
        a,
        b: bb,
        prm: params(s),
        inner_slip: 1000,
        min_bond: 10,
        min_reward: 5,
        complexity: 10,
        name: "Pool".into(),
        symbol: "LP".into(),
    }
}

pub fn setup(ctx: &mut Ctx) -> R<Sys> {
    setup_with(ctx, &[7, 7, 7], &[(0, 1), (1, 2)])
}

/// Every contract deployed, connected and in use; the pools are constant-product and stable in turn.
pub fn setup_with(ctx: &mut Ctx, decs: &[u32], pairs: &[(usize, usize)]) -> R<Sys> {
    let mut f = crate::factory::setup(ctx, decs, 3, FUNDS)?;
    let w = f.w.clone();
    let creator = f.creators[0].clone();
    for (k, (a, bb)) in pairs.iter().copied().enumerate() {
        let r = request(&mut ctx.src, k % 2 == 1, a, bb);
        let (pa, ft, mg) = (w.addr(), w.addr(), w.addr());
        let args = creation_args(&f, &creator, &r, [&pa, &ft, &mg]);
        let addr: Address = w.must(&f.addr, "create_liquidity_pool", args)?;
        let p = crate::factory::adopt(&f, addr, &r, [&pa, &ft, &mg])?;
        w.mint(&f.toks[0].addr, &mg, FUNDS)?;
        w.must::<()>(&p.p.stake, "create_distribution_flow", (mg.clone(), f.toks[0].addr.clone()))?;
        f.pools.push(p);
        for u in 0..2 {
            let x = ctx.src.logu(1_000_000_000, 1_000_000_000_000);
            if let Err(e) = deposit(&f, k, u, [x, x]) {
                return fail("setup", format!("a first deposit was refused: {e:?}"));
            }
        }
    }
    let (vest_admin, minter, trader_admin, sr_admin, staking, tok_admin, intruder) = (w.addr(), w.addr(), w.addr(), w.addr(), w.addr(), w.addr(), w.addr());
    let vtok = w.token(&vest_admin, 6);
    w.mint(&vtok, &vest_admin, FUNDS)?;
    w.mint(&vtok, &minter, FUNDS)?;
    let vest = w.deploy("vesting");
    w.must::<()>(&vtok, "set_admin", (vest.clone(),))?;
    let vi = w.record(&[("name", w.val(w.str("Token"))), ("symbol", w.val(w.str("TOK"))), ("decimals", w.val(6u32)), ("address", w.val(vtok.clone()))]);
    let mi = w.record(&[("address", w.val(minter.clone())), ("mint_capacity", w.val(FUNDS as u128))]);
    w.must::<()>(&vest, "initialize_with_minter", (vest_admin.clone(), vi, 10u32, mi))?;
    let trader = w.deploy("trader");
    let p0 = &f.pools[0].p;
    w.must::<()>(&trader, "initialize", (trader_admin.clone(), w.str("trader"), (p0.a.clone(), f.toks[2].addr.clone()), p0.b.clone()))?;
    for t in &f.toks {
        w.mint(&t.addr, &trader, 1_000_000_000)?;
        w.mint(&t.addr, &intruder, FUNDS)?;
    }
    let sr_tok = w.sac();
    w.mint_sac(&sr_tok, &sr_admin, FUNDS);
    let sr = w.deploy("stake_rewards");
    w.must::<()>(&sr, "initialize", (sr_admin.clone(), staking.clone(), sr_tok.clone(), 20u32, 5i128, 10i128))?;
    let tok = w.token(&tok_admin, 7);
    let now = w.now();
    let mut sr_users = vec![];
    for (k, u) in f.users.iter().enumerate() {
        w.mint(&tok, u, FUNDS)?;
        w.must::<()>(&vtok, "transfer", (vest_admin.clone(), u.clone(), FUNDS / 10))?;
        // two schedules and an allowance each, stakes for those with shares, a part in the rewards
        for d in [1000, 100_000] {
            let mut v: Vec<Val> = Vec::new(&w.env);
            v.push_back(w.record(&[("recipient", w.val(u.clone())), ("curve", Cv::Sat(now, 1_000_000, now + d, 0).val(&w))]));
            w.must::<()>(&vest, "create_vesting_schedules", (v,))?;
        }
        let exp = w.env.ledger().sequence() + 100_000;
        w.must::<()>(&tok, "approve", (u.clone(), f.users[(k + 1) % 3].clone(), FUNDS / 10, exp))?;
        w.must::<()>(&tok, "approve", (u.clone(), u.clone(), FUNDS / 10, exp))?;
        if k < 2 {
            for p in &f.pools {
                w.must::<()>(&p.p.stake, "bond", (u.clone(), 1000i128 + k as i128))?;
                w.must::<()>(&p.p.lp, "approve", (u.clone(), f.users[2].clone(), FUNDS, exp))?;
            }
            w.must::<()>(&sr, "add_user", (u.clone(), stake_info(&w, &[5_000_000], 5_000_000)))?;
            sr_users.push((k, 5_000_000));
        }
    }
    let out = f.toks[2].addr.clone();
    Ok(Sys { w, f, out, vest, vtok, vest_admin, minter, trader, trader_admin, sr, sr_tok, sr_admin, staking, tok, tok_admin, intruder, sr_users })
}

/// One call, the accounts that must have signed it, and variants an intruder might sign instead.
pub struct Op {
    pub c: Address,
    pub contract: &'static str,
    pub f: &'static str,
    pub args: Vec<Val>,
    pub signers: std::vec::Vec<Address>,
    /// the same call with the intruder named in place of the entitled account
    pub forged: Option<Vec<Val>>,
    pub sr_user: Option<(usize, i128)>,
}

pub fn stakes_of(y: &Sys, k: usize, u: &Address) -> R<std::vec::Vec<(i128, u64)>> {
    let w = &y.w;
    let m: soroban_sdk::Map<Symbol, Val> = w.must(&y.f.pools[k].p.stake, "query_staked", (u.clone(),))?;
    let v: Vec<Val> = w.field(&m, "stakes")?;
    let mut out = vec![];
    for x in v.iter() {
        let r = w.to_map(x)?;
        out.push((w.field::<i128>(&r, "stake")?, w.field::<u64>(&r, "stake_timestamp")?));
    }
    Ok(out)
}

pub fn gen_op(ctx: &mut Ctx, y: &Sys) -> R<Option<Op>> {
    let w = &y.w;
    let s = &mut ctx.src;
    let k = s.below(y.f.pools.len() as u64) as usize;
    let fp = &y.f.pools[k];
    let p = &fp.p;
    let u = y.user(s);
    let none: Val = w.val(());
    let int = w.val(y.intruder.clone());
    let mk = |c: &Address, contract: &'static str, f: &'static str, args: &[Val], signers: &[&Address], forged: Option<&[Val]>| Op {
        c: c.clone(),
        contract,
        f,
        args: w.vals(args),
        signers: signers.iter().map(|a| (*a).clone()).collect(),
        forged: forged.map(|a| w.vals(a)),
        sr_user: None,
    };
    let kind = s.below(42);
    let amount = s.logu(1, 1_000_000_000);
    let uv = w.val(u.clone());
    let pool = if fp.stable { "pool_stable" } else { "pool" };
    Ok(Some(match kind {
        // ---- pools
        0 | 1 => {
            let args = if fp.stable {
                [uv, w.val(amount), w.val(amount), w.val(Some(p.max_slip)), none, none]
            } else {
                let i = info(w, &p.addr)?;
                let other = i128::try_from(b(amount) * b(i.rb) / b(i.ra)).unwrap_or(amount).max(1);
                [uv, w.val(Some(amount)), none, w.val(Some(other)), none, w.val(Some(p.max_slip))]
            };
            let mut v = args.to_vec();
            if !fp.stable {
                v.push(none);
            }
            mk(&p.addr, pool, "provide_liquidity", &v, &[&u], None)
        }
        2 | 3 => {
            let t = if s.bool(1, 2) { &p.a } else { &p.b };
            mk(&p.addr, pool, "swap", &[uv, w.val(t.clone()), w.val(amount), none, w.val(Some(p.max_spread)), none, none], &[&u], None)
        }
        4 | 5 => mk(&p.addr, pool, "withdraw_liquidity", &[w.val(y.f.users[0].clone()), w.val(amount), w.val(1i128), w.val(1i128), none], &[&y.f.users[0]], None),
        6 | 7 => {
            let who = if s.bool(1, 2) { y.intruder.clone() } else { p.admin.clone() };
            let mut v = vec![w.val(Some(who)), none, none, none, none, none];
            if s.bool(1, 2) {
                v = vec![none, w.val(Some(s.below(100) as i64)), none, none, none, none];
            }
            // keep the administrator: the change of administrator itself is part of A03
            if v[1].get_payload() == none.get_payload() {
                v = vec![none, none, w.val(Some(p.fee_to.clone())), none, none, none];
            }
            if fp.stable {
                v.pop();
                let mut forged = v.clone();
                forged.insert(0, int);
                v.insert(0, w.val(p.admin.clone()));
                mk(&p.addr, pool, "update_config", &v, &[&p.admin], Some(&forged))
            } else {
                mk(&p.addr, pool, "update_config", &v, &[&p.admin], None)
            }
        }
        8 => {
            let h = w.upload(pool);
            if !fp.stable {
                mk(&p.addr, pool, "upgrade", &[w.val(h), w.val(500i64)], &[&p.admin], None)
            } else {
                mk(&p.addr, pool, "upgrade", &[w.val(h)], &[&p.admin], None)
            }
        }
        9 => mk(&p.addr, pool, "update", &[w.val(w.upload(pool))], &[&p.admin], None),
        // ---- staking
        10 | 11 => mk(&p.stake, "stake", "bond", &[uv, w.val(amount.max(10))], &[&u], None),
        12 | 13 => {
            let u = y.f.users[s.below(2) as usize].clone();
            let uv = w.val(u.clone());
            let st = stakes_of(y, k, &u)?;
            if st.is_empty() {
                return Ok(None);
            }
            let (x, t) = *s.pick(&st);
            mk(&p.stake, "stake", "unbond", &[uv, w.val(x), w.val(t)], &[&u], Some(&[int, w.val(x), w.val(t)]))
        }
        14 => {
            let t = s.pick(&[y.tok.clone(), y.vtok.clone()]).clone();
            let who = if s.bool(1, 2) { fp.manager.clone() } else { y.f.addr.clone() };
            mk(&p.stake, "stake", "create_distribution_flow", &[w.val(who.clone()), w.val(t.clone())], &[&who], Some(&[int, w.val(t.clone())]))
        }
        15 | 16 => {
            let t = w.val(y.f.toks[0].addr.clone());
            mk(&p.stake, "stake", "distribute_rewards", &[w.val(fp.manager.clone()), w.val(amount), t], &[&fp.manager], Some(&[int, w.val(amount), t]))
        }
        17 => mk(&p.stake, "stake", "update", &[w.val(w.upload("stake"))], &[&p.admin], None),
        // ---- factory
        18 => {
            let (a, bb) = (0, 2);
            let stable = s.below(2) == 1;
            let r = request(s, stable, a, bb);
            let c = &y.f.creators[0];
            let who = w.addr();
            let args = creation_args(&y.f, c, &r, [&who, &who, &who]);
            let forged = creation_args(&y.f, &y.intruder, &r, [&who, &who, &who]);
            let mut o = mk(&y.f.addr, "factory", "create_liquidity_pool", &[], &[c], None);
            o.args = args;
            o.forged = Some(forged);
            o
        }
        19 | 20 => {
            let mut v: Vec<Address> = Vec::new(&w.env);
            v.push_back(w.addr());
            let (add, del) = (w.val(v.clone()), w.val(Vec::<Address>::new(&w.env)));
            mk(&y.f.addr, "factory", "update_whitelisted_accounts", &[w.val(y.f.admin.clone()), add, del], &[&y.f.admin], Some(&[int, add, del]))
        }
        21 => mk(&y.f.addr, "factory", "update_wasm_hashes", &[w.val(Some(w.upload("pool"))), none, none], &[&y.f.admin], None),
        22 => mk(&y.f.addr, "factory", "update", &[w.val(w.upload("factory")), w.val(w.upload("pool_stable"))], &[&y.f.admin], None),
        // ---- router
        23 => mk(&y.f.multihop, "multihop", "update", &[w.val(w.upload("multihop"))], &[&y.f.admin], None),
        24 | 25 => {
            let mut o: Vec<Val> = Vec::new(&w.env);
            let ab = s.bool(1, 2);
            let (x, z) = if ab { (&p.a, &p.b) } else { (&p.b, &p.a) };
            o.push_back(w.record(&[("offer_asset", w.val(x.clone())), ("ask_asset", w.val(z.clone())), ("ask_asset_min_amount", none)]));
            let hops = w.val(o);
            let v = [uv, hops, none, w.val(amount), w.val(if fp.stable { 1u32 } else { 0u32 }), none, none];
            mk(&y.f.multihop, "multihop", "swap", &v, &[&u], None)
        }
        // ---- tokens
        26 => mk(&y.tok, "token", "mint", &[uv, w.val(amount)], &[&y.tok_admin], None),
        27 => {
            // a share token's administrator is its pool
            mk(&p.lp, "token", "mint", &[uv, w.val(amount)], &[&p.addr], None)
        }
        28 => {
            if s.bool(1, 2) {
                mk(&y.tok, "token", "set_admin", &[w.val(y.tok_admin.clone())], &[&y.tok_admin], None)
            } else {
                mk(&p.lp, "token", "set_admin", &[w.val(p.addr.clone())], &[&p.addr], None)
            }
        }
        29..=32 => {
            let t = s.pick(&[y.tok.clone(), p.lp.clone(), y.vtok.clone()]).clone();
            let to = y.user(s);
            let sp = y.user(s);
            // an allowance the token operations below can use
            let exp = w.env.ledger().sequence() + 1000;
            match kind {
                29 => mk(&t, "token", "transfer", &[uv, w.val(to), w.val(amount)], &[&u], None),
                30 => mk(&t, "token", "burn", &[uv, w.val(amount)], &[&u], None),
                31 => mk(&t, "token", "approve", &[uv, w.val(sp), w.val(amount), w.val(exp)], &[&u], None),
                _ => {
                    // one of the allowances given out at the start, usually
                    let t = if s.bool(3, 4) { y.tok.clone() } else { p.lp.clone() };
                    let ui = s.below(2) as usize;
                    let u = y.f.users[ui].clone();
                    let uv = w.val(u.clone());
                    let sp = match t == y.tok {
                        true if s.bool(1, 4) => u.clone(), // its own
                        true => y.f.users[ui + 1].clone(),
                        false => y.f.users[2].clone(),
                    };
                    let amount = if t == y.tok { amount } else { 1 + amount % 100 };
                    let a: i128 = w.must(&t, "allowance", (u.clone(), sp.clone()))?;
                    let x = if a > 0 { amount.min(a) } else { amount };
                    if s.bool(1, 2) {
                        mk(&t, "token", "transfer_from", &[w.val(sp.clone()), uv, w.val(to.clone()), w.val(x)], &[&sp], Some(&[int, uv, w.val(to), w.val(x)]))
                    } else {
                        mk(&t, "token", "burn_from", &[w.val(sp.clone()), uv, w.val(x)], &[&sp], Some(&[int, uv, w.val(x)]))
                    }
                }
            }
        }
        // ---- trader
        33 => {
            let t = w.val(Some(y.f.toks[s.below(3) as usize].addr.clone()));
            let x = w.val(amount.min(1_000_000));
            mk(&y.trader, "trader", "transfer", &[w.val(y.trader_admin.clone()), uv, x, t], &[&y.trader_admin], Some(&[int, int, x, t]))
        }
        34 => {
            let p0 = &y.f.pools[0].p;
            let x = w.val(Some(1 + (amount % 1_000_000) as u64));
            let rest = [w.val(p0.a.clone()), w.val(p0.addr.clone()), x, w.val(Some(p0.max_spread)), none, none, none];
            let mut v = vec![w.val(y.trader_admin.clone())];
            v.extend(rest);
            let mut forged = vec![int];
            forged.extend(rest);
            mk(&y.trader, "trader", "trade_token", &v, &[&y.trader_admin], Some(&forged))
        }
        // ---- vesting
        35 | 36 => {
            let now = w.now();
            let c = Cv::Sat(now, amount as u128, now + 1 + s.below(1000), 0);
            let mut v: Vec<Val> = Vec::new(&w.env);
            v.push_back(w.record(&[("recipient", uv), ("curve", c.val(w))]));
            mk(&y.vest, "vesting", "create_vesting_schedules", &[w.val(v)], &[&y.vest_admin], None)
        }
        37 => mk(&y.vest, "vesting", "claim", &[uv, w.val(s.below(2))], &[&u], None),
        38 => match s.below(6) {
            0 => mk(&y.vest, "vesting", "burn", &[uv, w.val(amount as u128)], &[&u], None),
            1 | 2 => mk(&y.vest, "vesting", "mint", &[w.val(y.minter.clone()), w.val(amount)], &[&y.minter], Some(&[int, w.val(amount)])),
            3 => {
                let who = &y.minter;
                let x = w.val(y.minter.clone());
                mk(&y.vest, "vesting", "update_minter", &[w.val(who.clone()), x], &[who], Some(&[int, int]))
            }
            4 => {
                let x = w.val(FUNDS as u128);
                mk(&y.vest, "vesting", "update_minter_capacity", &[w.val(y.vest_admin.clone()), x], &[&y.vest_admin], Some(&[int, x]))
            }
            _ => mk(&y.vest, "vesting", "update", &[w.val(w.upload("vesting"))], &[&y.vest_admin], None),
        },
        // ---- reward distribution
        _ => {
            let stake = |x: i128| stake_info(w, &[x], x);
            let ui = s.below(3) as usize;
            let known = y.sr_users.iter().find(|x| x.0 == ui).map(|x| x.1);
            let u = y.f.users[ui].clone();
            let uv = w.val(u.clone());
            match (s.below(7), known) {
                (0 | 1, None) => {
                    let x = 1_000_000 + amount;
                    let mut o = mk(&y.sr, "stake_rewards", "add_user", &[uv, stake(x)], &[&y.staking], None);
                    o.sr_user = Some((ui, x));
                    o
                }
                (2, _) => mk(&y.sr, "stake_rewards", "distribute_rewards", &[w.val(3_000_000_000i128)], &[&y.staking], None),
                (3, Some(x)) => mk(&y.sr, "stake_rewards", "withdraw_rewards", &[uv, stake(x)], &[&y.staking], None),
                (4, Some(x)) => mk(&y.sr, "stake_rewards", "calculate_unbond", &[uv, stake(x), w.val(0i128)], &[&u, &y.staking], None),
                (5, _) => mk(&y.sr, "stake_rewards", "update", &[w.val(w.upload("stake_rewards"))], &[&y.sr_admin], None),
                (6, Some(_)) => {
                    // a bond of nothing leaves the user's part as it is
                    let v: std::vec::Vec<Val> = vec![uv, stake_info(w, &[known.unwrap(), 0], known.unwrap())];
                    mk(&y.sr, "stake_rewards", "calculate_bond", &v, &[&y.staking], None)
                }
                _ => mk(&y.sr, "stake_rewards", "fund_distribution", &[w.val(w.now()), w.val(1000u64), w.val(amount.max(5))], &[&y.sr_admin, &y.staking], None),
            }
        }
    }))
}

pub fn stake_info(w: &W, stakes: &[i128], total: i128) -> Val {
    let mut v: Vec<Val> = Vec::new(&w.env);
    for x in stakes {
        v.push_back(w.record(&[("stake", w.val(*x)), ("stake_timestamp", w.val(w.now()))]));
    }
    w.record(&[("stakes", w.val(v)), ("reward_debt", w.val(0u128)), ("last_reward_time", w.val(0u64)), ("total_stake", w.val(total))])
}

fn root_is(w: &W, inv: &AuthorizedInvocation, o: &Op) -> bool {
    match &inv.function {
        AuthorizedFunction::Contract((c, f, args)) => *c == o.c && *f == Symbol::new(&w.env, o.f) && *args == o.args,
        _ => false,
    }
}

fn step(ctx: &mut Ctx, y: &mut Sys, done: &mut u32) -> R {
    let w = y.w.clone();
    let Some(o) = gen_op(ctx, y)? else { return Ok(()) };
    let at = format!("{}.{}", o.contract, o.f);
    ctx.log(format!("{} (to be signed by {})", at, o.signers.iter().map(|a| y.name(a)).collect::<std::vec::Vec<_>>().join(" and ")));
    let sig = |x: &str| format!("{x}-{}-{}", o.contract, o.f);
    // 1. without the signature(s)
    let plain = |a: &Address| y.people().iter().any(|(_, x)| x == a);
    let others: std::vec::Vec<Address> = y.people().into_iter().map(|x| x.1).filter(|a| !o.signers.contains(a)).collect();
    let mut tries: std::vec::Vec<(std::vec::Vec<Address>, &Vec<Val>, &str)> = vec![(vec![], &o.args, "nobody")];
    if ctx.src.bool(1, 2) {
        tries.push((vec![y.intruder.clone()], &o.args, "an intruder"));
    }
    // somebody else who has a say elsewhere
    let other = ctx.src.pick(&others).clone();
    tries.push((vec![other.clone()], &o.args, y.name(&other)));
    if o.signers.len() > 1 {
        for a in &o.signers {
            tries.push((vec![a.clone()], &o.args, y.name(a)));
        }
    }
    if let Some(a) = &o.forged {
        tries.push((vec![y.intruder.clone()], a, "an intruder naming itself"));
    }
    for (who, args, name) in tries {
        let r = w.call_signed::<Val>(&who, &o.c, o.f, args.clone());
        check!(ctx, "A01", r.is_err(), sig("unsigned"), "{} went through signed by {} only", at, name);
    }
    // 2. signed by everyone it asks
    let spare = ctx.src.pick(&others).clone();
    let watched = y.people().into_iter().filter(|(n, a)| *n == "user" || *a == spare);
    let before: std::vec::Vec<(&'static str, Address, std::vec::Vec<i128>)> = watched.map(|(n, a)| (n, a.clone(), y.purse(&a))).collect();
    let r = w.call::<Val>(&o.c, o.f, o.args.clone());
    match r {
        Ok(_) => {
            let auths = w.env.auths();
            for (a, inv) in &auths {
                check!(ctx, "A01", o.signers.contains(a), sig("extra-signature"), "{} asks for the signature of {}", at, y.name(a));
                check!(ctx, "A01", root_is(&w, inv, &o), sig("unbound-signature"), "the signature {} asks for is not for the call as made", at);
            }
            for a in &o.signers {
                check!(ctx, "A01", auths.iter().any(|(x, _)| x == a), sig("missing-signature"), "{} went through without the signature of {}", at, y.name(a));
            }
            for (n, a, v) in &before {
                let now = y.purse(a);
                let fell = v.iter().zip(&now).any(|(x, z)| z < x);
                let spender_ok = (o.f == "transfer_from" || o.f == "burn_from") && plain(a);
                check!(ctx, "A01", !fell || o.signers.contains(a) || spender_ok, sig("spent"), "{} took tokens of {} who did not sign", at, n);
            }
            *done += 1;
            if let Some(x) = o.sr_user {
                y.sr_users.push(x);
            }
            ctx.label(o.f);
        }
        Err(e) => {
            // is it only refused because a signature is not tied to the call that was made?
            w.env.mock_all_auths_allowing_non_root_auth();
            let r2 = w.call::<Val>(&o.c, o.f, o.args.clone());
            w.env.mock_all_auths();
            check!(ctx, "A01", r2.is_err(), sig("unbound-signature"), "{} relies on signatures that are not for the call as made", at);
            ctx.log(format!("  refused: {e:?}"));
            ctx.label("refused");
        }
    }
    Ok(())
}

pub fn history(ctx: &mut Ctx) -> R {
    let mut y = setup(ctx)?;
    let n = ctx.steps(8, 24);
    let mut done = 0;
    for _ in 0..n {
        ctx.src.begin();
        if ctx.src.bool(1, 3) {
            y.w.pass(ctx.src.below(100_000));
        }
        let r = step(ctx, &mut y, &mut done);
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = done >= 3;
    let _ = &y.out;
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    vec![Prop {
        id: "A01",
        title: "Nobody can act for another account without its signature",
        rule: "a case is a world with every contract populated and 8..24 calls to random entry points, each first attempted unsigned, signed by others and forged, then properly signed; non-trivial = at least three calls went through",
        assumptions: &["the host's authorization framework", "paying staking rewards out to the account that earned them needs no signature"],
        scenarios: vec![Scenario { name: "signatures", run: history, quick: 500, thorough: 15000 }],
    }]
}
