//! X01, S01: pools of assets that keep part of every transfer for themselves.
use crate::check_any;
use crate::engine::*;
use crate::world::*;
use crate::xyk::{deploy_pool, gen_params, info, Pool};
use soroban_sdk::{contract, contractimpl, contracttype, Address, Env, String};

#[contract]
pub struct Taxed;

#[contracttype]
pub enum Key {
    Bal(Address),
    Tax,
}

/// An asset whose transfers deliver less than is sent: the given part of a ten-thousandth is burned.
#[contractimpl]
impl Taxed {
    pub fn set_tax(env: Env, bps: i128) {
        env.storage().instance().set(&Key::Tax, &bps);
    }
    pub fn mint(env: Env, to: Address, amount: i128) {
        let x: i128 = Self::balance(env.clone(), to.clone());
        env.storage().persistent().set(&Key::Bal(to), &(x + amount));
    }
    pub fn balance(env: Env, id: Address) -> i128 {
        env.storage().persistent().get(&Key::Bal(id)).unwrap_or(0)
    }
    pub fn decimals(_env: Env) -> u32 {
        7
    }
    pub fn name(env: Env) -> String {
        String::from_str(&env, "Taxed")
    }
    pub fn symbol(env: Env) -> String {
        String::from_str(&env, "TAX")
    }
    pub fn transfer(env: Env, from: Address, to: Address, amount: i128) {
        from.require_auth();
        assert!(amount >= 0);
        let x = Self::balance(env.clone(), from.clone());
        assert!(x >= amount);
        env.storage().persistent().set(&Key::Bal(from), &(x - amount));
        let tax: i128 = env.storage().instance().get(&Key::Tax).unwrap_or(0);
        let y = Self::balance(env.clone(), to.clone());
        env.storage().persistent().set(&Key::Bal(to), &(y + amount - amount * tax / 10_000));
    }
}

struct H {
    w: W,
    p: Pool,
    stable: bool,
    toks: [Address; 2],
    tax: [i128; 2],
    users: std::vec::Vec<Address>,
}

#[derive(Clone, Debug, PartialEq)]
struct Snap {
    books: [i128; 2],
    shares: i128,
    pool: [i128; 2],
    fee: [i128; 2],
    user: [i128; 2],
    lp: i128,
}

impl H {
    fn snap(&self, u: &Address) -> R<Snap> {
        let w = &self.w;
        let i = info(w, &self.p.addr)?;
        let two = |a: &Address| [w.bal(&self.toks[0], a), w.bal(&self.toks[1], a)];
        Ok(Snap { books: [i.ra, i.rb], shares: i.t, pool: two(&self.p.addr), fee: two(&self.p.fee_to), user: two(u), lp: w.bal(&self.p.lp, u) })
    }
    fn net(&self, k: usize, x: i128) -> i128 {
        x - x * self.tax[k] / 10_000
    }
}

fn setup(ctx: &mut Ctx, stable: bool) -> R<H> {
    let w = W::new();
    let s = &mut ctx.src;
    w.epoch(s);
    let which = s.below(3);
    let mut v: std::vec::Vec<(Address, i128)> = vec![];
    for k in 0..2 {
        let taxed = which == k || which == 2;
        if taxed {
            let t = w.env.register(Taxed, ());
            let tax = *s.pick(&[0i128, 1, 30, 100, 1000, 5000]);
            w.must::<()>(&t, "set_tax", (tax,))?;
            v.push((t, tax));
        } else {
            v.push((w.sac(), 0));
        }
    }
    v.sort();
    let mut prm = gen_params(s);
    prm.max_slip = prm.max_slip.max(5000);
    prm.max_spread = prm.max_spread.max(2000);
    let amp = if stable { Some(*s.pick(&[100u64, 6, 1000])) } else { None };
    let p = deploy_pool(&w, if stable { "pool_stable" } else { "pool" }, &v[0].0, &v[1].0, &prm, amp)?;
    let users: std::vec::Vec<Address> = (0..2).map(|_| w.addr()).collect();
    for u in &users {
        for (t, _) in &v {
            w.mint(t, u, 1_000_000_000_000_000)?;
        }
    }
    ctx.log(format!("pool of assets keeping {} and {} bps of transfers, fee {}, tolerance {}/{}, spread {}", v[0].1, v[1].1, prm.fee_bps, prm.def_slip, prm.max_slip, prm.max_spread));
    Ok(H { w, p, stable, toks: [v[0].0.clone(), v[1].0.clone()], tax: [v[0].1, v[1].1], users })
}

fn step(ctx: &mut Ctx, h: &mut H, loose: &mut [i128; 2], done: &mut u32, first: bool) -> R {
    let w = &h.w;
    let s = &mut ctx.src;
    let ui = s.below(2) as usize;
    let u = h.users[ui].clone();
    let before = h.snap(&u)?;
    let kind = if first { 0 } else { s.weighted(&[3, 6, 3, 1]) };
    let none: soroban_sdk::Val = w.val(());
    let what: &'static str;
    let mut sold = [0i128; 2];
    let mut result: Option<[i128; 2]> = None;
    let mut burned = 0;
    let r = match kind {
        0 => {
            what = "deposit";
            let a = s.logu(10_000, 1_000_000_000_000);
            let c = if before.shares == 0 || h.stable { s.logu(10_000, 1_000_000_000_000) } else { (a as f64 * before.books[1] as f64 / before.books[0] as f64) as i128 };
            let c = c.clamp(1, 1_000_000_000_000);
            ctx.log(format!("deposit of {} and {} by user {}", a, c, ui));
            if h.stable {
                w.call::<()>(&h.p.addr, "provide_liquidity", (u.clone(), a, c, Some(h.p.max_slip), None::<u64>, None::<u128>))
            } else {
                w.call::<()>(&h.p.addr, "provide_liquidity", (u.clone(), Some(a), None::<i128>, Some(c), None::<i128>, Some(h.p.max_slip), None::<u64>))
            }
        }
        1 => {
            what = "swap";
            let k = s.below(2) as usize;
            let x = s.logu(1, (before.books[k] / 5).max(2));
            sold[k] = x;
            ctx.log(format!("swap of {} of asset {} by user {}", x, k, ui));
            match w.call::<i128>(&h.p.addr, "swap", (u.clone(), h.toks[k].clone(), x, None::<i128>, Some(h.p.max_spread), None::<u64>, None::<i64>)) {
                Ok(v) => {
                    let mut got = [0, 0];
                    got[1 - k] = v;
                    result = Some(got);
                    Ok(())
                }
                Err(e) => Err(e),
            }
        }
        2 => {
            what = "withdrawal";
            let x = s.logu(1, before.lp.max(2)).max(if s.bool(1, 2) { before.lp / 10 } else { 0 });
            burned = x;
            ctx.log(format!("withdrawal of {} shares by user {}", x, ui));
            let args = w.vals(&[w.val(u.clone()), w.val(x), w.val(1i128), w.val(1i128), none]);
            match w.call::<(i128, i128)>(&h.p.addr, "withdraw_liquidity", args) {
                Ok(v) => {
                    result = Some([v.0, v.1]);
                    Ok(())
                }
                Err(e) => Err(e),
            }
        }
        _ => {
            what = "donation";
            let k = s.below(2) as usize;
            let x = s.logu(1, 1_000_000_000);
            ctx.log(format!("{} of asset {} sent to the pool by user {}", x, k, ui));
            loose[k] += h.net(k, x);
            w.must::<()>(&h.toks[k], "transfer", (u.clone(), h.p.addr.clone(), x))?;
            Ok(())
        }
    };
    let after = h.snap(&u)?;
    ctx.label(if r.is_ok() { what } else { "refused" });
    let Ok(()) = r else {
        ctx.log(format!("  refused: {r:?}"));
        check_any!(ctx, ["X01", "S01"], before == after, format!("taxed-refused-{what}"), "a refused {} changed {:?} to {:?}", what, before, after);
        return Ok(());
    };
    *done += (what == "swap" || what == "withdrawal") as u32;
    for k in 0..2 {
        let (db, dp, df, du) = (after.books[k] - before.books[k], after.pool[k] - before.pool[k], after.fee[k] - before.fee[k], after.user[k] - before.user[k]);
        let sig = |x: &str| format!("taxed-{x}-{what}");
        match what {
            "deposit" => {
                check_any!(ctx, ["X01", "S01"], after.books[k] == after.pool[k], sig("books"), "after a deposit the pool records {} of asset {} and holds {}", after.books[k], k, after.pool[k]);
                check_any!(ctx, ["X01", "S01"], du <= 0 && dp == h.net(k, -du), sig("moved"), "a deposit took {} of asset {} and gave the pool {}", -du, k, dp);
                loose[k] = 0;
            }
            "donation" => check_any!(ctx, ["X01", "S01"], db == 0, sig("books"), "tokens sent directly changed the records of asset {} by {}", k, db),
            _ => check_any!(ctx, ["X01", "S01"], db == dp, sig("books"), "a {} changed the records of asset {} by {} and the balance by {}", what, k, db, dp),
        }
        check_any!(ctx, ["X01", "S01"], after.pool[k] - after.books[k] == loose[k], sig("books"), "after a {} the pool records {} of asset {} and holds {}; {} were sent directly", what, after.books[k], k, after.pool[k], loose[k]);
        if let Some(got) = result {
            let paid = if burned > 0 { 0 } else { sold[k] };
            check_any!(ctx, ["X01", "S01"], du == h.net(k, got[k]) - paid, sig("moved"), "a {} reporting {} of asset {} for {} moved the caller's balance by {}", what, got[k], k, paid, du);
            if paid > 0 {
                check_any!(ctx, ["X01", "S01"], dp == h.net(k, paid) && df == 0, sig("moved"), "a {} of {} changed the pool's balance by {}", what, paid, dp);
            } else {
                // what left the pool is what it reports and the fee
                let fee = -dp - got[k];
                check_any!(ctx, ["X01", "S01"], fee >= 0 && df == h.net(k, fee) && (burned == 0 || fee == 0), sig("moved"), "a {} reporting {} took {} of asset {} out of the pool and gave the fee recipient {}", what, got[k], -dp, k, df);
            }
        }
    }
    let (dl, dt) = (after.lp - before.lp, after.shares - before.shares);
    let locked = if what == "deposit" && before.shares == 0 && !h.stable { 1000 } else { 0 };
    let good = match what {
        "deposit" => dl >= 0 && (dt == dl + locked || (h.stable && before.shares == 0 && dt >= dl)),
        "withdrawal" => dl == -burned && dt == -burned,
        _ => dl == 0 && dt == 0,
    };
    check_any!(ctx, ["X01", "S01"], good, format!("taxed-shares-{what}"), "a {} changed the caller's shares by {} and the recorded total by {}", what, dl, dt);
    Ok(())
}

fn history(ctx: &mut Ctx, stable: bool) -> R {
    let mut h = setup(ctx, stable)?;
    let n = ctx.steps(4, 14);
    let mut loose = [0; 2];
    let mut done = 0;
    for k in 0..n {
        ctx.src.begin();
        let r = step(ctx, &mut h, &mut loose, &mut done, k == 0);
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = done >= 2 && (h.tax[0] > 0 || h.tax[1] > 0);
    Ok(())
}

pub fn xyk(ctx: &mut Ctx) -> R {
    history(ctx, false)
}
pub fn stable(ctx: &mut Ctx) -> R {
    history(ctx, true)
}
