//! T01-T02: the share token against a model of balances and allowances.
use crate::engine::*;
use crate::world::*;
use crate::{check, check_any};
use num_bigint::BigInt;
use soroban_sdk::testutils::Ledger as _;
use soroban_sdk::Address;
use std::collections::HashMap;

const MAX_TTL: u32 = 3_110_400;

struct M {
    w: W,
    t: Address,
    who: Vec<Address>,
    bal: Vec<i128>,
    allow: HashMap<(usize, usize), (i128, u32)>,
    admin: usize,
    supply: BigInt,
    moved: u64,
    spent: u64,
}

impl M {
    fn seq(&self) -> u32 {
        self.w.env.ledger().sequence()
    }
    fn live(&self, o: usize, s: usize) -> i128 {
        match self.allow.get(&(o, s)) {
            Some((a, e)) if *e >= self.seq() => *a,
            _ => 0,
        }
    }
}

pub fn history(ctx: &mut Ctx) -> R {
    let w = W::new();
    // ledger limits of the public network for temporary entries; balances are kept alive throughout
    w.env.ledger().with_mut(|l| {
        l.min_temp_entry_ttl = 16;
        l.max_entry_ttl = MAX_TTL;
        l.min_persistent_entry_ttl = MAX_TTL;
    });
    let s = &mut ctx.src;
    let n = 3 + s.below(2) as usize;
    let who: Vec<Address> = (0..n).map(|_| w.addr()).collect();
    let dec = *s.pick(&[7u32, 0, 6, 18]);
    let t = w.token(&who[0], dec);
    ctx.log(format!("token with {} decimals, {} accounts, admin 0", dec, n));
    let mut m = M { w, t, bal: vec![0; n], who, allow: HashMap::new(), admin: 0, supply: 0.into(), moved: 0, spent: 0 };
    let steps = ctx.steps(4, 30);
    for k in 0..steps {
        ctx.src.begin();
        let kind = if k == 0 { 0 } else { ctx.src.weighted(if ctx.prop == "T02" { &[3, 2, 6, 1, 4, 8, 1, 3] } else { &[5, 6, 3, 3, 2, 4, 1, 1] }) };
        let r = match kind {
            0 => op_mint(ctx, &mut m),
            1 => op_transfer(ctx, &mut m, false),
            2 => op_spend(ctx, &mut m, false),
            3 => op_transfer(ctx, &mut m, true),
            4 => op_spend(ctx, &mut m, true),
            5 => op_approve(ctx, &mut m),
            6 => op_admin(ctx, &mut m),
            _ => {
                // ledgers pass, preferably to the edge of an approval
                let edges: Vec<u32> = m.allow.values().map(|a| a.1).filter(|e| *e >= m.seq()).collect();
                let s = &mut ctx.src;
                let to = if !edges.is_empty() && s.bool(2, 3) {
                    (*s.pick(&edges) as u64 + s.below(3)).saturating_sub(1) as u32
                } else {
                    m.seq() + s.logu(1, 30_000) as u32
                };
                // keep the balances themselves (kept alive by every access) out of archival
                let to = to.max(m.seq()).min(m.seq() + 200_000);
                m.w.env.ledger().with_mut(|l| l.sequence_number = to);
                ctx.log(format!("ledger {}", to));
                Ok(())
            }
        };
        let r = r.and_then(|_| verify(ctx, &m));
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = if ctx.on("T02") { m.spent > 0 } else { m.moved > 0 };
    Ok(())
}

fn amount(s: &mut Src, near: i128) -> i128 {
    match s.weighted(&[8, 4, 2, 1, 1]) {
        0 => s.logu(1, near.max(1)),
        1 => near.saturating_add(s.range(-1, 1)),
        2 => s.logu(1, i128::MAX),
        3 => 0,
        _ => -s.logu(1, i128::MAX),
    }
}

/// Who signs: usually the entitled account; else a random one or nobody.
fn sign(s: &mut Src, n: usize, right: usize) -> Option<usize> {
    match s.weighted(&[12, 2, 1]) {
        0 => Some(right),
        1 => Some(s.below(n as u64) as usize),
        _ => None,
    }
}

fn signed(m: &M, sg: Option<usize>, f: &str, args: impl soroban_sdk::IntoVal<soroban_sdk::Env, soroban_sdk::Vec<soroban_sdk::Val>>) -> Result<(), CallErr> {
    let l: Vec<Address> = sg.iter().map(|i| m.who[*i].clone()).collect();
    m.w.call_signed::<()>(&l, &m.t, f, args)
}

fn op_mint(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let n = m.who.len();
    let to = s.below(n as u64) as usize;
    let amt = match s.weighted(&[8, 2, 1, 1]) {
        0 => s.logu(1, 1_000_000_000_000_000),
        1 => s.logu(1, i128::MAX),
        2 => i128::MAX - m.bal[to] + s.range(-1, 0) + s.range(0, if m.bal[to] > 0 { 1 } else { 0 }),
        _ => s.range(-3, 0),
    };
    let sg = sign(s, n, m.admin);
    ctx.log(format!("mint {} to {} signed by {:?} (admin {})", amt, to, sg, m.admin));
    let ok = amt >= 0 && sg == Some(m.admin) && m.bal[to].checked_add(amt).is_some();
    let r = signed(m, sg, "mint", (m.who[to].clone(), amt));
    check!(ctx, "T01", r.is_ok() == ok, "mint", "mint of {} to a balance of {} signed by {:?} (admin {}) gave {:?}", amt, m.bal[to], sg, m.admin, r);
    if r.is_ok() {
        m.bal[to] = m.bal[to].wrapping_add(amt);
        m.supply += amt;
        ctx.label("mint");
    }
    Ok(())
}

fn op_transfer(ctx: &mut Ctx, m: &mut M, burn: bool) -> R {
    let s = &mut ctx.src;
    let n = m.who.len();
    let from = rich(s, m);
    let to = s.below(n as u64) as usize;
    let amt = amount(s, m.bal[from]);
    let sg = sign(s, n, from);
    let fits = burn || from == to || m.bal[to].checked_add(amt.max(0)).is_some();
    let ok = amt >= 0 && amt <= m.bal[from] && sg == Some(from) && fits;
    let r = if burn {
        ctx.log(format!("burn {} of {} signed by {:?}", amt, from, sg));
        signed(m, sg, "burn", (m.who[from].clone(), amt))
    } else {
        ctx.log(format!("transfer {} from {} to {} signed by {:?}", amt, from, to, sg));
        signed(m, sg, "transfer", (m.who[from].clone(), m.who[to].clone(), amt))
    };
    check!(ctx, "T01", r.is_ok() == ok, if burn { "burn" } else { "transfer" }, "{} of {} from {} (balance {}) to {} (balance {}) signed by {:?} gave {:?}", if burn { "burn" } else { "transfer" }, amt, from, m.bal[from], to, m.bal[to], sg, r);
    if r.is_ok() {
        apply(m, from, to, amt, burn);
        ctx.label(if burn { "burn" } else { "transfer" });
    } else {
        ctx.label("refused");
    }
    Ok(())
}

fn apply(m: &mut M, from: usize, to: usize, amt: i128, burn: bool) {
    m.bal[from] = m.bal[from].wrapping_sub(amt);
    if burn {
        m.supply -= amt;
    } else {
        m.bal[to] = m.bal[to].wrapping_add(amt);
    }
    if amt > 0 {
        m.moved += 1;
    }
}

fn rich(s: &mut Src, m: &M) -> usize {
    let n = m.who.len();
    let i = s.below(n as u64) as usize;
    if m.bal[i] == 0 && s.bool(3, 4) {
        return (0..n).find(|j| m.bal[*j] > 0).unwrap_or(i);
    }
    i
}

fn op_spend(ctx: &mut Ctx, m: &mut M, burn: bool) -> R {
    let s = &mut ctx.src;
    let n = m.who.len();
    let mut keys: Vec<(usize, usize)> = m.allow.keys().cloned().collect();
    keys.sort();
    let (from, sp) = if !keys.is_empty() && s.bool(5, 6) { *s.pick(&keys) } else { (s.below(n as u64) as usize, s.below(n as u64) as usize) };
    let to = s.below(n as u64) as usize;
    let live = m.live(from, sp);
    let near = match s.weighted(&[4, 1, 2]) {
        0 => live.min(m.bal[from]),
        1 => m.bal[from],
        _ => m.allow.get(&(from, sp)).map(|a| a.0).unwrap_or(0),
    };
    let amt = amount(s, near);
    let sg = sign(s, n, sp);
    let fits = burn || from == to || m.bal[to].checked_add(amt.max(0)).is_some();
    let ok = amt >= 0 && amt <= m.bal[from] && amt <= live && sg == Some(sp) && fits;
    let r = if burn {
        ctx.log(format!("burn_from {} of {} by {} signed by {:?}", amt, from, sp, sg));
        signed(m, sg, "burn_from", (m.who[sp].clone(), m.who[from].clone(), amt))
    } else {
        ctx.log(format!("transfer_from {} from {} to {} by {} signed by {:?}", amt, from, to, sp, sg));
        signed(m, sg, "transfer_from", (m.who[sp].clone(), m.who[from].clone(), m.who[to].clone(), amt))
    };
    let what = format!("delegated {} of {} (balance {}, live allowance {} of {:?}, ledger {}, signed by {:?}, spender {})", if burn { "burn" } else { "transfer" }, amt, m.bal[from], live, m.allow.get(&(from, sp)), m.seq(), sg, sp);
    check_any!(ctx, ["T01", "T02"], r.is_ok() == ok, if burn { "burn-from" } else { "transfer-from" }, "{} gave {:?}", what, r);
    if r.is_ok() {
        apply(m, from, to, amt, burn);
        if amt > 0 {
            if let Some(a) = m.allow.get_mut(&(from, sp)) {
                a.0 = a.0.wrapping_sub(amt);
            }
            m.spent += 1;
        }
        ctx.label("spend");
    } else {
        ctx.label("spend-refused");
    }
    Ok(())
}

fn op_approve(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let n = m.who.len();
    let o = rich(s, m);
    let sp = s.below(n as u64) as usize;
    let amt = match s.weighted(&[6, 3, 2, 1, 1]) {
        0 => s.logu(1, m.bal[o].max(1)),
        1 => s.logu(1, i128::MAX),
        2 => 0,
        3 => m.bal[o].saturating_add(s.range(-1, 1)).max(0),
        _ => -s.logu(1, i128::MAX),
    };
    let seq = m.seq();
    let exp = match s.weighted(&[4, 3, 2, 1]) {
        0 => seq + s.below(40) as u32,
        1 => seq + s.logu(1, (MAX_TTL - 1) as i128) as u32,
        2 => seq.saturating_sub(s.below(3) as u32),
        _ => s.below(seq as u64 + 1) as u32,
    };
    let sg = sign(s, n, o);
    ctx.log(format!("approve {} by {} for {} until {} (ledger {}) signed by {:?}", amt, o, sp, exp, seq, sg));
    let ok = amt >= 0 && sg == Some(o) && (amt == 0 || exp >= seq);
    let r = signed(m, sg, "approve", (m.who[o].clone(), m.who[sp].clone(), amt, exp));
    check!(ctx, "T02", r.is_ok() == ok, "approve", "approval of {} until ledger {} at ledger {} (owner {}, signed by {:?}) gave {:?}", amt, exp, seq, o, sg, r);
    if r.is_ok() {
        m.allow.insert((o, sp), (amt, exp));
        ctx.label("approve");
    }
    Ok(())
}

fn op_admin(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let n = m.who.len();
    let to = s.below(n as u64) as usize;
    let sg = sign(s, n, m.admin);
    ctx.log(format!("set_admin {} signed by {:?} (admin {})", to, sg, m.admin));
    let r = signed(m, sg, "set_admin", (m.who[to].clone(),));
    check!(ctx, "T01", r.is_ok() == (sg == Some(m.admin)), "set-admin", "set_admin signed by {:?} (admin {}) gave {:?}", sg, m.admin, r);
    if r.is_ok() {
        m.admin = to;
        ctx.label("set-admin");
    }
    Ok(())
}

fn verify(ctx: &Ctx, m: &M) -> R {
    let n = m.who.len();
    let mut sum = BigInt::from(0);
    for i in 0..n {
        let x = m.w.bal(&m.t, &m.who[i]);
        sum += x;
        check!(ctx, "T01", x >= 0, "negative", "account {} has the balance {}", i, x);
        check_any!(ctx, ["T01", "T02"], x == m.bal[i], "balance", "account {} has {} but must have {}", i, x, m.bal[i]);
    }
    check!(ctx, "T01", sum == m.supply, "supply", "balances add up to {}, minted minus burned is {}", sum, m.supply);
    if ctx.on("T02") {
        for o in 0..n {
            for s in 0..n {
                let x: i128 = m.w.must(&m.t, "allowance", (m.who[o].clone(), m.who[s].clone()))?;
                check!(ctx, "T02", x == m.live(o, s), "allowance", "allowance of {} for {} is {} at ledger {}, must be {} ({:?})", o, s, x, m.seq(), m.live(o, s), m.allow.get(&(o, s)));
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &["balances are accessed often enough not to be archived by the ledger; temporary entries have the public network's minimum and maximum lifetimes"];
    let rule = "a case is a token with 3 or 4 accounts and 4..30 mints, transfers (also to oneself), delegated transfers, burns, approvals, admin changes and ledger advances (to the edges of approvals), signed by the entitled account, another or nobody, with amounts from negative to the 128-bit limit; non-trivial = a positive amount moved (T02: by a spender)";
    [("T01", "Token balances are conserved and never negative"), ("T02", "Spenders never exceed a live allowance")]
        .into_iter()
        .map(|(id, title)| Prop { id, title, rule, assumptions: A, scenarios: vec![Scenario { name: "token-history", run: history, quick: 2500, thorough: 60000 }] })
        .collect()
}
