//! Constant-product pool: reference model and stateful histories (X01..X07).
use crate::engine::*;
use crate::world::*;
use crate::{check, check_any};
use num_bigint::BigInt;
use soroban_sdk::{Address, Map, Symbol, Val, Vec};

pub const E18: i128 = 1_000_000_000_000_000_000;

pub fn b(x: i128) -> BigInt {
    BigInt::from(x)
}
pub fn to_i(x: &BigInt) -> Option<i128> {
    use num_traits::ToPrimitive;
    x.to_i128()
}

#[derive(Clone)]
pub struct Pool {
    pub addr: Address,
    pub a: Address,
    pub b: Address,
    pub lp: Address,
    pub stake: Address,
    pub admin: Address,
    pub fee_to: Address,
    pub fee_bps: i64,
    pub max_slip: i64,
    pub def_slip: i64,
    pub max_spread: i64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Info {
    pub ra: i128,
    pub rb: i128,
    pub t: i128,
}

#[derive(Clone, Debug)]
pub struct InitParams {
    pub fee_bps: i64,
    pub max_fee_bps: i64,
    pub max_slip: i64,
    pub def_slip: i64,
    pub max_spread: i64,
    pub max_referral: i64,
    pub lp_decimals: u32,
}

pub fn init_info(w: &W, admin: &Address, fee_to: &Address, a: &Address, bb: &Address, p: &InitParams, manager: &Address, min_bond: i128, min_reward: i128) -> Val {
    let tok = w.record(&[("token_a", w.val(a.clone())), ("token_b", w.val(bb.clone()))]);
    let st = w.record(&[
        ("min_bond", w.val(min_bond)),
        ("min_reward", w.val(min_reward)),
        ("manager", w.val(manager.clone())),
        ("max_complexity", w.val(10u32)),
    ]);
    w.record(&[
        ("admin", w.val(admin.clone())),
        ("swap_fee_bps", w.val(p.fee_bps)),
        ("fee_recipient", w.val(fee_to.clone())),
        ("max_allowed_slippage_bps", w.val(p.max_slip)),
        ("default_slippage_bps", w.val(p.def_slip)),
        ("max_allowed_spread_bps", w.val(p.max_spread)),
        ("max_referral_bps", w.val(p.max_referral)),
        ("token_init_info", tok),
        ("stake_init_info", st),
    ])
}

pub fn deploy_pool(w: &W, kind: &str, a: &Address, bb: &Address, p: &InitParams, amp: Option<u64>) -> R<Pool> {
    let admin = w.addr();
    let fee_to = w.addr();
    let manager = w.addr();
    let owner = w.addr();
    let addr = w.deploy(kind);
    let stake_h = w.upload("stake");
    let tok_h = w.upload("token");
    let info = init_info(w, &admin, &fee_to, a, bb, p, &manager, 10, 5);
    let mut args = w.vals(&[w.val(stake_h), w.val(tok_h), info, w.val(owner.clone()), w.val(p.lp_decimals)]);
    args.push_back(w.val(w.str("Pool")));
    args.push_back(w.val(w.str("LP")));
    match amp {
        None => {
            args.push_back(w.val(p.def_slip));
            args.push_back(w.val(p.max_fee_bps));
        }
        Some(amp) => {
            // stable pool: amplification instead of the default slippage
            args.push_back(w.val(amp));
            args.push_back(w.val(p.max_fee_bps));
        }
    }
    w.must::<()>(&addr, "initialize", args)?;
    let cfg: Map<Symbol, Val> = w.must(&addr, "query_config", ())?;
    Ok(Pool {
        addr: addr.clone(),
        a: a.clone(),
        b: bb.clone(),
        lp: w.field(&cfg, "share_token")?,
        stake: w.field(&cfg, "stake_contract")?,
        admin,
        fee_to,
        fee_bps: p.fee_bps,
        max_slip: p.max_slip,
        def_slip: p.def_slip,
        max_spread: p.max_spread,
    })
}

pub fn info(w: &W, pool: &Address) -> R<Info> {
    let m: Map<Symbol, Val> = w.must(pool, "query_pool_info", ())?;
    let f = |k: &str| -> R<i128> {
        let a: Map<Symbol, Val> = w.field(&m, k)?;
        w.field(&a, "amount")
    };
    Ok(Info { ra: f("asset_a")?, rb: f("asset_b")?, t: f("asset_lp_share")? })
}

// ---- reference model ----------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Plan<T> {
    /// must be refused (reason)
    No(&'static str),
    /// must go through, with these numbers
    Yes(T),
    /// outside the 128-bit working range: may be refused, must be exact if accepted
    Maybe(T),
    /// outside the range, no prediction
    Unknown,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SwapOut {
    pub ret: i128,
    pub fee: i128,
    pub spread: i128,
    pub gross: i128,
}

/// Constant product: the pool keeps floor(k / (offer pool + offer)), the fee is taken from the output.
pub fn swap_math(offer_pool: i128, ask_pool: i128, x: i128, fee_bps: i64) -> Option<SwapOut> {
    if offer_pool <= 0 || ask_pool < 0 || x < 0 {
        return None;
    }
    let k = b(offer_pool) * b(ask_pool);
    let keep = &k / (b(offer_pool) + b(x));
    let gross = b(ask_pool) - keep;
    let spread = b(x) * b(ask_pool) / b(offer_pool) - &gross;
    if spread < b(0) {
        return None;
    }
    let fee = &gross * b(fee_bps as i128) / b(10_000);
    let ret = &gross - &fee;
    Some(SwapOut { ret: to_i(&ret)?, fee: to_i(&fee)?, spread: to_i(&spread)?, gross: to_i(&gross)? })
}

/// spread / gross <= max, at 18 decimals
pub fn spread_ok(spread: i128, gross: i128, max_bps: i64) -> Option<bool> {
    if gross == 0 {
        return None;
    }
    let r = b(spread) * b(E18) / b(gross);
    Some(r <= b(max_bps as i128) * b(E18 / 10_000))
}

pub struct SwapReq {
    pub a_to_b: bool,
    pub amount: i128,
    pub min: Option<i128>,
    pub spread: Option<i64>,
    pub deadline: Option<u64>,
    pub max_fee: Option<i64>,
}

pub fn plan_swap(p: &Pool, i: &Info, now: u64, balance: i128, r: &SwapReq) -> Plan<SwapOut> {
    if r.deadline.map(|d| now > d).unwrap_or(false) {
        return Plan::No("deadline");
    }
    if r.amount <= 0 {
        return Plan::No("amount");
    }
    if r.max_fee.map(|f| f < p.fee_bps).unwrap_or(false) {
        return Plan::No("fee");
    }
    if let Some(s) = r.spread {
        if s < 0 || s > p.max_spread {
            return Plan::No("spread-out-of-bounds");
        }
    }
    let (op, ap) = if r.a_to_b { (i.ra, i.rb) } else { (i.rb, i.ra) };
    let Some(o) = swap_math(op, ap, r.amount, p.fee_bps) else { return Plan::No("no-price") };
    if r.min.map(|m| m > o.ret).unwrap_or(false) {
        return Plan::No("min");
    }
    match spread_ok(o.spread, o.gross, r.spread.unwrap_or(p.max_spread)) {
        None => return Plan::No("zero-output"),
        Some(false) => return Plan::No("spread"),
        _ => {}
    }
    if balance < r.amount {
        return Plan::No("balance");
    }
    // spread ratio is computed in 128 bits
    if b(o.spread) * b(E18) > b(i128::MAX) {
        return Plan::Maybe(o);
    }
    Plan::Yes(o)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DepositOut {
    pub amt_a: i128,
    pub amt_b: i128,
    pub minted: i128,
    pub locked: i128,
}

pub struct DepositReq {
    pub da: Option<i128>,
    pub ma: Option<i128>,
    pub db: Option<i128>,
    pub mb: Option<i128>,
    pub slip: Option<i64>,
    pub deadline: Option<u64>,
}

pub fn isqrt(x: &BigInt) -> BigInt {
    x.sqrt()
}

/// (deposit plan). `bal_a`/`bal_b`: the pool's token balances before the deposit.
#[allow(clippy::too_many_arguments)]
pub fn plan_deposit(p: &Pool, i: &Info, now: u64, bal_a: i128, bal_b: i128, ua: i128, ub: i128, r: &DepositReq) -> Plan<DepositOut> {
    if r.deadline.map(|d| now > d).unwrap_or(false) {
        return Plan::No("deadline");
    }
    for v in [r.da, r.ma, r.db, r.mb].into_iter().flatten() {
        if v <= 0 {
            return Plan::No("non-positive");
        }
    }
    if r.slip.map(|s| s > p.max_slip).unwrap_or(false) {
        return Plan::No("slippage-too-high");
    }
    let (Some(da), Some(db)) = (r.da, r.db) else { return Plan::No("one-sided") };
    let mut big = false;
    let mut lim = |x: &BigInt| {
        if *x > b(i128::MAX) {
            big = true;
        }
    };
    let (xa, xb);
    if i.ra == 0 && i.rb == 0 {
        xa = da;
        xb = db;
    } else {
        if i.ra == 0 || i.rb == 0 {
            return Plan::Unknown;
        }
        if r.ma.map(|m| m > da).unwrap_or(false) || r.mb.map(|m| m > db).unwrap_or(false) {
            return Plan::No("min-above-desired");
        }
        let slip = b(r.slip.unwrap_or(p.def_slip) as i128) * b(E18 / 10_000);
        // amount of one asset matching the other side at the pool's ratio, capped to the desired
        // amount when the excess is within the tolerance
        let side = |own: i128, other: i128, p_own: i128, p_other: i128, lim: &mut dyn FnMut(&BigInt)| -> Result<BigInt, &'static str> {
            let n = b(other) * b(p_own);
            lim(&n);
            let m = n / b(p_other);
            if m > b(own) {
                let x = &m * b(E18);
                lim(&x);
                if x / b(own) - b(E18) <= slip {
                    Ok(b(own))
                } else {
                    Err("ratio")
                }
            } else {
                Ok(m)
            }
        };
        let ma = match side(da, db, i.ra, i.rb, &mut lim) {
            Ok(v) => v,
            Err(e) => return Plan::No(e),
        };
        if r.ma.map(|m| ma < b(m)).unwrap_or(false) {
            return Plan::No("min-a");
        }
        let mb = match side(db, da, i.rb, i.ra, &mut lim) {
            Ok(v) => v,
            Err(e) => return Plan::No(e),
        };
        if r.mb.map(|m| mb < b(m)).unwrap_or(false) {
            return Plan::No("min-b");
        }
        let (Some(va), Some(vb)) = (to_i(&ma), to_i(&mb)) else { return Plan::Unknown };
        xa = va;
        xb = vb;
    }
    if xa > ua || xb > ub {
        return Plan::No("balance");
    }
    let (na, nb) = (b(bal_a) + b(xa), b(bal_b) + b(xb));
    let out = if i.ra > 0 && i.rb > 0 {
        let (sa, sb) = (&na * b(i.t), &nb * b(i.t));
        lim(&sa);
        lim(&sb);
        let s = (sa / b(i.ra)).min(sb / b(i.rb)) - b(i.t);
        if s < b(0) {
            return Plan::No("negative-shares");
        }
        let Some(m) = to_i(&s) else { return Plan::Unknown };
        DepositOut { amt_a: xa, amt_b: xb, minted: m, locked: 0 }
    } else {
        let m = b(xa) * b(xb);
        lim(&m);
        let s = isqrt(&m);
        if s <= b(1000) {
            return Plan::No("too-little-initial");
        }
        let Some(m) = to_i(&(s - 1000)) else { return Plan::Unknown };
        DepositOut { amt_a: xa, amt_b: xb, minted: m, locked: 1000 }
    };
    if big {
        Plan::Maybe(out)
    } else {
        Plan::Yes(out)
    }
}

pub fn share_of(i: &Info, s: i128) -> (i128, i128, bool) {
    let ratio = b(s) * b(E18) / b(i.t);
    let f = |r: i128| b(r) * &ratio;
    let (x, y) = (f(i.ra), f(i.rb));
    let fits = b(s) * b(E18) <= b(i128::MAX) && x <= b(i128::MAX) && y <= b(i128::MAX);
    (to_i(&(x / b(E18))).unwrap_or(i128::MAX), to_i(&(y / b(E18))).unwrap_or(i128::MAX), fits)
}

pub fn plan_withdraw(i: &Info, now: u64, held: i128, s: i128, ma: i128, mb: i128, deadline: Option<u64>) -> Plan<(i128, i128)> {
    if deadline.map(|d| now > d).unwrap_or(false) {
        return Plan::No("deadline");
    }
    if s <= 0 || ma <= 0 || mb <= 0 {
        return Plan::No("non-positive");
    }
    if s > held {
        return Plan::No("balance");
    }
    if i.t == 0 {
        return Plan::No("empty");
    }
    let (x, y, fits) = share_of(i, s);
    if x < ma || y < mb {
        return Plan::No("min");
    }
    if fits {
        Plan::Yes((x, y))
    } else {
        Plan::Maybe((x, y))
    }
}

// ---- generators ---------------------------------------------------------------------------

pub fn gen_bps(s: &mut Src) -> i64 {
    match s.weighted(&[3, 3, 2, 2, 2, 1]) {
        0 => 0,
        1 => 30,
        2 => 100,
        3 => s.range(0, 1000) as i64,
        4 => s.range(0, 10_000) as i64,
        _ => 10_000,
    }
}

pub fn gen_params(s: &mut Src) -> InitParams {
    let fee_bps = if s.bool(1, 8) { gen_bps(s) } else { *s.pick(&[0i64, 1, 10, 30, 100, 250, 1000]) };
    let max_fee_bps = s.range(fee_bps as i128, 10_000) as i64;
    let max_slip = *s.pick(&[5_000i64, 0, 100, 1_000, 10_000]);
    let def_slip = *s.pick(&[100i64, 0, 500, 2_500, 10_000]);
    let max_spread = *s.pick(&[1_000i64, 5_000, 10_000, 100, 30, 0]);
    InitParams { fee_bps, max_fee_bps, max_slip, def_slip, max_spread, max_referral: gen_bps(s), lp_decimals: 7 }
}

/// A limit close to `v`: exactly v, one off, or anywhere.
pub fn near(s: &mut Src, v: i128, lo: i128) -> i128 {
    let x = match s.weighted(&[4, 4, 4, 2, 2, 1]) {
        0 => v,
        1 => v.saturating_add(1),
        2 => v.saturating_sub(1),
        3 => v.saturating_add(s.logu(1, 1_000_000)),
        4 => v.saturating_sub(s.logu(1, 1_000_000)),
        _ => lo,
    };
    x.max(lo)
}

pub fn gen_deadline(s: &mut Src, now: u64) -> Option<u64> {
    match s.weighted(&[6, 2, 2, 1, 2]) {
        0 => None,
        1 => Some(now),
        2 => Some(now + 1 + s.below(1000)),
        3 => Some(now - 1),
        _ => Some(match s.below(5) {
            0 | 4 => 0,
            1 => u64::MAX,
            _ => s.below(now),
        }),
    }
}

/// a limit in basis points, anywhere in or just outside its range, with the ends over-represented
pub fn any_bps(s: &mut Src) -> i64 {
    match s.weighted(&[4, 2, 1, 1, 1]) {
        0 => s.range(0, 10_000) as i64,
        1 => 0,
        2 => 10_000,
        3 => s.range(-10, -1) as i64,
        _ => *s.pick(&[10_001i64, 20_000, i64::MAX, i64::MIN]),
    }
}

pub struct Hist {
    pub w: W,
    pub p: Pool,
    pub users: std::vec::Vec<Address>,
    pub minted: [i128; 2],
    pub last: Option<Snap>,
    pub ub: std::vec::Vec<[i128; 3]>,
    /// everybody who was ever the fee recipient
    pub fee_tos: std::vec::Vec<Address>,
    /// a user is (or was) also the fee recipient: balances move outside of their own operations
    pub overlap: bool,
}

impl Hist {
    pub fn new(w: W, p: Pool, users: std::vec::Vec<Address>, funds: i128) -> Hist {
        let n = users.len() as i128;
        let fee_tos = vec![p.fee_to.clone()];
        Hist { w, p, minted: [n * funds, n * funds], last: None, ub: vec![[funds, funds, 0]; users.len()], users, fee_tos, overlap: false }
    }
    /// Everybody who can hold the pool's assets or shares, each once.
    pub fn holders(&self) -> std::vec::Vec<Address> {
        let mut all = vec![self.p.addr.clone(), self.p.stake.clone()];
        for x in self.users.iter().chain(self.fee_tos.iter()) {
            if !all.contains(x) {
                all.push(x.clone());
            }
        }
        all
    }
    pub fn refresh(&mut self) -> R {
        self.last = None;
        for k in 0..self.users.len() {
            let u = &self.users[k];
            self.ub[k] = [self.w.bal(&self.p.a, u), self.w.bal(&self.p.b, u), self.w.bal(&self.p.lp, u)];
        }
        Ok(())
    }
    /// The state left by the previous step is the state the next one starts from.
    pub fn start(&mut self, ui: usize) -> R<Snap> {
        if self.overlap {
            self.refresh()?;
        }
        match self.last.take() {
            Some(mut s) => {
                s.user = self.ub[ui];
                Ok(s)
            }
            None => snap(self, &self.users[ui]),
        }
    }
    /// The admin names a new fee recipient: a stranger, or one of the users.
    pub fn new_fee_to(&mut self, s: &mut Src) -> Option<Address> {
        if !s.bool(1, 4) {
            return None;
        }
        let a = if s.bool(1, 2) { self.w.addr() } else { s.pick(&self.users).clone() };
        Some(a)
    }
    pub fn who(&self, a: &Option<Address>) -> std::string::String {
        match a {
            None => "-".into(),
            Some(a) => match self.users.iter().position(|u| u == a) {
                Some(k) => format!("user{k}"),
                None => "a stranger".into(),
            },
        }
    }
    pub fn set_fee_to(&mut self, a: &Option<Address>) {
        if let Some(a) = a {
            self.p.fee_to = a.clone();
            self.fee_tos.push(a.clone());
            self.overlap |= self.users.contains(a);
            self.last = None;
        }
    }
}

/// Balance changes of a swap: what the trader and the fee recipient received, also when they are one
/// (then everything beyond the reported return is the fee).
pub fn swap_deltas(p: &Pool, u: &Address, s0: &Snap, s1: &Snap, ai: usize, got: i128) -> ([i128; 3], [i128; 3], [i128; 2]) {
    let (dp, mut du, mut df) = deltas(s0, s1);
    if *u == p.fee_to {
        df = [0, 0];
        df[ai] = du[ai] - got;
        du[ai] = got;
    }
    (dp, du, df)
}

/// Balance changes of an operation that pays no fee.
pub fn plain_deltas(p: &Pool, u: &Address, s0: &Snap, s1: &Snap) -> ([i128; 3], [i128; 3], [i128; 2]) {
    let (dp, du, mut df) = deltas(s0, s1);
    if *u == p.fee_to {
        df = [0, 0];
    }
    (dp, du, df)
}

/// People in several roles: a user who is the admin, or the fee recipient.
pub fn users_for(s: &mut Src, w: &W, p: &mut Pool) -> std::vec::Vec<Address> {
    let mut users: std::vec::Vec<Address> = (0..3).map(|_| w.addr()).collect();
    if s.bool(1, 8) {
        users[2] = p.admin.clone();
    }
    if s.bool(1, 8) {
        users[1] = p.fee_to.clone();
    }
    users
}

/// Shares change hands (a user, the pool itself, the staking contract by bonding).
pub fn move_shares(ctx: &mut Ctx, h: &mut Hist, ui: usize, s0: &Snap, ids: [&str; 2]) -> R {
    let w = h.w.clone();
    let mut ui = ui;
    if h.ub[ui][2] == 0 {
        match (0..h.users.len()).find(|j| h.ub[*j][2] > 0) {
            Some(j) => ui = j,
            None => return Ok(()),
        }
    }
    let u = h.users[ui].clone();
    let held = h.ub[ui][2];
    let amt = if ctx.src.bool(1, 4) { held } else { ctx.src.logu(1, held) };
    let (what, r) = match ctx.src.below(3) {
        0 => {
            let to = ctx.src.pick(&h.users).clone();
            ("to a user", w.transfer(&h.p.lp, &u, &to, amt))
        }
        1 => ("to the pool", w.transfer(&h.p.lp, &u, &h.p.addr, amt)),
        _ => ("bonding them", w.call::<()>(&h.p.stake, "bond", (u.clone(), amt))),
    };
    ctx.log(format!("user{} moves {} of {} shares {} -> {:?}", ui, amt, held, what, r));
    ctx.label("shares-moved");
    h.refresh()?;
    let i = info(&w, &h.p.addr)?;
    check_any!(ctx, [ids[0], ids[1]], i == s0.i, "share-transfer-moves-reserves", "moving shares changed the pool's records {:?} -> {:?}", s0.i, i);
    Ok(())
}

pub fn setup(ctx: &mut Ctx, funds: i128) -> R<Hist> {
    let w = W::new();
    let (ta, tb) = w.sac_pair();
    let mut prm = gen_params(&mut ctx.src);
    prm.lp_decimals = 7;
    w.epoch(&mut ctx.src);
    let mut p = deploy_pool(&w, "pool", &ta, &tb, &prm, None)?;
    let users = users_for(&mut ctx.src, &w, &mut p);
    for u in &users {
        w.mint_sac(&ta, u, funds);
        w.mint_sac(&tb, u, funds);
    }
    ctx.log(format!(
        "pool fee={}bps max_slippage={} default_slippage={} max_spread={}",
        prm.fee_bps, prm.max_slip, prm.def_slip, prm.max_spread
    ));
    let mut h = Hist::new(w, p, users, funds);
    h.overlap = h.users.contains(&h.p.fee_to);
    Ok(h)
}

pub fn opt_args(w: &W, r: &SwapReq, sender: &Address, offer: &Address) -> Vec<Val> {
    w.vals(&[
        w.val(sender.clone()),
        w.val(offer.clone()),
        w.val(r.amount),
        w.val(r.min),
        w.val(r.spread),
        w.val(r.deadline),
        w.val(r.max_fee),
    ])
}

/// First deposit size: small, ordinary, skewed, very large or lopsided reserves.
pub fn gen_first(s: &mut Src) -> (i128, i128) {
    match s.weighted(&[16, 4, 2, 4, 1]) {
        4 => {
            // one side beyond 64 bits
            let (x, y) = (s.logu(18_000_000_000_000_000_000, 70_000_000_000_000_000_000), s.logu(1_000, 1_000_000_000_000_000_000));
            if s.bool(1, 2) {
                (x, y)
            } else {
                (y, x)
            }
        }
        0 => {
            let x = s.logu(10_000, 1_000_000_000_000_000);
            let r = s.logu(1, 10_000);
            let y = if s.below(2) == 0 { x.saturating_mul(r) / 7 } else { x / r };
            (x, (y + s.range(0, 999)).max(100))
        }
        1 => (s.logu(1, 3_000), s.logu(1, 3_000_000)),
        2 => (s.logu(1, 1_000_000_000_000_000_000), s.logu(1, 1_000_000_000_000_000_000)),
        _ => {
            let x = s.logu(1_000_000_000_000, 12_000_000_000_000_000_000);
            (x, s.logu(1_000_000_000_000, 12_000_000_000_000_000_000))
        }
    }
}

pub fn history(ctx: &mut Ctx) -> R {
    let funds = 100_000_000_000_000_000_000i128; // 1e20
    let mut h = setup(ctx, funds)?;
    let n = 6 + ctx.src.below(22);
    let (mut swaps, mut deps, mut wds) = (0u32, 0u32, 0u32);
    for step in 0..n {
        ctx.src.begin();
        let r = one_step(ctx, &mut h, step, &mut swaps, &mut deps, &mut wds);
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = deps > 0 && (swaps + wds) >= 2;
    final_check(ctx, &h)
}

fn final_check(ctx: &mut Ctx, h: &Hist) -> R {
    let w = &h.w;
    let p = &h.p;
    let i = info(w, &p.addr)?;
    // conservation of both assets over all parties, supply of shares
    for (k, t) in [&p.a, &p.b].iter().enumerate() {
        let s: i128 = h.holders().iter().map(|u| w.bal(t, u)).sum();
        check!(ctx, "X01", s == h.minted[k], "conservation", "asset {} total over all holders is {} instead of {}", k, s, h.minted[k]);
    }
    let s: i128 = h.holders().iter().map(|u| w.bal(&p.lp, u)).sum();
    check_any!(ctx, ["X01", "X05"], s == i.t, "share-supply", "holders have {} shares, pool reports {}", s, i.t);
    let issued: i128 = w.must(&p.addr, "query_total_issued_lp", ())?;
    check_any!(ctx, ["X01", "X06"], issued == i.t, "share-supply", "query_total_issued_lp {} but pool info {}", issued, i.t);
    // every holder can leave, and the pool stays backed to the end
    if ctx.on("X01") || ctx.on("X05") {
        for u in &h.users {
            let s = w.bal(&p.lp, u);
            if s == 0 {
                continue;
            }
            let i = info(w, &p.addr)?;
            let (x, y, fits) = share_of(&i, s);
            if x == 0 || y == 0 || !fits {
                continue;
            }
            let (a0, b0) = (w.bal(&p.a, u), w.bal(&p.b, u));
            let r = w.call::<(i128, i128)>(&p.addr, "withdraw_liquidity", (u.clone(), s, 1i128, 1i128, None::<u64>));
            check_any!(ctx, ["X01", "X05"], r.is_ok(), "exit-refused", "a holder of {} of {} shares cannot withdraw: {:?}", s, i.t, r);
            let (a1, b1) = (w.bal(&p.a, u), w.bal(&p.b, u));
            check_any!(ctx, ["X01", "X05"], (a1 - a0, b1 - b0) == (x, y), "exit-amount", "withdrawing {} of {} shares paid {:?} instead of {:?}", s, i.t, (a1 - a0, b1 - b0), (x, y));
            ctx.label("exit");
        }
        let i = info(w, &p.addr)?;
        check_any!(ctx, ["X01", "X05"], i.ra <= w.bal(&p.a, &p.addr) && i.rb <= w.bal(&p.b, &p.addr), "unbacked", "reserves {:?} exceed the balances after everyone left", i);
    }
    Ok(())
}

#[derive(Clone)]
pub struct Snap {
    pub i: Info,
    pub pool: [i128; 3],
    pub user: [i128; 3],
    pub fee: [i128; 2],
}

pub fn snap(h: &Hist, u: &Address) -> R<Snap> {
    let w = &h.w;
    let p = &h.p;
    let b3 = |x: &Address| [w.bal(&p.a, x), w.bal(&p.b, x), w.bal(&p.lp, x)];
    Ok(Snap { i: info(w, &p.addr)?, pool: b3(&p.addr), user: b3(u), fee: [w.bal(&p.a, &p.fee_to), w.bal(&p.b, &p.fee_to)] })
}

pub fn unchanged(s: &Snap, t: &Snap) -> bool {
    s.i == t.i && s.pool == t.pool && s.user == t.user && s.fee == t.fee
}

pub fn deltas(s: &Snap, t: &Snap) -> ([i128; 3], [i128; 3], [i128; 2]) {
    let d3 = |x: &[i128; 3], y: &[i128; 3]| [y[0] - x[0], y[1] - x[1], y[2] - x[2]];
    (d3(&s.pool, &t.pool), d3(&s.user, &t.user), [t.fee[0] - s.fee[0], t.fee[1] - s.fee[1]])
}

fn backing(ctx: &Ctx, h: &Hist, s: &Snap) -> R {
    check!(
        ctx,
        "X01",
        s.i.ra <= s.pool[0] && s.i.rb <= s.pool[1],
        "unbacked",
        "reserves ({}, {}) exceed the pool's balances ({}, {})",
        s.i.ra,
        s.i.rb,
        s.pool[0],
        s.pool[1]
    );
    check!(ctx, "X01", s.i.ra >= 0 && s.i.rb >= 0 && s.i.t >= 0, "negative", "negative reserves {:?}", s.i);
    let _ = h;
    Ok(())
}

/// value of a share does not fall: a*b/T^2 (exact, big integers)
pub fn value_kept(before: &Info, after: &Info) -> bool {
    b(after.ra) * b(after.rb) * b(before.t) * b(before.t) >= b(before.ra) * b(before.rb) * b(after.t) * b(after.t)
}

fn one_step(ctx: &mut Ctx, h: &mut Hist, step: u64, swaps: &mut u32, deps: &mut u32, wds: &mut u32) -> R {
    let w = h.w.clone();
    let ui = ctx.src.below(3) as usize;
    let u = h.users[ui].clone();
    let s0 = h.start(ui)?;
    backing(ctx, h, &s0)?;
    let empty = s0.i.ra == 0 && s0.i.rb == 0;
    let kind = if empty || step == 0 { ctx.src.weighted(&[0, 16, 1, 1, 0, 0, 0]) } else { ctx.src.weighted(&[18, 8, 10, 4, 4, 1, 2]) };
    if ctx.src.bool(1, 3) {
        w.pass(ctx.src.below(1000));
    }
    match kind {
        0 => {
            *swaps += 1;
            do_swap(ctx, h, &u, ui, &s0)
        }
        1 => {
            *deps += 1;
            do_deposit(ctx, h, &u, ui, &s0, empty)
        }
        2 => {
            *wds += 1;
            // usually somebody who holds shares
            let (mut ui, mut u, mut s0) = (ui, u, s0);
            if s0.user[2] == 0 && ctx.src.bool(7, 8) {
                if let Some(j) = (0..3).find(|j| h.ub[*j][2] > 0) {
                    ui = j;
                    u = h.users[j].clone();
                    s0.user = h.ub[j];
                }
            }
            do_withdraw(ctx, h, &u, ui, &s0)
        }
        3 => {
            // someone sends tokens straight to the pool
            let amt = ctx.src.logu(1, 1_000_000_000_000_000_000).min(s0.user[0]);
            let side = ctx.src.below(2);
            let t = if side == 0 { h.p.a.clone() } else { h.p.b.clone() };
            if amt <= 0 || w.transfer(&t, &u, &h.p.addr, amt).is_err() {
                return Ok(());
            }
            ctx.log(format!("donate user{} side{} {}", ui, side, amt));
            ctx.label("donation");
            let s1 = snap(h, &u)?;
            h.last = Some(s1.clone());
            h.ub[ui] = s1.user;
            check!(ctx, "X01", s1.i == s0.i, "donation-moves-reserves", "a plain token transfer changed the recorded reserves {:?} -> {:?}", s0.i, s1.i);
            Ok(())
        }
        4 => do_config(ctx, h),
        6 => move_shares(ctx, h, ui, &s0, ["X01", "X07"]),
        _ => foreign_swap(ctx, h, ui, &s0, ["X01", "X03", "X06"]),
    }
}

/// Orders and quotes offering something the pool does not trade (its share token, another asset).
pub fn foreign_swap(ctx: &mut Ctx, h: &mut Hist, ui: usize, s0: &Snap, ids: [&str; 3]) -> R {
    let w = h.w.clone();
    let u = h.users[ui].clone();
    let asset = if s0.user[2] > 0 && ctx.src.bool(1, 2) {
        h.p.lp.clone()
    } else {
        let t = w.sac();
        w.mint_sac(&t, &u, 1_000_000_000_000_000);
        t
    };
    let amount = ctx.src.logu(1, w.bal(&asset, &u).max(1));
    ctx.log(format!("swap user{} offering {} of {}", ui, amount, if asset == h.p.lp { "the share token" } else { "a foreign asset" }));
    let q = w.call::<Val>(&h.p.addr, "simulate_swap", (asset.clone(), amount));
    check_any!(ctx, [ids[2]], q.is_err(), "foreign-quote", "simulate_swap quoted an asset that is not in the pool");
    let q = w.call::<Val>(&h.p.addr, "simulate_reverse_swap", (asset.clone(), amount));
    check_any!(ctx, [ids[2]], q.is_err(), "foreign-quote", "simulate_reverse_swap quoted an asset that is not in the pool");
    let r = w.call::<i128>(&h.p.addr, "swap", (u.clone(), asset, amount, None::<i128>, None::<i64>, None::<u64>, None::<i64>));
    let s1 = snap(h, &u)?;
    h.last = Some(s1.clone());
    h.ub[ui] = s1.user;
    ctx.label("foreign-asset");
    check_any!(ctx, [ids[0], ids[1]], r.is_err(), "foreign-swap", "a swap offering an asset that is not in the pool was executed");
    check_any!(ctx, [ids[0], ids[1]], unchanged(s0, &s1), "failed-swap-moved-funds", "a refused swap changed balances");
    Ok(())
}

fn do_config(ctx: &mut Ctx, h: &mut Hist) -> R {
    let w = h.w.clone();
    let fee = if ctx.src.bool(1, 2) { Some(gen_bps(&mut ctx.src)) } else { None };
    let slip = if ctx.src.bool(1, 3) { Some(gen_bps(&mut ctx.src)) } else { None };
    let spread = if ctx.src.bool(1, 3) { Some(gen_bps(&mut ctx.src)) } else { None };
    let fee_to = h.new_fee_to(&mut ctx.src);
    ctx.log(format!("admin update_config fee={} max_slippage={} max_spread={} fee_recipient={}", opt(&fee), opt(&slip), opt(&spread), h.who(&fee_to)));
    w.must::<()>(&h.p.addr, "update_config", (None::<Address>, fee, fee_to.clone(), slip, spread, None::<i64>))?;
    h.set_fee_to(&fee_to);
    h.p.fee_bps = fee.unwrap_or(h.p.fee_bps);
    h.p.max_slip = slip.unwrap_or(h.p.max_slip);
    h.p.max_spread = spread.unwrap_or(h.p.max_spread);
    ctx.label("config");
    Ok(())
}

fn do_swap(ctx: &mut Ctx, h: &mut Hist, u: &Address, ui: usize, s0: &Snap) -> R {
    let w = h.w.clone();
    let p = h.p.clone();
    let i = &s0.i;
    let a_to_b = ctx.src.below(2) == 0;
    let (op, ap) = if a_to_b { (i.ra, i.rb) } else { (i.rb, i.ra) };
    let ub = if a_to_b { s0.user[0] } else { s0.user[1] };
    let s = &mut ctx.src;
    // two thirds of the orders stay inside every limit; the others push at one or more of them
    let wild = s.bool(1, 3);
    let spread_cap = to_i(&(b(op) * b(p.max_spread as i128) / b(10_000))).unwrap_or(i128::MAX).max(1);
    let amount = if wild {
        match s.weighted(&[4, 4, 4, 2, 1, 1]) {
            0 => s.logu(1, (op / 10).max(1)),
            1 => s.logu(1, op.max(1)),
            2 => near(s, spread_cap, 1), // the largest order the spread limit lets through
            3 => s.logu(1, op.saturating_mul(3).max(1)),
            4 => near(s, ub, 1),
            _ => s.range(-2, 2),
        }
    } else {
        // at least one unit of output
        let lo = (op / ap.max(1)).max(1);
        let hi = spread_cap.min(ub).max(1);
        let x = if s.bool(1, 3) { s.range(lo.min(hi), hi) } else { s.logu(lo.min(hi), hi) };
        x.max(1)
    };
    let out = swap_math(op, ap, amount.max(0), p.fee_bps);
    let ret = out.as_ref().map(|o| o.ret).unwrap_or(0);
    let spread_bps = out
        .as_ref()
        .filter(|o| o.gross > 0)
        .and_then(|o| to_i(&(b(o.spread) * b(10_000) / b(o.gross))))
        .unwrap_or(0);
    let (min, spread, deadline, max_fee);
    if wild {
        min = match s.weighted(&[4, 4, 1]) {
            0 => None,
            1 => Some(near(s, ret, 0)),
            _ => Some(s.logu(0, ret.saturating_mul(2).max(1))),
        };
        spread = match s.weighted(&[5, 4, 2, 1]) {
            0 => None,
            1 => Some(near(s, spread_bps, -1).clamp(-1, 20_000) as i64),
            2 => Some(near(s, p.max_spread as i128, -1) as i64),
            _ => Some(any_bps(s)),
        };
        deadline = gen_deadline(s, w.now());
        max_fee = match s.weighted(&[6, 4, 1]) {
            0 => None,
            1 => Some(near(s, p.fee_bps as i128, -1).min(20_000) as i64),
            _ => Some(any_bps(s)),
        };
    } else {
        min = match s.weighted(&[2, 2, 1]) {
            0 => None,
            1 => Some(ret),
            _ => Some(s.logu(0, ret.max(0))),
        };
        spread = match s.weighted(&[3, 2]) {
            0 => None,
            _ => {
                let lo = (spread_bps + 1).clamp(0, p.max_spread as i128);
                Some(s.range(lo, p.max_spread as i128) as i64)
            }
        };
        deadline = match s.below(3) {
            0 => None,
            1 => Some(w.now()),
            _ => Some(w.now() + s.below(1000)),
        };
        max_fee = match s.below(3) {
            0 => None,
            1 => Some(p.fee_bps),
            _ => Some(s.range(p.fee_bps as i128, 10_000) as i64),
        };
    }
    let r = SwapReq { a_to_b, amount, min, spread, deadline, max_fee };
    let offer = if a_to_b { &p.a } else { &p.b };
    let plan = plan_swap(&p, i, w.now(), ub, &r);
    ctx.log(format!(
        "swap user{} {} {} min={} max_spread={} deadline={} max_fee={}  [reserves {} {}]",
        ui,
        if a_to_b { "A->B" } else { "B->A" },
        amount,
        opt(&min),
        opt(&spread),
        opt(&deadline.map(|d| d as i128 - w.now() as i128)),
        opt(&max_fee),
        i.ra,
        i.rb
    ));
    // quotes first: they must not depend on limits and must not change anything
    let mut quote = None;
    if ctx.on("X06") && amount > 0 {
        quote = Some(check_quote(ctx, h, i, a_to_b, amount)?);
    }
    let res = w.call::<i128>(&p.addr, "swap", opt_args(&w, &r, u, offer));
    let s1 = snap(h, u)?;
    h.last = Some(s1.clone());
    h.ub[ui] = s1.user;
    let got = match &res {
        Ok(v) => *v,
        Err(_) => {
            check_any!(ctx, ["X01", "X03"], unchanged(s0, &s1), "failed-swap-moved-funds", "a refused swap changed balances");
            if let Plan::Yes(o) = &plan {
                check_any!(ctx, ["X02", "X03"], false, "swap-refused", "an order within all of its limits was refused: {:?}, expected {:?}", res, o);
            }
            match &plan {
                Plan::No(r) => ctx.label(match *r {
                    "min" => "swap-refused:min",
                    "spread" => "swap-refused:spread",
                    "deadline" => "swap-refused:deadline",
                    "fee" => "swap-refused:fee",
                    "spread-out-of-bounds" => "swap-refused:spread-bounds",
                    _ => "swap-refused:other",
                }),
                _ => ctx.label("swap-refused:range"),
            }
            return Ok(());
        }
    };
    ctx.label("swap");
    let o = match &plan {
        Plan::No(reason) => {
            if *reason == "no-price" {
                // an order the constant product cannot price without favouring the trader
                check_any!(ctx, ["X02"], false, "swap-beyond-price", "a swap paying more than the spot price was executed ({} -> {})", amount, got);
            }
            check_any!(ctx, ["X03"], false, "limit-ignored", "a swap that violates its limits ({}) was executed, returning {}", reason, got);
            return Ok(());
        }
        Plan::Yes(o) | Plan::Maybe(o) => o.clone(),
        Plan::Unknown => return Ok(()),
    };
    let (oi, ai) = if a_to_b { (0, 1) } else { (1, 0) };
    let (dp, du, df) = swap_deltas(&p, u, s0, &s1, ai, got);
    check_any!(ctx, ["X02"], got == o.ret, "swap-amount", "swap of {} on reserves ({}, {}) fee {}bps returned {} instead of {}", amount, op, ap, p.fee_bps, got, o.ret);
    check_any!(ctx, ["X01", "X02", "X03"], du[ai] == got && du[oi] == -amount, "swap-settlement", "trader's balances moved by {:?}, order was {} for {}", du, amount, got);
    check_any!(ctx, ["X02"], df[ai] == o.fee && df[oi] == 0, "swap-fee", "fee recipient received {:?}, the fee is {} of {} at {}bps", df, o.fee, o.gross, p.fee_bps);
    check_any!(ctx, ["X01"], dp[oi] == amount && dp[ai] == -(got + df[ai]) && dp[2] == 0, "swap-pool-balance", "pool balances moved by {:?} for an order of {} paying {} and fee {}", dp, amount, got, df[ai]);
    let di = [s1.i.ra - s0.i.ra, s1.i.rb - s0.i.rb];
    check_any!(ctx, ["X01", "X02"], di[oi] == dp[oi] && di[ai] == dp[ai] && s1.i.t == s0.i.t, "swap-reserves", "recorded reserves moved by {:?}, balances by {:?}", di, dp);
    // the product of the reserves is kept, up to the rounding of one unit of the bought asset
    let (na, nb) = if a_to_b { (b(s1.i.ra), b(s1.i.rb) + 1) } else { (b(s1.i.ra) + 1, b(s1.i.rb)) };
    check_any!(ctx, ["X02", "X07"], na * nb > b(i.ra) * b(i.rb), "product-fell", "reserves went from ({}, {}) to ({}, {})", i.ra, i.rb, s1.i.ra, s1.i.rb);
    // never better than the spot price
    check_any!(ctx, ["X02", "X07"], b(got + df[ai]) * b(op) <= b(amount) * b(ap), "better-than-spot", "{} bought {} at reserves ({}, {})", amount, got + df[ai], op, ap);
    // limits, judged on what actually happened
    check!(ctx, "X03", min.map(|m| du[ai] >= m).unwrap_or(true), "min-not-met", "received {} below the minimum {:?}", du[ai], min);
    check!(ctx, "X03", max_fee.map(|m| m >= p.fee_bps).unwrap_or(true), "fee-limit", "fee {}bps above the accepted {:?}", p.fee_bps, max_fee);
    if let Some((q_ret, q_fee, q_spread)) = quote.flatten() {
        check!(ctx, "X06", q_ret == got, "quote-differs", "simulate_swap({}) said {}, swap returned {}", amount, q_ret, got);
        check!(ctx, "X06", q_fee == df[ai], "quote-fee", "simulate_swap said fee {}, {} was charged", q_fee, df[ai]);
        check!(ctx, "X06", q_spread == o.spread, "quote-spread", "simulate_swap said spread {}, model says {}", q_spread, o.spread);
    }
    backing(ctx, h, &s1)
}

/// simulate_swap and simulate_reverse_swap against the model; returns (return, fee, spread)
fn check_quote(ctx: &mut Ctx, h: &Hist, i: &Info, a_to_b: bool, amount: i128) -> R<Option<(i128, i128, i128)>> {
    let w = &h.w;
    let p = &h.p;
    let (offer, ask) = if a_to_b { (&p.a, &p.b) } else { (&p.b, &p.a) };
    let (op, ap) = if a_to_b { (i.ra, i.rb) } else { (i.rb, i.ra) };
    let q = w.call::<Map<Symbol, Val>>(&p.addr, "simulate_swap", (offer.clone(), amount));
    let o = swap_math(op, ap, amount, p.fee_bps);
    let mut out = None;
    match (&q, &o) {
        (Ok(m), Some(o)) => {
            let ret: i128 = w.field(m, "ask_amount")?;
            let fee: i128 = w.field(m, "commission_amount")?;
            let spread: i128 = w.field(m, "spread_amount")?;
            let tot: i128 = w.field(m, "total_return")?;
            check!(ctx, "X06", (ret, fee, spread) == (o.ret, o.fee, o.spread), "quote-model", "simulate_swap({}) = {:?}, expected {:?}", amount, (ret, fee, spread), o);
            check!(ctx, "X06", tot == ret + fee + spread, "quote-total", "total_return {} is not the sum of its parts {:?}", tot, (ret, fee, spread));
            out = Some((ret, fee, spread));
            ctx.label("quote");
        }
        (Ok(_), None) => {
            check!(ctx, "X06", false, "quote-unpriceable", "simulate_swap({}) answered although the order has no price", amount);
        }
        (Err(e), Some(o)) => {
            check!(ctx, "X06", false, "quote-refused", "simulate_swap({}) failed ({:?}), expected {:?}", amount, e, o);
        }
        _ => {}
    }
    // reverse: ask for an amount near what this order would give
    let s = &mut ctx.src;
    let want = match s.weighted(&[3, 2]) {
        0 => o.as_ref().map(|o| o.ret).unwrap_or(1).max(1),
        _ => s.logu(1, ap.max(1)),
    };
    if p.fee_bps < 10_000 && want < ap && op > 0 && ap > 0 && op.checked_mul(ap).is_some() {
        let q = w.call::<Map<Symbol, Val>>(&p.addr, "simulate_reverse_swap", (ask.clone(), want));
        let rate = b(p.fee_bps as i128) * b(E18 / 10_000);
        let inv = b(E18) * b(E18) / (b(E18) - &rate);
        let before = b(want) * &inv;
        let in_range = before <= b(i128::MAX);
        let before = before / b(E18);
        if in_range && before < b(ap) {
            let need = b(op) * b(ap) / (b(ap) - &before) - b(op);
            let spread = &need * b(ap) / b(op) - &before;
            let fee = &before * &rate / b(E18);
            let fits = to_i(&(&need * b(ap))).is_some() && to_i(&(&before * &rate)).is_some();
            match q {
                Ok(m) => {
                    let x: i128 = w.field(&m, "offer_amount")?;
                    let sp: i128 = w.field(&m, "spread_amount")?;
                    let cf: i128 = w.field(&m, "commission_amount")?;
                    check!(ctx, "X06", b(x) == need && b(cf) == fee && b(sp) == spread, "reverse-model", "simulate_reverse_swap({}) = ({}, spread {}, fee {}), expected ({}, {}, {})", want, x, sp, cf, need, spread, fee);
                    // offering one unit more than quoted must be enough to get what was asked for
                    // (less the dust that rounding of the price and of the fee can cost)
                    if let Some(o) = swap_math(op, ap, x + 1, p.fee_bps) {
                        check!(ctx, "X06", o.ret + 2 >= want, "reverse-short", "simulate_reverse_swap({}) quoted {}, but {} only buys {}", want, x, x + 1, o.ret);
                    }
                    ctx.label("reverse-quote");
                }
                Err(e) => {
                    check!(ctx, "X06", !fits, "reverse-refused", "simulate_reverse_swap({}) on ({}, {}) failed: {:?}", want, op, ap, e);
                }
            }
        }
    }
    Ok(out)
}

fn do_deposit(ctx: &mut Ctx, h: &mut Hist, u: &Address, ui: usize, s0: &Snap, empty: bool) -> R {
    let w = h.w.clone();
    let p = h.p.clone();
    let i = &s0.i;
    let s = &mut ctx.src;
    let wild = s.bool(1, 3);
    let (da, db);
    if empty {
        let (x, y) = gen_first(s);
        da = x;
        db = y;
    } else {
        let cap = (i128::MAX / i.ra.max(i.rb).max(1)).min(40_000_000_000_000_000_000);
        da = match s.weighted(if wild { &[6, 2, 1] } else { &[8, 2, 0] }) {
            0 => s.logu(1, i.ra.min(cap).max(1)),
            1 => s.logu(1, i.ra.saturating_mul(10).min(cap).max(1)),
            _ => near(s, s0.user[0], 1),
        };
        let exact = to_i(&(b(da) * b(i.rb) / b(i.ra.max(1)))).unwrap_or(1).max(1);
        db = match s.weighted(if wild { &[5, 4, 3, 1] } else { &[5, 1, 1, 0] }) {
            0 => exact,
            1 => near(s, exact, 1),
            2 => {
                // off ratio by about the tolerance
                let bps = near(s, s_slip(&p, None) as i128, 0);
                let up = s.below(2) == 0;
                let d = to_i(&(b(exact) * b(bps) / b(10_000))).unwrap_or(0);
                if up {
                    exact.saturating_add(d)
                } else {
                    // exact / (1 + tol)
                    to_i(&(b(exact) * b(10_000) / (b(10_000) + b(bps)))).unwrap_or(1).max(1)
                }
            }
            _ => s.logu(1, cap),
        };
    }
    let slip = match s.weighted(if wild { &[6, 2, 2, 1] } else { &[4, 2, 0, 0] }) {
        0 => None,
        1 => Some(s.range(0, p.max_slip as i128) as i64),
        2 => Some(near(s, p.max_slip as i128, 0) as i64),
        _ => Some(any_bps(s)),
    };
    let deadline = if wild { gen_deadline(s, w.now()) } else { None };
    let mut r = DepositReq { da: Some(da), ma: None, db: Some(db), mb: None, slip, deadline };
    let pre = plan_deposit(&p, i, w.now(), s0.pool[0], s0.pool[1], i128::MAX / 4, i128::MAX / 4, &DepositReq { deadline: None, ..clone_dep(&r) });
    let (ea, eb) = match &pre {
        Plan::Yes(o) | Plan::Maybe(o) => (o.amt_a, o.amt_b),
        _ => (da, db),
    };
    if s.bool(1, 2) {
        r.ma = Some(if wild { near(s, ea, 1) } else { s.logu(1, ea.max(1)) });
    }
    if s.bool(1, 2) {
        r.mb = Some(if wild { near(s, eb, 1) } else { s.logu(1, eb.max(1)) });
    }
    match if wild { s.below(40) } else { 0 } {
        37 => r.da = None,
        38 => r.db = Some(s.range(-1, 0)),
        39 => r.da = Some(s.range(-1, 0)),
        _ => {}
    }
    let mut plan = plan_deposit(&p, i, w.now(), s0.pool[0], s0.pool[1], s0.user[0], s0.user[1], &r);
    ctx.log(format!(
        "provide user{} desired=({},{}) min=({},{}) slippage={} deadline={}  [reserves {} {} shares {}]",
        ui,
        opt(&r.da),
        opt(&r.db),
        opt(&r.ma),
        opt(&r.mb),
        opt(&r.slip),
        opt(&r.deadline.map(|d| d as i128 - w.now() as i128)),
        i.ra,
        i.rb,
        i.t
    ));
    // minima are not consulted for the very first deposit, which takes exactly the desired amounts
    if empty {
        if let Plan::Yes(o) = &plan {
            if r.ma.map(|m| m > o.amt_a).unwrap_or(false) || r.mb.map(|m| m > o.amt_b).unwrap_or(false) {
                plan = Plan::Maybe(o.clone());
            }
        }
    }
    let res = w.call::<()>(
        &p.addr,
        "provide_liquidity",
        (u.clone(), r.da, r.ma, r.db, r.mb, r.slip, r.deadline),
    );
    let s1 = snap(h, u)?;
    h.last = Some(s1.clone());
    h.ub[ui] = s1.user;
    if res.is_err() {
        check_any!(ctx, ["X01", "X04"], unchanged(s0, &s1), "failed-deposit-moved-funds", "a refused deposit changed balances");
        if let Plan::Yes(o) = &plan {
            check!(ctx, "X04", false, "deposit-refused", "a deposit within its limits was refused ({:?}); expected {:?}", res, o);
        }
        ctx.label("deposit-refused");
        return Ok(());
    }
    ctx.label(if empty { "first-deposit" } else { "deposit" });
    let o = match &plan {
        Plan::No(reason) => {
            check!(ctx, "X04", false, "deposit-limit-ignored", "a deposit that violates its limits ({}) was executed", reason);
            return Ok(());
        }
        Plan::Yes(o) | Plan::Maybe(o) => o.clone(),
        Plan::Unknown => return Ok(()),
    };
    let (dp, du, df) = plain_deltas(&p, u, s0, &s1);
    let (xa, xb) = (-du[0], -du[1]);
    check!(ctx, "X04", (xa, xb) == (o.amt_a, o.amt_b), "deposit-amounts", "deposit took ({}, {}) instead of ({}, {})", xa, xb, o.amt_a, o.amt_b);
    check!(ctx, "X04", xa <= r.da.unwrap_or(0) && xb <= r.db.unwrap_or(0), "deposit-above-desired", "deposit took more than desired: ({}, {})", xa, xb);
    check!(ctx, "X04", empty || (r.ma.map(|m| xa >= m).unwrap_or(true) && r.mb.map(|m| xb >= m).unwrap_or(true)), "deposit-below-min", "deposit took less than the minimum: ({}, {})", xa, xb);
    check!(ctx, "X04", du[2] == o.minted, "deposit-shares", "deposit of ({}, {}) on {:?} (balances {:?}) minted {} shares instead of {}", xa, xb, i, s0.pool, du[2], o.minted);
    check_any!(ctx, ["X01", "X04"], dp[2] == o.locked, "locked-shares", "{} shares were locked in the pool instead of {}", dp[2], o.locked);
    check!(ctx, "X01", dp[0] == xa && dp[1] == xb && df == [0, 0], "deposit-settlement", "pool balances moved by {:?}, depositor's by {:?}", dp, du);
    check!(ctx, "X01", s1.i.ra == s1.pool[0] && s1.i.rb == s1.pool[1], "deposit-reserves", "after a deposit the reserves {:?} differ from the balances {:?}", s1.i, s1.pool);
    check!(ctx, "X01", s1.i.t - s0.i.t == du[2] + dp[2], "share-supply", "{} shares were issued but the total moved from {} to {}", du[2] + dp[2], s0.i.t, s1.i.t);
    if !empty {
        check_any!(ctx, ["X04", "X07"], value_kept(i, &s1.i), "deposit-dilutes", "a deposit lowered the value of a share: {:?} -> {:?}", i, s1.i);
        check_any!(ctx, ["X04", "X07"], b(s1.i.ra) * b(i.t) >= b(i.ra) * b(s1.i.t) && b(s1.i.rb) * b(i.t) >= b(i.rb) * b(s1.i.t), "deposit-dilutes", "a deposit lowered the backing of a share: {:?} -> {:?}", i, s1.i);
    }
    backing(ctx, h, &s1)
}

fn s_slip(p: &Pool, c: Option<i64>) -> i64 {
    c.unwrap_or(p.def_slip)
}
fn clone_dep(r: &DepositReq) -> DepositReq {
    DepositReq { da: r.da, ma: r.ma, db: r.db, mb: r.mb, slip: r.slip, deadline: r.deadline }
}

fn do_withdraw(ctx: &mut Ctx, h: &mut Hist, u: &Address, ui: usize, s0: &Snap) -> R {
    let w = h.w.clone();
    let p = h.p.clone();
    let i = &s0.i;
    let s = &mut ctx.src;
    let held = s0.user[2];
    let wild = held == 0 || s.bool(1, 3);
    let sh = match s.weighted(if wild { &[5, 3, 2, 1] } else { &[6, 1, 0, 0] }) {
        0 => {
            // enough shares to be worth a unit of each asset
            let lo = (i.t / i.ra.min(i.rb).max(1) + 1).min(held).max(1);
            s.logu(lo, held.max(1))
        }
        1 => held,
        2 => near(s, held, 0),
        _ => s.range(-1, 1),
    };
    let (x, y) = if i.t > 0 && sh > 0 {
        let (x, y, _) = share_of(i, sh);
        (x, y)
    } else {
        (1, 1)
    };
    let ma = if !s.bool(1, 2) {
        1
    } else if wild {
        near(s, x, 0)
    } else {
        s.logu(1, x.max(1))
    };
    let mb = if !s.bool(1, 2) {
        1
    } else if wild {
        near(s, y, 0)
    } else {
        s.logu(1, y.max(1))
    };
    let deadline = if wild { gen_deadline(s, w.now()) } else { None };
    ctx.log(format!(
        "withdraw user{} shares={} of {} min=({},{}) deadline={}  [reserves {} {} shares {}]",
        ui,
        sh,
        held,
        ma,
        mb,
        opt(&deadline.map(|d| d as i128 - w.now() as i128)),
        i.ra,
        i.rb,
        i.t
    ));
    let plan = plan_withdraw(i, w.now(), held, sh, ma, mb, deadline);
    let mut quote = None;
    if ctx.on("X06") && sh > 0 && i.t > 0 {
        let q = w.call::<Vec<Val>>(&p.addr, "query_share", (sh,));
        let (ex, ey, fits) = share_of(i, sh);
        match q {
            Ok(v) => {
                let f = |k: u32| -> R<(Address, i128)> {
                    let m = w.to_map(v.get(k).unwrap())?;
                    Ok((w.field(&m, "address")?, w.field(&m, "amount")?))
                };
                let (qa, qb) = (f(0)?, f(1)?);
                check!(ctx, "X06", qa.0 == p.a && qb.0 == p.b, "share-assets", "query_share names the wrong assets");
                check!(ctx, "X06", (qa.1, qb.1) == (ex, ey), "share-model", "query_share({}) on {:?} = ({}, {}), expected ({}, {})", sh, i, qa.1, qb.1, ex, ey);
                quote = Some((qa.1, qb.1));
                ctx.label("share-quote");
            }
            Err(e) => {
                check!(ctx, "X06", !fits, "share-refused", "query_share({}) failed: {:?}", sh, e);
            }
        }
    }
    let res = w.call::<(i128, i128)>(&p.addr, "withdraw_liquidity", (u.clone(), sh, ma, mb, deadline));
    let s1 = snap(h, u)?;
    h.last = Some(s1.clone());
    h.ub[ui] = s1.user;
    let got = match &res {
        Err(_) => {
            check_any!(ctx, ["X01", "X05"], unchanged(s0, &s1), "failed-withdrawal-moved-funds", "a refused withdrawal changed balances");
            if let Plan::Yes(o) = &plan {
                check!(ctx, "X05", false, "withdrawal-refused", "a withdrawal within its limits was refused ({:?}); expected {:?}", res, o);
            }
            ctx.label("withdraw-refused");
            return Ok(());
        }
        Ok(v) => *v,
    };
    ctx.label("withdraw");
    let o = match &plan {
        Plan::No(reason) => {
            check!(ctx, "X05", false, "withdrawal-limit-ignored", "a withdrawal that violates its limits ({}) was executed", reason);
            return Ok(());
        }
        Plan::Yes(o) | Plan::Maybe(o) => *o,
        Plan::Unknown => return Ok(()),
    };
    let (dp, du, df) = plain_deltas(&p, u, s0, &s1);
    check!(ctx, "X05", got == o, "withdrawal-amount", "withdrawing {} of {} shares on ({}, {}) returned {:?} instead of {:?}", sh, i.t, i.ra, i.rb, got, o);
    check_any!(ctx, ["X01", "X05"], (du[0], du[1]) == got && du[2] == -sh, "withdrawal-settlement", "holder's balances moved by {:?} for {} shares and {:?}", du, sh, got);
    check_any!(ctx, ["X01"], dp == [-got.0, -got.1, 0] && df == [0, 0], "withdrawal-pool", "pool balances moved by {:?} for a withdrawal of {:?}", dp, got);
    check_any!(ctx, ["X01", "X05"], s1.i.ra == i.ra - du[0] && s1.i.rb == i.rb - du[1] && s1.i.t == i.t - sh, "withdrawal-reserves", "records went from {:?} to {:?} for {:?}", i, s1.i, got);
    check_any!(ctx, ["X05", "X07"], value_kept(i, &s1.i) && b(s1.i.ra) * b(i.t) >= b(i.ra) * b(s1.i.t) && b(s1.i.rb) * b(i.t) >= b(i.rb) * b(s1.i.t), "withdrawal-dilutes", "a withdrawal lowered the value of the remaining shares: {:?} -> {:?}", i, s1.i);
    if let Some(q) = quote {
        check!(ctx, "X06", q == got, "share-differs", "query_share said {:?}, the withdrawal paid {:?}", q, got);
    }
    backing(ctx, h, &s1)
}

pub fn props() -> std::vec::Vec<Prop> {
    const A: &[&str] = &["assets are the host's built-in asset contract (7 decimals) and the repository's share token, for X01 also assets that keep part of every transfer; a direct pool deployment, all signatures granted"];
    let sc = |q, t| vec![Scenario { name: "pool-history", run: history, quick: q, thorough: t }];
    let rule = "a case is a random pool configuration and a history of 6..27 swaps, deposits, withdrawals, donations and fee/limit changes by three users, with limits drawn at and around the predicted outcome; non-trivial = at least one deposit and two swaps/withdrawals attempted (with assets that keep part of every transfer: two executed)";
    [
        ("X01", "XYK pool funds always match its books"),
        ("X02", "XYK swaps pay the constant-product price less the fee"),
        ("X03", "XYK swap limits are always honoured"),
        ("X04", "XYK deposits are bounded and mint fair shares"),
        ("X05", "XYK withdrawals pay the exact pro-rata share"),
        ("X06", "XYK quotes equal what execution does"),
        ("X07", "XYK share value is never eroded"),
    ]
    .into_iter()
    .map(|(id, title)| {
        let mut scenarios = sc(2000, 40000);
        if id == "X01" {
            scenarios.push(Scenario { name: "taxed", run: crate::taxed::xyk, quick: 1000, thorough: 20000 });
        }
        Prop { id, title, rule, assumptions: A, scenarios }
    })
    .collect()
}
