//! V01-V03: the vesting contract against a reference model of schedules, claims and the minter.
use crate::engine::*;
use crate::world::*;
use crate::{check, check_any};
use num_bigint::BigInt;
use soroban_sdk::{Address, Map, Symbol, Val, Vec};

#[derive(Clone, Debug)]
pub enum Cv {
    Const(u128),
    Sat(u64, u128, u64, u128),
    Pw(std::vec::Vec<(u64, u128)>),
}

impl Cv {
    pub fn val(&self, w: &W) -> Val {
        let v: Vec<Val> = match self {
            Cv::Const(y) => soroban_sdk::vec![&w.env, w.val(Symbol::new(&w.env, "Constant")), w.val(*y)],
            Cv::Sat(a, y, c, z) => soroban_sdk::vec![
                &w.env,
                w.val(Symbol::new(&w.env, "SaturatingLinear")),
                w.record(&[("min_x", w.val(*a)), ("min_y", w.val(*y)), ("max_x", w.val(*c)), ("max_y", w.val(*z))]),
            ],
            Cv::Pw(p) => {
                let mut steps: Vec<Val> = Vec::new(&w.env);
                for (t, y) in p {
                    steps.push_back(w.record(&[("time", w.val(*t)), ("value", w.val(*y))]));
                }
                soroban_sdk::vec![&w.env, w.val(Symbol::new(&w.env, "PiecewiseLinear")), w.record(&[("steps", w.val(steps))])]
            }
        };
        w.val(v)
    }
    pub fn points(&self) -> std::vec::Vec<(u64, u128)> {
        match self {
            Cv::Const(y) => vec![(0, *y)],
            Cv::Sat(a, y, c, z) => vec![(*a, *y), (*c, *z)],
            Cv::Pw(p) => p.clone(),
        }
    }
    /// linear between the points, constant outside; the partial step is rounded towards the earlier point
    pub fn at(&self, x: u64) -> u128 {
        let p = self.points();
        if x <= p[0].0 {
            return p[0].1;
        }
        for k in 1..p.len() {
            let ((x0, y0), (x1, y1)) = (p[k - 1], p[k]);
            if x <= x1 {
                let part = |d: u128| u128::try_from(BigInt::from(d) * (x - x0) / (x1 - x0)).unwrap();
                return if y1 >= y0 { y0 + part(y1 - y0) } else { y0 - part(y0 - y1) };
            }
        }
        p[p.len() - 1].1
    }
    /// Whether the schedule is admissible (None: an all-zero schedule, about which nothing is promised)
    fn admissible(&self, max_complexity: u32) -> Option<bool> {
        let p = self.points();
        let ok = match self {
            Cv::Const(_) => false,
            _ => {
                !p.is_empty()
                    && p.windows(2).all(|k| k[0].0 < k[1].0 && k[0].1 >= k[1].1)
                    && p[p.len() - 1].1 == 0
                    && (p.len() as u32) < max_complexity
                    && p[0].1 <= i128::MAX as u128
            }
        };
        if ok && p[0].1 == 0 {
            return None;
        }
        // a first point at time zero is refused by the piecewise validation
        if ok && matches!(self, Cv::Pw(_)) && p[0].0 == 0 {
            return None;
        }
        Some(ok)
    }
}

struct Sched {
    curve: Cv,
    total: u128,
    claimed: u128,
}

struct M {
    w: W,
    addr: Address,
    tok: Address,
    admin: Address,
    users: std::vec::Vec<Address>,
    sched: std::vec::Vec<std::vec::Vec<Sched>>,
    maxc: u32,
    /// current minter (index into `people`) and capacity
    minter: Option<(usize, u128)>,
    people: std::vec::Vec<Address>,
    minted: u128,
    granted: u128,
    can_mint: bool,
    supply: i128,
}

fn gen_curve(s: &mut Src, now: u64, maxc: u32) -> Cv {
    let amount = |s: &mut Src| -> u128 {
        let m = if s.bool(1, 4) { 100_000_000_000_000_000_000_000_000 } else { 1_000_000_000 };
        s.logu(1, m) as u128
    };
    let at = |s: &mut Src| -> u64 {
        match s.weighted(&[3, 3, 1, 1]) {
            0 => now + s.below(1000),
            1 => now + s.below(100_000_000),
            2 => now.saturating_sub(s.below(10_000_000)),
            _ => 1 + s.below(100),
        }
    };
    match s.weighted(&[8, 8, 1, 1, 1]) {
        0 => {
            let x = at(s);
            let d = s.logu(1, 300_000_000) as u64;
            Cv::Sat(x, amount(s), x + d, 0)
        }
        1 => {
            let n = 1 + s.below((maxc as u64).min(12)) as usize;
            let mut t = at(s);
            let mut y = amount(s);
            let mut p = vec![];
            for k in 0..n {
                p.push((t, if k + 1 == n { 0 } else { y }));
                t += s.logu(1, 30_000_000) as u64;
                y = match s.weighted(&[3, 1, 1]) {
                    0 => s.range(0, y as i128) as u128,
                    1 => y,
                    _ => y - y / 3,
                };
            }
            Cv::Pw(p)
        }
        2 => Cv::Const(amount(s)),
        3 => {
            // broken in one way
            let x = at(s);
            let d = s.logu(1, 300_000_000) as u64;
            match s.below(4) {
                0 => Cv::Sat(x, 5, x + d, 7),
                1 => Cv::Sat(x, amount(s), x + d, 1),
                2 => Cv::Sat(x, amount(s), x, 0),
                _ => Cv::Sat(x + d, amount(s), x, 0),
            }
        }
        _ => {
            let mut p = vec![];
            let mut t = at(s);
            for _ in 0..s.below(5) {
                p.push((t, s.below(100) as u128));
                t = (t + s.below(100)).saturating_sub(s.below(20));
            }
            if s.bool(2, 3) {
                p.push((t + 1, 0));
            }
            Cv::Pw(p)
        }
    }
}

fn setup(ctx: &mut Ctx) -> R<M> {
    let w = W::new();
    let s = &mut ctx.src;
    w.epoch(s);
    let admin = w.addr();
    let maxc = *s.pick(&[10u32, 3, 5, 20, 10, 5, 20, 10, 4, 2, 1, 10]);
    let addr = w.deploy("vesting");
    let v03 = ctx.prop == "V03";
    let minting = if v03 { s.bool(7, 8) } else { s.bool(1, 2) };
    let funds: i128 = if s.bool(1, 10) { 100_000 } else { 1_000_000_000_000_000_000_000_000_000_000 };
    let tok = if minting {
        let t = w.token(&admin, 6);
        w.mint(&t, &admin, funds)?;
        w.must::<()>(&t, "set_admin", (addr.clone(),))?;
        t
    } else {
        let t = w.sac();
        w.mint_sac(&t, &admin, funds);
        t
    };
    let nu = match s.weighted(&[6, 1, 1]) {
        0 => 3,
        1 => 1 + s.below(4) as usize,
        _ => 4 + s.below(9) as usize,
    };
    let mut users: std::vec::Vec<Address> = (0..nu).map(|_| w.addr()).collect();
    let mut people: std::vec::Vec<Address> = (0..3).map(|_| w.addr()).collect();
    // the same person in two roles
    if s.bool(1, 5) {
        users[0] = admin.clone();
    }
    if s.bool(1, 5) {
        people[s.below(3) as usize] = users[nu - 1].clone();
    }
    if s.bool(1, 8) && nu > 1 {
        people[s.below(3) as usize] = admin.clone();
    }
    let info = w.record(&[("name", w.val(w.str("Token"))), ("symbol", w.val(w.str("TOK"))), ("decimals", w.val(6u32)), ("address", w.val(tok.clone()))]);
    let mut minter = None;
    let mut granted = 0;
    if minting && s.bool(2, 3) {
        let cap = gen_cap(s, 1_000_000_000_000);
        let m = w.record(&[("address", w.val(people[0].clone())), ("mint_capacity", w.val(cap))]);
        w.must::<()>(&addr, "initialize_with_minter", (admin.clone(), info, maxc, m))?;
        minter = Some((0, cap));
        granted = cap;
    } else {
        w.must::<()>(&addr, "initialize", (admin.clone(), info, maxc))?;
    }
    ctx.log(format!("vesting contract max_complexity={} minter={:?} admin has {}", maxc, minter, funds));
    Ok(M { w, addr, tok, admin, users, sched: (0..nu).map(|_| vec![]).collect(), maxc, minter, people, minted: 0, granted, can_mint: minting, supply: funds })
}

pub fn history(ctx: &mut Ctx) -> R {
    let mut m = setup(ctx)?;
    let n = ctx.steps(5, 22);
    let mut claims = 0;
    for k in 0..n {
        ctx.src.begin();
        if ctx.src.bool(2, 3) {
            let dt = match ctx.src.weighted(&[2, 3, 3, 1]) {
                0 => 1,
                1 => ctx.src.below(2000),
                2 => ctx.src.below(10_000_000),
                _ => ctx.src.below(150_000_000),
            };
            m.w.pass(dt);
            ctx.log(format!("+{}s", dt));
        }
        // now and then jump exactly to (or next to) a point of some schedule
        if ctx.src.bool(1, 5) {
            let now = m.w.now();
            let pts: std::vec::Vec<u64> = m.sched.iter().flatten().flat_map(|s| s.curve.points()).map(|p| p.0).filter(|t| *t > now).collect();
            if !pts.is_empty() {
                let t = (*ctx.src.pick(&pts) + ctx.src.below(3)).saturating_sub(1).max(now);
                m.w.set_time(t);
                ctx.log(format!("to {}", t));
            }
        }
        let v03 = ctx.prop == "V03";
        let kind = if k == 0 { 0 } else { ctx.src.weighted(if v03 { &[2, 4, 8, 2, 3, 3] } else { &[4, 8, 2, 1, 1, 1] }) };
        // a minter with nothing left to mint usually gets a capacity first
        let kind = match m.minter {
            None if kind == 2 && v03 && ctx.src.bool(2, 3) => 3,
            Some((_, 0)) if kind == 2 && v03 && ctx.src.bool(2, 3) => 4,
            _ => kind,
        };
        let r = match kind {
            0 => create(ctx, &mut m),
            1 => claim(ctx, &mut m, &mut claims),
            2 => mint(ctx, &mut m),
            3 => minter(ctx, &mut m),
            4 => capacity(ctx, &mut m),
            _ => burn(ctx, &mut m),
        };
        let r = r.and_then(|_| verify(ctx, &m));
        ctx.src.end();
        r?;
    }
    let some = m.sched.iter().any(|s| !s.is_empty());
    ctx.nontrivial = if ctx.on("V03") { m.minted > 0 } else { some };
    if claims > 0 {
        ctx.label("claimed");
    }
    // far in the future everything can be claimed, in any order
    m.w.set_time(m.w.now() + 10_000_000_000);
    for ui in 0..m.users.len() {
        for i in (0..m.sched[ui].len()).rev() {
            claim_at(ctx, &mut m, ui, i as u64, &mut claims)?;
        }
    }
    verify(ctx, &m)?;
    if m.minted == 0 {
        check_any!(ctx, ["V01", "V02"], m.w.bal(&m.tok, &m.addr) == 0, "leftover", "tokens remain after every schedule was claimed in full");
    }
    Ok(())
}

fn create(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let nu = m.users.len();
    let n = match s.weighted(&[1, 12, 5, 3, 6]) {
        0 => 0,
        4 => 1 + s.below(nu as u64) as usize,
        k => k,
    };
    let mut list = vec![];
    let first = s.below(nu as u64) as usize;
    // in a long list most schedules are admissible ones, so that a single flaw decides
    let plain = s.bool(1, 2);
    for k in 0..n {
        let c = gen_curve(s, m.w.now(), m.maxc);
        let c = match c.admissible(m.maxc) {
            Some(true) => c,
            _ if plain || s.bool(n as u64 - 1, n as u64) => Cv::Sat(m.w.now(), 1000, m.w.now() + 1 + s.below(100_000), 0),
            _ => c,
        };
        list.push(((first + k) % nu, c));
    }
    // a recipient named twice, anywhere in the list
    if n >= 2 && s.bool(1, 5) {
        let a = s.below(n as u64) as usize;
        let b = s.below(n as u64) as usize;
        list[a].0 = list[b].0;
    }
    let w = m.w.clone();
    let have = w.bal(&m.tok, &m.admin);
    let held = w.bal(&m.tok, &m.addr);
    ctx.log(format!("create {:?}", list));
    let mut v: Vec<Val> = Vec::new(&w.env);
    for (u, c) in &list {
        v.push_back(w.record(&[("recipient", w.val(m.users[*u].clone())), ("curve", c.val(&w))]));
    }
    let r = w.call::<()>(&m.addr, "create_vesting_schedules", (v,));
    let mut ok = Some(!list.is_empty());
    let mut seen = vec![false; nu];
    let mut total = BigInt::from(0);
    for (u, c) in &list {
        if seen[*u] {
            ok = Some(false);
        }
        seen[*u] = true;
        total += c.points().first().map(|p| p.1).unwrap_or(0);
    }
    for (_, c) in &list {
        match c.admissible(m.maxc) {
            Some(false) => ok = Some(false),
            None if ok == Some(true) => ok = None,
            _ => {}
        }
    }
    if total > BigInt::from(have) || &total + held > BigInt::from(i128::MAX) {
        ok = Some(false);
    }
    match (ok, r.is_ok()) {
        (Some(true), false) => check!(ctx, "V02", false, "schedule-refused", "admissible schedules were refused: {:?}", r),
        (Some(false), true) => check!(ctx, "V02", false, "schedule-accepted", "inadmissible schedules were accepted: {:?} (complexity limit {}, admin has {})", list, m.maxc, have),
        _ => {}
    }
    let moved = have - w.bal(&m.tok, &m.admin);
    let got = w.bal(&m.tok, &m.addr) - held;
    if r.is_ok() {
        check_any!(ctx, ["V02"], BigInt::from(moved) == total && moved == got, "funding", "schedules of {} took {} from the admin and put {} into the contract", total, moved, got);
        for (u, c) in list {
            let p = c.points();
            m.sched[u].push(Sched { total: p[0].1, claimed: 0, curve: c });
        }
        ctx.label("created");
    } else {
        check_any!(ctx, ["V02"], moved == 0 && got == 0, "funding", "refused schedules moved {} tokens", moved);
        ctx.label("create-refused");
    }
    Ok(())
}

fn claim(ctx: &mut Ctx, m: &mut M, claims: &mut u32) -> R {
    let s = &mut ctx.src;
    let nu = m.users.len();
    let mut ui = s.below(nu as u64) as usize;
    if m.sched[ui].is_empty() && s.bool(7, 8) {
        ui = (0..nu).find(|j| !m.sched[*j].is_empty()).unwrap_or(ui);
    }
    let n = m.sched[ui].len() as u64;
    let i = if n > 0 && s.bool(9, 10) { s.below(n) } else { n + s.below(2) };
    claim_at(ctx, m, ui, i, claims)
}

fn claim_at(ctx: &mut Ctx, m: &mut M, ui: usize, i: u64, claims: &mut u32) -> R {
    let w = m.w.clone();
    let u = m.users[ui].clone();
    let due = m.sched[ui].get(i as usize).map(|s| s.total - s.curve.at(w.now()) - s.claimed);
    ctx.log(format!("claim user{} schedule {} at {} (due {:?})", ui, i, w.now(), due));
    let before = w.bal(&m.tok, &u);
    let held = w.bal(&m.tok, &m.addr);
    let r = w.call_signed::<()>(&[u.clone()], &m.addr, "claim", (u.clone(), i));
    let got = w.bal(&m.tok, &u) - before;
    let gave = held - w.bal(&m.tok, &m.addr);
    match due {
        Some(d) if d > 0 => {
            check_any!(ctx, ["V01", "V02"], r.is_ok(), "claim-refused", "user{} cannot claim the {} due from schedule {}: {:?}", ui, d, i, r);
            if r.is_ok() {
                check_any!(ctx, ["V01"], got as u128 == d && gave == got, "claim-amount", "a claim of {} paid {} to the user from {} of the contract", d, got, gave);
                m.sched[ui][i as usize].claimed += got as u128;
                *claims += 1;
                ctx.label("claim");
            }
        }
        _ => {
            check_any!(ctx, ["V01"], r.is_err() && got == 0 && gave == 0, "claim-accepted", "a claim with nothing due was accepted and paid {}", got);
            ctx.label("claim-refused");
        }
    }
    Ok(())
}

/// Capacities up to and beyond what a balance can hold
fn gen_cap(s: &mut Src, usual: i128) -> u128 {
    match s.weighted(&[8, 1, 1]) {
        0 => s.logu(0, usual) as u128,
        1 => s.logu(usual, i128::MAX) as u128,
        _ => *s.pick(&[u128::MAX, i128::MAX as u128, i128::MAX as u128 + 1, u64::MAX as u128, u64::MAX as u128 + 1]),
    }
}

fn mint(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let cap = m.minter.map(|x| x.1).unwrap_or(0);
    let top = cap.min(i128::MAX as u128 - 1) as i128;
    let who = match (m.minter, s.weighted(&[6, 1, 1])) {
        (Some((k, _)), 0) => m.people[k].clone(),
        (_, 2) => m.admin.clone(),
        _ => m.people[s.below(3) as usize].clone(),
    };
    let amt = match s.weighted(&[5, 2, 1]) {
        0 => s.logu(1, (top / 3).max(1)),
        1 => top + s.range(-1, 1),
        _ => *s.pick(&[0i128, 0, -1, i128::MAX, i128::MIN]),
    };
    let is = m.minter.map(|x| m.people[x.0] == who).unwrap_or(false);
    let w = m.w.clone();
    let held = w.bal(&m.tok, &m.addr);
    let ok = is && amt > 0 && amt as u128 <= cap && m.can_mint && held.checked_add(amt).is_some();
    ctx.log(format!("mint {} by minter: {} (capacity {})", amt, is, cap));
    let r = w.call_signed::<()>(&[who.clone()], &m.addr, "mint", (who.clone(), amt));
    check!(ctx, "V03", r.is_ok() == ok, "mint", "mint of {} (minter {}, capacity {}) gave {:?}", amt, is, cap, r);
    let got = w.bal(&m.tok, &m.addr) - held;
    let exp = if r.is_ok() { amt } else { 0 };
    check!(ctx, "V03", got == exp, "mint-amount", "mint of {} ({}) added {} to the contract", amt, r.is_ok(), got);
    if r.is_ok() {
        m.minted += amt as u128;
        m.supply = m.supply.wrapping_add(amt);
        if let Some(x) = &mut m.minter {
            x.1 = x.1.saturating_sub(amt as u128);
        }
        ctx.label("mint");
    } else {
        ctx.label("mint-refused");
    }
    Ok(())
}

fn minter(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let who_i = s.below(4) as usize;
    let who = if who_i == 3 { m.admin.clone() } else { m.people[who_i].clone() };
    let to = s.below(3) as usize;
    let ok = match m.minter {
        Some((k, _)) => who == m.people[k],
        None => who == m.admin,
    };
    ctx.log(format!("update_minter by {} to {} (current {:?})", who_i, to, m.minter));
    let r = m.w.call_signed::<()>(&[who.clone()], &m.addr, "update_minter", (who.clone(), m.people[to].clone()));
    check!(ctx, "V03", r.is_ok() == ok, "update-minter", "update_minter by {} (3 is the admin; current minter {:?}) gave {:?}", who_i, m.minter, r);
    if r.is_ok() {
        m.minter = Some((to, m.minter.map(|x| x.1).unwrap_or(0)));
        ctx.label("update-minter");
    }
    Ok(())
}

fn capacity(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let who = if s.bool(3, 4) { m.admin.clone() } else { m.people[s.below(3) as usize].clone() };
    let admin = who == m.admin;
    let cap = gen_cap(s, 1_000_000_000_000_000);
    ctx.log(format!("update_minter_capacity {} by admin: {}", cap, admin));
    let r = m.w.call_signed::<()>(&[who.clone()], &m.addr, "update_minter_capacity", (who.clone(), cap));
    check!(ctx, "V03", r.is_ok() == (admin && m.minter.is_some()), "update-capacity", "update_minter_capacity (admin {}, minter {:?}) gave {:?}", admin, m.minter, r);
    if r.is_ok() {
        let x = m.minter.as_mut().unwrap();
        m.granted = m.minted.saturating_add(cap);
        x.1 = cap;
        ctx.label("update-capacity");
    }
    Ok(())
}

fn burn(ctx: &mut Ctx, m: &mut M) -> R {
    let s = &mut ctx.src;
    let w = m.w.clone();
    let ui = s.below(m.users.len() as u64) as usize;
    let u = m.users[ui].clone();
    let have = w.bal(&m.tok, &u);
    let amt: u128 = match s.weighted(&[4, 2, 1, 1]) {
        0 => s.logu(1, have.max(1)) as u128,
        1 => (have + s.range(-1, 1)).max(0) as u128,
        2 => 0,
        _ => u128::MAX - s.below(3) as u128,
    };
    let held = w.bal(&m.tok, &m.addr);
    ctx.log(format!("burn {} by user{} (has {})", amt, ui, have));
    let r = w.call::<()>(&m.addr, "burn", (u.clone(), amt));
    let ok = amt > 0 && amt <= have as u128;
    check!(ctx, "V03", r.is_ok() == ok, "burn", "burn of {} (balance {}) gave {:?}", amt, have, r);
    let lost = have - w.bal(&m.tok, &u);
    let exp = if r.is_ok() { amt as i128 } else { 0 };
    check!(ctx, "V03", lost == exp, "burn-amount", "burn of {} took {}", amt, lost);
    check!(ctx, "V03", held == w.bal(&m.tok, &m.addr), "burn-contract", "burning a user's tokens changed the contract's balance");
    m.supply = m.supply.wrapping_sub(exp);
    if r.is_ok() {
        ctx.label("burn");
    }
    Ok(())
}

fn verify(ctx: &Ctx, m: &M) -> R {
    let w = &m.w;
    let held = w.bal(&m.tok, &m.addr) as u128;
    let owed: u128 = m.sched.iter().flatten().map(|s| s.total - s.claimed).sum();
    check_any!(ctx, ["V02"], held == owed + m.minted, "uncovered", "the contract holds {}; {} are still to be claimed and {} were minted to it", held, owed, m.minted);
    let q: i128 = w.must(&m.addr, "query_vesting_contract_balance", ())?;
    check_any!(ctx, ["V02"], q as u128 == held, "balance-query", "query_vesting_contract_balance {} but the balance is {}", q, held);
    if ctx.on("V01") {
        for (ui, u) in m.users.iter().enumerate() {
            let q: i128 = w.must(&m.addr, "query_balance", (u.clone(),))?;
            check!(ctx, "V01", q == w.bal(&m.tok, u), "user-balance", "query_balance of user{} gives {}, it has {}", ui, q, w.bal(&m.tok, u));
            if ui > 3 && m.sched[ui].is_empty() {
                continue;
            }
            let all: Vec<Val> = w.must(&m.addr, "query_all_vesting_info", (u.clone(),))?;
            check!(ctx, "V01", all.len() as usize == m.sched[ui].len(), "schedule-count", "user{} has {} schedules, {} reported", ui, m.sched[ui].len(), all.len());
            for (i, sc) in m.sched[ui].iter().enumerate() {
                let one: Val = w.must(&m.addr, "query_vesting_info", (u.clone(), i as u64))?;
                let one = w.to_map(one)?;
                let bal: u128 = w.field(&one, "balance")?;
                check!(ctx, "V01", bal == sc.total - sc.claimed, "schedule-balance", "user{} schedule {}: {} of {} claimed, remaining {} reported", ui, i, sc.claimed, sc.total, bal);
                let other: u128 = w.field(&w.to_map(all.get(i as u32).unwrap())?, "balance")?;
                check!(ctx, "V01", other == bal, "schedule-order", "user{} schedule {} differs between the queries", ui, i);
                let due = sc.total - sc.curve.at(w.now()) - sc.claimed;
                let q = w.call::<i128>(&m.addr, "query_available_to_claim", (u.clone(), i as u64));
                check!(ctx, "V01", q == Ok(due as i128), "available", "user{} schedule {:?}: {} claimed, due {} at {}, reported {:?}", ui, sc.curve, sc.claimed, due, w.now(), q);
            }
            let q = w.call::<i128>(&m.addr, "query_available_to_claim", (u.clone(), m.sched[ui].len() as u64));
            check!(ctx, "V01", q.is_err(), "available-none", "a claimable amount {:?} is reported for a schedule that does not exist", q);
        }
    }
    if ctx.on("V03") {
        let q = w.call::<Map<Symbol, Val>>(&m.addr, "query_minter", ());
        match (&m.minter, q) {
            (Some((k, cap)), Ok(r)) => {
                let a: Address = w.field(&r, "address")?;
                let c: u128 = w.field(&r, "mint_capacity")?;
                check!(ctx, "V03", a == m.people[*k] && c == *cap, "minter", "the minter has capacity {}, reported {} (same minter: {})", cap, c, a == m.people[*k]);
            }
            (None, Err(_)) => {}
            (x, y) => check!(ctx, "V03", false, "minter", "minter {:?}, reported {:?}", x, y.is_ok()),
        }
        check!(ctx, "V03", m.minted <= m.granted, "over-capacity", "{} minted of {} granted", m.minted, m.granted);
        let mut all = vec![&m.addr, &m.admin];
        for u in m.users.iter().chain(m.people.iter()) {
            if !all.contains(&u) {
                all.push(u);
            }
        }
        let sum: i128 = all.iter().fold(0i128, |x, u| x.wrapping_add(w.bal(&m.tok, u)));
        check!(ctx, "V03", sum == m.supply, "supply", "all balances add up to {}, supply is {}", sum, m.supply);
    }
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    const A: &[&str] = &["schedule totals up to 1e26 base units over at most about ten years (the interpolation is 128-bit); built with the minter feature; the token is the built-in asset or the repository's token"];
    let rule = "a case is a random vesting contract (with or without a minter) and 5..22 schedule creations (valid and broken linear and piecewise curves), claims at random and at boundary times, mints, minter changes and burns, ending with a claim of everything; non-trivial = at least one schedule accepted (V03: at least one mint executed)";
    [("V01", "Vesting pays exactly what the schedule has released"), ("V02", "Every vesting schedule is admissible and fully funded"), ("V03", "The minter can never mint beyond its capacity")]
        .into_iter()
        .map(|(id, title)| Prop { id, title, rule, assumptions: A, scenarios: vec![Scenario { name: "vesting-history", run: history, quick: 2000, thorough: 40000 }] })
        .collect()
}
