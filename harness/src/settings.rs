//! A02: contracts initialize once, with valid settings.  A03: settings updates change what they name.
use crate::check;
use crate::engine::*;
use crate::world::*;
use crate::xyk::*;
use soroban_sdk::xdr::{ContractExecutable, Hash, LedgerEntryData, ScVal};
use soroban_sdk::{contract, contractimpl, Address, BytesN, ConstructorArgs, Env, IntoVal, Map, Symbol, TryFromVal, Val, Vec};

/// Deploys from inside a call, so that a refused constructor is a failed call.
#[contract]
pub struct Deployer;

#[contractimpl]
impl Deployer {
    pub fn go(env: Env, hash: BytesN<32>, salt: BytesN<32>, args: Vec<Val>) -> Address {
        env.deployer().with_address(env.current_contract_address(), salt).deploy_v2(hash, Args(args))
    }
}

struct Args(Vec<Val>);
impl ConstructorArgs for Args {}
impl IntoVal<Env, Vec<Val>> for Args {
    fn into_val(&self, _: &Env) -> Vec<Val> {
        self.0.clone()
    }
}

type Set = std::vec::Vec<(std::string::String, ScVal)>;

pub fn sc<T: IntoVal<Env, Val>>(w: &W, v: T) -> ScVal {
    let v: Val = v.into_val(&w.env);
    ScVal::try_from_val(&w.env, &v).expect("a value")
}

/// The fields of a record-valued query.
fn fields(w: &W, c: &Address, f: &str) -> R<Set> {
    let m: Map<Symbol, Val> = w.must(c, f, ())?;
    Ok(m.iter().map(|(k, v)| (sc_name(&sc(w, k)), sc(w, v))).collect())
}
fn sc_name(v: &ScVal) -> std::string::String {
    match v {
        ScVal::Symbol(s) => s.0.to_string(),
        x => format!("{x:?}"),
    }
}
fn one(w: &W, c: &Address, f: &str) -> R<(std::string::String, ScVal)> {
    let v: Val = w.must(c, f, ())?;
    Ok((f.to_string(), sc(w, v)))
}
fn nested(w: &W, c: &Address, f: &str, k: &str) -> R<Set> {
    let m: Map<Symbol, Val> = w.must(c, f, ())?;
    let v: Val = w.field(&m, k)?;
    let m = w.to_map(v)?;
    Ok(m.iter().map(|(k, v)| (sc_name(&sc(w, k)), sc(w, v))).collect())
}

fn read(w: &W, kind: &str, c: &Address) -> R<Set> {
    Ok(match kind {
        "pool" | "pool_stable" => {
            let mut s = fields(w, c, "query_config")?;
            s.extend(fields(w, c, "query_pool_info")?);
            let st: Address = w.must(c, "query_stake_contract_address", ())?;
            s.extend(read(w, "stake", &st)?);
            let lp: Address = w.must(c, "query_share_token_address", ())?;
            s.push(one(w, &lp, "decimals")?);
            s.push(one(w, &lp, "name")?);
            s.push(one(w, &lp, "symbol")?);
            s
        }
        "stake" => {
            let mut s = nested(w, c, "query_config", "config")?;
            s.push(one(w, c, "query_admin")?);
            s
        }
        "stake_rewards" => {
            let mut s = nested(w, c, "query_config", "config")?;
            s.push(one(w, c, "query_admin")?);
            s
        }
        "factory" => {
            let mut s = fields(w, c, "get_config")?;
            s.push(one(w, c, "get_admin")?);
            s.push(one(w, c, "query_pools")?);
            s
        }
        "trader" => {
            let mut s = vec![];
            for f in ["query_trading_pairs", "query_admin_address", "query_contract_name", "query_output_token_info"] {
                s.push(one(w, c, f)?);
            }
            s
        }
        "vesting" => {
            let mut s = fields(w, c, "query_token_info")?;
            if let Ok(v) = w.call::<Val>(c, "query_minter", ()) {
                s.push(("minter".into(), sc(w, v)));
            }
            s
        }
        "token" => vec![one(w, c, "decimals")?, one(w, c, "name")?, one(w, c, "symbol")?],
        _ => vec![],
    })
}

fn expect(ctx: &mut Ctx, p: &str, got: &Set, want: &[(&str, ScVal)], what: &str) -> R {
    for (k, v) in want {
        let g = got.iter().find(|x| x.0 == *k).map(|x| &x.1);
        if ctx.on(p) && g != Some(v) {
            return fail(format!("setting-{k}"), format!("{what}: {k} is {g:?} instead of {v:?}"));
        }
    }
    Ok(())
}

fn same(ctx: &mut Ctx, p: &str, a: &Set, b: &Set, what: &str) -> R {
    for ((k, x), (k2, y)) in a.iter().zip(b) {
        if ctx.on(p) && (k != k2 || x != y) {
            return fail(format!("kept-{k}"), format!("{what} changed {k} from {x:?} to {y:?}"));
        }
    }
    check!(ctx, p, a.len() == b.len(), "kept", "{} changed the settings", what);
    Ok(())
}

fn edge_bps(s: &mut Src) -> i64 {
    match s.weighted(&[10, 2, 2, 1]) {
        0 => gen_bps(s),
        1 => *s.pick(&[10_000i64, 9_999, 0, 1]),
        2 => *s.pick(&[-1i64, 10_001]),
        _ => *s.pick(&[i64::MIN, i64::MAX, -10_000, 20_000, 4_294_967_296, 4_294_967_297, 65_536]),
    }
}

fn bps(x: i64) -> bool {
    (0..=10_000).contains(&x)
}

// ---- A02: pools ---------------------------------------------------------------------------

struct PoolInit {
    prm: InitParams,
    amp: u64,
    min_bond: i128,
    min_reward: i128,
    complexity: u32,
    flip: u8,
}

fn gen_pool_init(s: &mut Src, stable: bool, wild: bool) -> PoolInit {
    let mut prm = gen_params(s);
    prm.lp_decimals = *s.pick(&[7u32, 0, 6, 18]);
    let mut g = PoolInit { prm, amp: *s.pick(&[100u64, 1, 6, 1_000_000, 999_999]), min_bond: s.logu(1, 1_000_000), min_reward: s.logu(1, 1_000_000), complexity: 1 + s.below(30) as u32, flip: 0 };
    if wild {
        for _ in 0..1 + s.below(2) {
            match s.below(if stable { 12 } else { 11 }) {
                0 => g.prm.fee_bps = edge_bps(s),
                1 => g.prm.max_fee_bps = edge_bps(s),
                2 => g.prm.max_slip = edge_bps(s),
                3 => g.prm.def_slip = edge_bps(s),
                4 => g.prm.max_spread = edge_bps(s),
                5 => g.prm.max_referral = edge_bps(s),
                6 => g.min_bond = *s.pick(&[0i128, -1, 1, i128::MIN, i128::MAX]),
                7 => g.min_reward = *s.pick(&[0i128, -1, 1, i128::MIN, i128::MAX]),
                8 => g.complexity = *s.pick(&[0u32, 1, u32::MAX]),
                9 => g.flip = 1 + s.below(2) as u8,
                10 => {
                    if stable {
                        g.prm.fee_bps = s.range(1, 10_000) as i64;
                        g.prm.max_fee_bps = g.prm.fee_bps - s.below(2) as i64;
                    } else {
                        g.prm.lp_decimals = *s.pick(&[18u32, 19, 255, u32::MAX]);
                    }
                }
                _ => g.amp = *s.pick(&[0u64, 1, 1_000_000, 1_000_001, u64::MAX]),
            }
        }
    }
    g
}

fn pool_init_ok(g: &PoolInit, stable: bool) -> Option<bool> {
    let p = &g.prm;
    let mut all = vec![p.fee_bps, p.max_slip, p.max_spread, p.def_slip, p.max_fee_bps];
    if stable {
        // a stable pool has no referral setting
        if !bps(p.max_referral) {
            return None;
        }
    } else {
        all.push(p.max_referral);
    }
    let ok = all.iter().all(|x| bps(*x)) && p.fee_bps <= p.max_fee_bps && g.flip == 0 && g.min_bond > 0 && g.min_reward > 0 && g.complexity > 0;
    Some(ok && if stable { (1..=1_000_000).contains(&g.amp) } else { p.lp_decimals <= 18 })
}

struct PoolWho {
    admin: Address,
    fee_to: Address,
    manager: Address,
    owner: Address,
    name: std::string::String,
}

fn pool_args(w: &W, stable: bool, a: &Address, bb: &Address, g: &PoolInit, q: &PoolWho) -> Vec<Val> {
    let (x, y) = match g.flip {
        0 => (a, bb),
        1 => (bb, a),
        _ => (a, a),
    };
    let li = init_info(w, &q.admin, &q.fee_to, x, y, &g.prm, &q.manager, g.min_bond, g.min_reward);
    let mut m = Map::<Symbol, Val>::try_from_val(&w.env, &li).unwrap();
    let k = Symbol::new(&w.env, "stake_init_info");
    let mut st = Map::<Symbol, Val>::try_from_val(&w.env, &m.get(k.clone()).unwrap()).unwrap();
    st.set(Symbol::new(&w.env, "max_complexity"), w.val(g.complexity));
    m.set(k, w.val(st));
    w.vals(&[
        w.val(w.upload("stake")),
        w.val(w.upload("token")),
        w.val(m),
        w.val(q.owner.clone()),
        w.val(g.prm.lp_decimals),
        w.val(w.str(&q.name)),
        w.val(w.str("LP")),
        if stable { w.val(g.amp) } else { w.val(g.prm.def_slip) },
        w.val(g.prm.max_fee_bps),
    ])
}

fn who(w: &W, s: &mut Src) -> PoolWho {
    PoolWho { admin: w.addr(), fee_to: w.addr(), manager: w.addr(), owner: w.addr(), name: s.pick(&["Pool", "P", "A pool of two tokens"]).to_string() }
}

pub fn init_pool(ctx: &mut Ctx) -> R {
    let w = W::new();
    let stable = ctx.src.below(2) == 1;
    let kind = if stable { "pool_stable" } else { "pool" };
    let dec = if stable { [*ctx.src.pick(&[7u32, 6, 18]), 7] } else { [7, 7] };
    let mut t = [crate::stable::make_token(&w, dec[0]), crate::stable::make_token(&w, dec[1])];
    if t[1] < t[0] {
        t.swap(0, 1);
    }
    let addr = w.deploy(kind);
    // attempts until one is accepted
    let mut tries = 0;
    let (g, q) = loop {
        tries += 1;
        let wild = tries < 4 && ctx.src.bool(2, 3);
        let g = gen_pool_init(&mut ctx.src, stable, wild);
        let q = who(&w, &mut ctx.src);
        ctx.log(format!("{} initialize {:?} amp={} min_bond={} min_reward={} complexity={} token order {}", kind, g.prm, g.amp, g.min_bond, g.min_reward, g.complexity, g.flip));
        let r = w.call::<()>(&addr, "initialize", pool_args(&w, stable, &t[0], &t[1], &g, &q));
        match pool_init_ok(&g, stable) {
            Some(true) => check!(ctx, "A02", r.is_ok(), format!("init-refused-{kind}"), "a valid initialization was refused: {:?}", r),
            Some(false) => check!(ctx, "A02", r.is_err(), format!("init-accepted-{kind}"), "an initialization with settings out of range was accepted"),
            None => {}
        }
        if r.is_ok() {
            break (g, q);
        }
        ctx.label("init-refused");
        if tries > 6 {
            return Ok(());
        }
    };
    ctx.label("initialized");
    ctx.nontrivial = true;
    let set = read(&w, kind, &addr)?;
    let zero = |x: &Address| sc(&w, w.record(&[("address", w.val(x.clone())), ("amount", w.val(0i128))]));
    let lp: Address = w.must(&addr, "query_share_token_address", ())?;
    let max_dec = { let a: u32 = w.must(&t[0], "decimals", ())?; let b: u32 = w.must(&t[1], "decimals", ())?; a.max(b) };
    let mut want = vec![
        ("token_a", sc(&w, t[0].clone())),
        ("token_b", sc(&w, t[1].clone())),
        ("total_fee_bps", sc(&w, g.prm.fee_bps)),
        ("fee_recipient", sc(&w, q.fee_to.clone())),
        ("max_allowed_slippage_bps", sc(&w, g.prm.max_slip)),
        ("max_allowed_spread_bps", sc(&w, g.prm.max_spread)),
        ("asset_a", zero(&t[0])),
        ("asset_b", zero(&t[1])),
        ("asset_lp_share", zero(&lp)),
        ("lp_token", sc(&w, lp.clone())),
        ("min_bond", sc(&w, g.min_bond)),
        ("min_reward", sc(&w, g.min_reward)),
        ("max_complexity", sc(&w, g.complexity)),
        ("manager", sc(&w, q.manager.clone())),
        ("owner", sc(&w, q.owner.clone())),
        ("query_admin", sc(&w, q.admin.clone())),
        ("name", sc(&w, w.str(&q.name))),
        ("symbol", sc(&w, w.str("LP"))),
        ("decimals", sc(&w, if stable { max_dec } else { g.prm.lp_decimals })),
    ];
    if stable {
        want.push(("default_slippage_bps", sc(&w, g.prm.def_slip)));
    } else {
        want.push(("max_referral_bps", sc(&w, g.prm.max_referral)));
    }
    expect(ctx, "A02", &set, &want, "after initialization")?;
    // some use, then again
    let u = w.addr();
    for x in &t {
        w.mint(x, &u, 1_000_000_000_000_000_000)?;
    }
    for _ in 0..1 + ctx.src.below(3) {
        match ctx.src.below(5) {
            0 => {
                let x = 1_000_000_000i128;
                let none: Val = w.val(());
                let args = if stable {
                    w.vals(&[w.val(u.clone()), w.val(x), w.val(x), none, none, none])
                } else {
                    w.vals(&[w.val(u.clone()), w.val(Some(x)), none, w.val(Some(x)), none, none, none])
                };
                let _ = w.call::<()>(&addr, "provide_liquidity", args);
            }
            1 => w.pass(ctx.src.below(100_000_000)),
            2 => {
                w.must::<()>(&addr, "update", (w.upload(kind),))?;
            }
            3 => {
                if stable {
                    w.must::<()>(&addr, "upgrade", (w.upload(kind),))?;
                } else {
                    w.must::<()>(&addr, "upgrade", (w.upload(kind), 100i64))?;
                }
            }
            _ => {}
        }
        let before = read(&w, kind, &addr)?;
        let again = if ctx.src.bool(1, 3) { PoolInit { ..gen_pool_init(&mut ctx.src, stable, true) } } else { gen_pool_init(&mut ctx.src, stable, false) };
        let q2 = if ctx.src.bool(1, 3) { None } else { Some(who(&w, &mut ctx.src)) };
        let q2 = q2.as_ref().unwrap_or(&q);
        let r = w.call::<()>(&addr, "initialize", pool_args(&w, stable, &t[0], &t[1], &again, q2));
        check!(ctx, "A02", r.is_err(), format!("second-init-{kind}"), "a second initialization was accepted");
        let now = read(&w, kind, &addr)?;
        same(ctx, "A02", &before, &now, "a second initialization")?;
        // the satellites were initialized with the pool
        let st: Address = w.must(&addr, "query_stake_contract_address", ())?;
        let r = w.call::<()>(&st, "initialize", (q2.admin.clone(), lp.clone(), 1i128, 1i128, q2.manager.clone(), q2.owner.clone(), 3u32));
        check!(ctx, "A02", r.is_err(), "second-init-stake", "the pool's staking contract was initialized again");
        let now = read(&w, kind, &addr)?;
        same(ctx, "A02", &before, &now, "a second initialization of the staking contract")?;
    }
    Ok(())
}

// ---- A02: the other contracts -------------------------------------------------------------

struct Init {
    f: &'static str,
    args: Vec<Val>,
    ok: bool,
    want: std::vec::Vec<(&'static str, ScVal)>,
    /// the administrator, who must sign the trader's initialization
    text: std::string::String,
}

fn gen_init(s: &mut Src, w: &W, kind: &'static str) -> Init {
    let (a, x, y, z) = (w.addr(), w.addr(), w.addr(), w.addr());
    let v = |q: &Address| w.val(q.clone());
    let none: std::vec::Vec<(&'static str, ScVal)> = vec![];
    match kind {
        "stake" => {
            let pos = |s: &mut Src| if s.bool(1, 4) { *s.pick(&[0i128, -1, i128::MIN]) } else { s.logu(1, i128::MAX / 2) };
            let (mb, mr) = (pos(s), pos(s));
            let mc = if s.bool(1, 4) { 0u32 } else { s.logu(1, u32::MAX as i128) as u32 };
            Init {
                f: "initialize",
                args: w.vals(&[v(&a), v(&x), w.val(mb), w.val(mr), v(&y), v(&z), w.val(mc)]),
                ok: mb > 0 && mr > 0 && mc > 0,
                want: vec![("lp_token", sc(w, x)), ("min_bond", sc(w, mb)), ("min_reward", sc(w, mr)), ("manager", sc(w, y)), ("owner", sc(w, z)), ("max_complexity", sc(w, mc)), ("query_admin", sc(w, a))],
                text: format!("min_bond={mb} min_reward={mr} max_complexity={mc}"),
            }
        }
        "stake_rewards" => {
            let (mb, mr, mc) = (s.logu(1, 1_000_000), s.logu(1, 1_000_000), 1 + s.below(100) as u32);
            Init {
                f: "initialize",
                args: w.vals(&[v(&a), v(&x), v(&y), w.val(mc), w.val(mr), w.val(mb)]),
                ok: true,
                want: vec![("staking_contract", sc(w, x)), ("reward_token", sc(w, y)), ("max_complexity", sc(w, mc)), ("min_reward", sc(w, mr)), ("min_bond", sc(w, mb)), ("query_admin", sc(w, a))],
                text: format!("min_bond={mb} min_reward={mr} max_complexity={mc}"),
            }
        }
        "multihop" => Init { f: "initialize", args: w.vals(&[v(&a), v(&x)]), ok: true, want: none, text: "".into() },
        "trader" => {
            let name = *s.pick(&["trader", "", "t2"]);
            let out = crate::stable::make_token(w, 7);
            Init {
                f: "initialize",
                args: w.vals(&[v(&a), w.val(w.str(name)), w.val((x.clone(), y.clone())), w.val(out)]),
                ok: true,
                want: vec![("query_admin_address", sc(w, a)), ("query_contract_name", sc(w, w.str(name))), ("query_trading_pairs", sc(w, (x, y)))],
                text: name.into(),
            }
        }
        "vesting" => {
            let (d, mc) = (s.below(19) as u32, 1 + s.below(50) as u32);
            let info = w.record(&[("name", w.val(w.str("Token"))), ("symbol", w.val(w.str("TOK"))), ("decimals", w.val(d)), ("address", v(&x))]);
            let mut want = vec![("name", sc(w, w.str("Token"))), ("symbol", sc(w, w.str("TOK"))), ("decimals", sc(w, d)), ("address", sc(w, x))];
            if s.bool(1, 2) {
                Init { f: "initialize", args: w.vals(&[v(&a), info, w.val(mc)]), ok: true, want, text: "".into() }
            } else {
                let cap = s.logu(0, i128::MAX) as u128;
                let m = w.record(&[("address", v(&y)), ("mint_capacity", w.val(cap))]);
                want.push(("minter", sc(w, m)));
                Init { f: "initialize_with_minter", args: w.vals(&[v(&a), info, w.val(mc), m]), ok: true, want, text: format!("minter capacity {cap}") }
            }
        }
        _ => {
            // factory
            let n = s.below(4);
            let mut wl: Vec<Address> = Vec::new(&w.env);
            for _ in 0..n {
                wl.push_back(w.addr());
            }
            let d = s.below(19) as u32;
            let h = |k: &str| w.upload(k);
            Init {
                f: "initialize",
                args: w.vals(&[v(&a), w.val(h("multihop")), w.val(h("pool")), w.val(h("pool_stable")), w.val(h("stake")), w.val(h("token")), w.val(wl.clone()), w.val(d)]),
                ok: n > 0,
                want: vec![
                    ("admin", sc(w, a.clone())),
                    ("lp_wasm_hash", sc(w, h("pool"))),
                    ("stake_wasm_hash", sc(w, h("stake"))),
                    ("token_wasm_hash", sc(w, h("token"))),
                    ("whitelisted_accounts", sc(w, wl)),
                    ("lp_token_decimals", sc(w, d)),
                    ("get_admin", sc(w, a)),
                    ("query_pools", sc(w, Vec::<Address>::new(&w.env))),
                ],
                text: format!("{n} whitelisted"),
            }
        }
    }
}

pub fn init_other(ctx: &mut Ctx) -> R {
    let w = W::new();
    let kind = *ctx.src.pick(&["stake", "factory", "vesting", "trader", "stake_rewards", "multihop"]);
    let addr = w.deploy(kind);
    let mut tries = 0;
    let g = loop {
        tries += 1;
        let g = gen_init(&mut ctx.src, &w, kind);
        ctx.log(format!("{} {} {}", kind, g.f, g.text));
        let r = w.call::<()>(&addr, g.f, g.args.clone());
        if g.ok {
            check!(ctx, "A02", r.is_ok(), format!("init-refused-{kind}"), "a valid initialization was refused: {:?}", r);
        } else {
            check!(ctx, "A02", r.is_err(), format!("init-accepted-{kind}"), "an initialization with settings out of range was accepted");
        }
        if r.is_ok() {
            break g;
        }
        ctx.label("init-refused");
        if tries > 8 {
            return Ok(());
        }
    };
    ctx.label(kind);
    ctx.nontrivial = true;
    let set = read(&w, kind, &addr)?;
    expect(ctx, "A02", &set, &g.want, "after initialization")?;
    if kind == "factory" {
        let mh: Address = {
            let m: Map<Symbol, Val> = w.must(&addr, "get_config", ())?;
            w.field(&m, "multihop_address")?
        };
        let r = w.call::<()>(&mh, "initialize", (w.addr(), w.addr()));
        check!(ctx, "A02", r.is_err(), "second-init-multihop", "the factory's router was initialized again");
    }
    for _ in 0..1 + ctx.src.below(3) {
        match ctx.src.below(3) {
            0 => w.pass(ctx.src.below(100_000_000)),
            1 => {
                let h = w.upload(kind);
                let _: () = if kind == "factory" {
                    w.must(&addr, "update", (h, w.upload("pool_stable")))?
                } else if kind == "trader" {
                    // has no upgrade entry point
                } else {
                    w.must(&addr, "update", (h,))?
                };
            }
            _ => {}
        }
        let before = read(&w, kind, &addr)?;
        let g2 = if ctx.src.bool(1, 4) { (g.f, g.args.clone()) } else { let g = gen_init(&mut ctx.src, &w, kind); (g.f, g.args) };
        let r = w.call::<()>(&addr, g2.0, g2.1);
        check!(ctx, "A02", r.is_err(), format!("second-init-{kind}"), "a second initialization was accepted");
        let now = read(&w, kind, &addr)?;
        same(ctx, "A02", &before, &now, "a second initialization")?;
    }
    Ok(())
}

/// The share token's constructor.
pub fn init_token(ctx: &mut Ctx) -> R {
    let w = W::new();
    let d = w.env.register(Deployer, ());
    let n = ctx.steps(2, 6);
    for k in 0..n {
        ctx.src.begin();
        let s = &mut ctx.src;
        let dec = match s.weighted(&[3, 2, 1]) {
            0 => s.below(19) as u32,
            1 => 17 + s.below(4) as u32,
            _ => *s.pick(&[u32::MAX, 255, 256, 274, 65_536, 1 << 31]),
        };
        let (name, sym) = (*s.pick(&["Token", "", "A long name of a token, with spaces"]), *s.pick(&["TOK", "", "X-Y"]));
        ctx.src.end();
        let admin = w.addr();
        let args = w.vals(&[w.val(admin.clone()), w.val(dec), w.val(w.str(name)), w.val(w.str(sym))]);
        let salt = BytesN::from_array(&w.env, &[k as u8; 32]);
        ctx.log(format!("token with {dec} decimals, {name:?} {sym:?}"));
        let r = w.call::<Address>(&d, "go", (w.upload("token"), salt, args));
        check!(ctx, "A02", r.is_ok() == (dec <= 18), "token-decimals", "a token with {} decimals: {:?}", dec, r);
        if let Ok(t) = r {
            let set = read(&w, "token", &t)?;
            expect(ctx, "A02", &set, &[("decimals", sc(&w, dec)), ("name", sc(&w, w.str(name))), ("symbol", sc(&w, w.str(sym)))], "after construction")?;
            let r = w.call::<Val>(&t, "__constructor", (w.addr(), 3u32, w.str("x"), w.str("y")));
            check!(ctx, "A02", r.is_err(), "second-init-token", "the constructor could be called again");
            let r = w.call::<Val>(&t, "initialize", (w.addr(), 3u32, w.str("x"), w.str("y")));
            check!(ctx, "A02", r.is_err(), "second-init-token", "the token could be initialized again");
            let now = read(&w, "token", &t)?;
            same(ctx, "A02", &set, &now, "a second construction")?;
            // the administrator is the one named
            w.must::<()>(&t, "mint", (w.addr(), 5i128))?;
            check!(ctx, "A02", w.auth_signers() == vec![admin], "token-admin", "the administrator is not the one named");
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

// ---- A03: pools ---------------------------------------------------------------------------

struct Up {
    admin: Option<usize>,
    fee: Option<i64>,
    to: Option<Address>,
    slip: Option<i64>,
    spread: Option<i64>,
    referral: Option<i64>,
}

pub fn pool_updates(ctx: &mut Ctx) -> R {
    let w = W::new();
    let stable = ctx.src.below(2) == 1;
    let kind = if stable { "pool_stable" } else { "pool" };
    let mut prm = gen_params(&mut ctx.src);
    if stable {
        prm.def_slip = prm.def_slip.min(prm.max_slip);
    }
    let (a, bb) = w.sac_pair();
    let mut p = deploy_pool(&w, kind, &a, &bb, &prm, if stable { Some(100) } else { None })?;
    let mut referral = prm.max_referral;
    let lp_user = w.addr();
    let u = w.addr();
    for t in [&a, &bb] {
        for q in [&lp_user, &u] {
            w.mint_sac(t, q, 1_000_000_000_000_000_000);
        }
    }
    let x = ctx.src.logu(1_000_000_000, 100_000_000_000_000);
    let y = if stable { x } else { ctx.src.logu(1_000_000_000, 100_000_000_000_000) };
    deposit(&w, &p, stable, &lp_user, x, y, None).map_err(|e| Failure { sig: "setup".into(), msg: format!("{e:?}") })?;
    ctx.log(format!("{} fee={} max_slippage={} default_slippage={} max_spread={} reserves ({}, {})", kind, p.fee_bps, p.max_slip, p.def_slip, p.max_spread, x, y));
    let mut admins = vec![p.admin.clone()];
    for _ in 0..2 {
        admins.push(w.addr());
    }
    let mut cur = 0;
    let n = ctx.steps(4, 14);
    let mut changed = 0;
    for _ in 0..n {
        ctx.src.begin();
        let r = match ctx.src.weighted(&[10, 2, 6, 5]) {
            0 => pool_update(ctx, &w, kind, stable, &mut p, &mut referral, &admins, &mut cur, &mut changed),
            1 => pool_upgrade(ctx, &w, kind, stable, &mut p, &admins[cur]),
            2 => effect_swap(ctx, &w, stable, &p, &u),
            _ => effect_deposit(ctx, &w, stable, &p, &u),
        };
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = changed > 0;
    Ok(())
}

fn deposit(w: &W, p: &Pool, stable: bool, u: &Address, x: i128, y: i128, slip: Option<i64>) -> Result<(), CallErr> {
    let none: Val = w.val(());
    let args = if stable {
        w.vals(&[w.val(u.clone()), w.val(x), w.val(y), w.val(slip), none, none])
    } else {
        w.vals(&[w.val(u.clone()), w.val(Some(x)), none, w.val(Some(y)), none, w.val(slip), none])
    };
    w.call::<()>(&p.addr, "provide_liquidity", args)
}

fn pool_want(w: &W, p: &Pool, stable: bool, referral: i64) -> std::vec::Vec<(&'static str, ScVal)> {
    let mut v = vec![
        ("token_a", sc(w, p.a.clone())),
        ("token_b", sc(w, p.b.clone())),
        ("share_token", sc(w, p.lp.clone())),
        ("stake_contract", sc(w, p.stake.clone())),
        ("total_fee_bps", sc(w, p.fee_bps)),
        ("fee_recipient", sc(w, p.fee_to.clone())),
        ("max_allowed_slippage_bps", sc(w, p.max_slip)),
        ("max_allowed_spread_bps", sc(w, p.max_spread)),
    ];
    if stable {
        v.push(("default_slippage_bps", sc(w, p.def_slip)));
    } else {
        v.push(("max_referral_bps", sc(w, referral)));
    }
    v
}

#[allow(clippy::too_many_arguments)]
fn pool_update(ctx: &mut Ctx, w: &W, kind: &str, stable: bool, p: &mut Pool, referral: &mut i64, admins: &[Address], cur: &mut usize, changed: &mut u32) -> R {
    let s = &mut ctx.src;
    let maybe = |s: &mut Src| if s.bool(2, 5) { Some(edge_bps(s)) } else { None };
    let up = Up {
        admin: if s.bool(1, 4) { Some(s.below(admins.len() as u64) as usize) } else { None },
        fee: maybe(s),
        to: if s.bool(1, 4) { Some(w.addr()) } else { None },
        slip: maybe(s),
        spread: maybe(s),
        referral: if stable { None } else { maybe(s) },
    };
    let signer = if s.bool(5, 6) { *cur } else { s.below(admins.len() as u64) as usize };
    ctx.log(format!("update by admin{} (admin is {}): admin={:?} fee={:?} recipient={} slippage={:?} spread={:?} referral={:?}", signer, *cur, up.admin, up.fee, up.to.is_some(), up.slip, up.spread, up.referral));
    let mut args = vec![w.val(up.admin.map(|k| admins[k].clone())), w.val(up.fee), w.val(up.to.clone()), w.val(up.slip), w.val(up.spread)];
    if stable {
        args.insert(0, w.val(admins[signer].clone()));
    } else {
        args.push(w.val(up.referral));
    }
    let before = read(w, kind, &p.addr)?;
    let r = w.call_signed::<()>(&[admins[signer].clone()], &p.addr, "update_config", w.vals(&args));
    let after = read(w, kind, &p.addr)?;
    let in_range = [up.fee, up.slip, up.spread, up.referral].iter().all(|x| x.map(bps).unwrap_or(true));
    let ok = in_range && signer == *cur;
    if !ok {
        check!(ctx, "A03", r.is_err(), format!("update-accepted-{kind}"), "an update {} was accepted", if in_range { "by somebody who is not the administrator" } else { "with a value out of range" });
        ctx.label("update-refused");
        return same(ctx, "A03", &before, &after, "a refused update");
    }
    check!(ctx, "A03", r.is_ok(), format!("update-refused-{kind}"), "a valid update was refused: {:?}", r);
    p.fee_bps = up.fee.unwrap_or(p.fee_bps);
    p.fee_to = up.to.unwrap_or(p.fee_to.clone());
    p.max_slip = up.slip.unwrap_or(p.max_slip);
    p.max_spread = up.spread.unwrap_or(p.max_spread);
    *referral = up.referral.unwrap_or(*referral);
    *cur = up.admin.unwrap_or(*cur);
    let want = pool_want(w, p, stable, *referral);
    expect(ctx, "A03", &after, &want, "after the update")?;
    let named = ["total_fee_bps", "fee_recipient", "max_allowed_slippage_bps", "max_allowed_spread_bps", "max_referral_bps"];
    let rest = |s: &Set| -> Set { s.iter().filter(|x| !named.contains(&x.0.as_str())).cloned().collect() };
    same(ctx, "A03", &rest(&before), &rest(&after), "an update")?;
    *changed += 1;
    ctx.label("update");
    Ok(())
}

fn pool_upgrade(ctx: &mut Ctx, w: &W, kind: &str, stable: bool, p: &mut Pool, admin: &Address) -> R {
    let before = read(w, kind, &p.addr)?;
    let def = edge_bps(&mut ctx.src);
    let h = w.upload(kind);
    let (r, ok) = if ctx.src.bool(1, 3) {
        ctx.log("update of the code");
        (w.call_signed::<()>(&[admin.clone()], &p.addr, "update", (h,)), true)
    } else if stable {
        ctx.log("upgrade");
        (w.call_signed::<()>(&[admin.clone()], &p.addr, "upgrade", (h,)), true)
    } else {
        ctx.log(format!("upgrade with default slippage {}", def));
        let r = w.call_signed::<()>(&[admin.clone()], &p.addr, "upgrade", (h, def));
        if bps(def) && r.is_ok() {
            p.def_slip = def;
        }
        (r, bps(def))
    };
    check!(ctx, "A03", r.is_ok() == ok, format!("upgrade-{kind}"), "an upgrade (default slippage {}) gave {:?}", def, r);
    let after = read(w, kind, &p.addr)?;
    ctx.label("upgrade");
    same(ctx, "A03", &before, &after, "an upgrade")
}

fn effect_swap(ctx: &mut Ctx, w: &W, stable: bool, p: &Pool, u: &Address) -> R {
    let i = info(w, &p.addr)?;
    let s = &mut ctx.src;
    let a_to_b = s.below(2) == 0;
    let (op, off, ask) = if a_to_b { (i.ra, &p.a, &p.b) } else { (i.rb, &p.b, &p.a) };
    let amount = s.logu(1000, (op / 3).max(1001));
    let spread = if s.bool(1, 2) { Some(near(s, p.max_spread as i128, -1).clamp(-1, 10_001) as i64) } else { None };
    let max_fee = if s.bool(1, 2) { Some((p.fee_bps as i128 + s.range(-1, 1)) as i64) } else { None };
    let req = SwapReq { a_to_b, amount, min: None, spread, deadline: None, max_fee };
    ctx.log(format!("swap {} {} max_spread={:?} max_fee={:?}", if a_to_b { "A->B" } else { "B->A" }, amount, spread, max_fee));
    let (f0, b0) = (w.bal(ask, &p.fee_to), w.bal(ask, u));
    let r = w.call::<i128>(&p.addr, "swap", (u.clone(), off.clone(), amount, None::<i128>, spread, None::<u64>, max_fee));
    let (fee, got) = (w.bal(ask, &p.fee_to) - f0, w.bal(ask, u) - b0);
    let plain_no = max_fee.map(|f| f < p.fee_bps).unwrap_or(false) || spread.map(|s| s < 0 || s > p.max_spread).unwrap_or(false);
    if plain_no {
        check!(ctx, "A03", r.is_err(), "limit-not-in-effect", "a swap beyond the current limits (fee {}, spread {}) was executed", p.fee_bps, p.max_spread);
    }
    if r.is_ok() {
        // the current fee, paid to the current recipient
        let want = (b(fee) + b(got)) * b(p.fee_bps as i128) / b(10_000);
        check!(ctx, "A03", b(fee) == want, "fee-not-in-effect", "a swap giving {} paid a fee of {} to the recipient instead of {} ({} bps)", got, fee, want, p.fee_bps);
    }
    if !stable {
        let bal = w.bal(off, u);
        match plan_swap(p, &i, w.now(), bal + amount, &req) {
            Plan::Yes(o) => check!(ctx, "A03", r.as_ref().ok() == Some(&o.ret), "not-in-effect", "a swap within the current limits gave {:?} instead of {}", r, o.ret),
            Plan::No(why) => check!(ctx, "A03", r.is_err(), "limit-not-in-effect", "a swap beyond the current limits ({}) was executed", why),
            _ => {}
        }
    }
    ctx.label(if r.is_ok() { "swap" } else { "swap-refused" });
    Ok(())
}

fn effect_deposit(ctx: &mut Ctx, w: &W, stable: bool, p: &Pool, u: &Address) -> R {
    let i = info(w, &p.addr)?;
    let s = &mut ctx.src;
    let x = s.logu(1_000_000, i.ra.max(1_000_001));
    let fit = i128::try_from(b(x) * b(i.rb) / b(i.ra)).unwrap_or(x).max(1);
    // off the pool's ratio by about the tolerance
    let slip = if s.bool(1, 2) { Some(near(s, p.max_slip as i128, 0).clamp(0, 10_001) as i64) } else { None };
    let tol = slip.unwrap_or(p.def_slip) as i128;
    let y = match s.below(3) {
        0 => fit,
        1 => i128::try_from(b(fit) * b(10_000) / b(10_000 + tol)).unwrap() + s.range(-2, 2),
        _ => s.logu(1_000_000, 2 * fit.max(1_000_000)),
    };
    let y = y.max(1);
    ctx.log(format!("deposit ({}, {}) tolerance {:?}", x, y, slip));
    let (ba, bb) = (w.bal(&p.a, &p.addr), w.bal(&p.b, &p.addr));
    let (ua, ub) = (w.bal(&p.a, u), w.bal(&p.b, u));
    let r = deposit(w, p, stable, u, x, y, slip);
    if slip.map(|s| s > p.max_slip).unwrap_or(false) {
        check!(ctx, "A03", r.is_err(), "slippage-not-in-effect", "a deposit asking for a tolerance of {:?} above the current limit {} was accepted", slip, p.max_slip);
    }
    if !stable {
        let req = DepositReq { da: Some(x), ma: None, db: Some(y), mb: None, slip, deadline: None };
        match plan_deposit(p, &i, w.now(), ba, bb, ua, ub, &req) {
            Plan::Yes(o) => {
                check!(ctx, "A03", r.is_ok(), "not-in-effect", "a deposit within the current tolerance was refused: {:?}", r);
                check!(ctx, "A03", ua - w.bal(&p.a, u) == o.amt_a, "not-in-effect", "a deposit took the wrong amount");
            }
            Plan::No(why) => check!(ctx, "A03", r.is_err(), "slippage-not-in-effect", "a deposit beyond the current tolerance ({}) was accepted", why),
            _ => {}
        }
    }
    ctx.label(if r.is_ok() { "deposit" } else { "deposit-refused" });
    Ok(())
}

// ---- A03: factory -------------------------------------------------------------------------

/// The code a contract runs.
pub fn code_of(w: &W, c: &Address) -> Option<[u8; 32]> {
    let snap = w.env.to_ledger_snapshot();
    let id = soroban_sdk::xdr::ScAddress::from(c.clone());
    for (_, (e, _)) in snap.ledger_entries.iter() {
        if let LedgerEntryData::ContractData(d) = &e.data {
            if d.contract == id {
                if let ScVal::ContractInstance(i) = &d.val {
                    if let ContractExecutable::Wasm(Hash(h)) = &i.executable {
                        return Some(*h);
                    }
                }
            }
        }
    }
    None
}

/// The same code under another hash: a custom section that means nothing.
pub fn variant(w: &W, k: &str, n: u8) -> BytesN<32> {
    let mut v = wasm(k).to_vec();
    if n > 0 {
        v.extend([0, 6, 4, b'n', b'o', b't', b'e', n]);
    }
    w.env.deployer().upload_contract_wasm(v.as_slice())
}

pub fn factory_updates(ctx: &mut Ctx) -> R {
    let w = W::new();
    let admin = w.addr();
    let people: std::vec::Vec<Address> = (0..5).map(|_| w.addr()).collect();
    let mut listed: std::vec::Vec<usize> = vec![];
    // an initial list may name somebody twice
    let k0 = 1 + ctx.src.below(3);
    for _ in 0..k0 {
        listed.push(ctx.src.below(5) as usize);
    }
    let init: std::vec::Vec<Address> = listed.iter().map(|k| people[*k].clone()).collect();
    let (fac, _) = crate::factory::deploy(&w, &admin, &init, 7)?;
    ctx.log(format!("factory whitelisting {:?}", listed));
    let toks = crate::factory::tokens(&w, &[7, 7, 7, 7]);
    let mut pairs: std::vec::Vec<(usize, usize)> = vec![(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    let kinds = ["pool", "stake", "token", "pool_stable"];
    let mut code: std::vec::Vec<u8> = vec![0; 4];
    let n = ctx.steps(4, 12);
    let mut changes = 0;
    let mut created = 0;
    for _ in 0..n {
        ctx.src.begin();
        let before = read(&w, "factory", &fac)?;
        let kind = ctx.src.weighted(&[6, 3, 1, 4]);
        let mut r: R = Ok(());
        match kind {
            0 => {
                let s = &mut ctx.src;
                let some = |s: &mut Src| -> std::vec::Vec<usize> { (0..s.below(4)).map(|_| s.below(5) as usize).collect() };
                let (add, del) = (some(s), some(s));
                let by_admin = s.bool(5, 6);
                let sender = if by_admin { admin.clone() } else { people[s.below(5) as usize].clone() };
                ctx.log(format!("whitelist by {} add {:?} remove {:?}", if by_admin { "admin" } else { "somebody else" }, add, del));
                let list = |v: &[usize]| {
                    let mut o: Vec<Address> = Vec::new(&w.env);
                    for k in v {
                        o.push_back(people[*k].clone());
                    }
                    o
                };
                let res = w.call_signed::<()>(&[sender.clone()], &fac, "update_whitelisted_accounts", (sender, list(&add), list(&del)));
                check!(ctx, "A03", res.is_ok() == by_admin, "whitelist-call", "a whitelist update by {} gave {:?}", if by_admin { "the administrator" } else { "somebody else" }, res);
                if res.is_ok() {
                    listed.extend(&add);
                    listed.retain(|k| !del.contains(k));
                    changes += 1;
                }
                let m: Map<Symbol, Val> = w.must(&fac, "get_config", ())?;
                let now: Vec<Address> = w.field(&m, "whitelisted_accounts")?;
                for (k, a) in people.iter().enumerate() {
                    let is = now.contains(a.clone());
                    check!(ctx, "A03", is == listed.contains(&k), "whitelist", "account {} is {}whitelisted after adding {:?} and removing {:?}", k, if is { "" } else { "not " }, add, del);
                }
                let others = now.iter().filter(|a| !people.contains(a)).count();
                check!(ctx, "A03", others == 0, "whitelist", "somebody who was never named is whitelisted");
                ctx.label("whitelist");
                let rest = |s: &Set| -> Set { s.iter().filter(|x| x.0 != "whitelisted_accounts").cloned().collect() };
                r = same(ctx, "A03", &rest(&before), &rest(&read(&w, "factory", &fac)?), "a whitelist update");
            }
            1 => {
                let s = &mut ctx.src;
                let pick: std::vec::Vec<Option<u8>> = (0..3).map(|_| if s.bool(1, 2) { Some(s.below(4) as u8) } else { None }).collect();
                let by_admin = s.bool(5, 6);
                let sender = if by_admin { admin.clone() } else { people[0].clone() };
                let h: std::vec::Vec<Option<BytesN<32>>> = pick.iter().enumerate().map(|(k, v)| v.map(|v| variant(&w, kinds[k], v))).collect();
                ctx.log(format!("new code by {}: {:?}", if by_admin { "admin" } else { "somebody else" }, pick));
                let res = w.call_signed::<()>(&[sender], &fac, "update_wasm_hashes", (h[0].clone(), h[1].clone(), h[2].clone()));
                check!(ctx, "A03", res.is_ok() == by_admin, "hashes-call", "a code update gave {:?}", res);
                if res.is_ok() {
                    for k in 0..3 {
                        code[k] = pick[k].unwrap_or(code[k]);
                    }
                    changes += 1;
                }
                let names = ["lp_wasm_hash", "stake_wasm_hash", "token_wasm_hash"];
                let now = read(&w, "factory", &fac)?;
                let want: std::vec::Vec<(&str, ScVal)> = (0..3).map(|k| (names[k], sc(&w, variant(&w, kinds[k], code[k])))).collect();
                expect(ctx, "A03", &now, &want, "after the update")?;
                ctx.label("hashes");
                let rest = |s: &Set| -> Set { s.iter().filter(|x| !names.contains(&x.0.as_str())).cloned().collect() };
                r = same(ctx, "A03", &rest(&before), &rest(&now), "a code update");
            }
            2 => {
                let v = ctx.src.below(4) as u8;
                ctx.log(format!("factory update, stable pool code {}", v));
                let res = w.call_signed::<()>(&[admin.clone()], &fac, "update", (w.upload("factory"), variant(&w, "pool_stable", v)));
                check!(ctx, "A03", res.is_ok(), "factory-update", "an update of the factory's code was refused: {:?}", res);
                code[3] = v;
                r = same(ctx, "A03", &before, &read(&w, "factory", &fac)?, "an update of the factory's code");
            }
            _ => {
                if !pairs.is_empty() {
                    let s = &mut ctx.src;
                    let pi = s.below(pairs.len() as u64) as usize;
                    let (x, y) = pairs[pi];
                    let stable = s.below(2) == 1;
                    let by = if listed.is_empty() || s.bool(1, 3) { s.below(5) as usize } else { *s.pick(&listed) };
                    let prm = gen_params(s);
                    let q = who(&w, s);
                    let li = init_info(&w, &q.admin, &q.fee_to, &toks[x].addr, &toks[y].addr, &prm, &q.manager, 1, 1);
                    let args = w.vals(&[
                        w.val(people[by].clone()),
                        li,
                        w.val(w.str("Pool")),
                        w.val(w.str("LP")),
                        w.val(if stable { 1u32 } else { 0u32 }),
                        w.val(if stable { Some(100u64) } else { None }),
                        w.val(prm.def_slip),
                        w.val(prm.max_fee_bps),
                    ]);
                    ctx.log(format!("pool of {},{} stable={} by account {}", x, y, stable, by));
                    let res = w.call::<Address>(&fac, "create_liquidity_pool", args);
                    check!(ctx, "A03", res.is_ok() == listed.contains(&by), "whitelist-effect", "a pool creation by account {} gave {:?}", by, res);
                    if let Ok(p) = res {
                        pairs.remove(pi);
                        let st: Address = w.must(&p, "query_stake_contract_address", ())?;
                        let lp: Address = w.must(&p, "query_share_token_address", ())?;
                        let pk = if stable { 3 } else { 0 };
                        for (c, k) in [(&p, pk), (&st, 1), (&lp, 2)] {
                            let got = code_of(&w, c);
                            let want = variant(&w, kinds[k], code[k]).to_array();
                            check!(ctx, "A03", got == Some(want), "hashes-effect", "a new pool's {} does not run the code set last", kinds[k]);
                        }
                        created += 1;
                        ctx.label("creation");
                    } else {
                        ctx.label("creation-refused");
                    }
                }
            }
        }
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = changes > 0 && created > 0;
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    vec![
        Prop {
            id: "A02",
            title: "Contracts initialize exactly once, with valid settings",
            rule: "a case is one contract, initialized with random settings of which some are out of range, used or upgraded a little, and initialized again with the same or other arguments; non-trivial = an initialization was accepted and a second one attempted",
            assumptions: &["the router, trader, vesting and reward-distribution contracts have no settings that could be out of range"],
            scenarios: vec![
                Scenario { name: "pools", run: init_pool, quick: 900, thorough: 20000 },
                Scenario { name: "others", run: init_other, quick: 900, thorough: 20000 },
                Scenario { name: "token", run: init_token, quick: 300, thorough: 5000 },
            ],
        },
        Prop {
            id: "A03",
            title: "Settings updates change exactly what was asked",
            rule: "a case is a pool of either kind, or a factory, and 4..14 updates with random subsets of fields, values at and beyond the edges of their ranges, signed by the administrator or somebody else, with swaps, deposits and pool creations in between; non-trivial = at least one update was accepted (and, for the factory, a pool created)",
            assumptions: &["the largest allowed fee given to a pool at initialization bounds its initial fee only; it is not kept by the contracts"],
            scenarios: vec![
                Scenario { name: "pools", run: pool_updates, quick: 900, thorough: 20000 },
                Scenario { name: "factory", run: factory_updates, quick: 400, thorough: 8000 },
            ],
        },
    ]
}
