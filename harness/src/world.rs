//! Ledger environment, contract loading, calls, and small helpers shared by all scenarios.
use crate::engine::{count_call, fail, Src, R};
use soroban_sdk::testutils::{Address as _, Logs as _, EnvTestConfig, Ledger as _, MockAuth, MockAuthInvoke};
use soroban_sdk::token::StellarAssetClient;
use soroban_sdk::{
    vec, Address, BytesN, ConstructorArgs, Env, IntoVal, InvokeError, Map, String, Symbol, TryFromVal, Val, Vec,
};
use std::collections::HashMap;
use std::sync::OnceLock;

pub const T0: u64 = 1_700_000_000;

type Codes = HashMap<&'static str, std::vec::Vec<u8>>;
static WASM: OnceLock<Codes> = OnceLock::new();
static REFERENCE: OnceLock<Codes> = OnceLock::new();

thread_local! {
    static OLD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// While this lives, contracts are deployed with the reference code (see reference/README).
pub struct OldCode;
impl OldCode {
    pub fn new() -> OldCode {
        OLD.with(|o| o.set(true));
        OldCode
    }
}
impl Drop for OldCode {
    fn drop(&mut self) {
        OLD.with(|o| o.set(false));
    }
}

thread_local! {
    static LIFE: std::cell::Cell<u32> = const { std::cell::Cell::new(20_000_000) };
}
/// While this lives, new records last for this many ledgers only, unless a contract asks for more.
pub struct ShortLife;
impl ShortLife {
    pub fn new(ledgers: u32) -> ShortLife {
        LIFE.with(|o| o.set(ledgers));
        ShortLife
    }
}
impl Drop for ShortLife {
    fn drop(&mut self) {
        LIFE.with(|o| o.set(20_000_000));
    }
}

/// The code under test, and the code deployed before.
pub fn load_wasm(dir: &str, reference: &str) -> Result<(), std::string::String> {
    WASM.set(load(dir)?).map_err(|_| "loaded twice".to_string())?;
    REFERENCE.set(load(reference)?).map_err(|_| "loaded twice".to_string())
}
fn load(dir: &str) -> Result<Codes, std::string::String> {
    let mut m = HashMap::new();
    for (k, f) in [
        ("token", "soroban_token_contract"),
        ("stake", "phoenix_stake"),
        ("stake_rewards", "phoenix_stake_rewards"),
        ("pool", "phoenix_pool"),
        ("pool_stable", "phoenix_pool_stable"),
        ("factory", "phoenix_factory"),
        ("multihop", "phoenix_multihop"),
        ("trader", "phoenix_trader"),
        ("vesting", "phoenix_vesting"),
    ] {
        let p = format!("{dir}/{f}.wasm");
        let b = std::fs::read(&p).map_err(|e| format!("{p}: {e}"))?;
        m.insert(k, b);
    }
    Ok(m)
}
pub fn wasm(k: &str) -> &'static [u8] {
    let w = if OLD.with(|o| o.get()) { &REFERENCE } else { &WASM };
    w.get().expect("wasm loaded")[k].as_slice()
}

/// Per-call CPU budget: far above what the network grants one transaction (100 M), so that only
/// calls that do not terminate hit it.
const CPU: u64 = 3_000_000_000;
const MEM: u64 = 8_000_000_000;

/// Last ledger number a history can reach: all persistent entries live longer than that.
const MAX_SEQ: u64 = 15_000_000;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CallErr {
    /// a contract error code
    Code(u32),
    /// trap, host error, missing authorization...
    Trap(std::string::String),
    /// the call went through but its result has an unexpected type
    Conv,
}

#[derive(Clone)]
pub struct W {
    pub env: Env,
}

impl W {
    pub fn new() -> W {
        let mut cfg = EnvTestConfig::default();
        cfg.capture_snapshot_at_drop = false;
        let env = Env::new_with_config(cfg);
        if std::env::var("VH_DBG").is_err() {
            let _ = env.host().set_diagnostic_level(soroban_env_host::DiagnosticLevel::None);
        }
        env.mock_all_auths();
        env.budget().reset_limits(CPU, MEM);
        env.ledger().with_mut(|l| {
            l.timestamp = T0;
            l.sequence_number = 1000;
            l.min_persistent_entry_ttl = LIFE.with(|o| o.get());
            l.min_temp_entry_ttl = 16;
            l.max_entry_ttl = 30_000_000;
        });
        W { env }
    }
    pub fn addr(&self) -> Address {
        Address::generate(&self.env)
    }
    pub fn now(&self) -> u64 {
        self.env.ledger().timestamp()
    }
    /// Time passes with ledgers of five seconds, so that temporary storage runs out; archiving of
    /// persistent storage (which anybody can restore on the network) is out of reach.
    pub fn set_time(&self, t: u64) {
        self.env.ledger().with_mut(|l| {
            let dt = t.saturating_sub(l.timestamp);
            l.timestamp = t;
            l.sequence_number = (l.sequence_number as u64).saturating_add(dt / 5 + (dt > 0) as u64).min(MAX_SEQ) as u32;
        });
    }
    /// When the history starts: usually at a fixed moment, sometimes at another phase of the day, just
    /// before timestamps outgrow 32 bits, or much later.
    pub fn epoch(&self, s: &mut Src) {
        let t = match s.weighted(&[6, 3, 1, 1]) {
            0 => T0,
            1 => T0 + s.below(40_000_000),
            2 => (1u64 << 32) - s.below(200_000),
            _ => 10_000_000_000 + s.below(1_000_000_000),
        };
        self.env.ledger().with_mut(|l| l.timestamp = t);
    }
    pub fn pass(&self, dt: u64) {
        self.set_time(self.now() + dt);
    }
    pub fn str(&self, s: &str) -> String {
        String::from_str(&self.env, s)
    }
    pub fn upload(&self, k: &str) -> BytesN<32> {
        self.env.budget().reset_limits(CPU, MEM);
        self.env.deployer().upload_contract_wasm(wasm(k))
    }
    pub fn deploy(&self, k: &str) -> Address {
        self.env.budget().reset_limits(CPU, MEM);
        self.env.register(wasm(k), ())
    }
    pub fn deploy_with<A: ConstructorArgs>(&self, k: &str, a: A) -> Address {
        self.env.budget().reset_limits(CPU, MEM);
        self.env.register(wasm(k), a)
    }
    /// Invoke a contract function; every state change of a failed call is rolled back by the host.
    pub fn call<T: TryFromVal<Env, Val>>(&self, c: &Address, f: &str, args: impl IntoVal<Env, Vec<Val>>) -> Result<T, CallErr> {
        count_call();
        self.env.budget().reset_limits(CPU, MEM);
        let args: Vec<Val> = args.into_val(&self.env);
        let r = self
            .env
            .try_invoke_contract::<T, soroban_sdk::Error>(c, &Symbol::new(&self.env, f), args);
        match r {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(_)) => Err(CallErr::Conv),
            Err(Ok(e)) => {
                if e.is_type(soroban_sdk::xdr::ScErrorType::Contract) {
                    Err(CallErr::Code(e.get_code()))
                } else {
                    Err(CallErr::Trap(format!("{e:?}")))
                }
            }
            Err(Err(InvokeError::Contract(n))) => Err(CallErr::Code(n)),
            Err(Err(InvokeError::Abort)) => Err(CallErr::Trap("abort".into())),
        }
    }
    /// Instructions and bytes of memory that the last call was charged for.
    pub fn cost(&self) -> [u64; 2] {
        let b = self.env.budget();
        [b.cpu_instruction_cost(), b.memory_bytes_cost()]
    }
    /// (The signers must be plain accounts: the host puts a stand-in contract at their addresses.)
    /// The same call with nothing signed but `signers`' consent to exactly this call.
    pub fn call_signed<T: TryFromVal<Env, Val>>(&self, signers: &[Address], c: &Address, f: &str, args: impl IntoVal<Env, Vec<Val>>) -> Result<T, CallErr> {
        let args: Vec<Val> = args.into_val(&self.env);
        let inv = MockAuthInvoke { contract: c, fn_name: f, args: args.clone(), sub_invokes: &[] };
        let list: std::vec::Vec<MockAuth> = signers.iter().map(|a| MockAuth { address: a, invoke: &inv }).collect();
        self.env.mock_auths(&list);
        let r = self.call(c, f, args);
        self.env.mock_all_auths();
        r
    }
    /// A call that every valid deployment must accept.
    pub fn must<T: TryFromVal<Env, Val>>(&self, c: &Address, f: &str, args: impl IntoVal<Env, Vec<Val>>) -> R<T> {
        match self.call::<T>(c, f, args) {
            Ok(v) => Ok(v),
            Err(e) => {
                if std::env::var("VH_DBG").is_ok() {
                    // debugging aid: show what the failed call logged
                    eprintln!("{}", self.env.logs().all().join("\n"));
                }
                fail(format!("call-failed-{f}"), format!("call to {f} that must succeed failed: {e:?}"))
            }
        }
    }
    pub fn field<T: TryFromVal<Env, Val>>(&self, m: &Map<Symbol, Val>, k: &str) -> R<T> {
        let s = Symbol::new(&self.env, k);
        match m.get(s) {
            Some(v) => match T::try_from_val(&self.env, &v) {
                Ok(t) => Ok(t),
                Err(_) => fail("bad-response", format!("field {k} has an unexpected type")),
            },
            None => fail("bad-response", format!("field {k} missing in a response")),
        }
    }
    pub fn to_map(&self, v: Val) -> R<Map<Symbol, Val>> {
        match Map::<Symbol, Val>::try_from_val(&self.env, &v) {
            Ok(m) => Ok(m),
            Err(_) => fail("bad-response", "a response is not a record"),
        }
    }
    pub fn val<T: IntoVal<Env, Val>>(&self, t: T) -> Val {
        t.into_val(&self.env)
    }
    pub fn record(&self, fields: &[(&str, Val)]) -> Val {
        let mut m: Map<Symbol, Val> = Map::new(&self.env);
        for (k, v) in fields {
            m.set(Symbol::new(&self.env, k), *v);
        }
        m.into_val(&self.env)
    }
    // ---- tokens -------------------------------------------------------------------------
    /// A built-in (7 decimals) asset.
    pub fn sac(&self) -> Address {
        let admin = self.addr();
        self.env.budget().reset_limits(CPU, MEM);
        self.env.register_stellar_asset_contract_v2(admin).address()
    }
    /// Two assets in pool order.
    pub fn sac_pair(&self) -> (Address, Address) {
        let a = self.sac();
        let b = self.sac();
        if a < b {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn mint_sac(&self, t: &Address, to: &Address, amt: i128) {
        self.env.budget().reset_limits(CPU, MEM);
        StellarAssetClient::new(&self.env, t).mint(to, &amt);
    }
    /// A token deployed from the repository's token contract.
    pub fn token(&self, admin: &Address, decimals: u32) -> Address {
        self.deploy_with("token", (admin.clone(), decimals, self.str("Token"), self.str("TOK")))
    }
    pub fn bal(&self, t: &Address, who: &Address) -> i128 {
        match self.call::<i128>(t, "balance", (who.clone(),)) {
            Ok(v) => v,
            Err(e) => panic!("balance query failed: {e:?}"),
        }
    }
    pub fn mint(&self, t: &Address, to: &Address, amt: i128) -> R {
        self.must::<()>(t, "mint", (to.clone(), amt))
    }
    pub fn transfer(&self, t: &Address, from: &Address, to: &Address, amt: i128) -> Result<(), CallErr> {
        self.call::<()>(t, "transfer", (from.clone(), to.clone(), amt))
    }
    pub fn auth_signers(&self) -> std::vec::Vec<Address> {
        self.env.auths().into_iter().map(|(a, _)| a).collect()
    }
    pub fn vals(&self, xs: &[Val]) -> Vec<Val> {
        let mut v = vec![&self.env];
        for x in xs {
            v.push_back(*x);
        }
        v
    }
}

pub fn opt<T: std::fmt::Debug>(x: &Option<T>) -> std::string::String {
    match x {
        Some(v) => format!("{v:?}"),
        None => "-".into(),
    }
}
