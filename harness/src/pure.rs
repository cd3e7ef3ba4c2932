//! C01 and N01: the curve and fixed-point packages, called directly, against exact big-integer arithmetic.
use crate::check;
use crate::engine::*;
use crate::vesting::Cv;
use crate::world::W;
use curve::{Curve, PiecewiseLinear, SaturatingLinear, Step};
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use soroban_decimal::Decimal;
use soroban_sdk::{Bytes, Env, Vec, U256};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

#[allow(dead_code)]
#[path = "/repo/packages/decimal/src/decimal256.rs"]
mod decimal256;
use decimal256::Decimal256;

fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

// ---- curves ---------------------------------------------------------------------------------

fn build(env: &Env, c: &Cv) -> Curve {
    match c {
        Cv::Const(y) => Curve::constant(*y),
        Cv::Sat(a, y, b, z) => Curve::saturating_linear((*a, *y), (*b, *z)),
        Cv::Pw(p) => {
            let mut steps = Vec::new(env);
            for (t, y) in p {
                steps.push_back(Step { time: *t, value: *y });
            }
            Curve::PiecewiseLinear(PiecewiseLinear { steps })
        }
    }
}

fn times(s: &mut Src, n: usize) -> std::vec::Vec<u64> {
    let mut t = match s.weighted(&[2, 3, 2]) {
        0 => 1 + s.below(5),
        1 => 1_700_000_000 + s.below(1_000_000),
        _ => s.logu(1, 1 << 60) as u64,
    };
    let unit = *s.pick(&[1i128, 10, 1000, 100_000_000, 1 << 50]);
    (0..n)
        .map(|_| {
            let r = t;
            t += s.logu(1, unit) as u64;
            r
        })
        .collect()
}

fn value(s: &mut Src, top: i128) -> u128 {
    match s.weighted(&[6, 1, 1]) {
        0 => s.logu(1, top) as u128,
        1 => 0,
        _ => s.below(3) as u128,
    }
}

/// A well-formed curve of any shape
fn gen_curve(s: &mut Src, top: i128) -> Cv {
    match s.weighted(&[1, 5, 8]) {
        0 => Cv::Const(value(s, top)),
        1 => {
            let t = times(s, 2);
            Cv::Sat(t[0], value(s, top), t[1], value(s, top))
        }
        _ => {
            let n = 1 + s.below(8) as usize;
            let t = times(s, n);
            let mut ys: std::vec::Vec<u128> = (0..n).map(|_| value(s, top)).collect();
            match s.weighted(&[3, 3, 3, 1]) {
                0 => ys.sort(),
                1 => {
                    ys.sort();
                    ys.reverse();
                }
                2 => {}
                _ => ys = vec![ys[0]; n],
            }
            if s.bool(1, 4) && n >= 2 {
                // a flat part
                let k = s.below(n as u64 - 1) as usize;
                ys[k + 1] = ys[k];
            }
            Cv::Pw(t.into_iter().zip(ys).collect())
        }
    }
}

fn break_curve(s: &mut Src, c: Cv) -> Cv {
    match c {
        Cv::Const(y) => Cv::Const(y),
        Cv::Sat(a, y, b, z) => {
            if s.bool(1, 2) {
                Cv::Sat(b, y, a, z)
            } else {
                Cv::Sat(a, y, a, z)
            }
        }
        Cv::Pw(mut p) => {
            let n = p.len();
            match s.below(4) {
                0 => p.clear(),
                1 if n >= 2 => {
                    let k = s.below(n as u64 - 1) as usize;
                    p[k + 1].0 = p[k].0;
                }
                2 if n >= 2 => {
                    let k = s.below(n as u64 - 1) as usize;
                    let t = p[k].0;
                    p[k].0 = p[k + 1].0;
                    p[k + 1].0 = t;
                }
                _ => {
                    if n >= 2 {
                        p[n - 1].0 = p[0].0.saturating_sub(1).max(1);
                    }
                }
            }
            Cv::Pw(p)
        }
    }
}

fn well_formed(c: &Cv) -> bool {
    match c {
        Cv::Const(_) => true,
        _ => {
            let p = c.points();
            !p.is_empty() && p.windows(2).all(|w| w[0].0 < w[1].0)
        }
    }
}

fn probes(s: &mut Src, cs: &[&Cv]) -> std::vec::Vec<u64> {
    let mut v = vec![0, u64::MAX];
    for c in cs {
        let p = c.points();
        for (k, (t, _)) in p.iter().enumerate() {
            v.extend([t.saturating_sub(1), *t, t.saturating_add(1)]);
            if k > 0 && p[k].0 > p[k - 1].0 {
                v.push(p[k - 1].0 + (p[k].0 - p[k - 1].0) / 2);
                v.push(s.range(p[k - 1].0 as i128, p[k].0 as i128) as u64);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn rising(c: &Cv) -> bool {
    c.points().windows(2).all(|w| w[0].1 <= w[1].1)
}
fn falling(c: &Cv) -> bool {
    c.points().windows(2).all(|w| w[0].1 >= w[1].1)
}

fn judge_one(ctx: &mut Ctx, env: &Env, c: &Cv) -> R {
    let cu = build(env, c);
    let p = c.points();
    let ok = well_formed(c);
    // a piecewise curve whose first point is at time zero is refused: nothing is promised about it
    let zero = matches!(c, Cv::Pw(_)) && ok && p[0].0 == 0;
    if !zero {
        check!(ctx, "C01", cu.validate().is_ok() == ok, "validate", "{:?}: validate gives {:?}", c, cu.validate());
        check!(ctx, "C01", cu.validate_monotonic_increasing().is_ok() == (ok && rising(c)), "increasing", "{:?}: validate_monotonic_increasing gives {:?}", c, cu.validate_monotonic_increasing());
        check!(ctx, "C01", cu.validate_monotonic_decreasing().is_ok() == (ok && falling(c)), "decreasing", "{:?}: validate_monotonic_decreasing gives {:?}", c, cu.validate_monotonic_decreasing());
    }
    let n = p.len() as u32;
    check!(ctx, "C01", cu.size() == n, "size", "{:?}: size {}", c, cu.size());
    for k in [0, n.saturating_sub(1), n, n + 1, u32::MAX] {
        check!(ctx, "C01", cu.validate_complexity(k).is_ok() == (n <= k), "complexity", "{:?}: complexity limit {} gives {:?}", c, k, cu.validate_complexity(k));
    }
    if !ok {
        return Ok(());
    }
    let (lo, hi) = (p.iter().map(|x| x.1).min().unwrap(), p.iter().map(|x| x.1).max().unwrap());
    check!(ctx, "C01", cu.range() == (lo, hi), "range", "{:?}: range {:?}", c, cu.range());
    let end = if matches!(c, Cv::Const(_)) { None } else { Some(p[p.len() - 1].0) };
    check!(ctx, "C01", cu.end() == end, "end", "{:?}: end {:?}", c, cu.end());
    if let Curve::PiecewiseLinear(pl) = &cu {
        check!(ctx, "C01", pl.first_value() == Some(p[0].1) && pl.end_value() == Some(p[p.len() - 1].1), "end-values", "{:?}: first and last value {:?} {:?}", c, pl.first_value(), pl.end_value());
    }
    if let Curve::SaturatingLinear(sl) = &cu {
        let sl: SaturatingLinear = sl.clone();
        let pl = curve::from_saturating_linear(env, &sl);
        for x in probes(&mut ctx.src, &[c]) {
            check!(ctx, "C01", pl.value(x) == c.at(x), "to-piecewise", "{:?} as a piecewise curve is {} at {}", c, pl.value(x), x);
        }
    }
    let mut last: Option<u128> = None;
    for x in probes(&mut ctx.src, &[c]) {
        let v = cu.value(x);
        check!(ctx, "C01", v == c.at(x), "value", "{:?} at {} is {}, expected {}", c, x, v, c.at(x));
        check!(ctx, "C01", lo <= v && v <= hi, "outside-range", "{:?} at {} is {}", c, x, v);
        if let Some(l) = last {
            check!(ctx, "C01", (!rising(c) || v >= l) && (!falling(c) || v <= l), "monotone", "{:?} at {} is {} after {}", c, x, v, l);
        }
        last = Some(v);
    }
    Ok(())
}

pub fn curves(ctx: &mut Ctx) -> R {
    let w = W::new();
    let env = w.env.clone();
    env.budget().reset_unlimited();
    // the interpolation multiplies a value difference by a time difference in 128 bits
    let top = *ctx.src.pick(&[1_000i128, 1_000_000_000_000, 1_000_000_000_000_000_000]);
    let n = ctx.steps(1, 4);
    let mut bends = 0;
    let mut prev: Option<(Cv, Curve)> = None;
    for _ in 0..n {
        ctx.src.begin();
        let c = gen_curve(&mut ctx.src, top);
        ctx.log(format!("{:?}", c));
        let r = judge_one(ctx, &env, &c);
        let b = break_curve(&mut ctx.src, c.clone());
        ctx.log(format!("broken: {:?}", b));
        let r = r.and_then(|_| judge_one(ctx, &env, &b));
        let r = r.and_then(|_| {
            let cu = build(&env, &c);
            if let Some((pc, pcu)) = &prev {
                judge_sum(ctx, &env, pc, pcu, &c, &cu)?;
            }
            bends += c.points().len() - 1;
            prev = Some((c.clone(), cu));
            Ok(())
        });
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = bends >= 2;
    Ok(())
}

fn judge_sum(ctx: &mut Ctx, env: &Env, a: &Cv, ca: &Curve, b: &Cv, cb: &Curve) -> R {
    let z = ca.combine(env, cb);
    let points = |c: &Cv| -> std::vec::Vec<u64> {
        if matches!(c, Cv::Const(_)) {
            vec![]
        } else {
            c.points().iter().map(|p| p.0).collect()
        }
    };
    let mut ts = points(a);
    ts.extend(points(b));
    ts.sort();
    ts.dedup();
    check!(ctx, "C01", z.size() as usize == ts.len().max(1), "sum-size", "{:?} + {:?} has {} points", a, b, z.size());
    check!(ctx, "C01", z.end() == ts.last().cloned(), "sum-end", "{:?} + {:?} ends at {:?}", a, b, z.end());
    let with_const = matches!(a, Cv::Const(_)) || matches!(b, Cv::Const(_));
    for x in probes(&mut ctx.src, &[a, b]) {
        let (v, e) = (z.value(x), a.at(x) + b.at(x));
        let slack = if ts.contains(&x) || with_const { 0 } else { 2 };
        check!(ctx, "C01", v.abs_diff(e) <= slack, "sum-value", "{:?} + {:?} at {} is {}, expected {}", a, b, x, v, e);
    }
    ctx.label("sum");
    Ok(())
}

// ---- fixed point ------------------------------------------------------------------------------

const ONE: i128 = 1_000_000_000_000_000_000;

fn big(x: i128) -> BigInt {
    BigInt::from(x)
}

fn ten(n: u32) -> BigInt {
    BigInt::from(10).pow(n)
}

fn int(s: &mut Src) -> i128 {
    let v = match s.weighted(&[6, 4, 2, 2, 2, 1]) {
        0 => s.logu(1, i128::MAX),
        1 => s.logu(1, 1_000_000 * ONE),
        2 => s.range(0, 3),
        3 => ONE + s.range(-2, 2),
        4 => (s.range(1, 100) * ONE).saturating_add(s.range(-2, 2)),
        _ => i128::MAX - s.range(0, 3),
    };
    match s.weighted(&[4, 1]) {
        0 => v,
        _ => -v - (s.below(2) as i128) * ((v == i128::MAX) as i128),
    }
}

struct Arith {
    bits: BigInt,
    low: BigInt,
}

impl Arith {
    fn fits(&self, x: &BigInt) -> bool {
        *x >= self.low && *x <= self.bits
    }
}

/// got = exact, or it failed and an intermediate of the straightforward computation does not fit
fn verdict(ctx: &mut Ctx, k: &Arith, what: &str, got: Option<BigInt>, exact: Option<BigInt>, inter: &[BigInt], args: &str) -> R {
    match (got, exact) {
        (Some(v), Some(e)) => {
            check!(ctx, "N01", v == e, what, "{} of {} gave {} instead of {}", what, args, v, e);
            ctx.label("computed");
        }
        (Some(v), None) => check!(ctx, "N01", false, what, "{} of {} gave {}, but has no result", what, args, v),
        (None, Some(e)) => {
            check!(ctx, "N01", !k.fits(&e) || inter.iter().any(|x| !k.fits(x)), what, "{} of {} failed, the result {} fits", what, args, e);
            ctx.label("overflow-failed");
        }
        (None, None) => ctx.label("no-result"),
    }
    Ok(())
}

fn show_dec(a: i128) -> std::string::String {
    let one = big(ONE);
    let x = big(a).abs();
    let (w, f) = (&x / &one, &x % &one);
    let sign = if a < 0 { "-" } else { "" };
    if f.is_zero() {
        format!("{sign}{w}")
    } else {
        format!("{sign}{w}.{}", format!("{:0>18}", f.to_string()).trim_end_matches('0'))
    }
}

pub fn decimal(ctx: &mut Ctx) -> R {
    let w = W::new();
    let env = w.env.clone();
    let k = Arith { bits: big(i128::MAX), low: big(i128::MIN) };
    let n = ctx.steps(10, 60);
    let mut done = 0;
    for _ in 0..n {
        ctx.src.begin();
        let r = decimal_op(ctx, &env, &k);
        ctx.src.end();
        r?;
        done += 1;
    }
    ctx.nontrivial = done >= 5;
    Ok(())
}

fn decimal_op(ctx: &mut Ctx, env: &Env, k: &Arith) -> R {
    let s = &mut ctx.src;
    let (a, b) = (int(s), int(s));
    let op = s.below(20);
    let small = s.range(i64::MIN as i128, i64::MAX as i128) as i64;
    let places = s.below(40) as i32;
    let exp = s.below(70) as u32;
    let args = format!("({a}, {b})");
    ctx.log(format!("op {} on {} (small {}, places {}, exponent {})", op, args, small, places, exp));
    let (x, y) = (Decimal::new(a), Decimal::raw(b));
    let (ba, bb) = (big(a), big(b));
    let one = big(ONE);
    let at = |d: Decimal| big(d.atomics());
    check!(ctx, "N01", x.atomics() == a && y.atomics() == b && x.decimal_places() == 18, "atomics", "atomics of {} read {} {}", args, x.atomics(), y.atomics());
    match op {
        0 => verdict(ctx, k, "add", quiet(|| at(x + y)), Some(&ba + &bb), &[], &args)?,
        1 => verdict(ctx, k, "subtract", quiet(|| at(x - y)), Some(&ba - &bb), &[], &args)?,
        2 => verdict(ctx, k, "multiply", quiet(|| at(x * y)), Some(&ba * &bb / &one), &[&ba * &bb], &args)?,
        3 => verdict(ctx, k, "divide", quiet(|| at(x / y)), if b == 0 { None } else { Some(&ba * &one / &bb) }, &[&ba * &one], &args)?,
        4 => verdict(ctx, k, "from_ratio", quiet(|| at(Decimal::from_ratio(a, b))), if b == 0 { None } else { Some(&ba * &one / &bb) }, &[&ba * &one], &args)?,
        5 => verdict(ctx, k, "integer times decimal", quiet(|| big(a * y)), Some(&ba * &bb / &one), &[&ba * &bb], &args)?,
        6 => verdict(ctx, k, "decimal times integer", quiet(|| big(y * a)), Some(&ba * &bb / &one), &[&ba * &bb], &args)?,
        7 => verdict(ctx, k, "decimal by integer", quiet(|| at(x / b)), if b == 0 { None } else { Some(&ba / &bb) }, &[], &args)?,
        8 => match quiet(|| x.inv().map(at)) {
            Some(None) => check!(ctx, "N01", a == 0, "inv", "the inverse of {} is none", a),
            Some(Some(v)) => check!(ctx, "N01", a != 0 && v == &one * &one / &ba, "inv", "the inverse of {} is {}", a, v),
            None => check!(ctx, "N01", false, "inv", "the inverse of {} failed", a),
        },
        9 => power(ctx, k, a, exp)?,
        10 => {
            let e = BigInt::from(small);
            check!(ctx, "N01", at(Decimal::percent(small)) == &e * ten(16), "percent", "percent({}) is {:?}", small, Decimal::percent(small));
            check!(ctx, "N01", at(Decimal::permille(small)) == &e * ten(15), "permille", "permille({}) is {:?}", small, Decimal::permille(small));
            check!(ctx, "N01", at(Decimal::bps(small)) == &e * ten(14), "bps", "bps({}) is {:?}", small, Decimal::bps(small));
        }
        11 => {
            let e = if places <= 18 { &ba * ten(18 - places as u32) } else { &ba / ten(places as u32 - 18) };
            verdict(ctx, k, "from_atomics", quiet(|| at(Decimal::from_atomics(a, places))), Some(e), &[], &format!("({a}, {places})"))?
        }
        12 => {
            let p = places % 19;
            verdict(ctx, k, "to_i128_with_precision", quiet(|| big(x.to_i128_with_precision(p))), Some(&ba / ten(18 - p as u32)), &[], &format!("({a}, {p})"))?
        }
        13 => verdict(ctx, k, "abs", quiet(|| at(x.abs())), Some(ba.abs()), &[], &args)?,
        14 => verdict(ctx, k, "abs_diff", quiet(|| at(x.abs_diff(y))), Some((&ba - &bb).abs()), &[], &args)?,
        15 => {
            check!(ctx, "N01", x.partial_cmp(&y) == a.partial_cmp(&b) && (x == y) == (a == b) && (x < y) == (a < b) && (x >= y) == (a >= b), "compare", "comparison of {}", args);
            check!(ctx, "N01", x.is_zero() == (a == 0) && Decimal::zero().atomics() == 0 && Decimal::one().atomics() == ONE, "is_zero", "is_zero({}) is {}", a, x.is_zero());
        }
        16 | 17 => {
            let t = format!("{x}");
            check!(ctx, "N01", t == show_dec(a), "print", "{} prints as {:?}, expected {:?}", a, t, show_dec(a));
            let es = x.to_string(env);
            check!(ctx, "N01", es.to_string() == t, "print-env", "{} prints as {:?} in a contract", a, es.to_string());
            let back = quiet(|| Decimal::from_str(&t).ok()).flatten();
            check!(ctx, "N01", back == Some(x), "parse-printed", "{:?} parses as {:?}", t, back);
        }
        _ => {
            // text with up to 18 fractional digits
            let s = &mut ctx.src;
            let digits = s.below(19) as u32;
            let frac = if digits == 0 { 0 } else { s.below(10u64.pow(digits.min(18))) };
            let whole = a / s.pick(&[1i128, ONE, 1 << 90, 1 << 120]);
            let neg = whole < 0;
            let zeros = "0".repeat(s.below(3) as usize);
            let t = format!("{}{}{}{}", if neg { "-" } else { "" }, zeros, whole.unsigned_abs(), if digits == 0 { String::new() } else { format!(".{:0>width$}", frac, width = digits as usize) });
            let mag: BigInt = big(whole).abs() * &one + if digits == 0 { big(0) } else { BigInt::from(frac) * ten(18 - digits) };
            let e = if neg { -mag } else { mag };
            ctx.log(format!("parse {:?}", t));
            let got = quiet(|| Decimal::from_str(&t).ok()).flatten().map(at);
            verdict(ctx, k, "parse", got, Some(e), &[], &t)?
        }
    }
    Ok(())
}

/// x^n: each of the about 2 log n multiplications rounds once, towards zero
fn power(ctx: &mut Ctx, k: &Arith, a: i128, exp: u32) -> R {
    let a = if ctx.src.bool(1, 2) { (a % (20 * ONE)).abs() } else { a.checked_abs().unwrap_or(0) };
    let x = Decimal::new(a);
    let got = quiet(|| big(x.pow(exp).atomics()));
    let scale = ten(18);
    let e: BigInt = big(a).pow(exp) * &scale / scale.clone().pow(exp); // floor of the exact power
    ctx.log(format!("{}^{} exactly {}", a, exp, e));
    match got {
        Some(v) => {
            let lim: BigInt = &e / ten(18) * (2 * exp as i64 + 2) + 2 * exp as i64 + 2;
            check!(ctx, "N01", v <= e && v >= &e - &lim, "pow", "{} to the power {} is {}, exactly {}", a, exp, v, e);
        }
        None => check!(ctx, "N01", !k.fits(&(&e * &scale * ten(3))), "pow", "{} to the power {} failed, exactly {}", a, exp, e),
    }
    Ok(())
}

// 256 bits
fn uint(s: &mut Src) -> u128 {
    match s.weighted(&[5, 4, 2, 2, 1]) {
        0 => s.logu(1, i128::MAX) as u128,
        1 => s.logu(1, 1_000_000 * ONE) as u128,
        2 => s.below(4) as u128,
        3 => (ONE + s.range(-2, 2)) as u128,
        _ => u128::MAX - s.below(3) as u128,
    }
}

fn u256(env: &Env, x: &BigInt) -> U256 {
    let (_, b) = x.to_bytes_be();
    let mut full = [0u8; 32];
    full[32 - b.len()..].copy_from_slice(&b);
    U256::from_be_bytes(env, &Bytes::from_array(env, &full))
}

pub fn decimal256(ctx: &mut Ctx) -> R {
    let w = W::new();
    let env = w.env.clone();
    env.budget().reset_unlimited();
    let k = Arith { bits: (BigInt::from(1) << 256) - 1, low: big(0) };
    let n = ctx.steps(10, 60);
    for _ in 0..n {
        ctx.src.begin();
        let r = decimal256_op(ctx, &env, &k);
        ctx.src.end();
        r?;
    }
    ctx.nontrivial = n >= 5;
    Ok(())
}

fn decimal256_op(ctx: &mut Ctx, env: &Env, k: &Arith) -> R {
    let s = &mut ctx.src;
    let (a, b) = (uint(s), uint(s));
    // operands of more than 128 bits come from multiplying by a power of two
    let (sa, sb) = if s.bool(1, 3) { (s.below(120) as u32, s.below(120) as u32) } else { (0, 0) };
    let op = s.below(12);
    let places = s.below(40) as i32;
    let exp = s.below(40) as u32;
    let small = s.below(u64::MAX);
    let (ba, bb) = (BigInt::from(a) << sa, BigInt::from(b) << sb);
    let one = big(ONE);
    let args = format!("({ba}, {bb})");
    ctx.log(format!("256-bit op {} on {} (places {}, exponent {})", op, args, places, exp));
    // the value with these atomics
    let make = |x: &BigInt| -> Option<Decimal256> {
        if *x >= (BigInt::from(1) << 196) {
            return None;
        }
        Some(if *x < (BigInt::from(1) << 128) { Decimal256::new(env, u128::try_from(x.clone()).unwrap()) } else { Decimal256::from_ratio(env, u256(env, x), u256(env, &big(ONE))) })
    };
    let (Some(x), Some(y)) = (make(&ba), make(&bb)) else { return Ok(()) };
    let judge = |ctx: &mut Ctx, what: &str, got: Option<Decimal256>, exact: Option<BigInt>, inter: &[BigInt], args: &str| -> R {
        match (&got, &exact) {
            (Some(v), Some(e)) => {
                let neg = e.is_negative();
                check!(ctx, "N01", !neg && k.fits(e), what, "256-bit {} of {} gave {:?}, the result {} does not fit", what, args, v.atomics(), e);
                if let Some(m) = make(e) {
                    check!(ctx, "N01", *v == m, what, "256-bit {} of {} gave {:?} instead of {}", what, args, v.atomics(), e);
                    check!(ctx, "N01", v.atomics() == u128::try_from(e.clone()).ok(), what, "256-bit {} of {} reads {:?} instead of {}", what, args, v.atomics(), e);
                }
                ctx.label("computed");
                Ok(())
            }
            (Some(v), None) => {
                check!(ctx, "N01", false, what, "256-bit {} of {} gave {:?}, but has no result", what, args, v.atomics());
                Ok(())
            }
            _ => verdict(ctx, k, what, None, exact, inter, args),
        }
    };
    match op {
        0 => judge(ctx, "add", quiet(|| x + y), Some(&ba + &bb), &[], &args)?,
        1 => judge(ctx, "subtract", quiet(|| x - y), Some(&ba - &bb), &[], &args)?,
        2 => judge(ctx, "multiply", quiet(|| x.mul(env, &y)), Some(&ba * &bb / &one), &[&ba * &bb], &args)?,
        3 => judge(ctx, "divide", quiet(|| x.div(env, y)), if bb.is_zero() { None } else { Some(&ba * &one / &bb) }, &[&ba * &one], &args)?,
        4 => judge(ctx, "from_ratio", quiet(|| Decimal256::from_ratio(env, u256(env, &ba), u256(env, &bb))), if bb.is_zero() { None } else { Some(&ba * &one / &bb) }, &[&ba * &one], &args)?,
        5 => judge(ctx, "by integer", quiet(|| x.div_by_u256(u256(env, &bb))), if bb.is_zero() { None } else { Some(&ba / &bb) }, &[], &args)?,
        6 => {
            let inv = quiet(|| x.inv(env));
            match inv {
                Some(None) => check!(ctx, "N01", ba.is_zero(), "inv", "the 256-bit inverse of {} is none", ba),
                Some(Some(v)) => {
                    let e = if ba.is_zero() { big(-1) } else { &one * &one / &ba };
                    check!(ctx, "N01", v.atomics() == u128::try_from(e.clone()).ok(), "inv", "the 256-bit inverse of {} is {:?}, expected {}", ba, v.atomics(), e);
                }
                None => check!(ctx, "N01", false, "inv", "the 256-bit inverse of {} failed", ba),
            }
        }
        7 => {
            let p = places % 19;
            let d = if places <= 18 { BigInt::from(a) * ten(18 - places as u32) } else { BigInt::from(a) / ten(places as u32 - 18) };
            judge(ctx, "from_atomics", quiet(|| Decimal256::from_atomics(env, a, places)), Some(d), &[], &format!("({a}, {places})"))?;
            let got = quiet(|| Decimal256::new(env, a).to_u128_with_precision(p)).map(BigInt::from);
            verdict(ctx, k, "to_u128_with_precision", got, Some(BigInt::from(a) / ten(18 - p as u32)), &[], &format!("({a}, {p})"))?;
        }
        8 => {
            let e = BigInt::from(small);
            judge(ctx, "percent", quiet(|| Decimal256::percent(env, small)), Some(&e * ten(16)), &[], &small.to_string())?;
            judge(ctx, "permille", quiet(|| Decimal256::permille(env, small)), Some(&e * ten(15)), &[], &small.to_string())?;
            judge(ctx, "bps", quiet(|| Decimal256::bps(env, small)), Some(&e * ten(14)), &[], &small.to_string())?;
        }
        9 => {
            check!(ctx, "N01", x.partial_cmp(&y) == ba.partial_cmp(&bb) && (x == y) == (ba == bb), "compare", "256-bit comparison of {}", args);
            check!(ctx, "N01", x.is_zero(env) == ba.is_zero() && Decimal256::zero(env).is_zero(env) && Decimal256::one(env).atomics() == Some(ONE as u128) && x.decimal_places() == 18, "is_zero", "256-bit is_zero({})", ba);
        }
        10 => {
            // its difference is a 128-bit operation
            let d = if a > b { a - b } else { b - a };
            judge(ctx, "abs_diff", quiet(|| Decimal256::new(env, a).abs_diff(env, Decimal256::raw(env, b))), Some(BigInt::from(d)), &[], &args)?
        }
        _ => {
            let base = a % (50 * ONE as u128);
            let scale = ten(18);
            let e: BigInt = BigInt::from(base).pow(exp) * &scale / scale.clone().pow(exp);
            let got = quiet(|| Decimal256::new(env, base).pow(env, exp));
            match got {
                Some(v) => {
                    check!(ctx, "N01", k.fits(&e), "pow", "256-bit {} to the power {} gave a result, {} does not fit", base, exp, e);
                    let lim: BigInt = &e / ten(18) * (2 * exp as i64 + 2) + 2 * exp as i64 + 2;
                    let low = if e > lim { &e - &lim } else { big(0) };
                    if let (Some(hi), Some(lo)) = (make(&e), make(&low)) {
                        check!(ctx, "N01", v <= hi && v >= lo, "pow", "256-bit {} to the power {} is {:?}, exactly {}", base, exp, v.atomics(), e);
                    }
                }
                None => check!(ctx, "N01", !k.fits(&(&e * &scale * ten(3))), "pow", "256-bit {} to the power {} failed, exactly {}", base, exp, e),
            }
        }
    }
    Ok(())
}

pub fn props() -> std::vec::Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            title: "Reward and vesting curves evaluate and combine exactly",
            rule: "a case is 1 to 4 random curves (constant, linear, piecewise of up to 8 points; rising, falling, flat parts or any shape), the same curves broken in one way, and the sums of neighbouring ones, evaluated at and around every point, inside every piece and at both ends of time against exact interpolation; non-trivial = at least two bends in total",
            assumptions: &["values and times within the 128-bit range of the interpolation; a piecewise curve starting at time zero is refused by validation, nothing is promised about it"],
            scenarios: vec![Scenario { name: "curves", run: curves, quick: 150_000, thorough: 8_000_000 }],
        },
        Prop {
            id: "N01",
            title: "Fixed-point arithmetic is exact up to one rounding",
            rule: "a case is 10..60 operations of the 128-bit (or 256-bit) type on operands of every size and sign, near one, near the largest and at zero, against exact big-integer arithmetic; non-trivial = at least five operations",
            assumptions: &["an operation whose straightforward intermediate product does not fit may fail although its result fits; the 256-bit type's source is compiled into the harness because the package does not export it"],
            scenarios: vec![
                Scenario { name: "decimal", run: decimal, quick: 150_000, thorough: 8_000_000 },
                Scenario { name: "decimal256", run: decimal256, quick: 60_000, thorough: 2_000_000 },
            ],
        },
    ]
}
