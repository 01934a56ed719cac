//! N01-N06: number operations against independent references.
use nanvm_lib::{
    big_numbers::{
        big_float::BigFloat,
        big_int::{BigInt, Sign as BSign},
        big_uint::BigUint,
    },
    js::{
        any::Any,
        js_bigint::{self as jb, JsBigint, JsBigintMutRef, Sign},
        type_::Type,
    },
    mem::{global::Global, local::Local, manager::Manager},
    parser::shared::to_js_bigint,
    tokenizer::{bigfloat_to_f64, tokenize, JsonToken, TokenizerStateIterator},
};
use nanvm_monitor::{
    ensure, kind,
    refbig::{gen_int, gen_long, gen_nat, gen_related, gen_word, Int, Nat},
    run::{args, drive, guarded, hash_str, Case, Kind, Rng, Tier, R},
};
use std::{cmp::Ordering, ops::Deref};

// ------------------------------------------------------------------ conversions

fn make<M: Manager>(m: M, v: &Int) -> JsBigintMutRef<M::Dealloc> {
    jb::new_bigint(
        m,
        if v.neg {
            Sign::Negative
        } else {
            Sign::Positive
        },
        v.n.words(),
    )
}

/// The value of a big integer and whether it is canonical.
fn read(v: &JsBigint) -> Result<Int, String> {
    let items = v.items();
    ensure!(
        v.header_len().unsigned_abs() == items.len(),
        "header says {} words, {} present",
        v.header_len(),
        items.len()
    );
    ensure!(items.last() != Some(&0), "leading zero word: {items:x?}");
    let neg = match v.sign() {
        Sign::Negative => true,
        Sign::Positive => false,
    };
    ensure!(!(neg && items.is_empty()), "negative zero");
    ensure!(neg == (v.header_len() < 0), "sign and header differ");
    Ok(Int {
        neg,
        n: Nat::from_words(items),
    })
}

fn same(op: &str, a: &Int, b: &Int, got: &JsBigint, want: &Int) -> R {
    let g = read(got).map_err(|e| format!("{op} {} {}: {e}", a.short(), b.short()))?;
    ensure!(
        &g == want,
        "{op} {} {} = {}, should be {}",
        a.short(),
        b.short(),
        g.short(),
        want.short()
    );
    Ok(())
}

/// Runs the case on one of the managers.
macro_rules! with_manager {
    ($c:expr, $m:ident, $e:expr) => {
        if $c.rng.chance(1, 4) {
            let local = Local::default();
            let r = {
                let $m = &local;
                $e
            };
            r.and_then(|x| {
                if local.size() != 0 {
                    return Err(format!("{} bytes left in the manager", local.size()));
                }
                Ok(x)
            })
        } else {
            let $m = Global();
            $e
        }
    };
}

fn pair(c: &mut Case, max: usize) -> (Int, Int) {
    let a = gen_int(&mut c.rng, max);
    let b = if c.rng.bool() {
        gen_int(&mut c.rng, max)
    } else {
        let n = gen_related(&mut c.rng, &a.n, max);
        Int::new(c.rng.bool(), n)
    };
    let (a, b) = if c.rng.chance(1, 4) { (b, a) } else { (a, b) };
    if !a.is_zero() && !b.is_zero() {
        c.sig(hash_str(&a.short()));
        c.sig(hash_str(&b.short()));
    }
    let mixed = a.neg != b.neg;
    c.ev(if mixed { "mixed signs" } else { "equal signs" }, 1);
    if a.n.0.len() > 2 && b.n.0.len() > 2 {
        c.ev("both multiword", 1);
    }
    (a, b)
}

fn width(c: &mut Case) -> usize {
    match (c.tier, c.rng.below(40)) {
        (Tier::Tiny, _) => 3,
        (_, 0) => 60,
        (Tier::Thorough, 1) => 200,
        (_, 1..=9) => 12,
        _ => 4,
    }
}

// ------------------------------------------------------------------ N01

/// Operands of hundreds of words, or of more words (or bits) than 16-bit counters hold.
fn long_pair(c: &mut Case, huge: bool) -> (Int, Int) {
    let len = if huge {
        c.rng.vast()
    } else {
        c.rng.range(61, 700)
    };
    let a = gen_long(&mut c.rng, len);
    let b = match c.rng.below(5) {
        0 if !huge => {
            let n = c.rng.range(61, 700);
            gen_long(&mut c.rng, n)
        }
        0 => {
            let n = c.rng.vast();
            gen_long(&mut c.rng, n)
        }
        1 => gen_nat(&mut c.rng, 60),
        _ => gen_related(&mut c.rng, &a, 4),
    };
    let (a, b) = (Int::new(c.rng.bool(), a), Int::new(c.rng.bool(), b));
    c.sig(hash_str(&a.short()));
    c.sig(hash_str(&b.short()));
    c.ev(
        if huge {
            "operands of over 65000 words"
        } else {
            "operands of hundreds of words"
        },
        1,
    );
    if c.rng.chance(1, 3) {
        (b, a)
    } else {
        (a, b)
    }
}

/// Every length up to a thousand words, against operands of related lengths.
fn sized_pair(c: &mut Case) -> (Int, Int) {
    let (dim, n) = c.sweep(6);
    let n = if n > 1025 {
        c.rng.range(1, 300)
    } else {
        n.max(1)
    };
    let a = gen_long(&mut c.rng, n);
    let m = match dim {
        0 => n,
        1 => 1,
        2 => n + 1,
        3 => (n / 2).max(1),
        4 => c.rng.range(1, n),
        _ => 0,
    };
    let b = if m == 0 {
        gen_related(&mut c.rng, &a, 4)
    } else {
        gen_long(&mut c.rng, m)
    };
    c.ev("lengths", 1);
    let (a, b) = (Int::new(c.rng.bool(), a), Int::new(c.rng.bool(), b));
    c.sig(hash_str(&a.short()));
    c.sig(hash_str(&b.short()));
    if c.rng.bool() {
        (a, b)
    } else {
        (b, a)
    }
}

fn n01_sizes(c: &mut Case) -> R {
    let (a, b) = sized_pair(c);
    with_manager!(c, m, n01_ops(c, m, &a, &b))?;
    // a power of that many factors
    let (_, e) = c.sweep(6);
    let e = Int::new(false, Nat::from_u64(e.min(2000) as u64));
    let b = Int::from_i64(*c.rng.pick(&[2, -2, 3, 10, -7]));
    let want = b.pow(e.n.words().first().copied().unwrap_or(0));
    let m = Global();
    let (x, y) = (make(m, &b), make(m, &e));
    same(
        "pow",
        &b,
        &e,
        jb::pow(m, x.deref(), y.deref()).deref(),
        &want,
    )
}

/// Whether the quotient takes too many steps over too many words.
fn long_division(a: &Int, b: &Int) -> bool {
    let (a, b) = (a.n.0.len() / 2, b.n.0.len() / 2);
    b > 1 && a.saturating_sub(b) * a > 20_000
}

fn n02_sizes(c: &mut Case) -> R {
    let (a, b) = sized_pair(c);
    let b = if b.is_zero() { Int::from_i64(1) } else { b };
    let b = if long_division(&a, &b) {
        Int::new(b.neg, Nat::from_u64(b.n.words()[0].max(1)))
    } else {
        b
    };
    with_manager!(c, m, n02_check(c, m, &a, &b))
}

fn n03_sizes(c: &mut Case) -> R {
    let (a, b) = sized_pair(c);
    with_manager!(c, m, n03_ops(c, m, &a, &b))?;
    // shifted by that many bits, and words
    let (dim, n) = c.sweep(6);
    let (n, b) = if dim % 2 == 0 {
        (n, b)
    } else {
        (n.min(10_001) * 64, b)
    };
    n03_shift_by(c, b, n)
}

fn n04_sizes(c: &mut Case) -> R {
    let (a, b) = sized_pair(c);
    let b = if c.rng.bool() {
        Int::new(a.neg, b.n)
    } else {
        b
    };
    let m = Global();
    let (x, y) = (make(m, &a), make(m, &b));
    n04_ops(c, x.deref(), y.deref(), &a, &b)
}

fn n05_sizes(c: &mut Case) -> R {
    let (a, b) = sized_pair(c);
    let (x, y) = (bi(&a), bi(&b));
    same_i("+", &a, &b, &(&x + &y), &a.add(&b))?;
    same_i("-", &a, &b, &(x.clone() - y.clone()), &a.sub(&b))?;
    same_i("*", &a, &b, &(&x * &y), &a.mul(&b))?;
    ensure!(
        x.cmp(&y) == a.cmp(&b),
        "{} <=> {} is {:?}",
        a.short(),
        b.short(),
        x.cmp(&y)
    );
    let (_, n) = c.sweep(6);
    let k = Nat::from_u64(n as u64);
    same_u("<<", &a.n, &k, &(&bu(&a.n) << &bu(&k)), &a.n.shl(n))?;
    same_u(">>", &a.n, &k, &(&bu(&a.n) >> &bu(&k)), &a.n.shr(n))?;
    let e = n.min(2000) as u64;
    let two = Nat::from_u64(c.rng.range(2, 11) as u64);
    same_u("pow", &two, &k, &bu(&two).pow_u64(e), &two.pow(e))?;
    let b = if b.is_zero() || long_division(&a, &b) {
        Int::from_i64(-3)
    } else {
        b
    };
    n05_idiv_of(c, &a, &b)?;
    n05_uint_of(c, a.n, b.n)
}

/// Every number of digits, zeros and every exponent.
fn n06_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(9);
    let few = n.min(3000);
    let sign = if c.rng.bool() { "-" } else { "" };
    let d = *c.rng.pick(&[
        "1",
        "9",
        "17976931348623157",
        "22250738585072014",
        "5",
        "49",
        "123456789",
    ]);
    let s = match dim {
        0 => format!("{sign}{}", int_part(&mut c.rng, few)),
        1 => format!("{sign}0.{}{d}", "0".repeat(few)),
        2 => format!("{sign}{d}{}", "0".repeat(few)),
        3 => format!("{sign}{d}e{n}"),
        4 => format!("{sign}{d}e-{n}"),
        5 => format!("{sign}{d}{}e-{}", "0".repeat(few), few),
        6 => format!("{sign}0.{}{d}e{}", "0".repeat(few), few + c.rng.below(20)),
        7 => {
            let k = few.max(1);
            format!("{sign}{d}.{}", digits(&mut c.rng, k))
        }
        _ => {
            // all of them count, wherever the point is
            let k = if n < 6_000 { n.max(1) } else { 6_000 + n % 300 };
            let e = match c.rng.below(4) {
                0 => c.rng.range(0, 640) as i64 - 330,
                1 => c.rng.range(0, 6) as i64 + 304,
                _ => -(c.rng.range(308, 328) as i64),
            } - k as i64;
            format!("{sign}{}e{e}", int_part(&mut c.rng, k))
        }
    };
    c.ev("lengths", 1);
    c.sig(hash_str(&s));
    check_number(c, &s)
}

fn n01_wide(c: &mut Case) -> R {
    let (a, b) = long_pair(c, false);
    c.sample(|| format!("a={} b={}", a.short(), b.short()));
    with_manager!(c, m, n01_ops(c, m, &a, &b))
}

fn n01_huge(c: &mut Case) -> R {
    let (a, b) = long_pair(c, true);
    c.sample(|| format!("a={} b={}", a.short(), b.short()));
    let few = c.rng.range(1, 3);
    let f = gen_int(&mut c.rng, few);
    with_manager!(c, m, {
        n01_sums(c, m, &a, &b).and_then(|_| {
            let (x, z) = (make(m, &a), make(m, &f));
            same(
                "*",
                &a,
                &f,
                jb::mul(m, x.deref(), z.deref()).deref(),
                &a.mul(&f),
            )?;
            same(
                "*",
                &f,
                &a,
                jb::mul(m, z.deref(), x.deref()).deref(),
                &a.mul(&f),
            )
        })
    })
}

fn n01_sums<M: Manager>(c: &mut Case, m: M, a: &Int, b: &Int) -> R {
    let (x, y) = (make(m, a), make(m, b));
    same(
        "+",
        a,
        b,
        jb::add(m, x.deref(), y.deref()).deref(),
        &a.add(b),
    )?;
    same(
        "-",
        a,
        b,
        jb::sub(m, x.deref(), y.deref()).deref(),
        &a.sub(b),
    )?;
    same("neg", a, a, jb::negative(m, x.deref()).deref(), &a.neg())?;
    same(
        "not",
        a,
        a,
        jb::not(m, x.deref()).deref(),
        &a.neg().sub(&Int::from_i64(1)),
    )?;
    // one object as both operands
    same(
        "+ self",
        a,
        a,
        jb::add(m, x.deref(), x.deref()).deref(),
        &a.add(a),
    )?;
    same(
        "- self",
        a,
        a,
        jb::sub(m, x.deref(), x.deref()).deref(),
        &Int::default(),
    )?;
    same("operand", a, b, x.deref(), a)?;
    same("operand", b, a, y.deref(), b)?;
    c.ev("operations", 6);
    Ok(())
}

fn n01_ops<M: Manager>(c: &mut Case, m: M, a: &Int, b: &Int) -> R {
    n01_sums(c, m, a, b)?;
    let (x, y) = (make(m, a), make(m, b));
    same(
        "*",
        a,
        b,
        jb::mul(m, x.deref(), y.deref()).deref(),
        &a.mul(b),
    )?;
    same(
        "* self",
        a,
        a,
        jb::mul(m, x.deref(), x.deref()).deref(),
        &a.mul(a),
    )?;
    same("operand", a, b, x.deref(), a)?;
    same("operand", b, a, y.deref(), b)?;
    c.ev("operations", 2);
    Ok(())
}

fn n01_arith(c: &mut Case) -> R {
    let w = width(c);
    let (a, b) = pair(c, w);
    c.sample(|| format!("a={} b={}", a.short(), b.short()));
    with_manager!(c, m, n01_ops(c, m, &a, &b))
}

fn n01_pow(c: &mut Case) -> R {
    let w = if c.rng.chance(1, 6) { 5 } else { 2 };
    let a = match c.rng.below(6) {
        0 => Int::from_i64(c.rng.below(7) as i64 - 3),
        _ => gen_int(&mut c.rng, w),
    };
    let unit = a.n.0.len() <= 1 && a.n.0.first().copied().unwrap_or(0) <= 1;
    let e = if unit {
        match c.rng.below(3) {
            0 => Int::new(false, gen_nat(&mut c.rng, 4)),
            1 => Int::new(false, Nat::from_u64(gen_word(&mut c.rng))),
            _ => Int::new(false, Nat::from_u64(c.rng.below(5) as u64)),
        }
    } else {
        let max = match c.rng.below(2_000) {
            _ if c.tier == Tier::Tiny => 5,
            0 => {
                c.ev("long powers", 1);
                1_200
            }
            _ => 40,
        };
        Int::new(false, Nat::from_u64(c.rng.size(max) as u64))
    };
    c.sample(|| format!("pow {} {}", a.short(), e.short()));
    c.sig(hash_str(&a.short()));
    c.sig(hash_str(&e.short()));
    let want = if unit {
        if e.is_zero() {
            Int::from_i64(1)
        } else if a.is_zero() {
            a.clone()
        } else {
            Int::new(a.neg && e.n.bit(0), Nat::from_u64(1))
        }
    } else {
        a.pow(e.n.words().first().copied().unwrap_or(0))
    };
    with_manager!(c, m, {
        let (x, y) = (make(m, &a), make(m, &e));
        let mut r = same(
            "pow",
            &a,
            &e,
            jb::pow(m, x.deref(), y.deref()).deref(),
            &want,
        );
        if r.is_ok() && e.n.0.len() <= 2 {
            let k = e.n.words().first().copied().unwrap_or(0);
            r = same(
                "pow_u64",
                &a,
                &e,
                jb::pow_u64(m, x.deref(), k).deref(),
                &want,
            );
        }
        r.and_then(|_| same("operand", &a, &e, x.deref(), &a))
            .and_then(|_| same("operand", &e, &a, y.deref(), &e))
    })?;
    c.ev("powers", 1);
    // a negative exponent is refused
    if c.rng.chance(1, 20) {
        let m = Global();
        let k = Int::new(true, Nat::from_u64(gen_word(&mut c.rng).max(1)));
        let (x, y) = (make(m, &a), make(m, &k));
        let r = guarded(|| read(jb::pow(m, x.deref(), y.deref()).deref()));
        ensure!(r.is_err(), "pow {} {} gave {:?}", a.short(), k.short(), r);
        c.ev("refusals", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ N02

const REM_SMALL: &str = "N02-remainder-of-smaller-dividend";
const REM_SIGN: &str = "N02-remainder-sign";

/// `q*b + r = a` with the quotient truncated: decided without dividing.
fn n02_check<M: Manager>(c: &mut Case, m: M, a: &Int, b: &Int) -> R {
    let (x, y) = (make(m, a), make(m, b));
    let (q, r) = jb::div_mod(m, x.deref(), y.deref());
    same("operand", a, b, x.deref(), a)?;
    same("operand", b, a, y.deref(), b)?;
    let show = || format!("{} / {}", a.short(), b.short());
    let q = read(q.deref()).map_err(|e| format!("quotient of {}: {e}", show()))?;
    let r = read(r.deref()).map_err(|e| format!("remainder of {}: {e}", show()))?;
    c.ev("divisions", 1);
    // the true quotient q satisfies |a| - |q||b| in [0, |b|)
    let p = q.n.mul(&b.n);
    ensure!(
        p.cmp(&a.n) != Ordering::Greater,
        "{}: quotient {} too large",
        show(),
        q.short()
    );
    let rest = a.n.sub(&p);
    ensure!(
        rest.cmp(&b.n) == Ordering::Less,
        "{}: quotient {} too small",
        show(),
        q.short()
    );
    ensure!(
        q.is_zero() || q.neg == (a.neg != b.neg),
        "{}: quotient {} has the wrong sign",
        show(),
        q.short()
    );
    let want = Int::new(a.neg, rest.clone());
    if r == want {
        c.ev("exact remainders", 1);
        return Ok(());
    }
    // the two recorded findings, and nothing else
    if a.n.cmp(&b.n) == Ordering::Less && r == Int::new(a.neg != b.neg, b.n.clone()) {
        c.known(REM_SMALL, || {
            format!("{} has remainder {}", show(), r.short())
        });
        return Ok(());
    }
    if a.n.cmp(&b.n) == Ordering::Greater && b.neg && r == Int::new(!a.neg, rest) {
        c.known(REM_SIGN, || {
            format!("{} has remainder {}", show(), r.short())
        });
        return Ok(());
    }
    Err(format!(
        "{}: remainder {}, should be {}",
        show(),
        r.short(),
        want.short()
    ))
}

fn n02_div(c: &mut Case) -> R {
    let w = width(c);
    let (a, b) = match c.rng.below(4) {
        // built from quotient, divisor and remainder
        0 | 1 => {
            let mut b = gen_nat(&mut c.rng, w);
            if b.is_zero() {
                b = Nat::from_u64(gen_word(&mut c.rng).max(1));
            }
            let q = gen_nat(&mut c.rng, w);
            let r = match c.rng.below(4) {
                0 => Nat::zero(),
                1 => b.sub(&Nat::from_u64(1)),
                2 if b.cmp(&Nat::from_u64(1)) == Ordering::Greater => Nat::from_u64(1),
                _ => {
                    let k = c.rng.size(64);
                    b.sub(&Nat::from_u64(1)).shr(k)
                }
            };
            let a = q.mul(&b).add(&r);
            (Int::new(c.rng.bool(), a), Int::new(c.rng.bool(), b))
        }
        _ => pair(c, w),
    };
    if b.is_zero() {
        c.ev("division by zero", 1);
        let m = Global();
        let (x, y) = (make(m, &a), make(m, &b));
        let r = guarded(|| {
            let (q, r) = jb::div_mod(m, x.deref(), y.deref());
            format!("{:?} {:?}", read(q.deref()), read(r.deref()))
        });
        ensure!(r.is_err(), "{} / 0 gave {:?}", a.short(), r);
        return Ok(());
    }
    if a.n.cmp(&b.n) == Ordering::Greater {
        c.sig(hash_str(&a.short()));
        c.sig(hash_str(&b.short()));
    }
    c.sample(|| format!("{} / {}", a.short(), b.short()));
    with_manager!(c, m, n02_check(c, m, &a, &b))
}

/// A dividend and a divisor of hundreds or tens of thousands of words whose quotient is short, or
/// (hundreds only) whose divisor is.
fn long_div(c: &mut Case, huge: bool) -> (Nat, Nat) {
    let len = if huge {
        c.rng.vast()
    } else {
        c.rng.range(61, 500)
    };
    let short = c.rng.range(1, 3);
    let (b, q) = match c.rng.below(4) {
        0 if !huge => (gen_long(&mut c.rng, short), gen_long(&mut c.rng, len)),
        1 if !huge => {
            let n = c.rng.range(20, 60);
            (gen_long(&mut c.rng, n), gen_long(&mut c.rng, len.min(120)))
        }
        _ => {
            let b = gen_long(&mut c.rng, len);
            (b, gen_nat(&mut c.rng, short))
        }
    };
    let r = match c.rng.below(4) {
        0 => Nat::zero(),
        1 => b.sub(&Nat::from_u64(1)),
        _ => {
            let k = c.rng.below(b.bits() + 1);
            b.sub(&Nat::from_u64(1)).shr(k)
        }
    };
    c.ev(
        if huge {
            "divisions of over 65000 words"
        } else {
            "divisions of hundreds of words"
        },
        1,
    );
    (q.mul(&b).add(&r), b)
}

fn n02_wide(c: &mut Case) -> R {
    let (a, b) = long_div(c, false);
    let (a, b) = (Int::new(c.rng.bool(), a), Int::new(c.rng.bool(), b));
    c.sig(hash_str(&a.short()));
    c.sig(hash_str(&b.short()));
    c.sample(|| format!("{} / {}", a.short(), b.short()));
    with_manager!(c, m, n02_check(c, m, &a, &b))
}

fn n02_huge(c: &mut Case) -> R {
    let (a, b) = long_div(c, true);
    let (a, b) = (Int::new(c.rng.bool(), a), Int::new(c.rng.bool(), b));
    c.sig(hash_str(&a.short()));
    c.sig(hash_str(&b.short()));
    c.sample(|| format!("{} / {}", a.short(), b.short()));
    with_manager!(c, m, n02_check(c, m, &a, &b))
}

// ------------------------------------------------------------------ N03

fn n03_ops<M: Manager>(c: &mut Case, m: M, a: &Int, b: &Int) -> R {
    let (x, y) = (make(m, a), make(m, b));
    same(
        "&",
        a,
        b,
        jb::and(m, x.deref(), y.deref()).deref(),
        &a.bitop(b, |p, q| p & q),
    )?;
    same(
        "|",
        a,
        b,
        jb::or(m, x.deref(), y.deref()).deref(),
        &a.bitop(b, |p, q| p | q),
    )?;
    same(
        "^",
        a,
        b,
        jb::xor(m, x.deref(), y.deref()).deref(),
        &a.bitop(b, |p, q| p ^ q),
    )?;
    same(
        "~",
        a,
        a,
        jb::not(m, x.deref()).deref(),
        &a.bitop(a, |p, _| !p),
    )?;
    same("operand", a, b, x.deref(), a)?;
    same("operand", b, a, y.deref(), b)?;
    c.ev("bit operations", 4);
    Ok(())
}

fn n03_bits(c: &mut Case) -> R {
    let w = width(c);
    let (a, b) = pair(c, w);
    c.sample(|| format!("a={} b={}", a.short(), b.short()));
    with_manager!(c, m, n03_ops(c, m, &a, &b))
}

fn shift_count(r: &mut Rng, bits: usize) -> usize {
    match r.below(6) {
        0 => r.below(4),
        1 => 64 * r.below(bits / 64 + 3),
        2 => (64 * r.range(1, bits / 64 + 3)) - 1,
        3 => (bits + r.below(3)).saturating_sub(1),
        4 => r.below(bits + 130),
        _ => r.below(64),
    }
}

fn n03_wide(c: &mut Case) -> R {
    let (a, b) = long_pair(c, false);
    c.sample(|| format!("a={} b={}", a.short(), b.short()));
    with_manager!(c, m, n03_ops(c, m, &a, &b))?;
    n03_shift_of(c, a)
}

fn n03_huge(c: &mut Case) -> R {
    let (a, b) = long_pair(c, true);
    c.sample(|| format!("a={} b={}", a.short(), b.short()));
    with_manager!(c, m, n03_ops(c, m, &a, &b))?;
    n03_shift_of(c, a)
}

fn n03_shift(c: &mut Case) -> R {
    let w = width(c);
    let a = gen_int(&mut c.rng, w);
    n03_shift_of(c, a)
}

fn n03_shift_of(c: &mut Case, mut a: Int) -> R {
    if c.rng.chance(1, 3) && !a.is_zero() {
        // trailing zeros: exact negative shifts
        let k = c.rng.size(200);
        a = a.shl(k);
    }
    let n = match c.rng.below(8_000) {
        0 if c.tier != Tier::Tiny => {
            c.ev("shifts over 65000 words", 1);
            64 * c.rng.vast() + c.rng.below(64)
        }
        _ => shift_count(&mut c.rng, a.n.bits()),
    };
    n03_shift_by(c, a, n)
}

fn n03_shift_by(c: &mut Case, a: Int, n: usize) -> R {
    let k = Int::from_i64(n as i64);
    c.sample(|| format!("{} shifted by {n}", a.short()));
    if !a.is_zero() && n > 0 {
        c.sig(hash_str(&a.short()));
        c.sig(n as u64);
    }
    let (l, r) = (a.shl(n), a.shr(n));
    c.ev("shifts", 6);
    if a.neg && r.shl(n) != a {
        c.ev("inexact negative right shifts", 1);
    }
    with_manager!(c, m, {
        let x = make(m, &a);
        let (p, q) = (make(m, &k), make(m, &k.neg()));
        same("<<", &a, &k, jb::shl(m, x.deref(), p.deref()).deref(), &l)
            .and_then(|_| same(">>", &a, &k, jb::shr(m, x.deref(), p.deref()).deref(), &r))
            .and_then(|_| same("<< -", &a, &k, jb::shl(m, x.deref(), q.deref()).deref(), &r))
            .and_then(|_| same(">> -", &a, &k, jb::shr(m, x.deref(), q.deref()).deref(), &l))
            .and_then(|_| {
                same(
                    "<<u64",
                    &a,
                    &k,
                    jb::shl_on_u64(m, x.deref(), n as u64).deref(),
                    &l,
                )
            })
            .and_then(|_| {
                same(
                    ">>u64",
                    &a,
                    &k,
                    jb::shr_on_u64(m, x.deref(), n as u64).deref(),
                    &r,
                )
            })
            .and_then(|_| same("operand", &a, &k, x.deref(), &a))
    })
}

/// Counts beyond every machine integer: right shifts give 0 or -1, zero stays zero.
fn n03_far(c: &mut Case) -> R {
    let a = gen_int(&mut c.rng, 4);
    let n = match c.rng.below(3) {
        0 => Nat::from_u64(u64::MAX - c.rng.below(130) as u64),
        1 => Nat::from_u64(c.rng.u64() | 1 << 40),
        _ => Nat::from_u64(gen_word(&mut c.rng).max(1)).shl(64 * c.rng.range(1, 3)),
    };
    let k = Int::new(false, n);
    let want = if a.neg {
        Int::from_i64(-1)
    } else {
        Int::default()
    };
    c.sig(hash_str(&a.short()));
    c.sig(hash_str(&k.short()));
    c.sample(|| format!("{} >> {}", a.short(), k.short()));
    c.ev("far shifts", 2);
    let m = Global();
    let (x, p, q) = (make(m, &a), make(m, &k), make(m, &k.neg()));
    same(
        ">> far",
        &a,
        &k,
        jb::shr(m, x.deref(), p.deref()).deref(),
        &want,
    )?;
    same(
        "<< -far",
        &a,
        &k,
        jb::shl(m, x.deref(), q.deref()).deref(),
        &want,
    )?;
    if k.n.0.len() <= 2 {
        let w = k.n.words()[0];
        same(
            ">>u64 far",
            &a,
            &k,
            jb::shr_on_u64(m, x.deref(), w).deref(),
            &want,
        )?;
    }
    let z = jb::zero(m);
    same(
        "0 << far",
        &Int::default(),
        &k,
        jb::shl(m, z.deref(), p.deref()).deref(),
        &Int::default(),
    )?;
    same(
        "0 >> -far",
        &Int::default(),
        &k,
        jb::shr(m, z.deref(), q.deref()).deref(),
        &Int::default(),
    )?;
    if k.n.0.len() > 2 && !a.is_zero() {
        // not representable: refused
        let r = guarded(|| read(jb::shl(m, x.deref(), p.deref()).deref()).map(|v| v.short()));
        ensure!(r.is_err(), "{} << {} gave {r:?}", a.short(), k.short());
        c.ev("refusals", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ N04

fn n04_order(c: &mut Case) -> R {
    let w = width(c);
    let (a, b) = pair(c, w);
    c.sample(|| format!("{} <=> {}", a.short(), b.short()));
    with_manager!(c, m, {
        let (x, y) = (make(m, &a), make(m, &b));
        n04_ops(c, x.deref(), y.deref(), &a, &b)
    })
}

fn n04_wide(c: &mut Case) -> R {
    let huge = c.rng.chance(1, 20);
    let (a, b) = long_pair(c, huge);
    let b = if c.rng.bool() {
        Int::new(a.neg, b.n)
    } else {
        b
    };
    c.sample(|| format!("{} <=> {}", a.short(), b.short()));
    with_manager!(c, m, {
        let (x, y) = (make(m, &a), make(m, &b));
        n04_ops(c, x.deref(), y.deref(), &a, &b)
    })
}

fn n04_ops(c: &mut Case, x: &JsBigint, y: &JsBigint, a: &Int, b: &Int) -> R {
    let want = a.cmp(b);
    ensure!(
        x.compare(y) == want,
        "{} <=> {} is {:?}",
        a.short(),
        b.short(),
        x.compare(y)
    );
    ensure!(
        y.compare(x) == want.reverse(),
        "{} <=> {} is {:?}",
        b.short(),
        a.short(),
        y.compare(x)
    );
    ensure!(
        x.compare(x) == Ordering::Equal,
        "{} differs from itself",
        a.short()
    );
    let eq = want == Ordering::Equal;
    ensure!(
        jb::equals(x, y) == eq && jb::equals(y, x) == eq,
        "{} == {} is wrong",
        a.short(),
        b.short()
    );
    ensure!(jb::equals(x, x), "{} differs from itself", a.short());
    for (v, i) in [(x, a), (y, b)] {
        ensure!(jb::is_zero(v) == i.is_zero(), "is_zero {}", i.short());
        ensure!((v.sign() == Sign::Negative) == i.neg, "sign {}", i.short());
        ensure!(
            v.get_last_bit() == i.n.bit(0) as u64,
            "last bit of {}",
            i.short()
        );
    }
    let m = Global();
    let d = jb::sub(m, x, y);
    let s = read(d.deref())?;
    let by_sub = if s.is_zero() {
        Ordering::Equal
    } else if s.neg {
        Ordering::Less
    } else {
        Ordering::Greater
    };
    ensure!(
        by_sub == want,
        "{} - {} has the wrong sign",
        a.short(),
        b.short()
    );
    c.ev(
        match want {
            Ordering::Less => "less",
            Ordering::Equal => "equal",
            Ordering::Greater => "greater",
        },
        1,
    );
    Ok(())
}

/// Sorting by `compare` gives the numerical order (transitivity over whole sets).
fn n04_sort(c: &mut Case) -> R {
    let m = Global();
    let n = c.rng.range(2, 24);
    let mut v: Vec<Int> = vec![gen_int(&mut c.rng, 3)];
    for _ in 1..n {
        let i = c.rng.below(v.len());
        let x = v[i].n.clone();
        let x = gen_related(&mut c.rng, &x, 3);
        v.push(Int::new(c.rng.bool(), x));
    }
    for x in &v {
        c.sig(hash_str(&x.short()));
    }
    let mut s: Vec<_> = v.iter().map(|x| make(m, x)).collect();
    s.sort_by(|a, b| a.deref().compare(b.deref()));
    let mut v2 = v.clone();
    v2.sort_by(|a, b| a.cmp(b));
    for (x, y) in s.iter().zip(&v2) {
        let x = read(x.deref())?;
        ensure!(
            &x == y,
            "sorted order differs: {} where {} belongs",
            x.short(),
            y.short()
        );
    }
    c.ev("sorted sets", 1);
    Ok(())
}

// ------------------------------------------------------------------ N05

fn bu(n: &Nat) -> BigUint {
    BigUint { value: n.words() }
}

fn bi(n: &Int) -> BigInt {
    BigInt {
        sign: if n.neg {
            BSign::Negative
        } else {
            BSign::Positive
        },
        value: bu(&n.n),
    }
}

fn rbu(v: &BigUint) -> Result<Nat, String> {
    ensure!(
        v.value.last() != Some(&0),
        "leading zero word {:x?}",
        v.value
    );
    ensure!(
        v.is_zero() == v.value.is_empty(),
        "is_zero of {:x?}",
        v.value
    );
    ensure!(v.is_one() == (v.value == [1]), "is_one of {:x?}", v.value);
    ensure!(v.len() == v.value.len(), "len of {:x?}", v.value);
    Ok(Nat::from_words(&v.value))
}

fn rbi(v: &BigInt) -> Result<Int, String> {
    let n = rbu(&v.value)?;
    let neg = v.sign == BSign::Negative;
    ensure!(!(neg && n.is_zero()), "negative zero");
    ensure!(v.is_zero() == n.is_zero(), "is_zero");
    Ok(Int { neg, n })
}

fn h(n: &Nat) -> String {
    Int::new(false, n.clone()).short()
}

fn same_u(op: &str, a: &Nat, b: &Nat, got: &BigUint, want: &Nat) -> R {
    let g = rbu(got).map_err(|e| format!("{op} {} {}: {e}", h(a), h(b)))?;
    ensure!(
        &g == want,
        "{op} {} {} = {}, should be {}",
        h(a),
        h(b),
        h(&g),
        h(want)
    );
    Ok(())
}

fn same_i(op: &str, a: &Int, b: &Int, got: &BigInt, want: &Int) -> R {
    let g = rbi(got).map_err(|e| format!("{op} {} {}: {e}", a.short(), b.short()))?;
    ensure!(
        &g == want,
        "{op} {} {} = {}, should be {}",
        a.short(),
        b.short(),
        g.short(),
        want.short()
    );
    Ok(())
}

fn n05_uint(c: &mut Case) -> R {
    let w = width(c);
    let (a, b) = pair(c, w);
    let (a, b) = (a.n, b.n);
    c.sample(|| format!("unsigned a={} b={}", h(&a), h(&b)));
    same_u("*", &a, &b, &(&bu(&a) * &bu(&b)), &a.mul(&b))?;
    n05_uint_of(c, a, b)
}

/// Operands of hundreds and of tens of thousands of words.
fn n05_wide(c: &mut Case) -> R {
    let huge = c.rng.chance(1, 20);
    let (a, b) = long_pair(c, huge);
    c.sample(|| format!("a={} b={}", a.short(), b.short()));
    let (f, n) = (gen_int(&mut c.rng, 2), c.rng.below(a.n.bits() + 200));
    let (x, y) = (bi(&a), bi(&b));
    same_i("+", &a, &b, &(&x + &y), &a.add(&b))?;
    same_i("-", &a, &b, &(x.clone() - y.clone()), &a.sub(&b))?;
    same_i("*", &a, &f, &(&x * &bi(&f)), &a.mul(&f))?;
    same_i("*", &f, &a, &(&bi(&f) * &x), &a.mul(&f))?;
    if !huge {
        same_i("*", &a, &b, &(&x * &y), &a.mul(&b))?;
    }
    ensure!(
        x.cmp(&y) == a.cmp(&b),
        "{} <=> {} is {:?}",
        a.short(),
        b.short(),
        x.cmp(&y)
    );
    ensure!((x == y) == (a == b), "{} == {}", a.short(), b.short());
    let k = Nat::from_u64(n as u64);
    same_u("<<", &a.n, &k, &(&bu(&a.n) << &bu(&k)), &a.n.shl(n))?;
    same_u(">>", &a.n, &k, &(&bu(&a.n) >> &bu(&k)), &a.n.shr(n))?;
    n05_uint_of(c, a.n, b.n)?;
    let (p, q) = long_div(c, huge);
    n05_udiv_of(c, &p, &q)?;
    let (a, b) = (Int::new(c.rng.bool(), p), Int::new(c.rng.bool(), q));
    n05_idiv_of(c, &a, &b)
}

fn n05_uint_of(c: &mut Case, a: Nat, b: Nat) -> R {
    let (x, y) = (bu(&a), bu(&b));
    same_u("+", &a, &b, &(&x + &y), &a.add(&b))?;
    let d = if a.cmp(&b) == Ordering::Less {
        Nat::zero()
    } else {
        a.sub(&b)
    };
    same_u("-", &a, &b, &(&x - &y), &d)?;
    ensure!(
        x.cmp(&y) == a.cmp(&b),
        "{} <=> {} is {:?}",
        h(&a),
        h(&b),
        x.cmp(&y)
    );
    ensure!(
        x.partial_cmp(&y) == Some(a.cmp(&b)),
        "partial_cmp {} {}",
        h(&a),
        h(&b)
    );
    ensure!((x == y) == (a == b), "{} == {}", h(&a), h(&b));
    ensure!(x.get_last_bit() == a.bit(0) as u64, "last bit of {}", h(&a));
    ensure!(x == bu(&a) && y == bu(&b), "operand changed");
    let i = x.clone().to_big_int();
    same_i(
        "to_big_int",
        &Int::new(false, a.clone()),
        &Int::default(),
        &i,
        &Int::new(false, a.clone()),
    )?;
    c.ev("unsigned operations", 6);
    Ok(())
}

fn n05_udiv(c: &mut Case) -> R {
    let w = width(c);
    let (a, b) = div_pair(c, w);
    if b.is_zero() {
        let r = guarded(|| format!("{:?}", bu(&a).div_mod(&bu(&b))));
        ensure!(r.is_err(), "{} / 0 gave {r:?}", h(&a));
        let r = guarded(|| format!("{:?}", &bu(&a) / &bu(&b)));
        ensure!(r.is_err(), "{} / 0 gave {r:?}", h(&a));
        c.ev("division by zero", 1);
        return Ok(());
    }
    c.sample(|| format!("{} / {}", h(&a), h(&b)));
    c.sig(hash_str(&h(&a)));
    c.sig(hash_str(&h(&b)));
    n05_udiv_of(c, &a, &b)
}

fn n05_udiv_of(c: &mut Case, a: &Nat, b: &Nat) -> R {
    let (x, y) = (bu(a), bu(b));
    let (q, r) = x.div_mod(&y);
    let (q, r) = (rbu(&q)?, rbu(&r)?);
    ensure!(
        q.mul(b).add(&r) == *a && r.cmp(b) == Ordering::Less,
        "{} / {} = {} rem {}",
        h(a),
        h(b),
        h(&q),
        h(&r)
    );
    same_u("/", a, b, &(&x / &y), &q)?;
    ensure!(x == bu(a) && y == bu(b), "operand changed");
    c.ev("unsigned divisions", 1);
    Ok(())
}

fn div_pair(c: &mut Case, w: usize) -> (Nat, Nat) {
    match c.rng.below(3) {
        0 => {
            let (a, b) = pair(c, w);
            (a.n, b.n)
        }
        _ => {
            let b = gen_nat(&mut c.rng, w).add(&Nat::from_u64(1));
            let q = gen_nat(&mut c.rng, w);
            let k = c.rng.size(64);
            let r = if c.rng.bool() {
                Nat::zero()
            } else {
                b.sub(&Nat::from_u64(1)).shr(k)
            };
            (q.mul(&b).add(&r), b)
        }
    }
}

fn n05_shift_pow(c: &mut Case) -> R {
    let w = width(c);
    let a = gen_nat(&mut c.rng, w);
    let n = shift_count(&mut c.rng, a.bits());
    let k = Nat::from_u64(n as u64);
    c.sample(|| format!("{} shifted by {n}", h(&a)));
    c.sig(hash_str(&h(&a)));
    c.sig(n as u64);
    same_u("<<", &a, &k, &(&bu(&a) << &bu(&k)), &a.shl(n))?;
    same_u(">>", &a, &k, &(&bu(&a) >> &bu(&k)), &a.shr(n))?;
    c.ev("unsigned shifts", 2);
    // far counts
    if c.rng.chance(1, 4) {
        let far = match c.rng.below(3) {
            0 => Nat::from_u64(u64::MAX - c.rng.below(130) as u64),
            1 => Nat::from_u64(c.rng.u64() | 1 << 40),
            _ => Nat::from_u64(gen_word(&mut c.rng).max(1)).shl(64 * c.rng.range(1, 3)),
        };
        same_u(">> far", &a, &far, &(&bu(&a) >> &bu(&far)), &Nat::zero())?;
        same_u(
            "0 <<",
            &Nat::zero(),
            &far,
            &(&bu(&Nat::zero()) << &bu(&far)),
            &Nat::zero(),
        )?;
        if far.0.len() > 2 && !a.is_zero() {
            let r = guarded(|| format!("{:?}", &bu(&a) << &bu(&far)));
            ensure!(r.is_err(), "{} << {} gave {r:?}", h(&a), h(&far));
        }
        c.ev("far shifts", 2);
    }
    // powers
    let b = gen_nat(&mut c.rng, 2);
    let (e, want) = if b.0.len() <= 1 && b.0.first().copied().unwrap_or(0) <= 1 {
        let e = gen_nat(&mut c.rng, 3);
        let want = if e.is_zero() {
            Nat::from_u64(1)
        } else {
            b.clone()
        };
        (e, want)
    } else {
        let e = match c.rng.below(2_000) {
            _ if c.tier == Tier::Tiny => c.rng.size(4) as u64,
            0 => c.rng.size(1_000) as u64,
            _ => c.rng.size(30) as u64,
        };
        (Nat::from_u64(e), b.pow(e))
    };
    same_u("pow", &b, &e, &bu(&b).pow(&bu(&e)), &want)?;
    if e.0.len() <= 2 {
        let k = e.words().first().copied().unwrap_or(0);
        same_u("pow_u64", &b, &e, &bu(&b).pow_u64(k), &want)?;
    }
    c.ev("powers", 1);
    Ok(())
}

fn n05_int(c: &mut Case) -> R {
    let w = width(c);
    let (a, b) = pair(c, w);
    c.sample(|| format!("signed a={} b={}", a.short(), b.short()));
    let (x, y) = (bi(&a), bi(&b));
    same_i("+", &a, &b, &(&x + &y), &a.add(&b))?;
    same_i("*", &a, &b, &(&x * &y), &a.mul(&b))?;
    same_i("-", &a, &b, &(x.clone() - y.clone()), &a.sub(&b))?;
    same_i("neg", &a, &b, &(-x.clone()), &a.neg())?;
    same_i(
        "abs",
        &a,
        &b,
        &x.clone().abs(),
        &Int::new(false, a.n.clone()),
    )?;
    ensure!(
        x.cmp(&y) == a.cmp(&b),
        "{} <=> {} is {:?}",
        a.short(),
        b.short(),
        x.cmp(&y)
    );
    ensure!(
        x.partial_cmp(&y) == Some(a.cmp(&b)),
        "partial_cmp {} {}",
        a.short(),
        b.short()
    );
    ensure!((x == y) == (a == b), "{} == {}", a.short(), b.short());
    c.ev("signed operations", 7);
    let (p, q) = div_pair(c, w);
    let (a, b) = (Int::new(c.rng.bool(), p), Int::new(c.rng.bool(), q));
    let (x, y) = (bi(&a), bi(&b));
    if b.is_zero() {
        let r = guarded(|| format!("{:?}", x.div_mod(&y)));
        ensure!(r.is_err(), "{} / 0 gave {r:?}", a.short());
        let r = guarded(|| format!("{:?}", &x / &y));
        ensure!(r.is_err(), "{} / 0 gave {r:?}", a.short());
        c.ev("division by zero", 1);
        return Ok(());
    }
    n05_idiv_of(c, &a, &b)
}

fn n05_idiv_of(c: &mut Case, a: &Int, b: &Int) -> R {
    let (x, y) = (bi(a), bi(b));
    let (q, r) = x.div_mod(&y);
    let (q, r) = (rbi(&q)?, rbi(&r)?);
    let show = || {
        format!(
            "{} / {} = {} rem {}",
            a.short(),
            b.short(),
            q.short(),
            r.short()
        )
    };
    ensure!(q.mul(b).add(&r) == *a, "{}", show());
    ensure!(r.n.cmp(&b.n) == Ordering::Less, "{}", show());
    ensure!(r.is_zero() || r.neg == a.neg, "{}", show());
    same_i("/", a, b, &(&x / &y), &q)?;
    ensure!(x == bi(a) && y == bi(b), "operand changed");
    c.ev("signed divisions", 1);
    Ok(())
}

fn n05_convert(c: &mut Case) -> R {
    let n = gen_word(&mut c.rng);
    c.sig(n);
    c.sample(|| format!("machine integer {n:#x}"));
    let want = Nat::from_u64(n);
    same_u("from_u64", &want, &want, &BigUint::from_u64(n), &want)?;
    let wi = Int::new(false, want.clone());
    same_i("from_u64", &wi, &wi, &BigInt::from_u64(n), &wi)?;
    let s = match c.rng.below(6) {
        0 => i64::MIN.wrapping_add(c.rng.below(3) as i64),
        1 => i64::MAX - c.rng.below(3) as i64,
        2 => c.rng.below(5) as i64 - 2,
        _ => n as i64,
    };
    let wi = Int::from_i64(s);
    same_i("from_i64", &wi, &wi, &BigInt::from_i64(s), &wi)?;
    let (a, b) = (n as u128, gen_word(&mut c.rng) as u128);
    // differential against machine arithmetic
    let z = &BigUint::from_u64(a as u64) * &BigUint::from_u64(b as u64);
    let p = a * b;
    let want = Nat::from_words(&[p as u64, (p >> 64) as u64]);
    ensure!(rbu(&z)? == want, "{a:#x} * {b:#x}");
    // and to the values of documents
    let w = width(c);
    let v = gen_int(&mut c.rng, w);
    with_manager!(
        c,
        m,
        same("to_js_bigint", &v, &v, &to_js_bigint(m, bi(&v)), &v)
    )?;
    c.ev("conversions", 5);
    Ok(())
}

// ------------------------------------------------------------------ N06

/// Reads the text as one number through the eager and the lazy tokenizer.
fn number(text: &str) -> Result<f64, String> {
    let m = Global();
    let t = tokenize(m, text.to_string());
    let f = match t.as_slice() {
        [JsonToken::Number(f)] => *f,
        other => return Err(format!("{} tokens, {:?}", other.len(), short_tokens(other))),
    };
    let lazy: Vec<_> = TokenizerStateIterator::new(m, text.chars()).collect();
    match lazy.as_slice() {
        [JsonToken::Number(g)] if g.to_bits() == f.to_bits() => Ok(f),
        other => Err(format!(
            "lazily {} tokens, {:?}",
            other.len(),
            short_tokens(other)
        )),
    }
}

fn short_tokens<D: nanvm_lib::mem::manager::Dealloc>(t: &[JsonToken<D>]) -> String
where
    JsonToken<D>: std::fmt::Debug,
{
    let mut s = format!("{:?}", &t[..t.len().min(3)]);
    s.truncate(200);
    s
}

fn cut(s: &str) -> String {
    if s.len() <= 300 {
        s.to_string()
    } else {
        format!("{}...({} chars)", &s[..300], s.len())
    }
}

fn check_number(c: &mut Case, text: &str) -> R {
    let want: f64 = text
        .parse()
        .map_err(|e| format!("reference refused {}: {e}", cut(text)))?;
    check_number_is(c, text, want)
}

fn check_number_is(c: &mut Case, text: &str, want: f64) -> R {
    let got = number(text).map_err(|e| format!("{}: {e}", cut(text)))?;
    ensure!(
        got.to_bits() == want.to_bits(),
        "{} became {got:e} ({:#x}), nearest double is {want:e} ({:#x})",
        cut(text),
        got.to_bits(),
        want.to_bits()
    );
    let a = want.abs();
    c.ev(
        if a == 0.0 {
            "zeros"
        } else if a.is_infinite() {
            "overflows"
        } else if a < f64::MIN_POSITIVE {
            "subnormals"
        } else {
            "normals"
        },
        1,
    );
    Ok(())
}

fn digits(r: &mut Rng, n: usize) -> String {
    match r.below(6) {
        0 => "9".repeat(n),
        1 => "0".repeat(n),
        2 => {
            let mut s = "0".repeat(n.saturating_sub(1));
            if n > 0 {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            s
        }
        _ => (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
    }
}

fn int_part(r: &mut Rng, n: usize) -> String {
    if n == 0 {
        return "0".into();
    }
    let mut s: String = ((b'1' + r.below(9) as u8) as char).to_string();
    s.push_str(&digits(r, n - 1));
    s
}

fn n06_random(c: &mut Case) -> R {
    let r = &mut c.rng;
    let big = match c.tier {
        Tier::Tiny => 8,
        Tier::Quick => 120,
        Tier::Thorough => 500,
    };
    let max = if r.chance(1, 8) { big } else { 22.min(big) };
    let mut s = String::new();
    if r.bool() {
        s.push('-');
    }
    let n = r.size(max);
    s.push_str(&int_part(r, n));
    if r.bool() {
        s.push('.');
        let n = r.size(max).max(1);
        s.push_str(&digits(r, n));
    }
    if r.chance(2, 3) {
        s.push(if r.bool() { 'e' } else { 'E' });
        match r.below(3) {
            0 => s.push('+'),
            1 => s.push('-'),
            _ => {}
        }
        let z = r.size(3);
        s.push_str(&"0".repeat(z));
        let e = if c.tier == Tier::Tiny {
            r.below(30)
        } else {
            match r.below(4) {
                0 => r.below(30),
                1 => r.range(290, 345),
                2 => r.below(400),
                _ => r.below(24),
            }
        };
        s.push_str(&e.to_string());
    }
    let s2 = s.clone();
    c.sample(|| s2);
    c.sig(hash_str(&s));
    check_number(c, &s)
}

/// The exact decimal expansion of m * 2^e.
fn exact(m: u64, e: i64) -> String {
    if e >= 0 {
        return Nat::from_u64(m).shl(e as usize).to_dec();
    }
    // m / 2^k = m * 5^k / 10^k
    let k = (-e) as u64;
    let mut n = Nat::from_u64(m);
    let five = Nat::from_u64(1_220_703_125); // 5^13
    let mut left = k;
    while left >= 13 {
        n = n.mul(&five);
        left -= 13;
    }
    n = n.mul(&Nat::from_u64(5u64.pow(left as u32)));
    let s = n.to_dec();
    let k = k as usize;
    if s.len() > k {
        format!("{}.{}", &s[..s.len() - k], &s[s.len() - k..])
    } else {
        format!("0.{}{}", "0".repeat(k - s.len()), s)
    }
}

fn bump(s: &str, up: bool) -> String {
    // one unit in the last place of the decimal expansion, up or down
    let mut b: Vec<u8> = s.bytes().collect();
    for i in (0..b.len()).rev() {
        if b[i] == b'.' {
            continue;
        }
        if up {
            if b[i] == b'9' {
                b[i] = b'0';
            } else {
                b[i] += 1;
                return String::from_utf8(b).unwrap();
            }
        } else if b[i] == b'0' {
            b[i] = b'9';
        } else {
            b[i] -= 1;
            break;
        }
    }
    let s = String::from_utf8(b).unwrap();
    if up {
        format!("1{s}")
    } else {
        // strip zeros that became leading
        let t = s.trim_start_matches('0');
        if t.is_empty() || t.starts_with('.') {
            format!("0{t}")
        } else {
            t.to_string()
        }
    }
}

/// Rewrites a plain decimal with an exponent: the value stays the same.
fn scientific(r: &mut Rng, s: &str) -> String {
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    let shift = r.range(0, 40) as i64;
    if r.bool() {
        // move the point right: digits from the fraction join the integer part
        let n = (shift as usize).min(f.len());
        let whole = format!("{i}{}", &f[..n]);
        let whole = whole.trim_start_matches('0');
        let whole = if whole.is_empty() { "0" } else { whole };
        let rest = &f[n..];
        if rest.is_empty() {
            format!("{whole}e-{n}")
        } else {
            format!("{whole}.{rest}e-{n}")
        }
    } else {
        let n = (shift as usize).min(i.len() - 1);
        let head = &i[..i.len() - n];
        let tail = &i[i.len() - n..];
        if tail.is_empty() && f.is_empty() {
            format!("{head}e+{n}")
        } else {
            format!("{head}.{tail}{f}E{n}")
        }
    }
}

/// Exact halfway points between neighbouring doubles and their closest decimal neighbours.
fn n06_halfway(c: &mut Case) -> R {
    let r = &mut c.rng;
    // a double by exponent class
    let e = match r.below(if c.tier == Tier::Tiny { 1 } else { 6 }) {
        0 => 1023 + r.range(0, 60) as u64 - 5,
        1 => r.below(3) as u64,
        2 => 0,
        3 => 2046 - r.below(3) as u64,
        4 => r.below(2047) as u64,
        _ => 1023 - r.below(70) as u64,
    };
    let f = match r.below(4) {
        0 => 0,
        1 => (1u64 << 52) - 1,
        2 => r.u64() >> 12,
        _ => 1u64 << r.below(52),
    };
    let bits = e << 52 | f;
    let d = f64::from_bits(bits);
    let (m, x) = if e == 0 {
        (f, -1074i64)
    } else {
        (f | 1 << 52, e as i64 - 1075)
    };
    // exactly halfway to the next double
    let half = exact(2 * m + 1, x - 1);
    let next = f64::from_bits(bits + 1);
    let even = if bits & 1 == 0 { d } else { next };
    let neg = r.bool();
    let pick = r.below(4);
    let (s, want) = match pick {
        0 => (half.clone(), even),
        1 => {
            let mut s = half.clone();
            if !s.contains('.') {
                s.push('.');
            }
            let z = r.size(30);
            s.push_str(&"0".repeat(z));
            s.push('1');
            (s, next)
        }
        2 => {
            // just below: decrement the last digit, then nines
            let z = r.size(30);
            let s = format!(
                "{}{}",
                bump(&half, false),
                if half.contains('.') {
                    "9".repeat(z)
                } else {
                    String::new()
                }
            );
            (s, d)
        }
        _ => (exact(m, x), d),
    };
    let s = if r.bool() { scientific(r, &s) } else { s };
    let (s, want) = if neg {
        (format!("-{s}"), -want)
    } else {
        (s, want)
    };
    let s2 = s.clone();
    c.sample(|| s2);
    c.sig(hash_str(&s));
    c.ev("halfway literals", 1);
    let std: f64 = s
        .parse()
        .map_err(|e| format!("reference refused {}: {e}", cut(&s)))?;
    if std.to_bits() != want.to_bits() {
        // the two references must agree, otherwise nothing is concluded
        c.ev("references disagree", 1);
        return Ok(());
    }
    check_number_is(c, &s, want)
}

/// Exponents beyond anything representable, alone and against digits that compensate.
fn n06_extreme(c: &mut Case) -> R {
    let r = &mut c.rng;
    let neg = r.bool();
    let sign = if neg { "-" } else { "" };
    let huge = match r.below(6) {
        0 => "9223372036854775807".to_string(),
        1 => "9223372036854775808".to_string(),
        2 => "18446744073709551616".to_string(),
        3 => int_part(r, 40),
        4 => {
            let n = r.range(4, 18);
            int_part(r, n)
        }
        _ => r.range(400, 5000).to_string(),
    };
    let n = r.size(20);
    let mant = match r.below(3) {
        0 => "0".to_string(),
        1 => {
            let mut s = int_part(r, n + 1);
            if r.bool() {
                s.push('.');
                s.push_str(&digits(r, n.max(1)));
            }
            s
        }
        _ => {
            let d = digits(r, n.max(1));
            format!("0.{d}")
        }
    };
    let zero = mant.bytes().all(|b| b == b'0' || b == b'.');
    let down = r.bool();
    let (s, want) = match r.below(3) {
        // many zeros compensate a large exponent
        0 => {
            let k = r.range(1, 900);
            if r.bool() {
                (format!("{sign}0.{}1e{k}", "0".repeat(k - 1)), 1.0)
            } else {
                (format!("{sign}1{}e-{k}", "0".repeat(k)), 1.0)
            }
        }
        1 => {
            let k = r.range(1, 400);
            let e = r.range(0, 700);
            let t = format!("0.{}{}e{e}", "0".repeat(k), int_part(r, 17));
            let v = t.parse().unwrap();
            (format!("{sign}{t}"), v)
        }
        _ => (
            format!("{sign}{mant}{}{huge}", if down { "e-" } else { "e+" }),
            if zero || down { 0.0 } else { f64::INFINITY },
        ),
    };
    let want = if neg { -want } else { want };
    let s2 = s.clone();
    c.sample(|| cut(&s2));
    c.sig(hash_str(&s));
    check_number_is(c, &s, want)
}

/// Integer literals marked as big.
fn n06_bigint(c: &mut Case) -> R {
    let max = match c.tier {
        Tier::Tiny => 24,
        _ => {
            if c.rng.chance(1, 10) {
                400
            } else {
                60
            }
        }
    };
    let r = &mut c.rng;
    let text = match r.below(4) {
        0 => gen_nat(r, max / 20 + 1).to_dec(),
        1 => {
            let z = r.below(max);
            format!("1{}", "0".repeat(z))
        }
        2 => "9".repeat(r.range(1, max)),
        _ => {
            let n = r.size(max);
            int_part(r, n)
        }
    };
    let neg = r.bool();
    let want = Int::new(neg, Nat::from_dec(&text));
    let s = format!("{}{text}n", if neg { "-" } else { "" });
    let s2 = s.clone();
    c.sample(|| cut(&s2));
    c.sig(hash_str(&s));
    c.ev("big integer literals", 1);
    let m = Global();
    let mut t = tokenize(m, s.clone());
    ensure!(t.len() == 1, "{}: {} tokens", cut(&s), t.len());
    let got = match t.pop() {
        Some(JsonToken::BigInt(b)) => read(b.deref()).map_err(|e| format!("{}: {e}", cut(&s)))?,
        other => return Err(format!("{}: {other:?}", cut(&s))),
    };
    ensure!(got == want, "{} became {}", cut(&s), got.short());
    Ok(())
}

/// The same literals inside documents and modules, through the whole reader.
fn n06_document(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.size(20);
    let mut s = if r.bool() {
        "-".to_string()
    } else {
        String::new()
    };
    s.push_str(&int_part(r, n));
    if r.bool() {
        s.push('.');
        let n = r.size(20).max(1);
        s.push_str(&digits(r, n));
    }
    if r.bool() {
        let e = r.range(0, 330);
        s.push_str(&format!("e{}{e}", if r.bool() { "-" } else { "" }));
    }
    let want: f64 = s.parse().unwrap();
    let doc = match r.below(5) {
        0 => s.clone(),
        1 => format!("[{s}]"),
        2 => format!("{{\"a\":{s}}}"),
        3 => format!("export default [{s}]"),
        _ => format!("const x = {s}\nmodule.exports = x"),
    };
    c.sig(hash_str(&doc));
    let d2 = doc.clone();
    c.sample(|| d2);
    c.ev("documents", 1);
    let t = tokenize(Global(), doc.clone());
    let r = nanvm_lib::parser::parser::parse_with_tokens(
        &mut nanvm_lib::parser::parser::Context::new(
            Global(),
            &nanvm_monitor::io::MemIo::default(),
            "a.js".to_string(),
            &mut Default::default(),
        ),
        t.into_iter(),
    );
    let v = r.map_err(|e| format!("{doc}: {e:?}"))?.any;
    fn first(v: Any<Global>) -> Result<f64, String> {
        match v.get_type() {
            Type::Number => Ok(v.try_move().unwrap()),
            Type::Array => {
                let a: nanvm_lib::js::js_array::JsArrayRef<Global> = v.try_move().unwrap();
                first(a.items()[0].clone())
            }
            Type::Object => {
                let a: nanvm_lib::js::js_object::JsObjectRef<Global> = v.try_move().unwrap();
                first(a.items()[0].1.clone())
            }
            t => Err(format!("{t:?}")),
        }
    }
    let got = first(v)?;
    ensure!(
        got.to_bits() == want.to_bits(),
        "{doc}: {got:e}, nearest double is {want:e}"
    );
    Ok(())
}

// ------------------------------------------------------------------ N07

fn float<const B: u32, M: Manager>(
    m: M,
    s: &Nat,
    neg: bool,
    exp: i64,
    more: bool,
) -> BigFloat<B, M> {
    BigFloat {
        manager: m,
        significand: make(m, &Int::new(false, s.clone())),
        sign: if neg { Sign::Negative } else { Sign::Positive },
        exp,
        non_zero_reminder: more,
    }
}

/// The double nearest to (s + a bit more) * 2^e, ties to even.
fn nearest(s: &Nat, e: i64, more: bool, neg: bool) -> u64 {
    let sign = (neg as u64) << 63;
    let n = s.bits() as i64;
    if n == 0 {
        return sign;
    }
    let top = e + n - 1;
    if top > 1023 {
        return sign | 2047 << 52;
    }
    if top < -1076 {
        return sign;
    }
    let q = (top - 52).max(-1074);
    let shift = q - e;
    let mut m;
    if shift <= 0 {
        m = s.shl(-shift as usize).words().first().copied().unwrap_or(0);
    } else {
        let k = shift as usize;
        m = s.shr(k).words().first().copied().unwrap_or(0);
        let half = s.bit(k - 1);
        let below = more || (0..k - 1).any(|i| s.bit(i));
        if half && (below || m & 1 == 1) {
            m += 1;
        }
    }
    let mut x = q + 1075;
    if m == 1 << 53 {
        m >>= 1;
        x += 1;
    }
    if m < 1 << 52 {
        return sign | m;
    }
    if x >= 2047 {
        return sign | 2047 << 52;
    }
    sign | (x as u64) << 52 | (m & ((1 << 52) - 1))
}

fn n07_double(c: &mut Case) -> R {
    let w = width(c);
    let s = match c.rng.below(6) {
        0 => gen_nat(&mut c.rng, w),
        1 => Nat::from_u64(gen_word(&mut c.rng)),
        _ => {
            // around a place where doubles meet, with a tail that is nothing, half, or nearly
            let top = Nat::from_u64(match c.rng.below(4) {
                0 => (1 << 53) - 1,
                1 => 1 << 52,
                2 => (c.rng.u64() >> 11) | 1 << 52,
                _ => c.rng.u64() >> (11 + c.rng.below(53)),
            });
            let k = c.rng.range(0, if c.tier == Tier::Tiny { 20 } else { 140 });
            let one = Nat::from_u64(1);
            let t = top.shl(k);
            if k == 0 {
                t
            } else {
                let half = one.shl(k - 1);
                match c.rng.below(6) {
                    0 => t,
                    1 => t.add(&half),
                    2 => t.add(&half).add(&one),
                    3 => t.add(&half).sub(&one),
                    4 => t.add(&one),
                    _ => t.add(&one.shl(c.rng.below(k))),
                }
            }
        }
    };
    n07_double_of(c, s)
}

/// Every number of bits, words and digits.
fn n07_sizes(c: &mut Case) -> R {
    let (dim, n) = c.sweep(6);
    let n = n.max(1);
    c.ev("lengths", 1);
    let one = Nat::from_u64(1);
    match dim {
        0 => {
            // a power of two, or one away from it, or half a step
            let p = one.shl(n - 1);
            let s = match c.rng.below(5) {
                0 => p,
                1 => p.add(&one),
                2 => p.shl(1).sub(&one),
                3 => p.add(&p.shr(53.min(n))),
                _ => p.add(&p.shr(54.min(n))),
            };
            n07_double_of(c, s)
        }
        1 => {
            let s = gen_long(&mut c.rng, n.min(1025));
            n07_double_of(c, s)
        }
        2 => {
            let s = gen_long(&mut c.rng, n.min(130));
            let e = c.rng.below(41) as i64 - 20;
            n07_binary_of(c, s, e)
        }
        3 => {
            let e = n.min(4097) as i64 * if c.rng.bool() { 1 } else { -1 };
            let s = gen_long(&mut c.rng, 2);
            n07_binary_of(c, s, e)
        }
        4 => {
            // that many digits
            let s = Nat::from_u64(10).pow(n.min(1025) as u64 - 1);
            let s = match c.rng.below(3) {
                0 => s,
                1 => s.add(&gen_long(&mut c.rng, 1)),
                _ => s.mul(&Nat::from_u64(c.rng.range(1, 9) as u64)).add(&one),
            };
            let e = c.rng.below(700) as i64 - 350 - n.min(1025) as i64;
            n07_decimal_of(c, s, e)
        }
        _ => {
            let e = n as i64 * if c.rng.bool() { 1 } else { -1 };
            let s = gen_long(&mut c.rng, 1);
            n07_decimal_of(c, s, e)
        }
    }
}

fn n07_double_of(c: &mut Case, s: Nat) -> R {
    let n = s.bits() as i64;
    let e = match c.rng.below(8) {
        0 => c.rng.range(0, 200) as i64 - 100,
        1 | 2 => -1074 - n + c.rng.range(0, 60) as i64,
        3 => 1024 - n - 2 + c.rng.range(0, 5) as i64,
        4 => -1022 - n - 2 + c.rng.range(0, 5) as i64,
        5 => c.rng.range(0, 2300) as i64 - 1200,
        6 => (c.rng.u64() >> (2 + c.rng.below(50))) as i64 * if c.rng.bool() { 1 } else { -1 },
        _ => -1074 + c.rng.range(0, 3) as i64 - 1,
    };
    let neg = c.rng.bool();
    // what was cut off before counts for less than one: the last place of the double has to be beyond that
    let more = n > 0 && (n + e - 53).max(-1074) > e && c.rng.bool();
    let want = nearest(&s, e, more, neg);
    let got = with_manager!(
        c,
        m,
        Ok(float::<2, _>(m, &s, neg, e, more).to_f64().to_bits())
    )?;
    let show = || {
        format!(
            "{}{} * 2^{e}{}",
            if neg { "-" } else { "" },
            h(&s),
            if more { " and more" } else { "" }
        )
    };
    ensure!(
        got == want,
        "{} became {got:#x}, nearest double is {want:#x}",
        show()
    );
    c.sample(show);
    let a = f64::from_bits(want).abs();
    c.ev("doubles", 1);
    if more {
        c.ev("doubles of cut numbers", 1);
        if n < 54 {
            c.ev("subnormals of cut numbers", 1);
        }
    }
    if a > 0.0 && a < f64::MIN_POSITIVE {
        c.ev("subnormals", 1);
    }
    if a.is_infinite() {
        c.ev("overflows", 1);
    }
    c.sig(hash_str(&h(&s)) ^ e as u64);
    Ok(())
}

fn n07_binary(c: &mut Case) -> R {
    let w = width(c).min(12);
    let s = gen_nat(&mut c.rng, w);
    let tiny = c.tier == Tier::Tiny;
    let e = match c.rng.below(5) {
        0 => 0,
        1 => c.rng.below(5) as i64 - 2,
        2 => c.rng.below(if tiny { 10 } else { 60 }) as i64 - 30,
        3 if !tiny => c.rng.below(400) as i64,
        _ => -(c.rng.below(if tiny { 20 } else { 400 }) as i64),
    };
    n07_binary_of(c, s, e)
}

fn n07_binary_of(c: &mut Case, s: Nat, e: i64) -> R {
    let p = match c.rng.below(4) {
        0 => 1 + c.rng.below(255),
        1 => *c
            .rng
            .pick(&[1, 2, 31, 32, 33, 53, 54, 63, 64, 65, 127, 128, 129, 255]),
        _ => 54,
    };
    let (neg, more) = (c.rng.bool(), c.rng.chance(1, 8));
    let show = || {
        format!(
            "{}{} * 10^{e} in {p} bits",
            if neg { "-" } else { "" },
            h(&s)
        )
    };
    let (q, x, sign, flag) = with_manager!(c, m, {
        let f = float::<10, _>(m, &s, neg, e, more).to_bin(p as u8);
        read(f.significand.deref()).map(|q| (q, f.exp, f.sign, f.non_zero_reminder))
    })
    .map_err(|e| format!("{}: {e}", show()))?;
    c.sample(show);
    ensure!(
        (sign == Sign::Negative) == neg,
        "the sign of {} is lost",
        show()
    );
    if s.is_zero() {
        ensure!(q.is_zero(), "{} is {}", show(), q.short());
        c.ev("zeros", 1);
        return Ok(());
    }
    let q = q.n;
    let res = || format!("{} is {} * 2^{x}, more: {flag}", show(), h(&q));
    ensure!(q.bits() == p, "{}", res());
    // q * 2^x <= s * 10^e < (q + 1) * 2^x, all multiplied until whole
    let mut left = s.clone();
    let mut unit = Nat::from_u64(1);
    let ten = |n: i64| Nat::from_u64(10).pow(n as u64);
    if e >= 0 {
        left = left.mul(&ten(e));
    } else {
        unit = unit.mul(&ten(-e));
    }
    ensure!(x.abs() < 20_000, "{}", res());
    if x >= 0 {
        unit = unit.shl(x as usize);
    } else {
        left = left.shl(-x as usize);
    }
    let low = q.mul(&unit);
    let high = low.add(&unit);
    ensure!(
        low.cmp(&left) != Ordering::Greater && left.cmp(&high) == Ordering::Less,
        "{}",
        res()
    );
    ensure!(flag == (more || low != left), "{}", res());
    c.ev("binary forms", 1);
    if low == left {
        c.ev("exact binary forms", 1);
    }
    c.sig(hash_str(&h(&s)) ^ (e as u64) << 8 ^ p as u64);
    Ok(())
}

/// Both steps at once: the nearest double of a decimal number.
fn n07_decimal(c: &mut Case) -> R {
    let w = width(c).min(12);
    let s = gen_nat(&mut c.rng, w);
    let d = s.to_dec().len() as i64;
    let e = match c.rng.below(6) {
        0 => c.rng.below(40) as i64 - 20,
        1 => 308 - d + c.rng.below(4) as i64 - 1,
        2 => -324 - d + c.rng.below(20) as i64,
        3 => (c.rng.u64() >> (1 + c.rng.below(60))) as i64 * if c.rng.bool() { 1 } else { -1 },
        _ => c.rng.below(700) as i64 - 350,
    };
    let e = if c.tier == Tier::Tiny {
        e.clamp(-20, 20)
    } else {
        e
    };
    n07_decimal_of(c, s, e)
}

fn n07_decimal_of(c: &mut Case, s: Nat, e: i64) -> R {
    let neg = c.rng.bool();
    let text = format!("{}{}e{e}", if neg { "-" } else { "" }, s.to_dec());
    let want: f64 = text
        .parse()
        .map_err(|e| format!("reference refused {}: {e}", cut(&text)))?;
    let got = with_manager!(
        c,
        m,
        Ok(bigfloat_to_f64(float::<10, _>(m, &s, neg, e, false)))
    )?;
    c.sample(|| cut(&text));
    ensure!(
        got.to_bits() == want.to_bits(),
        "{} became {got:e} ({:#x}), nearest double is {want:e} ({:#x})",
        cut(&text),
        got.to_bits(),
        want.to_bits()
    );
    c.ev("decimal numbers", 1);
    c.sig(hash_str(&text));
    Ok(())
}

fn main() {
    let a = args();
    let kinds: &[Kind] = match a.property.as_str() {
        "N01" => &[
            kind!(n01_arith, 1_000_000, 40_000_000, 60),
            kind!(n01_pow, 100_000, 3_000_000, 30),
            kind!(n01_sizes, 1_980, 19_800, 0),
            kind!(n01_wide, 3_000, 100_000, 0),
            kind!(n01_huge, 300, 8_000, 0),
        ],
        "N02" => &[
            kind!(n02_div, 1_200_000, 40_000_000, 80),
            kind!(n02_sizes, 1_980, 19_800, 0),
            kind!(n02_wide, 3_000, 100_000, 0),
            kind!(n02_huge, 300, 8_000, 0),
        ],
        "N03" => &[
            kind!(n03_bits, 700_000, 20_000_000, 60),
            kind!(n03_shift, 700_000, 20_000_000, 60),
            kind!(n03_far, 100_000, 2_000_000, 30),
            kind!(n03_sizes, 3_960, 39_600, 0),
            kind!(n03_wide, 6_000, 150_000, 0),
            kind!(n03_huge, 300, 8_000, 0),
        ],
        "N04" => &[
            kind!(n04_order, 1_200_000, 30_000_000, 60),
            kind!(n04_sort, 50_000, 1_000_000, 10),
            kind!(n04_sizes, 3_960, 39_600, 0),
            kind!(n04_wide, 6_000, 150_000, 0),
        ],
        "N05" => &[
            kind!(n05_uint, 600_000, 15_000_000, 40),
            kind!(n05_udiv, 600_000, 15_000_000, 40),
            kind!(n05_shift_pow, 300_000, 6_000_000, 30),
            kind!(n05_int, 600_000, 15_000_000, 40),
            kind!(n05_convert, 100_000, 1_000_000, 30),
            kind!(n05_sizes, 1_980, 19_800, 0),
            kind!(n05_wide, 3_000, 60_000, 0),
        ],
        "N06" => &[
            kind!(n06_random, 150_000, 4_000_000, 20),
            kind!(n06_sizes, 5_940, 52_800, 0),
            kind!(n06_halfway, 20_000, 500_000, 4),
            kind!(n06_extreme, 20_000, 400_000, 4),
            kind!(n06_bigint, 60_000, 1_500_000, 10),
            kind!(n06_document, 60_000, 1_500_000, 10),
        ],
        "N07" => &[
            kind!(n07_double, 400_000, 20_000_000, 30),
            kind!(n07_sizes, 3_960, 39_600, 0),
            kind!(n07_binary, 60_000, 3_000_000, 10),
            kind!(n07_decimal, 60_000, 3_000_000, 6),
        ],
        p => panic!("unknown property {p}"),
    };
    drive(&a, kinds);
}
