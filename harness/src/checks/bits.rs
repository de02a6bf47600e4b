//! Bitvector values (C01) and bitvector rule validation (C02).
use crate::eg::*;
use crate::fw::*;
use crate::langs::*;
use crate::term::*;
use crate::with_bv;
use num::bigint::BigUint;
use num::{One, ToPrimitive, Zero};
use ruler::enumo::Rule;
use ruler::{ValidationResult, BV};
use std::collections::BTreeMap;

// ------------------------------------------------------------ reference arithmetic
fn two(n: u32) -> BigUint {
    BigUint::one() << n as usize
}
fn big(x: u128) -> BigUint {
    BigUint::from(x)
}
/// reference operator on values in [0, 2^n)
pub fn ref_bv(op: &str, n: u32, x: u128, y: u128) -> u128 {
    let m = two(n);
    let (bx, by) = (big(x), big(y));
    let r = match op {
        "+" => (bx + by) % m,
        "--" => (bx + &m - by) % m,
        "*" => (bx * by) % m,
        "-" => (&m - bx) % m,
        "~" => &m - BigUint::one() - bx,
        "<<" => {
            if y >= n as u128 {
                BigUint::zero()
            } else {
                (bx << y as usize) % m
            }
        }
        ">>" => {
            if y >= n as u128 {
                BigUint::zero()
            } else {
                bx >> y as usize
            }
        }
        "&" | "|" | "^" => {
            let mut r = BigUint::zero();
            for i in 0..n {
                let (a, b) = (x >> i & 1, y >> i & 1);
                let bit = match op {
                    "&" => a * b,
                    "|" => (a + b + 1) / 2,
                    _ => (a + b) % 2,
                };
                r += big(bit) << i as usize;
            }
            r
        }
        _ => panic!("harness: no operator {op}"),
    };
    r.to_u128().unwrap()
}
/// the same on machine words, for bulk evaluation (checked against ref_bv by C01's own run)
pub fn fast_bv(op: &str, n: u32, x: u128, y: u128) -> u128 {
    let mask = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    mask & match op {
        "+" => x.wrapping_add(y),
        "--" => x.wrapping_sub(y),
        "*" => x.wrapping_mul(y),
        "-" => 0u128.wrapping_sub(x),
        "~" => mask - x,
        "<<" => {
            if y < n as u128 {
                x << y
            } else {
                0
            }
        }
        ">>" => {
            if y < n as u128 {
                x >> y
            } else {
                0
            }
        }
        "&" => x & y,
        "|" => x | y,
        "^" => x ^ y,
        _ => panic!("harness: no operator {op}"),
    }
}
pub fn bv_eval(t: &T, n: u32, env: &dyn Fn(&str) -> u128) -> u128 {
    match t {
        T::A(s) => match s.parse::<u128>() {
            Ok(v) => v,
            Err(_) => env(s),
        },
        T::L(_) => {
            let k = t.kids();
            let x = bv_eval(&k[0], n, env);
            let y = if k.len() > 1 { bv_eval(&k[1], n, env) } else { 0 };
            fast_bv(t.op(), n, x, y)
        }
    }
}
/// interesting values of width n
pub fn value(rng: &mut Rng, n: u32) -> u128 {
    let mask = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    let v = match rng.below(8) {
        0 => rng.below(4) as u128,
        1 => mask.wrapping_sub(rng.below(4) as u128),
        2 => (1u128 << (n - 1)).wrapping_add(rng.below(3) as u128),
        3 => (1u128 << (n - 1)).wrapping_sub(rng.below(3) as u128),
        4 => 1u128 << rng.below(n as usize),
        5 => (n as u128).wrapping_add(rng.below(3) as u128).wrapping_sub(1),
        _ => rng.u128(),
    };
    v & mask
}

// ------------------------------------------------------------ C01
const BIN: [&str; 8] = ["+", "--", "*", "&", "|", "^", "<<", ">>"];
fn apply<const N: u128>(op: &str, x: BV<N>, y: BV<N>) -> BV<N> {
    match op {
        "+" => x.wrapping_add(y),
        "--" => x.wrapping_sub(y),
        "*" => x.wrapping_mul(y),
        "-" => x.wrapping_neg(),
        "~" => !x,
        "&" => x & y,
        "|" => x | y,
        "^" => x ^ y,
        "<<" => x.my_shl(y),
        ">>" => x.my_shr(y),
        _ => unreachable!(),
    }
}
fn judge<const N: u128>(c: &mut Case, what: &str, got: BV<N>, want: u128) -> Res {
    c.eval();
    if got.0 != want {
        return viol(
            format!("{} at width", what.split(' ').next().unwrap_or(what)),
            format!("width {N}: {what} = {} expected {want}", got.0),
        );
    }
    Ok(())
}
fn ops<const N: u128>(c: &mut Case, x: u128, y: u128) -> Res {
    let n = N as u32;
    let bx = real("new", || BV::<N>::new(x))?;
    let by = real("from", || BV::<N>::from(y))?;
    judge(c, "new", bx, x)?;
    judge(c, "from", by, y)?;
    for op in BIN {
        let got = real(op, || apply(op, bx, by))?;
        let want = ref_bv(op, n, x, y);
        if fast_bv(op, n, x, y) != want {
            panic!("harness: {op} {n} {x} {y}");
        }
        judge(c, &format!("({op} {x} {y})"), got, want)?;
    }
    for op in ["-", "~"] {
        let got = real(op, || apply(op, bx, by))?;
        judge(c, &format!("({op} {x})"), got, ref_bv(op, n, x, 0))?;
    }
    c.nontrivial((N, x, y));
    Ok(())
}
fn pow_minus1(n: u32) -> u128 {
    (two(n) - BigUint::one()).to_u128().unwrap()
}
fn width<const N: u128>(c: &mut Case) -> Res {
    let n = N as u32;
    let mask = pow_minus1(n);
    let half = two(n - 1).to_u128().unwrap();
    judge(c, "ZERO", BV::<N>::ZERO, 0)?;
    judge(c, "ALL_ONES", BV::<N>::ALL_ONES, mask)?;
    judge(c, "NEG_ONE", BV::<N>::NEG_ONE, mask)?;
    judge(c, "MIN", BV::<N>::MIN, half)?;
    judge(c, "MAX", BV::<N>::MAX, half - 1)?;
    if n <= 4 {
        for x in 0..=mask {
            for y in 0..=mask {
                ops::<N>(c, x, y)?;
            }
        }
        c.count("widths_all_pairs", 1);
    }
    // boundary values, pairwise
    let mut edge: Vec<u128> = vec![0, 1, 2, 3, mask, mask.wrapping_sub(1), half, half.wrapping_sub(1), half.wrapping_add(1)];
    edge.extend([N, N - 1, N + 1, 63, 64, 65, 127, 128, u64::MAX as u128, 1 << 64]);
    edge.iter_mut().for_each(|x| *x &= mask);
    edge.sort_unstable();
    edge.dedup();
    for x in edge.clone() {
        for y in edge.clone() {
            ops::<N>(c, x, y)?;
        }
    }
    let k = if c.thorough { 3000 } else { 150 };
    for _ in 0..k {
        let (x, y) = (value(&mut c.rng, n), value(&mut c.rng, n));
        ops::<N>(c, x, y)?;
        // construction from anything is reduction modulo 2^N
        let raw = c.rng.u128();
        let want = (big(raw) % two(n)).to_u128().unwrap();
        let v = real("new", || BV::<N>::new(raw))?;
        judge(c, &format!("new({raw})"), v, want)?;
        let v = real("from", || BV::<N>::from(raw))?;
        judge(c, &format!("from({raw})"), v, want)?;
        if raw <= u64::MAX as u128 {
            judge(c, "new(u64)", BV::<N>::new(raw as u64), want)?;
        }
        let small = c.rng.below(256) as u8;
        judge(c, &format!("new({small}u8)"), BV::<N>::new(small), small as u128 & mask)?;
        // text
        let text = raw.to_string();
        let p = real("from_str", || text.parse::<BV<N>>())?;
        match p {
            Ok(v) => judge(c, &format!("parse({text:?})"), v, want)?,
            Err(e) => return viol("parse rejects a number", format!("width {N}: {text:?}: {e}")),
        }
        let bits = format!("{x:b}");
        let pad = "0".repeat(c.rng.below(3).min(128 - bits.len().min(128)));
        let text = format!("#b{pad}{bits}");
        let p = real("from_str", || text.parse::<BV<N>>())?;
        match p {
            Ok(v) => judge(c, &format!("parse({text:?})"), v, x)?,
            Err(e) => return viol("parse rejects a number", format!("width {N}: {text:?}: {e}")),
        }
        let v = BV::<N>::new(x);
        for shown in [real("display", || v.to_string())?, real("debug", || format!("{v:?}"))?] {
            let s2 = shown.clone();
            let back = real("from_str", || s2.parse::<BV<N>>())?;
            match back {
                Ok(b) => judge(c, &format!("round trip of {x} through {shown:?}"), b, x)?,
                Err(e) => return viol("printed value does not parse", format!("width {N}: {x} as {shown:?}: {e}")),
            }
        }
        if v != BV::<N>::from(x) || (v == BV::<N>::from(y)) != (x == y) || (v < BV::<N>::from(y)) != (x < y) {
            return viol("comparison", format!("width {N}: {x} vs {y}"));
        }
        // sampling
        let mut r = Feed(&mut c.rng);
        let s: BV<N> = real("sample", || rand::Rng::gen(&mut r))?;
        c.eval();
        if s.0 > mask {
            return viol("sample out of range", format!("width {N}: sampled {}", s.0));
        }
    }
    c.count("widths", 1);
    c.sample(|| format!("width {N}: {} boundary values pairwise, {k} random pairs", edge.len()));
    Ok(())
}
struct Feed<'a>(&'a mut Rng);
impl rand::RngCore for Feed<'_> {
    fn next_u32(&mut self) -> u32 {
        // all-ones and all-zero words now and then
        match self.0.below(8) {
            0 => u32::MAX,
            1 => 0,
            _ => self.0.next() as u32,
        }
    }
    fn next_u64(&mut self) -> u64 {
        ((self.next_u32() as u64) << 32) | self.next_u32() as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        dest.iter_mut().for_each(|b| *b = self.0.next() as u8)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn junk<const N: u128>(c: &mut Case) -> Res {
    let n = N as u32;
    for _ in 0..40 {
        let rng = &mut c.rng;
        let mut s = String::new();
        match rng.below(6) {
            0 => s.push_str("#b"),
            1 => s.push_str("#"),
            2 => s.push_str(&rng.u128().to_string()),
            3 => {
                s.push_str("#b");
                for _ in 0..rng.range(100, 140) {
                    s.push(*rng.pick(&['0', '1']));
                }
            }
            _ => (),
        }
        let len = rng.below(5);
        for _ in 0..len {
            s.push(*rng.pick(&['0', '1', '2', '9', 'x', '#', 'b', '-', '+', ' ', '_', 'é', 'a', '.']));
        }
        let t = s.clone();
        let got = real("from_str", || t.parse::<BV<N>>())?;
        c.eval();
        let digits = |d: &str, r: &str| !d.is_empty() && d.chars().all(|ch| r.contains(ch));
        let val = if digits(&s, "0123456789") {
            BigUint::parse_bytes(s.as_bytes(), 10)
        } else if s.starts_with("#b") && digits(&s[2..], "01") {
            BigUint::parse_bytes(s[2..].as_bytes(), 2)
        } else {
            None
        };
        match (val, got) {
            (Some(v), Ok(b)) => {
                // a number too large for the representation may be rejected, never misread
                let want = (v % two(n)).to_u128().unwrap();
                judge(c, &format!("parse({s:?})"), b, want)?;
                c.count("numbers", 1);
            }
            (Some(v), Err(e)) => {
                if v < two(128) {
                    return viol("parse rejects a number", format!("width {N}: {s:?}: {e}"));
                }
            }
            (None, Ok(b)) => {
                // a leading plus sign is the one notation left open
                if !s.contains('+') {
                    return viol("text that is no number was accepted", format!("width {N}: {s:?} gave {}", b.0));
                }
            }
            (None, Err(_)) => {
                c.count("rejected", 1);
                c.nontrivial((N, &s));
            }
        }
    }
    Ok(())
}
macro_rules! table {
    ($f:ident; $($n:literal)*) => { [$($f::<$n> as CaseFn),*] };
}
macro_rules! all_widths {
    ($f:ident) => {
        table!($f; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32
            33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64
            65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96
            97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121
            122 123 124 125 126 127 128)
    };
}
fn c01(c: &mut Case) -> Res {
    let t: [CaseFn; 128] = all_widths!(width);
    t[(c.idx % 128) as usize](c)
}
fn c01_text(c: &mut Case) -> Res {
    let t: [CaseFn; 128] = all_widths!(junk);
    t[(c.idx % 128) as usize](c)
}

// ------------------------------------------------------------ C02
pub const BVOPS: [(&str, usize); 10] = [
    ("+", 2), ("--", 2), ("*", 2), ("-", 1), ("~", 1), ("<<", 2), (">>", 2), ("&", 2), ("|", 2), ("^", 2),
];
fn lit_of(rng: &mut Rng, n: u32) -> T {
    a(&value(rng, n).to_string())
}
fn bvterm(rng: &mut Rng, n: u32, depth: usize, vars: &[&str], mul: bool) -> T {
    if depth == 0 || rng.chance(1, 5) {
        return if rng.chance(2, 5) { lit_of(rng, n) } else { a(rng.pick(vars)) };
    }
    loop {
        let (op, k) = *rng.pick(&BVOPS);
        if !mul && op == "*" {
            continue;
        }
        let kids = (0..k).map(|_| bvterm(rng, n, depth - 1, vars, mul)).collect();
        return l(op, kids);
    }
}
/// One random law applied somewhere (left unchanged if none fits).
fn law(t: &T, n: u32, rng: &mut Rng) -> T {
    // descend at random
    if !t.kids().is_empty() && rng.chance(1, 2) {
        let i = rng.below(t.kids().len());
        let mut kids = t.kids().to_vec();
        kids[i] = law(&kids[i], n, rng);
        return l(t.op(), kids);
    }
    let mask = pow_minus1(n);
    let num = |x: u128| a(&x.to_string());
    let k = t.kids();
    let mut opts: Vec<T> = vec![];
    // anywhere
    match rng.below(8) {
        0 => opts.push(l("+", vec![t.clone(), num(0)])),
        1 => opts.push(l("~", vec![l("~", vec![t.clone()])])),
        2 => opts.push(l("-", vec![l("-", vec![t.clone()])])),
        3 => opts.push(l("&", vec![t.clone(), num(mask)])),
        4 => opts.push(l("^", vec![l("^", vec![t.clone(), a("?a")]), a("?a")])),
        5 => opts.push(l("--", vec![t.clone(), num(0)])),
        6 => opts.push(l("|", vec![t.clone(), t.clone()])),
        _ => opts.push(l("<<", vec![t.clone(), num(0)])),
    }
    match t.op() {
        "+" | "*" | "&" | "|" | "^" => {
            opts.push(l(t.op(), vec![k[1].clone(), k[0].clone()]));
            if k[0].op() == t.op() && k[0].kids().len() == 2 {
                let g = k[0].kids();
                opts.push(l(t.op(), vec![g[0].clone(), l(t.op(), vec![g[1].clone(), k[1].clone()])]));
            }
        }
        "--" => opts.push(l("+", vec![k[0].clone(), l("-", vec![k[1].clone()])])),
        "-" => opts.push(l("+", vec![l("~", vec![k[0].clone()]), num(1 & mask)])),
        "~" => {
            opts.push(l("--", vec![l("-", vec![k[0].clone()]), num(1 & mask)]));
            opts.push(l("^", vec![k[0].clone(), num(mask)]));
            if k[0].op() == "&" && k[0].kids().len() == 2 {
                let g = k[0].kids();
                opts.push(l("|", vec![l("~", vec![g[0].clone()]), l("~", vec![g[1].clone()])]));
            }
        }
        "<<" => {
            if let T::A(s) = &k[1] {
                if let Ok(v) = s.parse::<u128>() {
                    if v < n as u128 {
                        opts.push(l("*", vec![k[0].clone(), num((1u128 << v) & mask)]));
                        opts.push(l("<<", vec![k[0].clone(), k[1].clone()]));
                    } else {
                        opts.push(num(0));
                    }
                }
            }
        }
        ">>" => {
            if let T::A(s) = &k[1] {
                if let Ok(v) = s.parse::<u128>() {
                    if v >= n as u128 {
                        opts.push(num(0));
                    }
                }
            }
        }
        _ => (),
    }
    // split a literal
    if let T::A(s) = t {
        if let Ok(v) = s.parse::<u128>() {
            let w = value(rng, n);
            opts.push(l("+", vec![num(w), num(fast_bv("--", n, v, w))]));
            opts.push(l("^", vec![num(w), num(w ^ v)]));
        }
    }
    // fold a ground operator
    if !k.is_empty() && t.pvars().is_empty() {
        opts.push(num(bv_eval(t, n, &|_| 0)));
    }
    rng.pick(&opts).clone()
}
/// change something small
fn perturb(t: &T, n: u32, rng: &mut Rng) -> T {
    if !t.kids().is_empty() && rng.chance(3, 5) {
        let i = rng.below(t.kids().len());
        let mut kids = t.kids().to_vec();
        kids[i] = perturb(&kids[i], n, rng);
        return l(t.op(), kids);
    }
    let mask = pow_minus1(n);
    match t {
        T::A(s) => match s.parse::<u128>() {
            Ok(v) => {
                let bit = if rng.chance(1, 2) { n as usize - 1 } else { rng.below(n as usize) };
                a(&((v ^ (1u128 << bit)) & mask).to_string())
            }
            Err(_) => {
                let e = 1u128 << rng.below(n as usize);
                l(*rng.pick(&["+", "^", "|", "--"]), vec![t.clone(), a(&e.to_string())])
            }
        },
        T::L(_) => {
            let k = t.kids().to_vec();
            if k.len() == 2 {
                loop {
                    let (op, ar) = *rng.pick(&BVOPS);
                    if ar == 2 && op != t.op() && op != "*" {
                        return l(op, k);
                    }
                }
            } else {
                l(if t.op() == "-" { "~" } else { "-" }, k)
            }
        }
    }
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Truth {
    Equal,
    Differ,
    Open,
}
fn env_of<'a>(m: &'a BTreeMap<String, u128>) -> impl Fn(&str) -> u128 + 'a {
    move |s: &str| m[s]
}
/// decide by enumeration if small, otherwise look for a witness
fn truth(l_: &T, r_: &T, n: u32, rng: &mut Rng, budget: usize) -> (Truth, String) {
    let mut vars = l_.pvars();
    for v in r_.pvars() {
        if !vars.contains(&v) {
            vars.push(v);
        }
    }
    let bits = n as usize * vars.len();
    if bits <= 12 {
        let rows = 1u64 << bits;
        let mask = pow_minus1(n);
        for r in 0..rows {
            let m: BTreeMap<String, u128> = vars
                .iter()
                .enumerate()
                .map(|(i, v)| (v.clone(), (r as u128 >> (i as u32 * n)) & mask))
                .collect();
            if bv_eval(l_, n, &env_of(&m)) != bv_eval(r_, n, &env_of(&m)) {
                return (Truth::Differ, format!("{m:?}"));
            }
        }
        return (Truth::Equal, String::new());
    }
    for _ in 0..budget {
        let m: BTreeMap<String, u128> = vars.iter().map(|v| (v.clone(), value(rng, n))).collect();
        if bv_eval(l_, n, &env_of(&m)) != bv_eval(r_, n, &env_of(&m)) {
            return (Truth::Differ, format!("{m:?}"));
        }
    }
    (Truth::Open, String::new())
}
/// The same rule text at every width, one after another.
fn c02_widths(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let lit = |rng: &mut Rng| a(*rng.pick(&["0", "1", "2", "3", "4", "7", "8", "15", "16", "31", "32", "33", "64", "255"]));
    let v = a("?a");
    let (x, y) = match rng.below(8) {
        0 => (l(*rng.pick(&["<<", ">>"]), vec![v, lit(rng)]), a("0")),
        1 => (l(*rng.pick(&["&", "|", "^", "+", "--"]), vec![v.clone(), lit(rng)]), v),
        2 => (l(*rng.pick(&["+", "*", "|", "^"]), vec![v.clone(), v.clone()]), lit(rng)),
        3 => (l("*", vec![v.clone(), lit(rng)]), l("<<", vec![v, lit(rng)])),
        4 => (l("+", vec![v.clone(), lit(rng)]), l("--", vec![v, lit(rng)])),
        5 => (l("&", vec![v.clone(), lit(rng)]), l(">>", vec![l("<<", vec![v.clone(), lit(rng)]), lit(rng)])),
        6 => (l(*rng.pick(&["~", "-"]), vec![lit(rng)]), lit(rng)),
        _ => {
            let t = bvterm(rng, 3, 2, &["?a", "?b"], false);
            let u = if rng.chance(1, 2) { perturb(&t, 3, rng) } else { law(&t, 3, rng) };
            (t, u)
        }
    };
    let mut widths = [1, 2, 3, 4, 5, 7, 8, 16, 32, 33, 64];
    c.rng.shuffle(&mut widths);
    let mut seen = BTreeMap::new();
    for n in widths {
        // literals are read at the width
        let at = |t: &T| {
            t.map_leaves(&mut |s| match s.parse::<u128>() {
                Ok(v) => a(&(v & pow_minus1(n)).to_string()),
                Err(_) => a(s),
            })
        };
        let (t, why) = truth(&at(&x), &at(&y), n, &mut c.rng, 200);
        *seen.entry(format!("{t:?}")).or_insert(0u64) += 1;
        with_bv!(n, L => judge02::<L>(c, &x, &y, t, &why))?;
    }
    if seen.len() > 1 {
        c.count("texts whose verdict depends on the width", 1);
    }
    Ok(())
}
fn verdict<L: BvL>(l_: &T, r_: &T) -> Res<ValidationResult> {
    let (p, q) = (pat::<L>(l_), pat::<L>(r_));
    real("validate", || L::validate(&p, &q))
}
fn judge02<L: BvL>(c: &mut Case, l_: &T, r_: &T, t: Truth, why: &str) -> Res {
    let v = verdict::<L>(l_, r_)?;
    c.eval();
    match (&v, t) {
        (ValidationResult::Valid, Truth::Differ) => {
            return viol("Valid verdict on unequal sides", format!("width {}: {l_} ==> {r_} judged Valid, separated by {why}", L::N))
        }
        (ValidationResult::Invalid, Truth::Equal) => {
            return viol("Invalid verdict on equal sides", format!("width {}: {l_} ==> {r_} judged Invalid, but equal ({why})", L::N))
        }
        _ => (),
    }
    c.count(
        match (&v, t) {
            (ValidationResult::Valid, Truth::Equal) => "valid_and_equal",
            (ValidationResult::Invalid, Truth::Differ) => "invalid_and_separated",
            (ValidationResult::Unknown, _) => "unknown",
            _ => "open",
        },
        1,
    );
    if t != Truth::Open && !matches!(v, ValidationResult::Unknown) {
        c.nontrivial((L::N, l_.to_string(), r_.to_string()));
    }
    // the rule's own verdict
    if let Some(rule) = Rule::<L>::new(&pat(l_), &pat(r_)) {
        let got = real("is_valid", || rule.is_valid())?;
        c.eval();
        if got && t == Truth::Differ {
            return viol("unsound rule counted as valid", format!("width {}: {l_} ==> {r_}, separated by {why}", L::N));
        }
    }
    Ok(())
}
/// Names that are easily confused with each other.
pub fn var_names(rng: &mut Rng) -> [&'static str; 3] {
    *rng.pick(&[
        ["?a", "?b", "?c"],
        ["?a", "?b", "?c"],
        ["?x", "?X", "?xx"],
        ["?a1", "?a", "?a10"],
        ["?B", "?b", "?A"],
        ["?var", "?va", "?VAR"],
        ["?p_1", "?p", "?_p"],
    ])
}
fn c02_small_l<L: BvL>(c: &mut Case) -> Res {
    let vars = var_names(&mut c.rng);
    for _ in 0..6 {
        let mut rng = c.rng.clone();
        c.rng.next();
        let (d1, d2) = (rng.range(0, 3), rng.range(0, 2));
        let x = bvterm(&mut rng, L::N, d1, &vars, true);
        let y = match rng.below(4) {
            0 => bvterm(&mut rng, L::N, d2, &vars, true),
            1 => {
                let y = law(&x, L::N, &mut rng);
                law(&y, L::N, &mut rng)
            }
            2 => perturb(&x, L::N, &mut rng),
            _ => {
                let y = law(&x, L::N, &mut rng);
                perturb(&y, L::N, &mut rng)
            }
        };
        let (t, why) = truth(&x, &y, L::N, &mut rng, 100);
        judge02::<L>(c, &x, &y, t, if why.is_empty() { "all assignments tried" } else { &why })?;
        c.sample(|| format!("width {}: {x} ==> {y}: {t:?}", L::N));
    }
    Ok(())
}
fn c02_small(c: &mut Case) -> Res {
    let n = *c.rng.pick(&[1u32, 2, 3, 4]);
    with_bv!(n, L => c02_small_l::<L>(c))
}
fn c02_wide_l<L: BvL>(c: &mut Case) -> Res {
    let vars = &var_names(&mut c.rng)[..2];
    let n = L::N;
    for _ in 0..3 {
        let mut rng = c.rng.clone();
        c.rng.next();
        let d = rng.range(0, 2);
        let x = bvterm(&mut rng, n, d, vars, false);
        let mut y = x.clone();
        for _ in 0..rng.range(1, 3) {
            y = law(&y, n, &mut rng);
        }
        // the laws are checked by evaluation before they are trusted
        let (t, why) = truth(&x, &y, n, &mut rng, 60);
        if t == Truth::Differ {
            panic!("harness: law broken at width {n}: {x} vs {y}: {why}");
        }
        judge02::<L>(c, &x, &y, Truth::Equal, "by construction")?;
        c.sample(|| format!("width {n}: {x} ==> {y}: equal by construction"));
        let z = perturb(&y, n, &mut rng);
        let (t, why) = truth(&x, &z, n, &mut rng, 200);
        if t == Truth::Differ {
            judge02::<L>(c, &x, &z, t, &why)?;
        }
        // literals differing only in high or low bits
        let v = value(&mut rng, n);
        let w = v ^ (1u128 << rng.below(n as usize));
        judge02::<L>(c, &a(&v.to_string()), &a(&w.to_string()), Truth::Differ, "they are different literals")?;
        judge02::<L>(
            c,
            &l("+", vec![a("?a"), a(&v.to_string())]),
            &l("+", vec![a(&w.to_string()), a("?a")]),
            Truth::Differ,
            "they differ by a constant",
        )?;
    }
    Ok(())
}
fn c02_wide(c: &mut Case) -> Res {
    let n = *c.rng.pick(&[5u32, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128]);
    with_bv!(n, L => c02_wide_l::<L>(c))
}
/// every operator against its meaning on literals, at every width
fn c02_lits_l<L: BvL>(c: &mut Case) -> Res {
    let n = L::N;
    for (op, k) in BVOPS {
        for _ in 0..3 {
            let (x, y) = (value(&mut c.rng, n), value(&mut c.rng, n));
            let kids: Vec<T> = [x, y][..k].iter().map(|v| a(&v.to_string())).collect();
            let want = ref_bv(op, n, x, y);
            let t = l(op, kids);
            judge02::<L>(c, &t, &a(&want.to_string()), Truth::Equal, "evaluation")?;
            let bad = want ^ (1u128 << c.rng.below(n as usize));
            judge02::<L>(c, &t, &a(&bad.to_string()), Truth::Differ, "evaluation")?;
            c.count("operator_values", 1);
        }
    }
    Ok(())
}
fn c02_lits(c: &mut Case) -> Res {
    let n = WIDTHS[(c.idx as usize) % WIDTHS.len()];
    with_bv!(n, L => c02_lits_l::<L>(c))
}
/// Equalities the solver may not be able to prove in its time: anything but Invalid will do.
fn c02_hard_l<L: BvL>(c: &mut Case) -> Res {
    let n = L::N;
    let mut rng = c.rng.clone();
    let v = ["?a", "?b", "?c"].map(a);
    let pick = |rng: &mut Rng| v[rng.below(3)].clone();
    // the same sum, written in different ways
    fn sum(rng: &mut Rng, x: &T, y: &T) -> T {
        let two = |t: T| l("*", vec![a("2"), t]);
        let (x, y) = if rng.chance(1, 2) { (x, y) } else { (y, x) };
        let p = |op: &str| l(op, vec![x.clone(), y.clone()]);
        match rng.below(4) {
            0 => l("+", vec![p("^"), two(p("&"))]),
            1 => l("+", vec![p("|"), p("&")]),
            2 => l("--", vec![two(p("|")), p("^")]),
            _ => l("--", vec![x.clone(), l("-", vec![y.clone()])]),
        }
    }
    let m = |x: &T, y: &T| l("*", vec![x.clone(), y.clone()]);
    let (x, y, z) = (pick(&mut rng), v[1].clone(), v[2].clone());
    let (lhs, rhs) = match rng.below(4) {
        0 => (m(&x, &sum(&mut rng, &y, &z)), l("+", vec![m(&x, &y), m(&z, &x)])),
        1 => (m(&sum(&mut rng, &y, &z), &x), m(&x, &sum(&mut rng, &z, &y))),
        2 => (
            m(&sum(&mut rng, &v[0], &v[1]), &l("--", vec![v[0].clone(), v[1].clone()])),
            l("--", vec![m(&v[0], &v[0]), m(&v[1], &v[1])]),
        ),
        _ => (m(&m(&x, &y), &sum(&mut rng, &z, &y)), m(&y, &l("+", vec![m(&z, &x), m(&x, &y)]))),
    };
    let (t, why) = truth(&lhs, &rhs, n, &mut rng, 60);
    if t == Truth::Differ {
        panic!("harness: law broken at width {n}: {lhs} vs {rhs}: {why}");
    }
    judge02::<L>(c, &lhs, &rhs, Truth::Equal, "by construction")?;
    c.sample(|| format!("width {n}: {lhs} ==> {rhs}: equal by construction"));
    Ok(())
}
fn c02_hard(c: &mut Case) -> Res {
    let n = *c.rng.pick(&[32u32, 64, 100, 128]);
    with_bv!(n, L => c02_hard_l::<L>(c))
}
/// Sides that differ, but where the solver would have to factor a number to find out.
fn c02_hidden_l<L: BvL>(c: &mut Case) -> Res {
    let n = L::N;
    let mut rng = c.rng.clone();
    let [x, y, _] = var_names(&mut rng);
    let h = (n / 2 - 1) as usize;
    let top = 1u128 << (h - 1);
    // odd factors with a fixed top bit
    let factor = |v: &str| l("|", vec![l("&", vec![a(v), a(&(top - 1).to_string())]), a(&(top | 1).to_string())]);
    let (p, q) = ((value(&mut rng, h as u32) & (top - 1)) | top | 1, (rng.next() as u128 & (top - 1)) | top | 1);
    let k = fast_bv("*", n, p, q);
    let z = l("^", vec![l("*", vec![factor(x), factor(y)]), a(&k.to_string())]);
    // 1 if z is 0, otherwise 0
    let ind = l("--", vec![a("1"), l(">>", vec![l("|", vec![z.clone(), l("-", vec![z])]), a(&(n - 1).to_string())])]);
    let (lhs, rhs) = match rng.below(4) {
        0 => (ind, a("0")),
        1 => (l("+", vec![a(x), l("*", vec![a(y), ind])]), a(x)),
        2 => (l("*", vec![a(x), a(y)]), l("+", vec![l("*", vec![a(y), a(x)]), ind])),
        _ => (l("^", vec![a(y), ind]), l("|", vec![a(y), l("^", vec![a(y), a(y)])])),
    };
    let m: BTreeMap<String, u128> = [(x, p), (y, q)].iter().map(|(v, k)| (v.to_string(), *k)).collect();
    if bv_eval(&lhs, n, &env_of(&m)) == bv_eval(&rhs, n, &env_of(&m)) {
        panic!("harness: no difference at width {n}: {lhs} vs {rhs} at {m:?}");
    }
    judge02::<L>(c, &lhs, &rhs, Truth::Differ, &format!("{m:?}"))?;
    c.sample(|| format!("width {n}: {lhs} ==> {rhs}: separated by {m:?}"));
    Ok(())
}
fn c02_hidden(c: &mut Case) -> Res {
    let n = *c.rng.pick(&[16u32, 64, 64, 100, 128]);
    with_bv!(n, L => c02_hidden_l::<L>(c))
}
/// Only a Valid verdict makes a rule valid.
fn c02_verdict(c: &mut Case) -> Res {
    let mut rng = c.rng.clone();
    {
        let mut m = mon();
        m.seed = c.seed;
        m.mode = Mode::Hash(34, 33);
        m.log.clear();
    }
    let sig = Sig::new(&["?a", "?b", "0", "1"], &[("f", 1), ("g", 2)]);
    for _ in 0..30 {
        let x = sig.gen_op(&mut rng, 2);
        let y = sig.gen(&mut rng, 2);
        if y.pvars().iter().any(|v| !x.pvars().contains(v)) {
            continue;
        }
        let rule = mk_rule::<Mon>(&x, &y);
        let got = real("is_valid", || rule.is_valid())?;
        c.eval();
        let v = mon_verdict(c.seed, Mode::Hash(34, 33), &x, &y);
        if got != (v == 0) {
            return viol(
                "verdict of the validator misread",
                format!("{x} ==> {y}: validator said {}, is_valid = {got}", ["Valid", "Invalid", "Unknown"][v as usize]),
            );
        }
        c.count(["valid", "invalid", "unknown"][v as usize], 1);
        c.nontrivial((x.to_string(), y.to_string(), v));
    }
    Ok(())
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C01",
            rule: "every width 1..128; all operand pairs up to width 4, boundary values pairwise and random pairs above; every constructor, parser and printer; non-trivial: an operand pair judged on all ten operators, or a text that is no number",
            assumptions: vec!["big-integer arithmetic of the num crate"],
            shards: 1,
            sections: vec![sec("widths", 3840, 25600, c01), sec("text", 153600, 1280000, c01_text)],
        },
        CheckDef {
            id: "C02",
            rule: "pattern pairs whose truth the monitor knows (all assignments up to 12 bits, else equal by construction or separated by a witness) against the Z3-backed verdict at 17 widths; non-trivial: decided truth and a definite verdict",
            assumptions: vec!["the system libz3 (4.8.12) stands in for the Z3 that /repo bundles"],
            shards: 8,
            sections: vec![
                sec("small", 500, 20000, c02_small),
                sec("wide", 400, 20000, c02_wide),
                sec("literals", 34, 1700, c02_lits),
                sec("hard", 32, 600, c02_hard),
                sec("widths", 40, 1500, c02_widths),
                sec("hidden", 48, 800, c02_hidden),
                seq("verdict", 60, 1000, c02_verdict),
            ],
        },
    ]
}
