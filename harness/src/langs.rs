//! Domains the harness gives to ruler. The trait callbacks are where the monitors sit.
use crate::term::T;
use ruler::enumo::Ruleset;
use ruler::*;
use std::sync::Mutex;

/// Convenience for every language of the harness.
pub trait Lx: SynthLanguage {
    fn name() -> &'static str;
}

// ---------------------------------------------------------------- bitvectors
pub trait BvL: Lx {
    const N: u32;
    fn val(c: &Self::Constant) -> u128;
    fn cons(v: u128) -> Self::Constant;
}
macro_rules! bvs {
    ($($m:ident $n:literal),*) => { $(
        #[allow(dead_code, unused_imports, clippy::all)]
        pub mod $m {
            ruler::impl_bv!($n);
            impl super::Lx for Bv { fn name() -> &'static str { concat!("bv", $n) } }
            impl super::BvL for Bv {
                const N: u32 = $n;
                fn val(c: &BV) -> u128 { c.0 }
                fn cons(v: u128) -> BV { BV::from(v) }
            }
        }
    )* };
}
bvs!(b1 1, b2 2, b3 3, b4 4, b5 5, b7 7, b8 8, b16 16, b31 31, b32 32, b33 33, b63 63, b64 64, b65 65, b100 100, b127 127, b128 128);

/// Run `$body` with the type alias `$l` bound to the bitvector language of width `$n`.
#[macro_export]
macro_rules! with_bv {
    ($n:expr, $l:ident => $body:expr) => {{
        use $crate::langs::*;
        match $n {
            1 => { type $l = b1::Bv; $body }
            2 => { type $l = b2::Bv; $body }
            3 => { type $l = b3::Bv; $body }
            4 => { type $l = b4::Bv; $body }
            5 => { type $l = b5::Bv; $body }
            7 => { type $l = b7::Bv; $body }
            8 => { type $l = b8::Bv; $body }
            16 => { type $l = b16::Bv; $body }
            31 => { type $l = b31::Bv; $body }
            32 => { type $l = b32::Bv; $body }
            33 => { type $l = b33::Bv; $body }
            63 => { type $l = b63::Bv; $body }
            64 => { type $l = b64::Bv; $body }
            65 => { type $l = b65::Bv; $body }
            100 => { type $l = b100::Bv; $body }
            127 => { type $l = b127::Bv; $body }
            128 => { type $l = b128::Bv; $body }
            _ => panic!("no such width"),
        }
    }};
}
/// Like with_bv!, for code that is too large to instantiate for every width.
#[macro_export]
macro_rules! with_bv_few {
    ($n:expr, $l:ident => $body:expr) => {{
        use $crate::langs::*;
        match $n {
            1 => { type $l = b1::Bv; $body }
            3 => { type $l = b3::Bv; $body }
            4 => { type $l = b4::Bv; $body }
            8 => { type $l = b8::Bv; $body }
            33 => { type $l = b33::Bv; $body }
            64 => { type $l = b64::Bv; $body }
            128 => { type $l = b128::Bv; $body }
            _ => panic!("no such width"),
        }
    }};
}
pub const WIDTHS_FEW: [u32; 7] = [1, 3, 4, 8, 33, 64, 128];
pub const WIDTHS: [u32; 17] = [1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128];

// ---------------------------------------------------------------- partial Z_5
pub const P: u8 = 5;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Z5(pub u8);
impl std::fmt::Display for Z5 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::str::FromStr for Z5 {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        match s.parse::<u8>() {
            Ok(n) if n < P => Ok(Z5(n)),
            _ => Err(format!("not in Z5: {s}")),
        }
    }
}
egg::define_language! {
    /// Integers modulo 5, with partial operators and an ordering.
    pub enum Pl {
        "+" = Add([Id; 2]),
        "*" = Mul([Id; 2]),
        "/" = Div([Id; 2]),
        "~" = Neg(Id),
        "inv" = Inv(Id),
        "min" = Min([Id; 2]),
        "max" = Max([Id; 2]),
        "ite" = Ite([Id; 3]),
        // same as ~, but not allowed in rules
        "xneg" = XNeg(Id),
        Lit(Z5),
        Var(Symbol),
    }
}
/// The reference semantics, by operator name.
pub fn pl_op(op: &str, xs: &[Option<u8>]) -> Option<u8> {
    let mut v = vec![];
    for x in xs {
        v.push((*x)?);
    }
    let inv = |x: u8| (1..P).find(|y| (x * y) % P == 1);
    match op {
        "+" => Some((v[0] + v[1]) % P),
        "*" => Some((v[0] * v[1]) % P),
        "/" => inv(v[1]).map(|i| (v[0] * i) % P),
        "~" | "xneg" => Some((P - v[0]) % P),
        "inv" => inv(v[0]),
        "min" => Some(v[0].min(v[1])),
        "max" => Some(v[0].max(v[1])),
        "ite" => Some(if v[0] != 0 { v[1] } else { v[2] }),
        s => s.parse::<u8>().ok().filter(|n| *n < P),
    }
}
pub fn pl_eval(t: &T, env: &dyn Fn(&str) -> u8) -> Option<u8> {
    match t {
        T::A(s) => match s.parse::<u8>() {
            Ok(n) => Some(n),
            Err(_) => Some(env(s)),
        },
        T::L(_) => {
            let kids: Vec<Option<u8>> = t.kids().iter().map(|k| pl_eval(k, env)).collect();
            pl_op(t.op(), &kids)
        }
    }
}
/// Values of a term on all assignments to `vars` (first variable fastest).
pub fn pl_vec(t: &T, vars: &[String]) -> Vec<Option<u8>> {
    let rows = (P as usize).pow(vars.len() as u32);
    (0..rows)
        .map(|r| {
            pl_eval(t, &|s| {
                let i = vars.iter().position(|v| v == s).expect("unknown variable");
                ((r / (P as usize).pow(i as u32)) % P as usize) as u8
            })
        })
        .collect()
}
impl SynthLanguage for Pl {
    type Constant = Z5;
    fn eval<'a, F>(&'a self, cvec_len: usize, mut get: F) -> CVec<Self>
    where
        F: FnMut(&'a Id) -> &'a CVec<Self>,
    {
        match self {
            Pl::Lit(c) => vec![Some(*c); cvec_len],
            Pl::Var(_) => vec![],
            _ => {
                let kids: Vec<&CVec<Self>> = egg::Language::children(self).iter().map(|k| get(k)).collect();
                let n = kids[0].len();
                let op = self.to_string();
                (0..n)
                    .map(|i| {
                        let xs: Vec<Option<u8>> = kids.iter().map(|k| k[i].map(|z| z.0)).collect();
                        pl_op(&op, &xs).map(Z5)
                    })
                    .collect()
            }
        }
    }
    fn mk_interval<'a, F>(&'a self, mut get: F) -> Interval<Z5>
    where
        F: FnMut(&'a Id) -> &'a Interval<Z5>,
    {
        match self {
            Pl::Lit(c) => Interval::new(Some(*c), Some(*c)),
            Pl::Var(_) => Interval::new(Some(Z5(0)), Some(Z5(P - 1))),
            _ => {
                let kids: Vec<&Interval<Z5>> = egg::Language::children(self).iter().map(|k| get(k)).collect();
                let both = |f: &dyn Fn(Z5, Z5) -> Z5, x: &Option<Z5>, y: &Option<Z5>| match (x, y) {
                    (Some(x), Some(y)) => Some(f(*x, *y)),
                    _ => None,
                };
                match self {
                    Pl::Min(_) => Interval::new(
                        both(&|x, y| x.min(y), &kids[0].low, &kids[1].low),
                        both(&|x, y| x.min(y), &kids[0].high, &kids[1].high),
                    ),
                    Pl::Max(_) => Interval::new(
                        both(&|x, y| x.max(y), &kids[0].low, &kids[1].low),
                        both(&|x, y| x.max(y), &kids[0].high, &kids[1].high),
                    ),
                    _ => {
                        let pts: Vec<Option<u8>> = kids
                            .iter()
                            .map(|i| match (&i.low, &i.high) {
                                (Some(a), Some(b)) if a == b => Some(a.0),
                                _ => None,
                            })
                            .collect();
                        match pl_op(&self.to_string(), &pts) {
                            Some(v) => Interval::new(Some(Z5(v)), Some(Z5(v))),
                            None => Interval::default(),
                        }
                    }
                }
            }
        }
    }
    fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
        egraph.analysis.cvec_len = (P as usize).pow(vars.len() as u32);
        for v in vars {
            let id = egraph.add(Pl::Var(Symbol::from(v.as_str())));
            egraph[id].data.cvec = pl_vec(&T::A(v.clone()), vars).into_iter().map(|x| x.map(Z5)).collect();
        }
    }
    fn to_var(&self) -> Option<Symbol> {
        match self {
            Pl::Var(s) => Some(*s),
            _ => None,
        }
    }
    fn mk_var(sym: Symbol) -> Self {
        Pl::Var(sym)
    }
    fn is_constant(&self) -> bool {
        matches!(self, Pl::Lit(_))
    }
    fn mk_constant(c: Z5, _e: &mut EGraph<Self, SynthAnalysis>) -> Self {
        Pl::Lit(c)
    }
    fn is_allowed_op(&self) -> bool {
        !matches!(self, Pl::XNeg(_))
    }
    /// Exact: both sides are defined on the same assignments, somewhere, and agree there.
    fn validate(lhs: &ruler::Pattern<Self>, rhs: &ruler::Pattern<Self>) -> ValidationResult {
        let (l, r) = (T::parse(&lhs.to_string()), T::parse(&rhs.to_string()));
        if pl_valid(&l, &r) {
            ValidationResult::Valid
        } else {
            ValidationResult::Invalid
        }
    }
}
pub fn pl_valid(l: &T, r: &T) -> bool {
    let mut vars = l.pvars();
    for v in r.pvars() {
        if !vars.contains(&v) {
            vars.push(v);
        }
    }
    let (a, b) = (pl_vec(l, &vars), pl_vec(r, &vars));
    a == b && a.iter().any(|x| x.is_some())
}
impl Lx for Pl {
    fn name() -> &'static str {
        "Z5"
    }
}

// ---------------------------------------------------------------- symbolic monitor language
egg::define_language! {
    /// Uninterpreted terms. The validator is scripted and recorded.
    pub enum Mon {
        Num(i64),
        Var(Symbol),
        Op(Symbol, Vec<Id>),
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    AllValid,
    /// pseudo-random verdicts in percent: valid, unknown (rest invalid)
    Hash(u64, u64),
}
pub struct MonState {
    pub seed: u64,
    pub mode: Mode,
    /// every validate call: lhs, rhs, verdict (0 valid, 1 invalid, 2 unknown)
    pub log: Vec<(T, T, u8)>,
    pub exploratory: Vec<String>,
}
pub static MON: Mutex<MonState> =
    Mutex::new(MonState { seed: 0, mode: Mode::AllValid, log: vec![], exploratory: vec![] });
pub fn mon() -> std::sync::MutexGuard<'static, MonState> {
    MON.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn mon_verdict(seed: u64, mode: Mode, l: &T, r: &T) -> u8 {
    match mode {
        Mode::AllValid => 0,
        Mode::Hash(v, u) => {
            let h = crate::fw::hash_of((seed, l, r)) % 100;
            if h < v {
                0
            } else if h < v + u {
                2
            } else {
                1
            }
        }
    }
}
impl SynthLanguage for Mon {
    type Constant = i64;
    fn eval<'a, F>(&'a self, _cvec_len: usize, _get: F) -> CVec<Self>
    where
        F: FnMut(&'a Id) -> &'a CVec<Self>,
    {
        vec![]
    }
    fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
        for v in vars {
            egraph.add(Mon::Var(Symbol::from(v.as_str())));
        }
    }
    fn to_var(&self) -> Option<Symbol> {
        match self {
            Mon::Var(s) => Some(*s),
            _ => None,
        }
    }
    fn mk_var(sym: Symbol) -> Self {
        Mon::Var(sym)
    }
    fn is_constant(&self) -> bool {
        matches!(self, Mon::Num(_))
    }
    fn mk_constant(c: i64, _e: &mut EGraph<Self, SynthAnalysis>) -> Self {
        Mon::Num(c)
    }
    fn is_fast_forwarding() -> bool {
        true
    }
    fn get_exploratory_rules() -> Ruleset<Self> {
        Ruleset::new(mon().exploratory.clone())
    }
    fn is_allowed_op(&self) -> bool {
        match self {
            Mon::Op(s, _) => mon_allowed_op(s.as_str()),
            Mon::Num(n) => *n >= 0,
            Mon::Var(_) => true,
        }
    }
    fn validate(lhs: &ruler::Pattern<Self>, rhs: &ruler::Pattern<Self>) -> ValidationResult {
        let (l, r) = (T::parse(&lhs.to_string()), T::parse(&rhs.to_string()));
        let mut m = mon();
        let v = mon_verdict(m.seed, m.mode, &l, &r);
        m.log.push((l, r, v));
        match v {
            0 => ValidationResult::Valid,
            1 => ValidationResult::Invalid,
            _ => ValidationResult::Unknown,
        }
    }
}
/// operators whose name starts with x and negative numbers may not appear in rules
pub fn mon_allowed_op(op: &str) -> bool {
    !op.starts_with('x')
}
pub fn mon_allowed(op: &str, arity: usize) -> bool {
    if arity == 0 {
        op.parse::<i64>().map_or(true, |n| n >= 0)
    } else {
        mon_allowed_op(op)
    }
}
pub fn mon_term_allowed(t: &T) -> bool {
    let mut v = vec![];
    t.subterms(&mut v);
    v.iter().all(|s| mon_allowed(s.op(), s.kids().len()))
}
impl Lx for Mon {
    fn name() -> &'static str {
        "sym"
    }
}

// ---------------------------------------------------------------- naturals (unary)
egg::define_language! {
    /// Naturals with interval analysis; constants need several nodes.
    pub enum Nt {
        "Z" = Z,
        "S" = S(Id),
        "+" = Add([Id; 2]),
        "*" = Mul([Id; 2]),
        "xdbl" = Dbl(Id),
        Var(Symbol),
    }
}
pub const NT_SAMPLES: [[u64; 6]; 3] = [[0, 1, 2, 3, 7, 10], [4, 0, 2, 1, 9, 5], [1, 3, 0, 2, 5, 8]];
pub fn nt_op(op: &str, v: &[u64]) -> Option<u64> {
    Some(match op {
        "Z" => 0,
        "S" => v[0].checked_add(1)?,
        "+" => v[0].checked_add(v[1])?,
        "*" => v[0].checked_mul(v[1])?,
        "xdbl" => v[0].checked_mul(2)?,
        _ => return None,
    })
}
impl Nt {
    fn mk_id(c: u64, egraph: &mut EGraph<Self, SynthAnalysis>) -> Id {
        if c == 0 {
            egraph.add(Nt::Z)
        } else {
            let p = Self::mk_id(c - 1, egraph);
            egraph.add(Nt::S(p))
        }
    }
}
impl SynthLanguage for Nt {
    type Constant = u64;
    fn eval<'a, F>(&'a self, cvec_len: usize, mut get: F) -> CVec<Self>
    where
        F: FnMut(&'a Id) -> &'a CVec<Self>,
    {
        match self {
            Nt::Z => vec![Some(0); cvec_len],
            Nt::Var(_) => vec![],
            _ => {
                let kids: Vec<&CVec<Self>> = egg::Language::children(self).iter().map(|k| get(k)).collect();
                let op = self.to_string();
                (0..kids[0].len())
                    .map(|i| {
                        let xs: Option<Vec<u64>> = kids.iter().map(|k| k[i]).collect();
                        xs.and_then(|xs| nt_op(&op, &xs))
                    })
                    .collect()
            }
        }
    }
    fn mk_interval<'a, F>(&'a self, mut get: F) -> Interval<u64>
    where
        F: FnMut(&'a Id) -> &'a Interval<u64>,
    {
        match self {
            Nt::Z => Interval::new(Some(0), Some(0)),
            Nt::Var(_) => Interval::new(Some(0), None),
            _ => {
                let kids: Vec<&Interval<u64>> = egg::Language::children(self).iter().map(|k| get(k)).collect();
                let op = self.to_string();
                let lows: Option<Vec<u64>> = kids.iter().map(|k| k.low).collect();
                let highs: Option<Vec<u64>> = kids.iter().map(|k| k.high).collect();
                Interval::new(lows.and_then(|v| nt_op(&op, &v)), highs.and_then(|v| nt_op(&op, &v)))
            }
        }
    }
    fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
        egraph.analysis.cvec_len = 6;
        for (i, v) in vars.iter().enumerate() {
            let id = egraph.add(Nt::Var(Symbol::from(v.as_str())));
            egraph[id].data.cvec = NT_SAMPLES[i % 3].iter().map(|x| Some(*x)).collect();
        }
    }
    fn to_var(&self) -> Option<Symbol> {
        match self {
            Nt::Var(s) => Some(*s),
            _ => None,
        }
    }
    fn mk_var(sym: Symbol) -> Self {
        Nt::Var(sym)
    }
    fn is_constant(&self) -> bool {
        matches!(self, Nt::Z)
    }
    fn mk_constant(c: u64, egraph: &mut EGraph<Self, SynthAnalysis>) -> Self {
        if c == 0 {
            Nt::Z
        } else {
            Nt::S(Self::mk_id(c - 1, egraph))
        }
    }
    fn is_allowed_op(&self) -> bool {
        !matches!(self, Nt::Dbl(_))
    }
    fn validate(_l: &ruler::Pattern<Self>, _r: &ruler::Pattern<Self>) -> ValidationResult {
        ValidationResult::Unknown
    }
}
impl Lx for Nt {
    fn name() -> &'static str {
        "nat"
    }
}

// ---------------------------------------------------------------- integers with declared intervals
egg::define_language! {
    /// Integers. A variable's name says its value, its known interval and whether it is
    /// sampled: v<i>_<value>_<low or n>_<high or n>_<s or u>, with m for a minus sign.
    pub enum Iv {
        "+" = Add([Id; 2]),
        "neg" = Neg(Id),
        "min" = Min([Id; 2]),
        "max" = Max([Id; 2]),
        "abs" = Abs(Id),
        "xid" = XId(Id),
        Num(i64),
        Var(Symbol),
    }
}
pub fn iv_op(op: &str, v: &[i64]) -> Option<i64> {
    Some(match op {
        "+" => v[0] + v[1],
        "neg" => -v[0],
        "min" => v[0].min(v[1]),
        "max" => v[0].max(v[1]),
        "abs" => v[0].abs(),
        "xid" => v[0],
        s => s.parse().ok()?,
    })
}
/// value, low, high, sampled
pub fn iv_var(name: &str) -> (i64, Option<i64>, Option<i64>, bool) {
    let p: Vec<&str> = name.split('_').collect();
    let num = |s: &str| s.replace('m', "-").parse::<i64>().ok();
    (num(p[1]).unwrap_or(0), num(p[2]), num(p[3]), p[4] == "s")
}
pub fn iv_eval(t: &T) -> i64 {
    match t {
        T::A(s) if s.starts_with('v') => iv_var(s).0,
        _ => {
            let k: Vec<i64> = t.kids().iter().map(iv_eval).collect();
            iv_op(t.op(), &k).unwrap()
        }
    }
}
impl SynthLanguage for Iv {
    type Constant = i64;
    fn eval<'a, F>(&'a self, cvec_len: usize, mut get: F) -> CVec<Self>
    where
        F: FnMut(&'a Id) -> &'a CVec<Self>,
    {
        match self {
            Iv::Num(n) => vec![Some(*n); cvec_len],
            Iv::Var(s) => {
                let (v, _, _, sampled) = iv_var(s.as_str());
                vec![if sampled { Some(v) } else { None }; cvec_len]
            }
            _ => {
                let kids: Vec<&CVec<Self>> = egg::Language::children(self).iter().map(|k| get(k)).collect();
                let op = self.to_string();
                (0..kids[0].len())
                    .map(|i| {
                        let xs: Option<Vec<i64>> = kids.iter().map(|k| k[i]).collect();
                        xs.and_then(|xs| iv_op(&op, &xs))
                    })
                    .collect()
            }
        }
    }
    fn mk_interval<'a, F>(&'a self, mut get: F) -> Interval<i64>
    where
        F: FnMut(&'a Id) -> &'a Interval<i64>,
    {
        let two = |f: &dyn Fn(i64, i64) -> i64, x: Option<i64>, y: Option<i64>| x.zip(y).map(|(x, y)| f(x, y));
        match self {
            Iv::Num(n) => Interval::new(Some(*n), Some(*n)),
            Iv::Var(s) => {
                let (_, low, high, _) = iv_var(s.as_str());
                Interval::new(low, high)
            }
            Iv::XId(a) => get(a).clone(),
            Iv::Neg(a) => {
                let a = get(a);
                Interval::new(a.high.map(|x| -x), a.low.map(|x| -x))
            }
            Iv::Abs(a) => {
                let a = get(a);
                let low = match (a.low, a.high) {
                    (Some(l), _) if l > 0 => l,
                    (_, Some(h)) if h < 0 => -h,
                    _ => 0,
                };
                Interval::new(Some(low), a.low.zip(a.high).map(|(l, h)| l.abs().max(h.abs())))
            }
            Iv::Add([a, b]) => {
                let (a, b) = (get(a).clone(), get(b).clone());
                Interval::new(two(&|x, y| x + y, a.low, b.low), two(&|x, y| x + y, a.high, b.high))
            }
            Iv::Min([a, b]) => {
                let (a, b) = (get(a).clone(), get(b).clone());
                let high = match (a.high, b.high) {
                    (Some(x), Some(y)) => Some(x.min(y)),
                    (x, y) => x.or(y),
                };
                Interval::new(two(&|x, y| x.min(y), a.low, b.low), high)
            }
            Iv::Max([a, b]) => {
                let (a, b) = (get(a).clone(), get(b).clone());
                let low = match (a.low, b.low) {
                    (Some(x), Some(y)) => Some(x.max(y)),
                    (x, y) => x.or(y),
                };
                Interval::new(low, two(&|x, y| x.max(y), a.high, b.high))
            }
        }
    }
    fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
        egraph.analysis.cvec_len = 1;
        for v in vars {
            egraph.add(Iv::Var(Symbol::from(v.as_str())));
        }
    }
    fn to_var(&self) -> Option<Symbol> {
        match self {
            Iv::Var(s) => Some(*s),
            _ => None,
        }
    }
    fn mk_var(sym: Symbol) -> Self {
        Iv::Var(sym)
    }
    fn is_constant(&self) -> bool {
        matches!(self, Iv::Num(_))
    }
    fn mk_constant(c: i64, _e: &mut EGraph<Self, SynthAnalysis>) -> Self {
        Iv::Num(c)
    }
    fn is_allowed_op(&self) -> bool {
        !matches!(self, Iv::XId(_))
    }
    fn validate(_l: &ruler::Pattern<Self>, _r: &ruler::Pattern<Self>) -> ValidationResult {
        ValidationResult::Unknown
    }
}
impl Lx for Iv {
    fn name() -> &'static str {
        "interval"
    }
}
