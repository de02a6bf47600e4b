//! The harness's own terms (s-expressions), independent of ruler's.
use crate::fw::Rng;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum T {
    A(String),
    L(Vec<T>),
}
pub fn a<S: AsRef<str> + ?Sized>(s: &S) -> T {
    T::A(s.as_ref().to_string())
}
pub fn l(op: &str, kids: Vec<T>) -> T {
    let mut v = vec![a(op)];
    v.extend(kids);
    T::L(v)
}
impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            T::A(s) => write!(f, "{s}"),
            T::L(v) => {
                write!(f, "(")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    write!(f, "{x}")?;
                }
                write!(f, ")")
            }
        }
    }
}
impl T {
    pub fn parse(s: &str) -> T {
        let mut toks = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            if c == '(' || c == ')' || c.is_whitespace() {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                if c == '(' || c == ')' {
                    toks.push(c.to_string());
                }
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            toks.push(cur);
        }
        let mut pos = 0;
        let t = Self::parse_toks(&toks, &mut pos);
        assert_eq!(pos, toks.len(), "trailing input in term {s:?}");
        t
    }
    fn parse_toks(toks: &[String], pos: &mut usize) -> T {
        let t = &toks[*pos];
        *pos += 1;
        if t == "(" {
            let mut v = vec![];
            while toks[*pos] != ")" {
                v.push(Self::parse_toks(toks, pos));
            }
            *pos += 1;
            T::L(v)
        } else {
            T::A(t.clone())
        }
    }
    pub fn op(&self) -> &str {
        match self {
            T::A(s) => s,
            T::L(v) => match &v[0] {
                T::A(s) => s,
                _ => panic!("no operator"),
            },
        }
    }
    pub fn kids(&self) -> &[T] {
        match self {
            T::A(_) => &[],
            T::L(v) => &v[1..],
        }
    }
    /// number of operator/leaf nodes, operators counted once
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn subterms<'a>(&'a self, out: &mut Vec<&'a T>) {
        out.push(self);
        for k in self.kids() {
            k.subterms(out);
        }
    }
    pub fn map_leaves(&self, f: &mut dyn FnMut(&str) -> T) -> T {
        match self {
            T::A(s) => f(s),
            T::L(v) => {
                let mut w = vec![v[0].clone()];
                for k in &v[1..] {
                    w.push(k.map_leaves(f));
                }
                T::L(w)
            }
        }
    }
    /// leaves in left-to-right order
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a str>) {
        match self {
            T::A(s) => out.push(s),
            T::L(v) => {
                for k in &v[1..] {
                    k.leaves(out)
                }
            }
        }
    }
    /// pattern variables (leaves that start with ?), distinct, in order
    pub fn pvars(&self) -> Vec<String> {
        let mut l = vec![];
        self.leaves(&mut l);
        let mut out: Vec<String> = vec![];
        for x in l {
            if x.starts_with('?') && !out.iter().any(|y| y == x) {
                out.push(x.to_string());
            }
        }
        out
    }
    /// pattern -> ground term (drop the question marks)
    pub fn unpat(&self) -> T {
        self.map_leaves(&mut |s| a(s.strip_prefix('?').unwrap_or(s)))
    }
    /// ground -> pattern: leaves for which `is_var` holds get a question mark
    pub fn topat(&self, is_var: &dyn Fn(&str) -> bool) -> T {
        self.map_leaves(&mut |s| if is_var(s) { a(&format!("?{s}")) } else { a(s) })
    }
    pub fn rename(&self, m: &BTreeMap<String, String>) -> T {
        self.map_leaves(&mut |s| a(m.get(s).map(|x| x.as_str()).unwrap_or(s)))
    }
    pub fn subst(&self, m: &BTreeMap<String, T>) -> T {
        self.map_leaves(&mut |s| m.get(s).cloned().unwrap_or_else(|| a(s)))
    }
}

/// A signature to generate terms from.
#[derive(Clone)]
pub struct Sig {
    pub leaves: Vec<String>,
    pub ops: Vec<(String, usize)>,
}
impl Sig {
    pub fn new(leaves: &[&str], ops: &[(&str, usize)]) -> Self {
        Sig {
            leaves: leaves.iter().map(|s| s.to_string()).collect(),
            ops: ops.iter().map(|(s, n)| (s.to_string(), *n)).collect(),
        }
    }
    pub fn gen(&self, rng: &mut Rng, depth: usize) -> T {
        if depth == 0 || self.ops.is_empty() || rng.chance(1, 4) {
            return a(rng.pick(&self.leaves));
        }
        let (op, n) = rng.pick(&self.ops).clone();
        let kids = (0..n).map(|_| self.gen(rng, depth - 1)).collect();
        l(&op, kids)
    }
    /// a long spine with small side branches
    pub fn gen_long(&self, rng: &mut Rng, steps: usize) -> T {
        let mut t = self.gen(rng, 2);
        for _ in 0..steps {
            let (op, n) = rng.pick(&self.ops).clone();
            let at = rng.below(n.max(1));
            let kids = (0..n).map(|i| if i == at { t.clone() } else { let d = rng.below(2); self.gen(rng, d) }).collect();
            t = l(&op, kids);
        }
        t
    }
    /// like gen, but the root is an operator
    pub fn gen_op(&self, rng: &mut Rng, depth: usize) -> T {
        let (op, n) = rng.pick(&self.ops).clone();
        let kids = (0..n).map(|_| self.gen(rng, depth.saturating_sub(1))).collect();
        l(&op, kids)
    }
}

/// all injective maps from `from` into `to`
pub fn injections(from: &[String], to: &[String]) -> Vec<BTreeMap<String, String>> {
    let mut out = vec![BTreeMap::new()];
    for f in from {
        let mut next = vec![];
        for m in &out {
            for t in to {
                if !m.values().any(|v: &String| v == t) {
                    let mut m2 = m.clone();
                    m2.insert(f.clone(), t.clone());
                    next.push(m2);
                }
            }
        }
        out = next;
    }
    out
}

/// number of (distinct) elements of a bag comparison: sorted vectors
pub fn bag(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
pub fn bag_diff(got: &[T], want: &[T]) -> String {
    let mut m: BTreeMap<&T, i64> = BTreeMap::new();
    for t in got {
        *m.entry(t).or_default() += 1;
    }
    for t in want {
        *m.entry(t).or_default() -= 1;
    }
    let mut extra = vec![];
    let mut missing = vec![];
    for (t, n) in m {
        if n > 0 {
            extra.push(format!("{t} x{n}"));
        } else if n < 0 {
            missing.push(format!("{t} x{}", -n));
        }
    }
    extra.truncate(6);
    missing.truncate(6);
    format!("extra: [{}], missing: [{}]", extra.join(", "), missing.join(", "))
}
