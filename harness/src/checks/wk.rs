//! Workloads, filters, patterns, canonical forms, grammar iteration, term text (C17-C21, C23).
use crate::fw::*;
use crate::term::*;
use ruler::enumo::{Filter, Metric, Pattern, Sexp, Workload};
use ruler::recipe_utils::{base_lang, iter_metric, substitute};
use std::collections::BTreeMap;

pub fn sx(t: &T) -> Sexp {
    match t {
        T::A(s) => Sexp::Atom(s.clone()),
        T::L(v) => Sexp::List(v.iter().map(sx).collect()),
    }
}
pub fn tx(s: &Sexp) -> T {
    match s {
        Sexp::Atom(s) => T::A(s.clone()),
        Sexp::List(v) => T::L(v.iter().map(tx).collect()),
    }
}
fn forced(w: &Workload) -> Res<Vec<T>> {
    real("force", || w.force().iter().map(tx).collect())
}

// ------------------------------------------------------------ reference semantics
fn ref_plug(t: &T, name: &str, pegs: &[T]) -> Vec<T> {
    match t {
        T::A(s) if s == name => pegs.to_vec(),
        T::A(_) => vec![t.clone()],
        T::L(v) => {
            let mut acc: Vec<Vec<T>> = vec![vec![]];
            for x in v {
                let ys = ref_plug(x, name, pegs);
                let mut next = Vec::with_capacity(acc.len() * ys.len());
                for a in &acc {
                    for y in &ys {
                        let mut b = a.clone();
                        b.push(y.clone());
                        next.push(b);
                    }
                }
                acc = next;
            }
            acc.into_iter().map(T::L).collect()
        }
    }
}
fn occ(t: &T, name: &str) -> usize {
    match t {
        T::A(s) => (s == name) as usize,
        T::L(v) => v.iter().map(|x| occ(x, name)).sum(),
    }
}
fn plug_size(ts: &[T], name: &str, n: usize) -> f64 {
    ts.iter().map(|t| (n as f64).powi(occ(t, name) as i32)).sum()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Met {
    Atoms,
    Lists,
    Depth,
}
impl Met {
    fn real(self) -> Metric {
        match self {
            Met::Atoms => Metric::Atoms,
            Met::Lists => Metric::Lists,
            Met::Depth => Metric::Depth,
        }
    }
}
fn ref_measure(t: &T, m: Met) -> usize {
    match (t, m) {
        (T::A(_), Met::Lists) => 0,
        (T::A(_), _) => 1,
        (T::L(v), Met::Atoms) => v.iter().map(|x| ref_measure(x, m)).sum(),
        (T::L(v), Met::Lists) => 1 + v.iter().map(|x| ref_measure(x, m)).sum::<usize>(),
        (T::L(v), Met::Depth) => 1 + v.iter().map(|x| ref_measure(x, m)).max().unwrap_or(0),
    }
}
#[derive(Clone, Debug)]
enum Pt {
    Wild,
    Var(String),
    Lit(String),
    List(Vec<Pt>),
}
impl Pt {
    fn real(&self) -> Pattern {
        match self {
            Pt::Wild => Pattern::Wild,
            Pt::Var(s) => Pattern::Var(s.clone()),
            Pt::Lit(s) => Pattern::Lit(s.clone()),
            Pt::List(v) => Pattern::List(v.iter().map(|p| p.real()).collect()),
        }
    }
    fn text(&self) -> String {
        match self {
            Pt::Wild => "*".into(),
            Pt::Var(s) | Pt::Lit(s) => s.clone(),
            Pt::List(v) => format!("({})", v.iter().map(|p| p.text()).collect::<Vec<_>>().join(" ")),
        }
    }
    /// can the pattern be written as text?
    fn textual(&self) -> bool {
        match self {
            Pt::Wild => true,
            Pt::Var(s) => s.starts_with('?'),
            Pt::Lit(s) => s != "*" && !s.starts_with('?'),
            Pt::List(v) => v.iter().all(|p| p.textual()),
        }
    }
}
fn ref_match<'a>(p: &Pt, t: &'a T, env: &mut BTreeMap<String, &'a T>) -> bool {
    match (p, t) {
        (Pt::Wild, _) => true,
        (Pt::Var(x), _) => match env.get(x) {
            Some(u) => *u == t,
            None => {
                env.insert(x.clone(), t);
                true
            }
        },
        (Pt::Lit(s), T::A(u)) => s == u,
        (Pt::Lit(_), T::L(_)) => false,
        (Pt::List(_), T::A(_)) => false,
        (Pt::List(ps), T::L(ts)) => {
            ps.len() == ts.len() && ps.iter().zip(ts).all(|(p, t)| ref_match(p, t, env))
        }
    }
}
fn ref_contains(p: &Pt, t: &T) -> bool {
    ref_match(p, t, &mut BTreeMap::new())
        || match t {
            T::A(_) => false,
            T::L(v) => v.iter().any(|x| ref_contains(p, x)),
        }
}
fn ref_canon(t: &T, syms: &[String]) -> bool {
    fn walk<'a>(t: &'a T, out: &mut Vec<&'a str>, syms: &[String]) {
        match t {
            T::A(s) => {
                if syms.iter().any(|x| x == s) && !out.contains(&s.as_str()) {
                    out.push(s);
                }
            }
            T::L(v) => v.iter().for_each(|x| walk(x, out, syms)),
        }
    }
    let mut firsts = vec![];
    walk(t, &mut firsts, syms);
    firsts.iter().zip(syms).all(|(a, b)| a == b)
}
#[derive(Clone, Debug)]
enum F {
    Lt(Met, usize),
    Eq(Met, usize),
    Contains(Pt),
    Excludes(Pt),
    Canon(Vec<String>),
    And(Vec<F>),
    Or(Vec<F>),
    Inv(Box<F>),
}
impl F {
    fn real(&self) -> Filter {
        match self {
            F::Lt(m, n) => Filter::MetricLt(m.real(), *n),
            F::Eq(m, n) => Filter::MetricEq(m.real(), *n),
            F::Contains(p) => Filter::Contains(p.real()),
            F::Excludes(p) => Filter::Excludes(p.real()),
            F::Canon(s) => Filter::Canon(s.clone()),
            F::And(v) => Filter::And(v.iter().map(|f| f.real()).collect()),
            F::Or(v) => Filter::Or(v.iter().map(|f| f.real()).collect()),
            F::Inv(f) => Filter::Invert(Box::new(f.real())),
        }
    }
    fn test(&self, t: &T) -> bool {
        match self {
            F::Lt(m, n) => ref_measure(t, *m) < *n,
            F::Eq(m, n) => ref_measure(t, *m) == *n,
            F::Contains(p) => ref_contains(p, t),
            F::Excludes(p) => !ref_contains(p, t),
            F::Canon(s) => ref_canon(t, s),
            F::And(v) => v.iter().all(|f| f.test(t)),
            F::Or(v) => v.iter().any(|f| f.test(t)),
            F::Inv(f) => !f.test(t),
        }
    }
}

// ------------------------------------------------------------ generators
fn names(rng: &mut Rng) -> String {
    let hostile = ["*", "?x", "?y", "x", "a", "b", "+", "f", "1", "EXPR", "OP", "?", "??", "x*", "(a)", "(+ a)", "nil", "()", "#", "a b"];
    rng.pick(&hostile).to_string()
}
fn term(rng: &mut Rng, depth: usize, atoms: &[&str]) -> T {
    if depth == 0 || rng.chance(2, 5) {
        return a(rng.pick(atoms));
    }
    let n = match rng.below(14) {
        0 => 0,
        // long lists, of small terms
        1 => rng.range(4, 7),
        _ => rng.range(1, 3),
    };
    let d = if n > 3 { (depth - 1).min(1) } else { depth - 1 };
    T::L((0..n).map(|_| term(rng, d, atoms)).collect())
}
/// A list of many small terms.
fn wide(rng: &mut Rng, atoms: &[&str]) -> T {
    let n = rng.range(8, 80);
    let d = rng.range(0, 2);
    T::L((0..n).map(|_| term(rng, d, atoms)).collect())
}
const ATOMS: &[&str] = &["x", "a", "b", "+", "f", "1", "*", "?x", "EXPR", "OP"];
const PLAIN: &[&str] = &["x", "a", "b", "c", "+", "f", "g", "1", "EXPR"];

struct B {
    real: Workload,
    want: Vec<T>,
    text: String,
    plugged: bool,
    filtered: bool,
    ordered: bool,
}
fn lit(ts: Vec<T>) -> B {
    B {
        real: Workload::Set(ts.iter().map(sx).collect()),
        text: format!("{{{}}}", ts.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ")),
        want: ts,
        plugged: false,
        filtered: false,
        ordered: true,
    }
}
fn leaf(rng: &mut Rng, atoms: &[&str]) -> B {
    let n = match rng.chance(1, if big() { 30 } else { 9 }) {
        true => 0,
        false if big() => rng.range(4, 60),
        false => rng.range(1, 4),
    };
    let d = rng.range(0, 2);
    lit((0..n).map(|_| if big() && rng.chance(1, 60) { wide(rng, atoms) } else { term(rng, d, atoms) }).collect())
}
thread_local! {
    /// of big cases
    static BIG: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
fn big() -> bool {
    BIG.with(|b| b.get())
}
fn cap() -> f64 {
    if big() { 30_000.0 } else { 3000.0 }
}
fn with_big(c: &mut Case, f: fn(&mut Case) -> Res) -> Res {
    BIG.with(|b| b.set(true));
    let r = c.bigger(f);
    BIG.with(|b| b.set(false));
    r
}

fn build(rng: &mut Rng, depth: usize, filters: bool, atoms: &[&str], fs: &mut Vec<F>) -> Res<B> {
    if depth == 0 {
        return Ok(leaf(rng, atoms));
    }
    let pick = rng.below(if filters { 12 } else { 9 });
    let w = build(rng, depth - 1, filters, atoms, fs)?;
    match pick {
        0 | 1 => {
            // append, through the API or the constructor
            let e = rng.below(depth + 1).min(depth - 1);
            let v = build(rng, e, filters, atoms, fs)?;
            let mut want = w.want.clone();
            want.extend(v.want.clone());
            let text = format!("append({}, {})", w.text, v.text);
            let (p, f) = (w.plugged || v.plugged, w.filtered || v.filtered);
            let raw = rng.chance(1, 4);
            let ordered = w.ordered && v.ordered && (raw || !matches!(v.real, Workload::Append(_)));
            let real_w = if raw {
                Workload::Append(vec![w.real, v.real])
            } else {
                real("append", || w.real.append(v.real))?
            };
            Ok(B { real: real_w, want, text, plugged: p, filtered: f, ordered })
        }
        2 => {
            // constructors nobody normalises
            let mut w = w;
            match rng.below(3) {
                0 => {
                    w.real = Workload::Append(vec![w.real]);
                    w.text = format!("Append[{}]", w.text);
                }
                1 => {
                    w.real = Workload::Append(vec![Workload::Append(vec![]), w.real, Workload::empty()]);
                    w.text = format!("Append[Append[], {}, {{}}]", w.text);
                }
                _ => {
                    let n = rng.pick(ATOMS).to_string();
                    w.text = format!("Plug({}, {n}, {{{n}}})", w.text);
                    w.real = Workload::Plug(Box::new(w.real), n.clone(), Box::new(lit(vec![a(&n)]).real));
                }
            }
            Ok(w)
        }
        3..=8 => {
            let name = if rng.chance(3, 4) { rng.pick(atoms).to_string() } else { names(rng) };
            let pegs = match rng.below(10) {
                0 => lit(vec![]),
                1 => {
                    let mut b = lit(vec![]);
                    b.real = Workload::Append(vec![]);
                    b.text = "Append[]".into();
                    b
                }
                2 => {
                    let mut b = leaf(rng, atoms);
                    b.real = Workload::Filter(Filter::Or(vec![]), Box::new(b.real));
                    b.text = format!("Filter(never, {})", b.text);
                    b.want = vec![];
                    b
                }
                _ => {
                    let e = rng.below(depth + 1).min(depth - 1);
                    build(rng, e, filters, atoms, fs)?
                }
            };
            if plug_size(&w.want, &name, pegs.want.len()) > cap() {
                return Ok(w);
            }
            let want: Vec<T> = w.want.iter().flat_map(|t| ref_plug(t, &name, &pegs.want)).collect();
            let hit = w.want.iter().any(|t| occ(t, &name) > 0);
            let text = format!("plug({}, {name}, {})", w.text, pegs.text);
            let (p, f) = (w.plugged || hit, w.filtered || pegs.filtered);
            let ordered = w.ordered && pegs.ordered;
            let real_w = if rng.chance(1, 5) {
                Workload::Plug(Box::new(w.real), name, Box::new(pegs.real))
            } else {
                let pr = pegs.real;
                real("plug", || w.real.plug(name, &pr))?
            };
            Ok(B { real: real_w, want, text, plugged: p, filtered: f, ordered })
        }
        _ => {
            let n = w.want.clone();
            let f = filter(rng, 2, &n, atoms);
            fs.push(f.clone());
            let want: Vec<T> = w.want.into_iter().filter(|t| f.test(t)).collect();
            let text = format!("filter({}, {:?})", w.text, f);
            let rf = f.real();
            let rw = w.real;
            let real_w = if rng.chance(1, 6) {
                Workload::Filter(rf, Box::new(rw))
            } else {
                real("filter", || rw.filter(rf))?
            };
            Ok(B { real: real_w, want, text, plugged: w.plugged, filtered: true, ordered: w.ordered })
        }
    }
}
/// patterns that have a fair chance of matching one of `near`
fn pattern(rng: &mut Rng, near: &[T], atoms: &[&str], allow_odd: bool) -> Pt {
    fn blur(rng: &mut Rng, t: &T, odd: bool) -> Pt {
        if rng.chance(1, 7) {
            return Pt::Wild;
        }
        if rng.chance(1, 3) {
            return Pt::Var(rng.pick(&["?x", "?y", "?z"]).to_string());
        }
        match t {
            T::A(s) => Pt::Lit(s.clone()),
            T::L(v) => {
                let mut ps: Vec<Pt> = v.iter().map(|x| blur(rng, x, odd)).collect();
                if odd && rng.chance(1, 7) {
                    // another number of arguments
                    match rng.below(4) {
                        0 => ps.push(Pt::Wild),
                        1 => ps.push(Pt::Var(rng.pick(&["?x", "?y", "?z"]).to_string())),
                        2 => ps.truncate(rng.below(v.len() + 1)),
                        _ if !ps.is_empty() => drop(ps.remove(rng.below(v.len()))),
                        _ => {}
                    }
                    if !ps.is_empty() && rng.chance(1, 3) {
                        *ps.last_mut().unwrap() = Pt::Wild;
                    }
                }
                Pt::List(ps)
            }
        }
    }
    let base = if !near.is_empty() && rng.chance(4, 5) {
        let t = rng.pick(near).clone();
        let mut subs = vec![];
        fn all<'a>(t: &'a T, o: &mut Vec<&'a T>) {
            o.push(t);
            if let T::L(v) = t {
                v.iter().for_each(|x| all(x, o));
            }
        }
        all(&t, &mut subs);
        let s: T = (*rng.pick(&subs)).clone();
        s
    } else {
        term(rng, 2, atoms)
    };
    blur(rng, &base, allow_odd)
}
fn filter(rng: &mut Rng, depth: usize, near: &[T], atoms: &[&str]) -> F {
    let met = *rng.pick(&[Met::Atoms, Met::Lists, Met::Depth]);
    let n = if !near.is_empty() && rng.chance(2, 3) {
        let t = rng.pick(near).clone();
        ref_measure(&t, met) + rng.below(2)
    } else {
        rng.below(7)
    };
    let k = rng.below(if depth == 0 { 7 } else { 11 });
    match k {
        0 | 1 => F::Lt(met, n),
        2 => F::Eq(met, n),
        3 => F::Contains(pattern(rng, near, atoms, true)),
        4 | 5 => F::Excludes(pattern(rng, near, atoms, true)),
        6 => {
            let mut v: Vec<String> = atoms.iter().map(|s| s.to_string()).collect();
            rng.shuffle(&mut v);
            v.truncate(rng.range(1, 4));
            F::Canon(v)
        }
        7 | 8 => {
            let n = rng.below(4);
            let mut v: Vec<F> = vec![];
            for _ in 0..n {
                let f = match v.last() {
                    Some(f) if rng.chance(1, 4) => akin(rng, f, near, atoms),
                    _ => filter(rng, depth - 1, near, atoms),
                };
                v.push(f);
            }
            F::And(v)
        }
        9 => {
            let n = rng.below(4);
            F::Or((0..n).map(|_| filter(rng, depth - 1, near, atoms)).collect())
        }
        _ => F::Inv(Box::new(filter(rng, depth - 1, near, atoms))),
    }
}
/// a filter akin to another one: the pairs a simplification might confuse
fn akin(rng: &mut Rng, f: &F, near: &[T], atoms: &[&str]) -> F {
    match f {
        F::Lt(m, n) | F::Eq(m, n) => {
            let m2 = if rng.chance(1, 4) { *rng.pick(&[Met::Atoms, Met::Lists, Met::Depth]) } else { *m };
            let n2 = (n + rng.below(3)).saturating_sub(1);
            if rng.chance(1, 2) { F::Lt(m2, n2) } else { F::Eq(m2, n2) }
        }
        F::Contains(p) | F::Excludes(p) => {
            let q = match p {
                Pt::List(v) if !v.is_empty() && rng.chance(1, 2) => rng.pick(v).clone(),
                _ if rng.chance(1, 2) => p.clone(),
                _ => pattern(rng, near, atoms, true),
            };
            if rng.chance(1, 2) { F::Contains(q) } else { F::Excludes(q) }
        }
        F::Canon(v) => {
            let mut w = v.clone();
            match rng.below(5) {
                0 => w.truncate(rng.range(0, v.len())),
                1 => rng.shuffle(&mut w),
                2 => {
                    rng.shuffle(&mut w);
                    w.truncate(rng.range(0, v.len()));
                }
                3 => w.reverse(),
                _ => {
                    let x = rng.pick(atoms).to_string();
                    if !w.contains(&x) {
                        let i = rng.below(w.len() + 1);
                        w.insert(i, x);
                    }
                }
            }
            F::Canon(w)
        }
        F::And(v) | F::Or(v) if !v.is_empty() => {
            let mut w = v.clone();
            match rng.below(3) {
                0 => return rng.pick(v).clone(),
                1 => {
                    let i = rng.below(w.len());
                    w[i] = akin(rng, &v[i], near, atoms);
                }
                _ => w.reverse(),
            }
            if rng.chance(1, 2) { F::And(w) } else { F::Or(w) }
        }
        F::Inv(g) => if rng.chance(1, 2) { (**g).clone() } else { F::Inv(Box::new(akin(rng, g, near, atoms))) },
        f => F::Inv(Box::new(f.clone())),
    }
}
fn compare(c: &mut Case, what: &str, text: &str, got: Vec<T>, want: Vec<T>, ordered: bool) -> Res {
    c.eval();
    c.count("terms_compared", want.len() as u64);
    if bag(got.clone()) != bag(want.clone()) {
        return viol(
            format!("{what}: wrong terms"),
            format!("{text}: got {} terms, expected {}; {}", got.len(), want.len(), bag_diff(&got, &want)),
        );
    }
    let _ = ordered;
    Ok(())
}

// ------------------------------------------------------------ C17
fn c17(c: &mut Case) -> Res {
    let d = c.rng.range(1, 5);
    let b = build(&mut c.rng.clone(), d, false, ATOMS, &mut vec![])?;
    c.rng.next();
    let got = forced(&b.real)?;
    c.sample(|| format!("{} = {} terms", b.text, b.want.len()));
    if b.plugged {
        c.nontrivial(&b.text);
    }
    if b.want.is_empty() {
        c.count("empty_results", 1);
    }
    compare(c, "force", &b.text, got, b.want, b.ordered)
}
fn c17_subst(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let w = build(rng, 2, false, PLAIN, &mut vec![])?;
    let s = if rng.chance(1, 6) { lit(vec![]) } else { leaf(rng, PLAIN) };
    let name = rng.pick(PLAIN).to_string();
    let mut want = vec![];
    for p in &s.want {
        for t in &w.want {
            want.extend(ref_plug(t, &name, std::slice::from_ref(p)));
        }
    }
    let text = format!("substitute({}, {}, {name})", w.text, s.text);
    let (rw, rs) = (w.real, s.real);
    let out = real("substitute", || substitute(rw, rs, &name))?;
    let got = forced(&out)?;
    if w.want.iter().any(|t| occ(t, &name) > 0) && s.want.len() > 1 {
        c.nontrivial(&text);
    }
    compare(c, "substitute", &text, got, want, false)
}
/// plugging a name, whatever it looks like, for an empty workload of any shape
fn c17_empty(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let n = rng.range(1, 6);
    let ts: Vec<T> = (0..n).map(|_| term(rng, 2, ATOMS)).collect();
    let name = names(rng);
    let shape = rng.below(5);
    let base = lit(ts.clone());
    let empty = match shape {
        0 => Workload::empty(),
        1 => Workload::default(),
        2 => Workload::Append(vec![Workload::empty()]),
        3 => Workload::Filter(Filter::Or(vec![]), Box::new(lit(vec![a("q")]).real)),
        _ => Workload::new(["q"]).plug("q", &Workload::empty()),
    };
    let want: Vec<T> = ts.iter().filter(|t| occ(t, &name) == 0).cloned().collect();
    let text = format!("plug({}, {name:?}, empty shape {shape})", base.text);
    let rw = base.real;
    let nm = name.clone();
    let out = real("plug", || rw.plug(nm, &empty))?;
    let got = forced(&out)?;
    c.nontrivial((&text, 1));
    c.sample(|| text.clone());
    compare(c, "plug of an empty workload", &text, got, want, true)
}

fn c17_big(c: &mut Case) -> Res {
    with_big(c, if c.idx % 4 == 0 { c17_subst } else { c17 })
}

// ------------------------------------------------------------ C18
fn c18_big(c: &mut Case) -> Res {
    with_big(c, if c.idx % 2 == 0 { c18 } else { c18_chain })
}
fn c18(c: &mut Case) -> Res {
    let d = c.rng.range(2, 6);
    let mut fs = vec![];
    let mut rng = c.rng.clone();
    let b = build(&mut rng, d, true, PLAIN, &mut fs)?;
    let got = forced(&b.real)?;
    c.sample(|| format!("{} = {} terms", b.text, b.want.len()));
    c.count("filters_built", fs.len() as u64);
    if b.filtered && b.plugged {
        c.nontrivial(&b.text);
    }
    compare(c, "filtered force", &b.text, got, b.want, b.ordered)
}
/// chains of filters over a plug: the shapes the rewriting of filters works on
fn c18_chain(c: &mut Case) -> Res {
    let mut rng = c.rng.clone();
    let mut w = leaf(&mut rng, PLAIN);
    let mut earlier: Vec<F> = vec![];
    let rounds = rng.range(1, 3);
    for _ in 0..rounds {
        let name = rng.pick(&["x", "a", "EXPR"]).to_string();
        let pegs = if rng.chance(1, 3) { lit(w.want.clone()) } else { leaf(&mut rng, PLAIN) };
        if plug_size(&w.want, &name, pegs.want.len()) > cap() {
            break;
        }
        w.want = w.want.iter().flat_map(|t| ref_plug(t, &name, &pegs.want)).collect();
        w.text = format!("plug({}, {name}, {})", w.text, pegs.text);
        let (rw, rp) = (w.real, pegs.real);
        w.real = real("plug", || rw.plug(name, &rp))?;
        let nf = rng.range(1, 4);
        for _ in 0..nf {
            let near = w.want.clone();
            let f = match earlier.last() {
                Some(e) if rng.chance(1, 3) => akin(&mut rng, e, &near, PLAIN),
                _ => filter(&mut rng, 2, &near, PLAIN),
            };
            earlier.push(f.clone());
            let want: Vec<T> = w.want.iter().filter(|t| f.test(t)).cloned().collect();
            if want.is_empty() && rng.chance(4, 5) {
                continue; // keep something to look at
            }
            w.want = want;
            w.text = format!("filter({}, {f:?})", w.text);
            let (rw, rf) = (w.real, f.real());
            w.real = real("filter", || rw.filter(rf))?;
            w.filtered = true;
        }
    }
    let got = forced(&w.real)?;
    c.sample(|| format!("{} = {} terms", w.text, w.want.len()));
    if w.filtered && !w.want.is_empty() {
        c.nontrivial(&w.text);
    }
    compare(c, "filter chain", &w.text, got, w.want, true)
}
/// one filter, one term
fn c18_single(c: &mut Case) -> Res {
    let mut rng = c.rng.clone();
    for _ in 0..20 {
        let d = rng.range(0, 4);
        let t = term(&mut rng, d, PLAIN);
        let f = filter(&mut rng, 3, std::slice::from_ref(&t), PLAIN);
        let (rt, rf) = (sx(&t), f.real());
        let got = real("filter", || !Workload::Set(vec![rt]).filter(rf).force().is_empty())?;
        c.eval();
        let want = f.test(&t);
        if got != want {
            return viol(
                "filter verdict",
                format!("{t} against {f:?}: kept = {got}, expected {want}"),
            );
        }
        c.count(if want { "kept" } else { "dropped" }, 1);
        c.nontrivial((t.to_string(), format!("{f:?}")));
    }
    Ok(())
}

// ------------------------------------------------------------ C19
fn c19(c: &mut Case) -> Res {
    let mut rng = c.rng.clone();
    for _ in 0..20 {
        let d = if c.big { rng.range(5, 9) } else { rng.range(0, 4) };
        // few atoms, so that repeated variables meet equal and nearly equal subterms
        let atoms: &[&str] = if rng.chance(1, 2) { &["a", "b"] } else { PLAIN };
        let t = if c.big && rng.chance(1, 3) { wide(&mut rng, atoms) } else { term(&mut rng, d, atoms) };
        let p = pattern(&mut rng, std::slice::from_ref(&t), atoms, true);
        let rp = if p.textual() && rng.chance(1, 2) {
            let txt = p.text();
            let q = real("parse pattern", || txt.parse::<Pattern>())?;
            match q {
                Ok(q) if q == p.real() => q,
                Ok(q) => return viol("pattern parse", format!("{:?} parsed as {q:?}", p.text())),
                Err(e) => return viol("pattern parse", format!("{:?} rejected: {e}", p.text())),
            }
        } else {
            p.real()
        };
        let want = ref_contains(&p, &t);
        let st = sx(&t);
        for (f, keep, name) in [
            (Filter::Contains(rp.clone()), want, "contains"),
            (Filter::Excludes(rp.clone()), !want, "excludes"),
        ] {
            let s = st.clone();
            let got = real(name, || !Workload::Set(vec![s]).filter(f).force().is_empty())?;
            c.eval();
            if got != keep {
                return viol(
                    format!("{name} verdict"),
                    format!("{name} {} on {t}: kept = {got}, expected {keep}", p.text()),
                );
            }
        }
        c.count(if want { "matching" } else { "not_matching" }, 1);
        if matches!(p, Pt::List(_)) {
            c.nontrivial((t.to_string(), p.text()));
        }
        c.sample(|| format!("{} in {t}: {want}", p.text()));
    }
    Ok(())
}
fn c19_big(c: &mut Case) -> Res {
    c.bigger(c19)
}
/// all small terms against all small patterns
fn c19_exhaustive(c: &mut Case) -> Res {
    let mut ts: Vec<T> = vec![a("a"), a("b")];
    for k in 1..=2 {
        let base = ts.clone();
        let mut lists = vec![];
        for x in &base {
            lists.push(T::L(vec![x.clone()]));
            for y in &base {
                lists.push(T::L(vec![x.clone(), y.clone()]));
                if k == 1 {
                    for z in &base {
                        lists.push(T::L(vec![x.clone(), y.clone(), z.clone()]));
                    }
                }
            }
        }
        ts.extend(lists);
        ts.sort();
        ts.dedup();
    }
    let at = [Pt::Wild, Pt::Var("?x".into()), Pt::Var("?y".into()), Pt::Lit("a".into())];
    let mut ps: Vec<Pt> = at.to_vec();
    let mut two = vec![];
    for p in &at {
        for q in &at {
            two.push(Pt::List(vec![p.clone(), q.clone()]));
        }
    }
    for p in &two {
        for q in at.iter().chain(two.iter()) {
            ps.push(Pt::List(vec![p.clone(), q.clone()]));
            ps.push(Pt::List(vec![q.clone(), p.clone()]));
        }
    }
    for p in &at {
        for q in &at {
            for r in &at {
                ps.push(Pt::List(vec![p.clone(), q.clone(), r.clone()]));
            }
        }
    }
    ps.extend(two);
    let n = ps.len() as u64;
    let p = &ps[(c.idx % n) as usize];
    let set: Vec<Sexp> = ts.iter().map(sx).collect();
    let rp = p.real();
    let got: Vec<T> = real("contains", || {
        Workload::Set(set).filter(Filter::Contains(rp)).force().iter().map(tx).collect()
    })?;
    let want: Vec<T> = ts.iter().filter(|t| ref_contains(p, t)).cloned().collect();
    c.nontrivial(("ex", c.idx % n));
    c.count("terms_judged", ts.len() as u64);
    compare(c, "contains", &p.text(), got, want, true)
}

// ------------------------------------------------------------ C20
fn c20(c: &mut Case) -> Res {
    let mut rng = c.rng.clone();
    let many: Vec<String> = (0..40).map(|i| format!("v{i}")).collect();
    let pool: Vec<&str> =
        if c.big { many.iter().map(|s| s.as_str()).collect() } else { vec!["a", "b", "c", "d", "x", "y"] };
    for _ in 0..10 {
        let mut syms: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
        rng.shuffle(&mut syms);
        let k = if c.big { rng.range(6, 39) } else { rng.range(0, 5) };
        let others: Vec<String> = syms.split_off(k);
        let t = if c.big {
            // all of them in order, one of them perhaps too early
            let n = rng.range(1, k);
            let mut ls: Vec<String> = syms[..n].to_vec();
            if rng.chance(1, 2) {
                let (i, j) = (rng.below(n), rng.below(k));
                ls[i] = syms[j].clone();
            }
            for _ in 0..rng.below(30) {
                let (at, x) = (rng.range(ls.len() / 2, ls.len()), rng.pick(&ls).clone());
                ls.insert(at, x);
            }
            let mut ts: Vec<T> = ls.iter().map(|s| a(s)).collect();
            while ts.len() > 1 {
                let i = rng.below(ts.len() - 1);
                let y = ts.remove(i + 1);
                let x = std::mem::replace(&mut ts[i], a("f"));
                let op = rng.pick(&["+", "f", "v39"]).to_string();
                ts[i] = T::L(if rng.chance(1, 5) { vec![x, a(&op), y] } else { vec![a(if syms.contains(&op) { "+" } else { &op }), x, y] });
            }
            ts.remove(0)
        } else {
            let d = rng.range(0, 4);
            term(&mut rng, d, &["a", "b", "c", "d", "x", "y", "+", "f"])
        };
        let f = Filter::Canon(syms.clone());
        let st = sx(&t);
        let ff = f.clone();
        let got = real("canon", || !Workload::Set(vec![st]).filter(ff).force().is_empty())?;
        c.eval();
        let want = ref_canon(&t, &syms);
        if got != want {
            return viol(
                "canon verdict",
                format!("{t} with {syms:?}: kept = {got}, expected {want}"),
            );
        }
        // exactly one of the one-to-one renamings survives
        let mut used: Vec<String> = vec![];
        fn walk(t: &T, syms: &[String], used: &mut Vec<String>) {
            match t {
                T::A(s) => {
                    if syms.contains(s) && !used.contains(s) {
                        used.push(s.clone())
                    }
                }
                T::L(v) => v.iter().for_each(|x| walk(x, syms, used)),
            }
        }
        walk(&t, &syms, &mut used);
        if used.len() <= if c.big { 2 } else { 4 } {
            fn ren(t: &T, m: &BTreeMap<String, String>) -> T {
                match t {
                    T::A(s) => T::A(m.get(s).unwrap_or(s).clone()),
                    T::L(v) => T::L(v.iter().map(|x| ren(x, m)).collect()),
                }
            }
            let all: Vec<T> = injections(&used, &syms).iter().map(|m| ren(&t, m)).collect();
            let set: Vec<Sexp> = all.iter().map(sx).collect();
            let kept: Vec<T> = real("canon", || {
                Workload::Set(set).filter(f).force().iter().map(tx).collect()
            })?;
            c.eval();
            c.count("renamings", all.len() as u64);
            if kept.len() != 1 {
                return viol(
                    "canon keeps one of the renamings",
                    format!("{t} with {syms:?}: {} of {} renamings kept: {:?}", kept.len(), all.len(),
                        kept.iter().map(|t| t.to_string()).collect::<Vec<_>>()),
                );
            }
            if used.len() >= 2 {
                c.nontrivial((t.to_string(), syms.clone()));
                c.sample(|| format!("{t} with {syms:?}: one of {} renamings", all.len()));
            }
        }
        let _ = others;
    }
    Ok(())
}

fn c20_big(c: &mut Case) -> Res {
    c.bigger(c20)
}
/// canonical filters together: in sequence, in conjunction, over a plug, negated
fn c20_chain(c: &mut Case) -> Res {
    let mut rng = c.rng.clone();
    let atoms = ["a", "b", "c", "d", "+", "f"];
    let n = rng.range(3, 12);
    let ts: Vec<T> = (0..n).map(|_| { let d = rng.range(0, 3); term(&mut rng, d, &atoms) }).collect();
    let mut w = lit(ts);
    if rng.chance(1, 2) {
        let name = rng.pick(&["a", "b", "f"]).to_string();
        let pegs = lit((0..rng.range(1, 3)).map(|_| term(&mut rng, 1, &atoms)).collect());
        if plug_size(&w.want, &name, pegs.want.len()) <= cap() {
            w.want = w.want.iter().flat_map(|t| ref_plug(t, &name, &pegs.want)).collect();
            w.text = format!("plug({}, {name}, {})", w.text, pegs.text);
            let (rw, rp) = (w.real, pegs.real);
            w.real = real("plug", || rw.plug(name, &rp))?;
        }
    }
    let mut v: Vec<String> = ["a", "b", "c", "d"].iter().map(|s| s.to_string()).collect();
    rng.shuffle(&mut v);
    v.truncate(rng.range(1, 4));
    let mut fs = vec![F::Canon(v)];
    for _ in 0..rng.range(1, 3) {
        let f = akin(&mut rng, fs.last().unwrap(), &[], &["a", "b", "c", "d"]);
        fs.push(f);
    }
    if rng.chance(1, 4) {
        let i = rng.below(fs.len());
        fs.insert(i, F::Lt(Met::Atoms, 5));
    }
    let shape = rng.below(4);
    let all: Vec<F> = match shape {
        0 => vec![F::And(fs)],
        1 => vec![F::Inv(Box::new(F::And(fs)))],
        2 => vec![F::And(fs[..1].to_vec()), F::And(fs[1..].to_vec())],
        _ => fs,
    };
    let before = w.want.len();
    for f in all {
        w.want.retain(|t| f.test(t));
        w.text = format!("filter({}, {f:?})", w.text);
        let (rw, rf) = (w.real, f.real());
        w.real = real("filter", || rw.filter(rf))?;
    }
    let got = forced(&w.real)?;
    c.sample(|| format!("{} = {} terms", w.text, w.want.len()));
    if !w.want.is_empty() && w.want.len() < before {
        c.nontrivial(&w.text);
    }
    compare(c, "canonical filters together", &w.text, got, w.want, true)
}

// ------------------------------------------------------------ C21
/// ref_plug, keeping only terms of metric at most n (and not forming the others)
fn ref_plug_upto(t: &T, name: &str, pegs: &[T], m: Met, n: usize) -> Vec<T> {
    match t {
        T::A(s) if s == name => pegs.iter().filter(|p| ref_measure(p, m) <= n).cloned().collect(),
        T::A(_) => vec![t.clone()],
        T::L(v) => {
            // (parts, metric so far); a list adds 1 to Lists, and to Depth over its deepest part
            let base = match m {
                Met::Lists => 1,
                _ => 0,
            };
            let mut acc: Vec<(Vec<T>, usize)> = vec![(vec![], base)];
            for x in v {
                let mut ys: Vec<(usize, T)> =
                    ref_plug_upto(x, name, pegs, m, n).into_iter().map(|y| (ref_measure(&y, m), y)).collect();
                ys.sort_by_key(|y| y.0);
                let mut next = vec![];
                for (p, k) in &acc {
                    for (ym, y) in &ys {
                        let k2 = match m {
                            Met::Depth => (*k).max(*ym),
                            _ => k + ym,
                        };
                        let total = if m == Met::Depth { k2 + 1 } else { k2 };
                        if total > n {
                            break;
                        }
                        let mut w = p.clone();
                        w.push(y.clone());
                        next.push((w, k2));
                    }
                }
                acc = next;
            }
            acc.into_iter().map(|(v, _)| T::L(v)).collect()
        }
    }
}
/// A grammar whose language grows slowly: large bounds are affordable.
fn slow_grammar(rng: &mut Rng, nt: &str) -> Vec<T> {
    let mut v = vec![a("u")];
    if rng.chance(1, 3) {
        v.push(T::L(vec![a("k"), a("w")]));
    }
    for i in 0..rng.range(1, 2) {
        let op = a(&format!("OP{i}"));
        v.push(match rng.below(5) {
            0 => T::L(vec![op, a("w"), a(nt)]),
            1 => T::L(vec![op, T::L(vec![a("h"), a(nt)])]),
            2 => T::L(vec![op, a(nt), T::L(vec![a("h"), a("w"), a("w")])]),
            3 => T::L(vec![a(nt), op]),
            _ => T::L(vec![op, a(nt)]),
        });
    }
    v
}
fn c21_big(c: &mut Case) -> Res {
    c.bigger(c21)
}
fn grammar(rng: &mut Rng, nt: &str) -> Vec<T> {
    let n = rng.range(1, 5);
    let mut v = vec![];
    for i in 0..n {
        let rec = i > 0 && rng.chance(2, 3);
        if !rec {
            v.push(match rng.below(4) {
                0 => T::L(vec![a("k"), a("u")]),
                1 => T::L(vec![a("k"), T::L(vec![a("u"), a("w")])]),
                _ => a(rng.pick(&["VAR", "VAL", "u", "w"])),
            });
        } else {
            let m = rng.range(1, 3);
            let mut kids: Vec<T> = (0..m)
                .map(|_| match rng.below(8) {
                    0 => a("u"),
                    1 => T::L(vec![a("h"), a(nt)]),
                    _ => a(nt),
                })
                .collect();
            let op = a(&format!("OP{}", rng.range(1, 3)));
            let pos = if rng.chance(1, 6) { rng.below(kids.len() + 1) } else { 0 };
            kids.insert(pos, op);
            v.push(T::L(kids));
        }
    }
    if rng.chance(1, 5) {
        let t = rng.pick(&v).clone();
        v.push(t);
    }
    v
}
fn c21(c: &mut Case) -> Res {
    let mut rng = c.rng.clone();
    let nt = rng.pick(&["EXPR", "E", "x"]).to_string();
    let g = if c.big { slow_grammar(&mut rng, &nt) } else { grammar(&mut rng, &nt) };
    let met = *rng.pick(&[Met::Atoms, Met::Lists, Met::Depth]);
    let max = match met {
        _ if c.big => *rng.pick(&[7, 10, 14, 20, 28]),
        Met::Atoms => 6,
        Met::Lists => 3,
        Met::Depth => 3,
    };
    let n = rng.range(1, max);
    // derivations by height; a term of metric n has height at most n + 1
    let mut b: Vec<T> = vec![];
    for _ in 0..(n + 2) {
        b = g
            .iter()
            .flat_map(|t| ref_plug_upto(t, &nt, &b, met, n))
            .filter(|t| ref_measure(t, met) <= n)
            .collect();
        if b.len() > 6_000 {
            c.count("too_large", 1);
            return Ok(());
        }
    }
    // what the real code has to form before it filters
    let below: Vec<&T> = b.iter().filter(|t| ref_measure(t, met) < n).collect();
    if plug_size(&g, &nt, below.len() + g.len()) > 40_000.0 {
        c.count("too_large", 1);
        return Ok(());
    }
    let text = format!(
        "iter_metric({{{}}}, {nt}, {met:?}, {n})",
        g.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ")
    );
    let w = Workload::Set(g.iter().map(sx).collect());
    let out = real("iter_metric", || iter_metric(w, &nt, met.real(), n))?;
    let got = forced(&out)?;
    c.sample(|| format!("{text} = {} terms", b.len()));
    if b.len() > 2 && n > 1 {
        c.nontrivial(&text);
    }
    compare(c, "iter_metric", &text, got, b, true)
}
fn c21_base(c: &mut Case) -> Res {
    let n = (c.idx % 12) as usize;
    let mut want = vec![a("VAR"), a("VAL")];
    for i in 1..=n {
        let mut v = vec![a(&format!("OP{i}"))];
        v.extend((0..i).map(|_| a("EXPR")));
        want.push(T::L(v));
    }
    let w = real("base_lang", || base_lang(n))?;
    let got = forced(&w)?;
    c.nontrivial(n);
    compare(c, "base_lang", &format!("base_lang({n})"), got, want, true)
}
fn c21_lang(c: &mut Case) -> Res {
    // the base grammar, filtered and instantiated the way recipes do
    let mut rng = c.rng.clone();
    let k = rng.range(1, 3);
    let met = *rng.pick(&[Met::Atoms, Met::Lists, Met::Depth]);
    let n = match met {
        Met::Atoms => rng.range(1, 6),
        Met::Lists => rng.range(1, if k == 3 { 2 } else { 3 }),
        Met::Depth => rng.range(1, if k == 3 { 2 } else { 3 }),
    };
    let mut g = vec![a("VAR"), a("VAL")];
    for i in 1..=k {
        let mut v = vec![a(&format!("OP{i}"))];
        v.extend((0..i).map(|_| a("EXPR")));
        g.push(T::L(v));
    }
    let mut b: Vec<T> = vec![];
    for _ in 0..(n + 2) {
        b = g
            .iter()
            .flat_map(|t| ref_plug_upto(t, "EXPR", &b, met, n))
            .filter(|t| ref_measure(t, met) <= n)
            .collect();
    }
    let mut want: Vec<T> = b.into_iter().filter(|t| occ(t, "VAR") > 0).collect();
    let mut out = real("iter_metric", || {
        iter_metric(base_lang(k), "EXPR", met.real(), n).filter(Filter::Contains("VAR".parse().unwrap()))
    })?;
    let mut text = format!("base_lang({k}) up to {met:?} {n} with VAR");
    for (name, pegs) in [
        ("VAR", vec!["a", "b"]),
        ("VAL", if rng.chance(1, 4) { vec![] } else { vec!["0"] }),
        ("OP1", vec!["~"]),
        ("OP2", if rng.chance(1, 4) { vec![] } else { vec!["+", "*"] }),
    ] {
        let ps: Vec<T> = pegs.iter().map(|p| a(p)).collect();
        if plug_size(&want, name, ps.len()) > 20_000.0 {
            break;
        }
        want = want.iter().flat_map(|t| ref_plug(t, name, &ps)).collect();
        let w = Workload::new(pegs.clone());
        out = real("plug", || out.plug(name, &w))?;
        text.push_str(&format!(" plug {name} {pegs:?}"));
    }
    let got = forced(&out)?;
    c.nontrivial(&text);
    compare(c, "grammar recipe", &text, got, want, true)
}

// ------------------------------------------------------------ C23
const ODD: &[&str] = &[
    "x", "+", "-", "*", "?x", "<=>", "=>", "#b01", "'q", "a.b", "é", "日本", "\\", "\\n", "1.5", "-3", "a=b", ";", "{", "]", "|", "`", ",@",
    "very_long_atom_name_very_long_atom_name_very_long_atom_name", "nil", "%", "~", "&&", "||", "!",
];
fn c23(c: &mut Case) -> Res {
    let mut rng = c.rng.clone();
    for _ in 0..10 {
        let d = rng.range(0, 5);
        let t = if rng.chance(1, 25) { wide(&mut rng, ODD) } else { term(&mut rng, d, ODD) };
        // text with odd spacing
        fn spaced(t: &T, rng: &mut Rng, inside: bool, out: &mut String) {
            let sp = |rng: &mut Rng, out: &mut String, min: usize| {
                for _ in 0..rng.range(min, 3.max(min)) {
                    out.push(if inside || min > 0 { *rng.pick(&[' ', ' ', ' ', '\n']) } else { ' ' });
                }
            };
            match t {
                T::A(s) => out.push_str(s),
                T::L(v) => {
                    out.push('(');
                    if rng.chance(1, 3) {
                        sp(rng, out, 1);
                    }
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            let min = match (&v[i - 1], x) {
                                (T::A(_), T::A(_)) => 1,
                                _ => rng.below(2),
                            };
                            if min > 0 {
                                sp(rng, out, 1);
                            }
                        }
                        spaced(x, rng, true, out);
                    }
                    if rng.chance(1, 3) {
                        sp(rng, out, 1);
                    }
                    out.push(')');
                }
            }
        }
        let mut text = String::new();
        if rng.chance(1, 4) {
            text.push_str("  ");
        }
        spaced(&t, &mut rng, false, &mut text);
        if rng.chance(1, 4) {
            text.push_str("  ");
        }
        let tt = text.clone();
        let got = real("parse term", || tt.parse::<Sexp>())?;
        c.eval();
        match got {
            Ok(s) if tx(&s) == t => {
                let back = real("print term", || s.to_string().parse::<Sexp>())?;
                c.eval();
                if back.as_ref().map(tx).ok() != Some(t.clone()) {
                    return viol("print and parse", format!("{t} printed as {:?} and read back as {back:?}", s.to_string()));
                }
            }
            other => return viol("parse", format!("{text:?} gave {other:?}, expected {t}")),
        }
        if matches!(t, T::L(_)) {
            c.nontrivial(&text);
            c.sample(|| format!("{text:?} = {t}"));
        }
    }
    Ok(())
}
fn c23_file(c: &mut Case) -> Res {
    let mut rng = c.rng.clone();
    let path = format!("wk-{:x}.txt", c.seed);
    let rounds = rng.range(1, 3);
    for _ in 0..rounds {
        let mut fs = vec![];
        let d = rng.range(0, 3);
        let atoms = if rng.chance(1, 2) { ODD } else { PLAIN };
        let mut b = build(&mut rng, d, true, atoms, &mut fs)?;
        if c.big {
            let n = rng.range(500, 8000);
            b = lit((0..n).map(|_| if rng.chance(1, 50) { wide(&mut rng, atoms) } else { term(&mut rng, 2, atoms) }).collect());
        } else if rng.chance(1, 12) {
            b = lit(vec![wide(&mut rng, atoms), term(&mut rng, 1, atoms)]);
        } else if rng.chance(1, 6) {
            b = lit(vec![]);
        }
        let w = b.real.clone();
        let before = forced(&b.real)?;
        real("to_file", || w.to_file(&path))?;
        let back = real("from_file", || Workload::from_file(&path))?;
        let got = forced(&back)?;
        c.eval();
        c.count("terms_written", before.len() as u64);
        if got != before {
            let _ = std::fs::remove_file(&path);
            return viol(
                "file round trip",
                format!("{}: wrote {} terms, read {}; {}", b.text, before.len(), got.len(), bag_diff(&got, &before)),
            );
        }
        if before.len() > 1 {
            c.nontrivial(&b.text);
        }
    }
    let _ = std::fs::remove_file(&path);
    Ok(())
}

fn c23_big(c: &mut Case) -> Res {
    c.bigger(c23_file)
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C17",
            rule: "random workload constructions (sets, plugs, appends, substitutes, raw constructors, hostile names, empty pegs) compared as bags with a reference denotation; non-trivial: a plugged name occurs",
            assumptions: vec![],
            shards: 1,
            sections: vec![sec("build", 80000, 1500000, c17), sec("substitute", 20000, 100000, c17_subst), sec("empty", 20000, 200000, c17_empty), sec("big", 160, 4000, c17_big)],
        },
        CheckDef {
            id: "C18",
            rule: "random filters interleaved with plugs and appends, compared as bags with filtering at the written place; non-trivial: a filter over a workload in which a plugged name occurs",
            assumptions: vec![],
            shards: 1,
            sections: vec![sec("build", 160000, 1500000, c18), sec("chain", 160000, 640000, c18_chain), sec("single", 40000, 160000, c18_single), sec("big", 320, 4000, c18_big)],
        },
        CheckDef {
            id: "C19",
            rule: "random and all small (term, pattern) pairs against a reference matcher; non-trivial: list patterns",
            assumptions: vec![],
            shards: 1,
            sections: vec![sec("random", 360000, 1440000, c19), sec("exhaustive", 249, 249, c19_exhaustive), sec("big", 3600, 14400, c19_big)],
        },
        CheckDef {
            id: "C20",
            rule: "random terms and variable lists against the definition, and all one-to-one renamings of each; non-trivial: two or more listed variables occur",
            assumptions: vec![],
            shards: 1,
            sections: vec![sec("random", 60000, 600000, c20), sec("chain", 40000, 400000, c20_chain), sec("big", 8000, 80000, c20_big)],
        },
        CheckDef {
            id: "C21",
            rule: "random grammars and the base grammar, iterated, against an enumeration of derivations; non-trivial: more than two terms and size above 1",
            assumptions: vec![],
            shards: 1,
            sections: vec![sec("grammar", 8000, 80000, c21), sec("big", 300, 4000, c21_big), sec("base", 12, 12, c21_base), sec("recipe", 150, 1500, c21_lang)],
        },
        CheckDef {
            id: "C23",
            rule: "random terms over odd atoms with odd spacing, and workloads through files; non-trivial: lists",
            assumptions: vec![],
            shards: 1,
            sections: vec![sec("text", 240000, 960000, c23), sec("file", 24000, 96000, c23_file), sec("big", 192, 768, c23_big)],
        },
    ]
}
