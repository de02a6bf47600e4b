//! Equality saturation: soundness, preservation, completeness within limits, saturating rules,
//! derivability (C05-C09).
use crate::checks::bits::fast_bv;
use crate::eg::*;
use egg::Language;
use crate::fw::*;
use crate::langs::*;
use crate::model::*;
use crate::term::*;
use ruler::enumo::{Rule, Ruleset, Scheduler};
use ruler::*;
use std::collections::{BTreeMap, BTreeSet, HashMap as StdMap};
use std::sync::OnceLock;

const CAP: usize = 1500;

// ------------------------------------------------------------ generators
pub const MON_OPS: [(&str, usize); 5] = [("f", 1), ("g", 1), ("h", 2), ("k", 2), ("t", 3)];
pub fn mon_terms(rng: &mut Rng, n: usize, depth: usize) -> Vec<T> {
    let sig = Sig::new(&["a", "b", "c", "0", "1"], &MON_OPS);
    (0..n).map(|_| sig.gen(rng, depth)).collect()
}
pub fn mon_rule(rng: &mut Rng) -> Rule2 {
    let lsig = Sig::new(&["?a", "?b", "?c", "0", "1"], &MON_OPS[..if rng.chance(1, 4) { 5 } else { 4 }]);
    let deep = rng.chance(1, 25);
    let wide = Sig::new(&["?a", "?b", "?c", "?d", "?e", "?v1", "?v10", "0", "1"], &MON_OPS);
    loop {
        let d = if deep { rng.range(3, 4) } else { rng.range(1, 2) };
        let lhs = if deep { wide.gen_op(rng, d) } else { lsig.gen_op(rng, d) };
        let vs = lhs.pvars();
        let mut leaves: Vec<&str> = vs.iter().map(|s| s.as_str()).collect();
        if rng.chance(1, 3) || leaves.is_empty() {
            leaves.push("0");
        }
        let rsig = Sig::new(&leaves, &MON_OPS[..4]);
        let rhs = if rng.chance(1, 3) {
            // something that is already there
            let mut subs = vec![];
            lhs.subterms(&mut subs);
            (*rng.pick(&subs)).clone()
        } else if rng.chance(1, 2) {
            let (op, k) = *rng.pick(&MON_OPS[..4]);
            let mut subs = vec![];
            lhs.subterms(&mut subs);
            l(op, (0..k).map(|_| (*rng.pick(&subs)).clone()).collect())
        } else {
            let d = rng.range(0, 2);
            rsig.gen(rng, d)
        };
        if lhs != rhs {
            return (lhs, rhs);
        }
    }
}
pub fn mon_rules(rng: &mut Rng, n: usize) -> Vec<Rule2> {
    let mut v: Vec<Rule2> = vec![];
    while v.len() < n {
        let r = mon_rule(rng);
        if !v.contains(&r) {
            v.push(r.clone());
            if rng.chance(1, 4) {
                let back = (r.1, r.0);
                if back.0.pvars().len() >= back.1.pvars().len() && matches!(back.0, T::L(_)) && !v.contains(&back) {
                    let lv = back.0.pvars();
                    if back.1.pvars().iter().all(|x| lv.contains(x)) {
                        v.push(back);
                    }
                }
            }
        }
    }
    v
}
/// Terms in which the rules match: instances of left sides, alone and under operators.
pub fn instances(rng: &mut Rng, rules: &[Rule2], sig: &Sig, n: usize) -> Vec<T> {
    (0..n)
        .map(|_| {
            let lhs = rng.pick(rules).0.clone();
            let sub: BTreeMap<String, T> = lhs
                .pvars()
                .into_iter()
                .map(|v| {
                    let d = rng.below(2);
                    let t = if rng.chance(1, 5) {
                        // nested: an instance inside an instance
                        let inner = rng.pick(rules).0.clone();
                        let s2 = inner.pvars().into_iter().map(|v| (v, a(rng.pick(&sig.leaves)))).collect();
                        inner.subst(&s2)
                    } else {
                        sig.gen(rng, d)
                    };
                    (v, t)
                })
                .collect();
            let t = lhs.subst(&sub);
            if rng.chance(1, 3) {
                let (op, k) = rng.pick(&sig.ops).clone();
                let mut kids: Vec<T> = (0..k).map(|_| a(rng.pick(&sig.leaves))).collect();
                let i = rng.below(k);
                kids[i] = t;
                l(&op, kids)
            } else {
                t
            }
        })
        .collect()
}
fn mon_input(rng: &mut Rng, rules: &[Rule2]) -> Vec<T> {
    let n = rng.range(1, 4);
    let mut ts = mon_terms(rng, n, 3);
    let k = rng.range(0, 4);
    ts.extend(instances(rng, rules, &Sig::new(&["a", "b", "c", "0", "1"], &MON_OPS), k));
    ts
}
/// An e-graph over the given terms with a few equalities imposed.
fn mon_graph(rng: &mut Rng, terms: &[T], unions: usize) -> Res<Eg<Mon>> {
    let mut eg: Eg<Mon> = EGraph::default();
    let mut ids = vec![];
    let mut subs = vec![];
    for t in terms {
        t.subterms(&mut subs);
    }
    for t in terms {
        let e = rexpr::<Mon>(t);
        real("add_expr", || eg.add_expr(&e))?;
    }
    for t in &subs {
        ids.push(look(&eg, t).expect("harness: a term just added"));
    }
    for _ in 0..unions {
        let (x, y) = (*rng.pick(&ids), *rng.pick(&ids));
        real("union", || eg.union(x, y))?;
    }
    real("rebuild", || eg.rebuild())?;
    Ok(eg)
}
/// Thousands of classes that no rule mentions.
fn pad(rng: &mut Rng, eg: &mut Eg<Mon>) -> Res {
    let n = *rng.pick(&[300, 1500, 4000, 9000]) + rng.below(300);
    let mut last: Vec<T> = vec![];
    for i in 0..n {
        let t = match last.last() {
            Some(t) if rng.chance(1, 3) && t.size() < 6 => l("pad", vec![t.clone()]),
            _ => l("pad", vec![a(&(1000 + i).to_string()), a(&(100_000 + i % 50).to_string())]),
        };
        let e = rexpr::<Mon>(&t);
        real("add_expr", || eg.add_expr(&e))?;
        last.push(t);
    }
    real("rebuild", || eg.rebuild())?;
    Ok(())
}
fn show_graph<L: Lx>(eg: &Eg<L>) -> String {
    let d = dump(eg);
    d.iter()
        .map(|(c, ns)| {
            let v: Vec<String> = ns.iter().map(|(o, k)| if k.is_empty() { o.clone() } else { format!("{o}{k:?}") }).collect();
            format!("{c}:{{{}}}", v.join(" "))
        })
        .collect::<Vec<_>>()
        .join(" ")
}
fn classes<L: Lx>(eg: &Eg<L>) -> Vec<Id> {
    let mut v: Vec<Id> = eg.classes().map(|c| eg.find(c.id)).collect();
    v.sort();
    v.dedup();
    v
}
fn canonical_nodes<L: Lx>(eg: &Eg<L>) -> usize {
    let mut n = 0;
    for ns in dump(eg).values_mut() {
        ns.dedup();
        n += ns.len();
    }
    n
}
fn run<L: Lx>(s: Scheduler, eg: &Eg<L>, rs: &Ruleset<L>) -> Res<Eg<L>> {
    real("Scheduler::run", || s.run(eg, rs))
}
fn any_scheduler(rng: &mut Rng, l: Limits) -> Scheduler {
    match rng.below(3) {
        0 => Scheduler::Simple(l),
        1 => Scheduler::Saturating(l),
        _ => Scheduler::Compress(l),
    }
}
fn small_limits(rng: &mut Rng, iter: usize) -> Limits {
    let node = if rng.chance(1, 2) { HUGE } else { rng.range(1, 60) };
    let match_ = if rng.chance(1, 2) { HUGE } else { rng.range(1, 12) };
    lim(iter, node, match_)
}
fn sname(s: &Scheduler) -> String {
    format!("{s:?}")
}
/// the terms of every node, children written as representatives
fn node_terms<L: Lx>(eg: &Eg<L>) -> Vec<Vec<T>> {
    let costs = to_model(eg);
    let small = costs.0.smallest(&|_, _| true);
    let mut out = vec![];
    for (_, ns) in dump(eg) {
        out.push(
            ns.iter()
                .map(|(op, kids)| {
                    if kids.is_empty() {
                        a(op)
                    } else {
                        l(op, kids.iter().map(|k| small[&costs.1[k]].clone()).collect())
                    }
                })
                .collect(),
        );
    }
    out
}

// ------------------------------------------------------------ C05
fn c05_sym(c: &mut Case) -> Res {
    let nr = c.rng.range(1, 5);
    let rules = mon_rules(&mut c.rng, nr);
    let terms = mon_input(&mut c.rng, &rules);
    let u = c.rng.below(3);
    let eg = mon_graph(&mut c.rng, &terms, u)?;
    let iter = c.rng.below(4);
    let limits = small_limits(&mut c.rng, iter);
    let s = any_scheduler(&mut c.rng, limits);
    let (mut m, map) = to_model(&eg);
    let fits = match s {
        Scheduler::Saturating(_) => m.alternate(&rules, iter, CAP),
        _ => m.rounds(&rules, iter, CAP),
    };
    if fits.is_none() {
        c.count("too large", 1);
        return Ok(());
    }
    let rs = ruleset::<Mon>(&rules);
    let out = run(s, &eg, &rs)?;
    c.eval();
    let (nb, na) = (classes(&eg).len(), m.classes());
    // every node of every class must be in the reference, in one class
    for group in node_terms(&out) {
        let ids: BTreeSet<Option<usize>> = group.iter().map(|t| m.lookup(t)).collect();
        if ids.len() != 1 || ids.contains(&None) {
            return viol(
                "unjustified merge",
                format!(
                    "{} with {}: on {} the terms {} end up in one class, which the rules do not justify",
                    sname(&s),
                    show_rules(&rules),
                    show_graph(&eg),
                    group.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" and ")
                ),
            );
        }
    }
    // and input classes only merge if the reference merges them
    let by_out = partition_by(classes(&eg).iter().map(|i| out.find(*i)).collect());
    let ids = classes(&eg);
    for g in by_out {
        let ms: BTreeSet<usize> = g.iter().map(|i| m.find(map[&usize::from(ids[*i])])).collect();
        if ms.len() > 1 {
            return viol(
                "unjustified merge",
                format!("{} with {}: on {} merged {:?}", sname(&s), show_rules(&rules), show_graph(&eg), g.iter().map(|i| ids[*i]).collect::<Vec<_>>()),
            );
        }
    }
    if classes(&out).len() != nb || na != nb {
        c.nontrivial((terms.iter().map(|t| t.to_string()).collect::<Vec<_>>(), show_rules(&rules), sname(&s)));
    }
    c.sample(|| format!("{} | {} | {}", show_graph(&eg), show_rules(&rules), sname(&s)));
    Ok(())
}
// --- semantic domains
/// Z_5 where 1/0 is 0: agrees with the partial domain wherever that is defined.
fn meadow(op: &str, xs: &[u8]) -> u8 {
    let inv = |x: u8| (0..5).find(|y| (x * y) % 5 == 1).unwrap_or(0);
    match op {
        "inv" => inv(xs[0]),
        "/" => (xs[0] * inv(xs[1])) % 5,
        _ => pl_op(op, &xs.iter().map(|x| Some(*x)).collect::<Vec<_>>()).unwrap(),
    }
}
fn meadow_eval(t: &T, env: &dyn Fn(&str) -> u8) -> u8 {
    match t {
        T::A(s) => s.parse::<u8>().unwrap_or_else(|_| env(s)),
        T::L(_) => meadow(t.op(), &t.kids().iter().map(|k| meadow_eval(k, env)).collect::<Vec<_>>()),
    }
}
fn meadow_vec(t: &T, vars: &[&str]) -> Vec<u8> {
    (0..5usize.pow(vars.len() as u32))
        .map(|r| {
            meadow_eval(t, &|s| {
                let i = vars.iter().position(|v| *v == s).expect("variable");
                ((r / 5usize.pow(i as u32)) % 5) as u8
            })
        })
        .collect()
}
/// Groups of patterns that denote the same function.
pub struct Laws {
    groups: Vec<Vec<T>>,
}
impl Laws {
    fn build(terms: Vec<T>, vec: &dyn Fn(&T) -> Vec<u8>) -> Laws {
        let mut m: StdMap<Vec<u8>, Vec<T>> = StdMap::new();
        for t in terms {
            let e = m.entry(vec(&t)).or_default();
            if !e.contains(&t) {
                e.push(t);
            }
        }
        let mut groups: Vec<Vec<T>> = m.into_values().filter(|g| g.len() > 1).collect();
        for g in groups.iter_mut() {
            g.sort_by_key(|t| (t.size(), t.clone()));
            g.truncate(60);
        }
        groups.sort();
        Laws { groups }
    }
    pub fn pick(&self, rng: &mut Rng) -> Rule2 {
        loop {
            let g = rng.pick(&self.groups);
            let small = rng.range(2, g.len());
            let (x, y) = (rng.below(small), rng.below(small));
            let (lhs, rhs) = (g[x].clone(), g[y].clone());
            let lv = lhs.pvars();
            if x != y && matches!(lhs, T::L(_)) && rhs.pvars().iter().all(|v| lv.contains(v)) {
                return (lhs, rhs);
            }
        }
    }
}
pub fn enumerate(leaves: &[&str], ops: &[(&str, usize)], extra: usize, depth: usize) -> Vec<T> {
    let mut ts: Vec<T> = leaves.iter().map(|s| a(s)).collect();
    let base = ts.clone();
    for (o, k) in ops {
        match k {
            1 => ts.extend(base.iter().map(|x| l(o, vec![x.clone()]))),
            2 => {
                for x in &base {
                    for y in &base {
                        ts.push(l(o, vec![x.clone(), y.clone()]));
                    }
                }
            }
            _ => (),
        }
    }
    let sig = Sig::new(leaves, ops);
    let mut rng = Rng::new(7);
    for _ in 0..extra {
        ts.push(sig.gen(&mut rng, depth));
    }
    ts
}
const PL_OPS: [(&str, usize); 9] =
    [("+", 2), ("*", 2), ("/", 2), ("~", 1), ("inv", 1), ("min", 2), ("max", 2), ("ite", 3), ("xneg", 1)];
pub fn pl_laws() -> &'static Laws {
    static L: OnceLock<Laws> = OnceLock::new();
    L.get_or_init(|| {
        Laws::build(enumerate(&["?x", "?y", "0", "1", "2"], &PL_OPS, 4000, 2), &|t| meadow_vec(t, &["?x", "?y"]))
    })
}
pub fn bv3_vec(t: &T, vars: &[&str]) -> Vec<u8> {
    fn ev(t: &T, env: &dyn Fn(&str) -> u128) -> u128 {
        match t {
            T::A(s) => s.parse::<u128>().map(|v| v & 7).unwrap_or_else(|_| env(s)),
            T::L(_) => {
                let k: Vec<u128> = t.kids().iter().map(|k| ev(k, env)).collect();
                fast_bv(t.op(), 3, k[0], k.get(1).copied().unwrap_or(0))
            }
        }
    }
    (0..8usize.pow(vars.len() as u32))
        .map(|r| {
            ev(t, &|s| {
                let i = vars.iter().position(|v| *v == s).expect("variable");
                ((r / 8usize.pow(i as u32)) % 8) as u128
            }) as u8
        })
        .collect()
}
pub fn bv3_laws() -> &'static Laws {
    static L: OnceLock<Laws> = OnceLock::new();
    L.get_or_init(|| {
        Laws::build(
            enumerate(&["?x", "?y", "0", "1", "7"], &crate::checks::bits::BVOPS, 4000, 2),
            &|t| bv3_vec(t, &["?x", "?y"]),
        )
    })
}
/// Total domain function by vector, for e-graphs whose vectors are exact.
fn c05_sem<L: Lx>(
    c: &mut Case,
    sig: &Sig,
    laws: &Laws,
    vec: &dyn Fn(&T) -> Vec<u8>,
    own: &dyn Fn(&Eg<L>, &L) -> Vec<Option<L::Constant>>,
) -> Res {
    let nr = c.size((1, 8), (1, 40));
    let rules: Vec<Rule2> = (0..nr).map(|_| laws.pick(&mut c.rng)).collect();
    let n = c.size((1, 6), (40, 400));
    let mut terms: Vec<T> = (0..n).map(|_| sig.gen(&mut c.rng, 3)).collect();
    let k = c.size((1, 6), (10, 200));
    terms.extend(instances(&mut c.rng, &rules, sig, k));
    let w = crate::checks::an::wkld_of(&terms, &mut c.rng);
    let eg = real("to_egraph", || w.to_egraph::<L>())?;
    let rs = ruleset::<L>(&rules);
    let iter = c.rng.range(1, 3);
    let mut limits = small_limits(&mut c.rng, iter);
    limits.node = limits.node.min(if c.big { 8000 } else { 2000 });
    limits.match_ = limits.match_.min(if c.big { 3000 } else { 200 });
    let mut s = any_scheduler(&mut c.rng, limits);
    if let Scheduler::Saturating(l_) = s {
        // keep the unlimited saturation phases small
        if terms.len() > 6 {
            s = Scheduler::Simple(l_);
        }
    }
    let out = run(s, &eg, &rs)?;
    c.eval();
    let mut by: BTreeMap<Id, (T, Vec<u8>)> = BTreeMap::new();
    let mut subs: BTreeSet<T> = BTreeSet::new();
    for t in &terms {
        let mut v = vec![];
        t.subterms(&mut v);
        subs.extend(v.into_iter().cloned());
    }
    let mut merged = false;
    for t in subs {
        let v = vec(&t);
        let id = match look(&out, &t) {
            Some(id) => id,
            None => return viol("term missing", format!("{}: {t} is gone after {} with {}", L::name(), sname(&s), show_rules(&rules))),
        };
        match by.get(&id) {
            Some((u, w)) => {
                merged = true;
                if *w != v {
                    return viol(
                        "unsound class",
                        format!("{}: {} with {} merged {t} and {u}, which differ", L::name(), sname(&s), show_rules(&rules)),
                    );
                }
            }
            None => {
                by.insert(id, (t, v));
            }
        }
    }
    for cl in out.classes() {
        let several = cl.len() > 1;
        for node in cl.iter() {
            let v = own(&out, node);
            if several && v.iter().all(|x| x.is_none()) && !v.is_empty() {
                return viol(
                    "merged a nowhere defined class",
                    format!(
                        "{}: {} with {} on {:?}: the class of {} contains the nowhere defined {node} over {:?}",
                        L::name(),
                        sname(&s),
                        show_rules(&rules),
                        terms.iter().map(|t| t.to_string()).collect::<Vec<_>>(),
                        cl.data.simplest,
                        node.children().iter().map(|k| out[*k].data.simplest.to_string()).collect::<Vec<_>>()
                    ),
                );
            }
            if !v.is_empty() && v.iter().all(|x| x.is_none()) {
                c.count("nowhere defined classes", 1);
            }
            for (x, y) in v.iter().zip(&cl.data.cvec) {
                if x.is_some() && x != y {
                    return viol(
                        "unsound class",
                        format!("{}: {} with {}: node {node} and its class disagree", L::name(), sname(&s), show_rules(&rules)),
                    );
                }
            }
        }
    }
    if merged {
        c.nontrivial((terms.iter().map(|t| t.to_string()).collect::<Vec<_>>(), show_rules(&rules), sname(&s)));
    }
    c.sample(|| format!("{:?} | {}", terms.iter().map(|t| t.to_string()).collect::<Vec<_>>(), show_rules(&rules)));
    Ok(())
}
fn c05_z5(c: &mut Case) -> Res {
    let nv = c.rng.below(3);
    let mut leaves: Vec<&str> = ["a", "b"][..nv].to_vec();
    leaves.extend(["0", "1", "3"]);
    let sig = Sig::new(&leaves, &PL_OPS);
    let own = |eg: &Eg<Pl>, node: &Pl| -> Vec<Option<Z5>> {
        let n = eg.analysis.cvec_len;
        if node.is_var() {
            return vec![Some(Z5(0)); 0];
        }
        let op = node.to_string();
        (0..n)
            .map(|i| {
                let xs: Vec<Option<u8>> = node.children().iter().map(|k| eg[*k].data.cvec[i].map(|z| z.0)).collect();
                pl_op(&op, &xs).map(Z5)
            })
            .collect()
    };
    c05_sem::<Pl>(c, &sig, pl_laws(), &|t| meadow_vec(t, &["a", "b"]), &own)
}
/// Large inputs, many rules, generous limits.
fn c05_big(c: &mut Case) -> Res {
    c.bigger(if c.idx % 2 == 0 { c05_z5 } else { c05_bv })
}
fn c05_bv(c: &mut Case) -> Res {
    let sig = Sig::new(&["a", "b", "0", "1", "5", "7"], &crate::checks::bits::BVOPS);
    type B = b3::Bv;
    let own = |eg: &Eg<B>, node: &B| -> Vec<Option<b3::BV>> {
        if node.is_var() {
            return vec![];
        }
        let n = eg.analysis.cvec_len;
        let op = node.to_string();
        (0..n)
            .map(|i| {
                let xs: Option<Vec<u128>> = node.children().iter().map(|k| eg[*k].data.cvec[i].map(|z| z.0)).collect();
                xs.map(|v| match v.len() {
                    0 => b3::BV::from(op.parse::<u128>().unwrap()),
                    _ => b3::BV::from(fast_bv(&op, 3, v[0], v.get(1).copied().unwrap_or(0))),
                })
            })
            .collect()
    };
    c05_sem::<B>(c, &sig, bv3_laws(), &|t| bv3_vec(t, &["a", "b"]), &own)
}

// ------------------------------------------------------------ C06
fn preserved<L: Lx>(c: &mut Case, eg: &Eg<L>, rs: &Ruleset<L>, s: Scheduler, descr: &dyn Fn() -> String) -> Res<Eg<L>> {
    let before = full_dump(eg);
    let out = run(s, eg, rs)?;
    c.eval();
    if full_dump(eg) != before {
        return viol("input changed", format!("{} changed its input: {}", sname(&s), descr()));
    }
    for cl in eg.classes() {
        for node in cl.iter() {
            let n = node.clone().map_children(|k| out.find(k));
            match out.lookup(n) {
                Some(id) if out.find(id) == out.find(cl.id) => (),
                Some(_) => {
                    return viol("input equality lost", format!("{}: a node {node} left its class: {}", sname(&s), descr()))
                }
                None => return viol("input term lost", format!("{}: a node {node} is gone: {}", sname(&s), descr())),
            }
        }
    }
    Ok(out)
}
fn compressed<L: Lx>(
    c: &mut Case,
    eg: &Eg<L>,
    out: &Eg<L>,
    simple: &Eg<L>,
    constants_may_appear: bool,
    descr: &dyn Fn() -> String,
) -> Res {
    // every node of the output is the image of an input node
    let mut image: BTreeSet<(usize, String, Vec<usize>)> = BTreeSet::new();
    for cl in eg.classes() {
        for node in cl.iter() {
            image.insert((
                usize::from(out.find(cl.id)),
                node.to_string(),
                node.children().iter().map(|k| usize::from(out.find(*k))).collect(),
            ));
        }
    }
    for (id, ns) in dump(out) {
        for (op, kids) in ns {
            if !image.contains(&(id, op.clone(), kids.clone())) && !constants_may_appear {
                return viol("compress added a node", format!("node {op}{kids:?} is new: {}", descr()));
            }
        }
    }
    // the classes are the congruence closure of what the simple scheduler relates
    let (mut m, map) = to_model(eg);
    let ids = classes(eg);
    let mut first: BTreeMap<Id, Id> = BTreeMap::new();
    for id in &ids {
        let f = *first.entry(simple.find(*id)).or_insert(*id);
        m.union(map[&usize::from(f)], map[&usize::from(*id)]);
    }
    m.rebuild();
    let want = partition_by(ids.iter().map(|i| m.find(map[&usize::from(*i)])).collect());
    let got = partition_by(ids.iter().map(|i| out.find(*i)).collect());
    if want != got {
        return viol(
            "compress merges differ from the simple scheduler's",
            format!("classes {:?} are grouped {got:?}, want {want:?} (positions): {}", ids, descr()),
        );
    }
    if classes(out).len() != got.len() && !constants_may_appear {
        return viol("compress added a class", format!("{} classes for {} groups: {}", classes(out).len(), got.len(), descr()));
    }
    c.count("classes before", ids.len() as u64);
    c.count("classes after", got.len() as u64);
    Ok(())
}
fn c06_sym(c: &mut Case) -> Res {
    let nr = c.rng.range(1, 5);
    let rules = mon_rules(&mut c.rng, nr);
    let terms = mon_input(&mut c.rng, &rules);
    let u = c.rng.below(4);
    let eg = mon_graph(&mut c.rng, &terms, u)?;
    let iter = c.rng.below(4);
    let (mut m, _) = to_model(&eg);
    if m.alternate(&rules, iter, CAP).is_none() {
        c.count("too large", 1);
        return Ok(());
    }
    let mut eg = eg;
    let show = show_graph(&eg);
    let limits = if c.big {
        pad(&mut c.rng, &mut eg)?;
        lim(iter, HUGE, HUGE)
    } else {
        small_limits(&mut c.rng, iter)
    };
    let rs = ruleset::<Mon>(&rules);
    let descr = || format!("on {} with {}", &show, show_rules(&rules));
    let simple = preserved(c, &eg, &rs, Scheduler::Simple(limits), &descr)?;
    preserved(c, &eg, &rs, Scheduler::Saturating(limits), &descr)?;
    let out = preserved(c, &eg, &rs, Scheduler::Compress(limits), &descr)?;
    compressed(c, &eg, &out, &simple, false, &|| format!("{limits:?} {}", descr()))?;
    if classes(&out).len() < classes(&eg).len() {
        c.nontrivial((&show, show_rules(&rules), format!("{limits:?}")));
    }
    c.sample(|| format!("{limits:?} {}", descr()));
    Ok(())
}
/// Many classes that one rule makes equal.
pub fn star(rng: &mut Rng) -> (Vec<T>, Vec<Rule2>) {
    let pv = |s: &str| a(s);
    let hub = rng.pick(&["0", "c", "(g 1)", "(k a b)"]).to_string();
    let hub = T::parse(&hub);
    let mut rules: Vec<Rule2> = vec![match rng.below(3) {
        0 => (l("q", vec![pv("?x"), a("0")]), hub.clone()),
        1 => (l("q", vec![pv("?x"), pv("?y")]), l("q", vec![a("0"), pv("?y")])),
        _ => (l("q", vec![a("0"), pv("?x")]), hub.clone()),
    }];
    let safe: [(&str, &str); 5] = [
        ("(f (f ?x))", "?x"),
        ("(h ?x ?y)", "(h ?y ?x)"),
        ("(k ?x ?x)", "?x"),
        ("(h ?x 0)", "?x"),
        ("(g (f ?x))", "(f (g ?x))"),
    ];
    for _ in 0..rng.below(3) {
        let (x, y) = *rng.pick(&safe);
        rules.push((T::parse(x), T::parse(y)));
    }
    rng.shuffle(&mut rules);
    let n = rng.range(30, 500);
    let mut terms: Vec<T> = vec![];
    for i in 0..n {
        let t = match rng.below(3) {
            0 => a(&format!("w{i}")),
            1 => a(&(i as i64 + 2).to_string()),
            _ => l("f", vec![a(&format!("w{i}"))]),
        };
        let q = match rng.below(4) {
            0 => l("q", vec![a("0"), t.clone()]),
            _ => l("q", vec![t.clone(), a("0")]),
        };
        // parents, which become equal in turn
        terms.push(match rng.below(5) {
            0 => l("f", vec![q]),
            1 => l("h", vec![q, a("b")]),
            2 => l("k", vec![q.clone(), q]),
            _ => q,
        });
    }
    if rng.chance(1, 2) {
        terms.push(hub);
    }
    rng.shuffle(&mut terms);
    (terms, rules)
}
fn c06_star(c: &mut Case) -> Res {
    let (terms, rules) = star(&mut c.rng);
    let eg = mon_graph(&mut c.rng, &terms, 0)?;
    let rs = ruleset::<Mon>(&rules);
    let limits = lim(c.rng.range(1, 3), HUGE, HUGE);
    let descr = || format!("{} with {}", terms.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "), show_rules(&rules));
    let simple = preserved(c, &eg, &rs, Scheduler::Simple(limits), &descr)?;
    preserved(c, &eg, &rs, Scheduler::Saturating(limits), &descr)?;
    let out = preserved(c, &eg, &rs, Scheduler::Compress(limits), &descr)?;
    compressed(c, &eg, &out, &simple, false, &|| format!("{limits:?} {}", descr()))?;
    if classes(&out).len() < classes(&eg).len() {
        c.nontrivial((descr(), format!("{limits:?}")));
        c.count("classes merged at once", (classes(&eg).len() - classes(&out).len()) as u64);
    }
    c.sample(descr);
    Ok(())
}
fn c06_big(c: &mut Case) -> Res {
    c.bigger(c06_sym)
}
fn c06_sem<L: Lx>(c: &mut Case, sig: &Sig, laws: &Laws) -> Res {
    let nr = c.rng.range(1, 6);
    let rules: Vec<Rule2> = (0..nr).map(|_| laws.pick(&mut c.rng)).collect();
    let n = c.rng.range(1, 4);
    let mut terms: Vec<T> = (0..n).map(|_| sig.gen(&mut c.rng, 3)).collect();
    let k = c.rng.range(1, 5);
    terms.extend(instances(&mut c.rng, &rules, sig, k));
    let w = crate::checks::an::wkld_of(&terms, &mut c.rng);
    let mut eg = real("to_egraph", || w.to_egraph::<L>())?;
    real("rebuild", || eg.rebuild())?;
    let rs = ruleset::<L>(&rules);
    let iter = c.rng.range(1, 2);
    let mut limits = small_limits(&mut c.rng, iter);
    limits.match_ = limits.match_.min(200);
    limits.node = limits.node.min(2000);
    let descr = || format!("{} on {} with {}", L::name(), show_graph(&eg), show_rules(&rules));
    let simple = preserved(c, &eg, &rs, Scheduler::Simple(limits), &descr)?;
    let out = preserved(c, &eg, &rs, Scheduler::Compress(limits), &descr)?;
    let folds = L::name() == "Z5";
    if !folds {
        compressed(c, &eg, &out, &simple, false, &descr)?;
    } else {
        // what the simple scheduler relates must be related
        let ids = classes(&eg);
        for x in &ids {
            for y in &ids {
                if (simple.find(*x) == simple.find(*y)) && out.find(*x) != out.find(*y) {
                    return viol("compress merges differ from the simple scheduler's", format!("{x} and {y}: {}", descr()));
                }
            }
        }
    }
    if classes(&out).len() < classes(&eg).len() {
        c.nontrivial((show_graph(&eg), show_rules(&rules)));
    }
    Ok(())
}
fn c06_z5(c: &mut Case) -> Res {
    c06_sem::<Pl>(c, &Sig::new(&["a", "b", "0", "1", "3"], &PL_OPS), pl_laws())
}
fn c06_bv(c: &mut Case) -> Res {
    c06_sem::<b3::Bv>(c, &Sig::new(&["a", "b", "0", "1", "5", "7"], &crate::checks::bits::BVOPS), bv3_laws())
}

// ------------------------------------------------------------ C07
fn same_shape(eg: &Eg<Mon>, out: &Eg<Mon>, m: &M, map: &BTreeMap<usize, usize>) -> Result<(), String> {
    let ids = classes(eg);
    let got = partition_by(ids.iter().map(|i| out.find(*i)).collect());
    let want = partition_by(ids.iter().map(|i| m.find(map[&usize::from(*i)])).collect());
    if got != want {
        return Err(format!("input classes {ids:?} are grouped {got:?}, want {want:?} (positions)"));
    }
    if classes(out).len() != m.classes() || canonical_nodes(out) != m.nodes() {
        return Err(format!(
            "{} classes and {} nodes, want {} and {}",
            classes(out).len(),
            canonical_nodes(out),
            m.classes(),
            m.nodes()
        ));
    }
    Ok(())
}
fn c07_full(c: &mut Case) -> Res {
    let nr = c.rng.range(1, 5);
    let rules = mon_rules(&mut c.rng, nr);
    let terms = mon_input(&mut c.rng, &rules);
    let u = c.rng.below(3);
    let eg = mon_graph(&mut c.rng, &terms, u)?;
    let rs = ruleset::<Mon>(&rules);
    let k = c.rng.below(5);
    let (m0, map) = to_model(&eg);
    let descr = || format!("on {} with {}", show_graph(&eg), show_rules(&rules));
    let mut m = m0.clone();
    if m.rounds(&rules, k, CAP).is_some() {
        let out = run(Scheduler::Simple(lim(k, HUGE, HUGE)), &eg, &rs)?;
        c.eval();
        if let Err(e) = same_shape(&eg, &out, &m, &map) {
            return viol("simple scheduler", format!("Simple, {k} iterations, {}: {e}", descr()));
        }
        if m.classes() != m0.classes() {
            c.nontrivial((show_graph(&eg), show_rules(&rules), k, 0));
            c.count("simple", 1);
        }
    } else {
        c.count("too large", 1);
    }
    let mut m = m0.clone();
    if m.alternate(&rules, k, CAP).is_some() {
        let out = run(Scheduler::Saturating(lim(k, HUGE, HUGE)), &eg, &rs)?;
        c.eval();
        if let Err(e) = same_shape(&eg, &out, &m, &map) {
            return viol("saturating scheduler", format!("Saturating, {k} iterations, {}: {e}", descr()));
        }
        if m.classes() != m0.classes() {
            c.nontrivial((show_graph(&eg), show_rules(&rules), k, 1));
            c.count("saturating", 1);
            if rules.iter().any(|r| grows_by(r) > 0) && rules.iter().any(|r| grows_by(r) <= 0) {
                c.count("both kinds of rules", 1);
            }
        }
    } else {
        c.count("too large", 1);
    }
    c.sample(|| format!("{k} iterations {}", descr()));
    Ok(())
}
/// What no rule mentions makes no difference, however much of it there is.
fn c07_pad(c: &mut Case) -> Res {
    c.count("big cases", 1);
    let nr = c.rng.range(1, 5);
    let rules = mon_rules(&mut c.rng, nr);
    let terms = mon_input(&mut c.rng, &rules);
    let u = c.rng.below(3);
    let eg = mon_graph(&mut c.rng, &terms, u)?;
    let mut more = eg.clone();
    pad(&mut c.rng, &mut more)?;
    let extra = (classes(&more).len() - classes(&eg).len(), canonical_nodes(&more) - canonical_nodes(&eg));
    let rs = ruleset::<Mon>(&rules);
    let k = c.rng.range(1, 4);
    let (m0, _) = to_model(&eg);
    if m0.clone().alternate(&rules, k, CAP).is_none() || m0.clone().rounds(&rules, k, CAP).is_none() {
        c.count("too large", 1);
        return Ok(());
    }
    let ids = classes(&eg);
    let parts = |g: &Eg<Mon>| partition_by(ids.iter().map(|i| g.find(*i)).collect());
    for s in [Scheduler::Simple(lim(k, HUGE, HUGE)), Scheduler::Saturating(lim(k, HUGE, HUGE)), Scheduler::Compress(lim(k, HUGE, HUGE))] {
        let (x, y) = (run(s, &eg, &rs)?, run(s, &more, &rs)?);
        c.eval();
        let (cx, cy) = (classes(&x).len() + extra.0, classes(&y).len());
        let (nx, ny) = (canonical_nodes(&x) + extra.1, canonical_nodes(&y));
        if parts(&x) != parts(&y) || cx != cy || nx != ny {
            return viol(
                "unrelated terms make a difference",
                format!(
                    "{}, with {} unrelated classes: {} with {}: {cx} and {cy} classes, {nx} and {ny} nodes, the same merges: {}",
                    sname(&s),
                    extra.0,
                    show_graph(&eg),
                    show_rules(&rules),
                    parts(&x) == parts(&y)
                ),
            );
        }
        if parts(&x).len() < ids.len() || cx != classes(&more).len() {
            c.nontrivial((show_graph(&eg), show_rules(&rules), k, sname(&s)));
        }
    }
    Ok(())
}
/// Work that takes many rounds: reductions that become possible one after another.
fn c07_tower(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let n = if rng.chance(1, 2) { rng.range(2, 12) } else { rng.range(12, 70) };
    let r = |x: &str, y: &str| -> Rule2 { (T::parse(x), T::parse(y)) };
    let leaf = |rng: &mut Rng| a(*rng.pick(&["a", "b", "c", "0"]));
    let (term, mut rules) = match rng.below(5) {
        0 => {
            // an absorbing element, swallowing a comb from the inside
            let left = rng.chance(1, 2);
            let mut x = a("1");
            for _ in 0..n {
                let y = leaf(rng);
                x = l("h", if left { vec![x, y] } else { vec![y, x] });
            }
            (x, vec![if left { r("(h 1 ?a)", "1") } else { r("(h ?a 1)", "1") }])
        }
        1 => {
            // a nest of brackets
            let mut x = leaf(rng);
            for _ in 0..n {
                x = l("g", vec![x]);
            }
            for _ in 0..n {
                x = l("f", vec![x]);
            }
            (x, vec![r("(f (g ?a))", "?a")])
        }
        2 => {
            // several kinds of step, each enabling the next
            let mut x = a("0");
            for i in 0..n {
                x = match (i + rng.below(2)) % 3 {
                    0 => l("h", vec![x, leaf(rng)]),
                    1 => l("k", vec![a("1"), x]),
                    _ => l("f", vec![l("g", vec![x])]),
                };
            }
            (x, vec![r("(h 0 ?a)", "0"), r("(k 1 ?b)", "?b"), r("(f (g ?a))", "?a"), r("(k 0 ?a)", "0")])
        }
        3 => {
            // equal arguments, once the previous step has made them so
            let mut x = a("a");
            for _ in 0..n.min(7) {
                let y = l("f", vec![x.clone()]);
                x = l("h", vec![l("k", vec![y.clone(), a("0")]), y]);
            }
            (x, vec![r("(h ?a ?a)", "?a"), r("(k ?a 0)", "?a")])
        }
        _ => {
            // growing rules: something travels along a chain
            let mut x = leaf(rng);
            x = l("g", vec![x]);
            for _ in 0..n {
                x = l("f", vec![x]);
            }
            (x, vec![r("(f (g ?a))", "(g (f ?a))")])
        }
    };
    if rng.chance(1, 3) {
        rules.push(r("(f ?a)", "(k ?a ?a)"));
    }
    if rng.chance(1, 4) {
        rules.push(growing(rng));
    }
    let top = if rng.chance(1, 2) { term } else { l("t", vec![term, a("c"), leaf(rng)]) };
    let k = match rng.below(3) {
        0 => rng.below(3),
        1 => rng.range(n.saturating_sub(2), n + 2),
        _ => rng.below(n + 5),
    };
    let eg = mon_graph(&mut c.rng, &[top], 0)?;
    let rs = ruleset::<Mon>(&rules);
    let rules = rules_of(&rs);
    let (m0, map) = to_model(&eg);
    let descr = || format!("on {} with {}", show_graph(&eg), show_rules(&rules));
    for saturating in [false, true] {
        let mut m = m0.clone();
        let k = if saturating { k.min(3) } else { k };
        let fits = if saturating { m.alternate(&rules, k, CAP) } else { m.rounds(&rules, k, CAP) };
        if fits.is_none() {
            c.count("too large", 1);
            continue;
        }
        let s = if saturating { Scheduler::Saturating(lim(k, HUGE, HUGE)) } else { Scheduler::Simple(lim(k, HUGE, HUGE)) };
        let out = run(s, &eg, &rs)?;
        c.eval();
        if let Err(e) = same_shape(&eg, &out, &m, &map) {
            let name = if saturating { "saturating" } else { "simple" };
            return viol(&format!("{name} scheduler on a long reduction"), format!("{name}, {k} iterations, {}: {e}", descr()));
        }
        if m.classes() != m0.classes() {
            c.nontrivial((show_graph(&eg), show_rules(&rules), k, saturating));
            c.count(if saturating { "saturating" } else { "simple" }, 1);
        }
    }
    Ok(())
}
/// A growing rule: every round adds nodes.
fn growing(rng: &mut Rng) -> Rule2 {
    loop {
        let r = mon_rule(rng);
        if grows_by(&r) > 0 {
            return r;
        }
    }
}
fn eq_parts(eg: &Eg<Mon>, x: &Eg<Mon>, y: &Eg<Mon>) -> bool {
    let ids = classes(eg);
    partition_by(ids.iter().map(|i| x.find(*i)).collect()) == partition_by(ids.iter().map(|i| y.find(*i)).collect())
        && classes(x).len() == classes(y).len()
        && canonical_nodes(x) == canonical_nodes(y)
}
fn c07_node(c: &mut Case) -> Res {
    let mut rules = vec![growing(&mut c.rng)];
    let terms = mon_input(&mut c.rng, &rules);
    let u = c.rng.below(2);
    let eg = mon_graph(&mut c.rng, &terms, u)?;
    let single = c.rng.chance(2, 3);
    let saturating = c.rng.chance(1, 2);
    if !single {
        let k = c.rng.range(1, 3);
        rules.extend((0..k).map(|_| if saturating { mon_rule(&mut c.rng) } else { growing(&mut c.rng) }));
        rules.dedup();
    }
    let rs = ruleset::<Mon>(&rules);
    let rules = rules_of(&rs);
    let others = rules.iter().filter(|r| grows_by(r) > 0).count();
    let limit_k = c.rng.range(2, 5);
    let (m0, _) = to_model(&eg);
    // the states after 0, 1, 2, ... rounds, while they are small
    let mk = |k: usize, node: usize| {
        if saturating {
            Scheduler::Saturating(lim(k, node, HUGE))
        } else {
            Scheduler::Simple(lim(k, node, HUGE))
        }
    };
    let mut states: Vec<Eg<Mon>> = vec![];
    for k in 0..=limit_k {
        let mut m = m0.clone();
        let fits = if saturating { m.alternate(&rules, k, CAP) } else { m.rounds(&rules, k, CAP) };
        if fits.is_none() {
            break;
        }
        states.push(run(mk(k, HUGE), &eg, &rs)?);
    }
    if states.len() < 2 {
        c.count("too large", 1);
        return Ok(());
    }
    let kmax = states.len() - 1;
    let lo = canonical_nodes(&eg);
    let hi = states.iter().map(|s| canonical_nodes(s)).max().unwrap().max(lo) + 2;
    let limit = c.rng.range(lo.saturating_sub(2), hi);
    let out = run(mk(kmax, limit), &eg, &rs)?;
    c.eval();
    // no round may start from a state with more canonical nodes than the limit;
    // a round must start from a state with at most `limit` nodes, counting stale ones
    let mut ok = false;
    let mut stops = vec![];
    for (j, s) in states.iter().enumerate() {
        let must_go = s.total_size() <= limit && j < kmax;
        if must_go {
            continue;
        }
        stops.push(j);
        if others <= 1 {
            ok |= eq_parts(&eg, &out, s);
        } else {
            // the round that passes the limit may be cut short between rules
            let prev = if j == 0 { s } else { &states[j - 1] };
            let ids = classes(&eg);
            let between = |x: &Eg<Mon>, y: &Eg<Mon>| {
                ids.iter().all(|p| ids.iter().all(|q| x.find(*p) != x.find(*q) || y.find(*p) == y.find(*q)))
            };
            ok |= between(prev, &out) && between(&out, s) && canonical_nodes(&out) <= s.total_size().max(prev.total_size());
        }
        if canonical_nodes(s) > limit {
            break; // nothing may happen after this state
        }
    }
    if !ok {
        return viol(
            "node limit",
            format!(
                "{:?} on {} with {}: {} nodes; without limit the rounds have {:?} nodes; it should stop after round {:?}",
                mk(kmax, limit),
                show_graph(&eg),
                show_rules(&rules),
                canonical_nodes(&out),
                states.iter().map(|s| canonical_nodes(s)).collect::<Vec<_>>(),
                stops
            ),
        );
    }
    if stops[0] < kmax && canonical_nodes(&states[kmax]) > canonical_nodes(&states[stops[0]]) {
        c.count("stopped early", 1);
        c.nontrivial((show_graph(&eg), show_rules(&rules), limit));
    }
    c.sample(|| format!("limit {limit} on {} with {}", show_graph(&eg), show_rules(&rules)));
    Ok(())
}
fn c07_match(c: &mut Case) -> Res {
    // distinct matches of a rule are visible as distinct new nodes
    let n = c.rng.range(1, 10);
    let ops = c.rng.range(1, 3);
    let mut terms = vec![];
    for o in 0..ops {
        for i in 0..n {
            terms.push(l(&format!("f{o}"), vec![a(&format!("v{i}")), a("0")]));
            if c.rng.chance(1, 4) {
                terms.push(l("q", vec![l(&format!("f{o}"), vec![a(&format!("v{i}")), a("0")])]));
            }
        }
    }
    // some of the matched terms are equal: one class with several matches
    let mut eg: Eg<Mon> = EGraph::default();
    for t in &terms {
        eg.add_expr(&rexpr::<Mon>(t));
    }
    for _ in 0..c.rng.below(4) {
        let (x, y) = (c.rng.pick(&terms).clone(), c.rng.pick(&terms).clone());
        if x.op().starts_with('f') && y.op().starts_with('f') {
            let (x, y) = (look(&eg, &x).unwrap(), look(&eg, &y).unwrap());
            eg.union(x, y);
            eg.rebuild();
        }
    }
    let rules: Vec<Rule2> = (0..ops)
        .map(|o| (T::parse(&format!("(f{o} ?x 0)")), T::parse(&format!("(n{o} (m{o} ?x))"))))
        .collect();
    let rs = ruleset::<Mon>(&rules);
    let limit = c.rng.range(1, n + 2);
    let k = c.rng.range(1, 2);
    let s = if c.rng.chance(1, 2) {
        Scheduler::Simple(lim(k, HUGE, limit))
    } else {
        Scheduler::Saturating(lim(k, HUGE, limit))
    };
    let (m, _) = to_model(&eg);
    let out = run(s, &eg, &rs)?;
    c.eval();
    let all: Vec<(String, Vec<usize>)> = dump(&out).into_values().flatten().collect();
    for o in 0..ops {
        let total = m.search(&rules[o..o + 1]).len();
        let new = all.iter().filter(|(op, _)| *op == format!("m{o}")).count();
        if new > limit * k {
            return viol(
                "match limit exceeded",
                format!("{}: rule {} was applied {new} times in {k} round(s) of at most {limit}", sname(&s), show_rules(&rules[o..o + 1])),
            );
        }
        if limit >= total && new != total {
            return viol(
                "matches missed",
                format!("{}: rule {} was applied {new} times, it has {total} matches", sname(&s), show_rules(&rules[o..o + 1])),
            );
        }
        if limit < total {
            c.count("limited", 1);
            c.nontrivial((n, ops, limit, show_graph(&eg)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C08
fn c08_class(c: &mut Case) -> Res {
    let r = mon_rule(&mut c.rng);
    c08_rule(c, r)
}
fn c08_rule(c: &mut Case, r: Rule2) -> Res {
    let rule = mk_rule::<Mon>(&r.0, &r.1);
    let got = real("is_saturating", || rule.is_saturating())?;
    let g = grows_by(&r);
    c.eval();
    c.nontrivial((r.0.to_string(), r.1.to_string()));
    c.count(if g > 0 { "growing rules" } else { "saturating rules" }, 1);
    if got != (g <= 0) {
        return viol(
            "wrong classification",
            format!("{} is_saturating = {got}, applying it to its left side changes the number of classes by {g}", show_rules(&[r])),
        );
    }
    if !got {
        return Ok(());
    }
    for _ in 0..3 {
        let n = c.rng.range(1, 5);
        let mut terms = mon_terms(&mut c.rng, n, 3);
        // make sure it applies
        let sig = Sig::new(&["a", "b", "0", "1"], &MON_OPS);
        let sub: BTreeMap<String, T> = r.0.pvars().into_iter().map(|v| (v, sig.gen(&mut c.rng, 1))).collect();
        terms.push(r.0.subst(&sub));
        let u = c.rng.below(4);
        let eg = mon_graph(&mut c.rng, &terms, u)?;
        let k = c.rng.range(1, 4);
        let mut rs = Ruleset::default();
        rs.add(rule.clone());
        let out = run(Scheduler::Simple(lim(k, 5000, HUGE)), &eg, &rs)?;
        c.eval();
        c.count("applications", 1);
        if out.number_of_classes() > eg.number_of_classes() {
            return viol(
                "saturating rule added classes",
                format!("{} on {}: {} classes became {}", show_rules(&[r.clone()]), show_graph(&eg), eg.number_of_classes(), out.number_of_classes()),
            );
        }
    }
    Ok(())
}
/// Rules with long sides.
fn c08_long(c: &mut Case) -> Res {
    c.bigger(|c| {
        let sig = Sig::new(&["?a", "?b", "?c", "0", "1"], &MON_OPS);
        let n = c.rng.range(6, 60);
        let lhs = sig.gen_long(&mut c.rng, n);
        let mut subs = vec![];
        lhs.subterms(&mut subs);
        let rhs = match c.rng.below(3) {
            0 => (*c.rng.pick(&subs)).clone(),
            1 => {
                let (op, k) = *c.rng.pick(&MON_OPS);
                l(op, (0..k).map(|_| (*c.rng.pick(&subs)).clone()).collect())
            }
            _ => {
                // new material deep inside, or none
                let at = (*c.rng.pick(&subs)).clone();
                let to = (*c.rng.pick(&subs)).clone();
                swap(&lhs, &at, &to)
            }
        };
        if lhs == rhs || !matches!(lhs, T::L(_)) {
            return Ok(());
        }
        c08_rule(c, (lhs, rhs))
    })
}
/// Replaces all occurrences.
fn swap(t: &T, from: &T, to: &T) -> T {
    if t == from {
        return to.clone();
    }
    match t {
        T::A(_) => t.clone(),
        T::L(_) => l(t.op(), t.kids().iter().map(|k| swap(k, from, to)).collect()),
    }
}
fn c08_bv(c: &mut Case) -> Res {
    type B = b3::Bv;
    let r = bv3_laws().pick(&mut c.rng);
    let rule = mk_rule::<B>(&r.0, &r.1);
    let got = real("is_saturating", || rule.is_saturating())?;
    let g = grows_by(&r);
    c.eval();
    if got != (g <= 0) {
        return viol("wrong classification", format!("{} is_saturating = {got}, grows by {g}", show_rules(&[r])));
    }
    if !got {
        return Ok(());
    }
    let sig = Sig::new(&["a", "b", "0", "1", "5", "7"], &crate::checks::bits::BVOPS);
    let n = c.rng.range(1, 6);
    let mut terms: Vec<T> = (0..n).map(|_| sig.gen(&mut c.rng, 3)).collect();
    let sub: BTreeMap<String, T> = r.0.pvars().into_iter().map(|v| (v, sig.gen(&mut c.rng, 1))).collect();
    terms.push(r.0.subst(&sub));
    let w = crate::checks::an::wkld_of(&terms, &mut c.rng);
    let mut eg = real("to_egraph", || w.to_egraph::<B>())?;
    real("rebuild", || eg.rebuild())?;
    let mut rs = Ruleset::default();
    rs.add(rule.clone());
    let out = run(Scheduler::Simple(lim(3, 5000, HUGE)), &eg, &rs)?;
    c.eval();
    if out.number_of_classes() > eg.number_of_classes() {
        return viol(
            "saturating rule added classes",
            format!("{}: {} classes became {}", show_rules(&[r]), eg.number_of_classes(), out.number_of_classes()),
        );
    }
    c.nontrivial((r.0.to_string(), r.1.to_string()));
    Ok(())
}

// ------------------------------------------------------------ C09
fn can(rs: &Ruleset<Mon>, lhs_only: bool, rule: &Rule<Mon>, l_: Limits) -> Res<bool> {
    let dt = if lhs_only { DeriveType::Lhs } else { DeriveType::LhsAndRhs };
    real("can_derive", || rs.can_derive(dt, rule, l_))
}
/// What the reference derives; None if it gets too large.
fn ref_derives(rules: &[Rule2], r: &Rule2, lhs_only: bool, k: usize) -> Option<bool> {
    let mut m = M::default();
    let (lt, rt) = (r.0.unpat(), r.1.unpat());
    m.add_term(&lt);
    if !lhs_only {
        m.add_term(&rt);
    }
    m.alternate(rules, k, CAP)?;
    Some(matches!((m.lookup(&lt), m.lookup(&rt)), (Some(x), Some(y)) if x == y))
}
/// A rule that the given rules derive: rewrite an instance of something at random.
pub fn consequence(rng: &mut Rng, rules: &[Rule2]) -> Option<Rule2> {
    let sig = Sig::new(&["?a", "?b", "0", "1"], &MON_OPS[..4]);
    let (l0, _) = rng.pick(rules).clone();
    let sub: BTreeMap<String, T> = l0.pvars().into_iter().map(|v| (v, sig.gen(rng, 1))).collect();
    let mut t = l0.subst(&sub);
    if rng.chance(1, 2) {
        t = l("f", vec![t]);
    }
    let start = t.clone();
    for _ in 0..rng.range(1, 3) {
        // one rewrite somewhere, found with the reference
        let mut cands = vec![];
        for (lp, rp) in rules {
            rewrite_all(&t, lp, rp, &mut |u| cands.push(u));
        }
        if cands.is_empty() {
            break;
        }
        t = rng.pick(&cands).clone();
    }
    let lv = start.pvars();
    if t == start || !t.pvars().iter().all(|v| lv.contains(v)) || !matches!(start, T::L(_)) {
        return None;
    }
    Some((start, t))
}
fn pmatch(p: &T, t: &T, env: &mut BTreeMap<String, T>) -> bool {
    match p {
        T::A(s) if s.starts_with('?') => match env.get(s) {
            Some(u) => u == t,
            None => {
                env.insert(s.clone(), t.clone());
                true
            }
        },
        T::A(_) => p == t,
        T::L(_) => {
            p.op() == t.op() && p.kids().len() == t.kids().len() && p.kids().iter().zip(t.kids()).all(|(p, t)| pmatch(p, t, env))
        }
    }
}
pub fn rewrite_all(t: &T, lp: &T, rp: &T, out: &mut dyn FnMut(T)) {
    let mut env = BTreeMap::new();
    if pmatch(lp, t, &mut env) {
        out(rp.subst(&env));
    }
    for i in 0..t.kids().len() {
        let mut inner = vec![];
        rewrite_all(&t.kids()[i], lp, rp, &mut |u| inner.push(u));
        for u in inner {
            let mut kids = t.kids().to_vec();
            kids[i] = u;
            out(l(t.op(), kids));
        }
    }
}
fn c09_exact(c: &mut Case) -> Res {
    let nr = c.rng.range(1, 5);
    let rules = mon_rules(&mut c.rng, nr);
    let rs = ruleset::<Mon>(&rules);
    let rules = rules_of(&rs);
    let mut targets: Vec<Rule2> = vec![mon_rule(&mut c.rng)];
    for _ in 0..4 {
        if let Some(t) = consequence(&mut c.rng, &rules) {
            targets.push(t);
        }
    }
    targets.push(c.rng.pick(&rules).clone());
    let against = ruleset::<Mon>(&targets);
    let targets = rules_of(&against);
    let k = c.rng.below(4);
    let big = lim(k, HUGE, HUGE);
    let small = small_limits(&mut c.rng, k);
    for lhs_only in [true, false] {
        let mut verdicts = vec![];
        for t in &targets {
            let want = match ref_derives(&rules, t, lhs_only, k) {
                Some(w) => w,
                None => {
                    c.count("too large", 1);
                    return Ok(());
                }
            };
            let rule = mk_rule::<Mon>(&t.0, &t.1);
            let got = can(&rs, lhs_only, &rule, big)?;
            c.eval();
            c.count(if want { "derivable" } else { "not derivable" }, 1);
            if got != want {
                return viol(
                    if want { "derivable but refused" } else { "derived without justification" },
                    format!(
                        "{} derive {} ({}, {k} iterations): {got}, want {want}",
                        show_rules(&rules),
                        show_rules(&[t.clone()]),
                        if lhs_only { "from the left side" } else { "from both sides" }
                    ),
                );
            }
            if k >= 1 && rules.contains(t) && !got {
                return viol("own rule refused", format!("{} do not derive their own {}", show_rules(&rules), show_rules(&[t.clone()])));
            }
            let lg = can(&rs, lhs_only, &rule, small)?;
            if lg && !want {
                return viol("derived without justification", format!("{} derive {} under {small:?}", show_rules(&rules), show_rules(&[t.clone()])));
            }
            if want {
                c.nontrivial((show_rules(&rules), show_rules(&[t.clone()]), lhs_only, k));
            }
            verdicts.push(got);
        }
        let dt = if lhs_only { DeriveType::Lhs } else { DeriveType::LhsAndRhs };
        let (yes, no) = real("derive", || rs.derive(dt, &against, big))?;
        let wy: Vec<Rule2> = targets.iter().zip(&verdicts).filter(|(_, v)| **v).map(|(t, _)| t.clone()).collect();
        let wn: Vec<Rule2> = targets.iter().zip(&verdicts).filter(|(_, v)| !**v).map(|(t, _)| t.clone()).collect();
        c.eval();
        if rules_of(&yes) != wy || rules_of(&no) != wn {
            return viol(
                "derive split",
                format!(
                    "{} deriving {}: derivable [{}], not derivable [{}], single verdicts say [{}] and [{}]",
                    show_rules(&rules),
                    show_rules(&targets),
                    show_rules(&rules_of(&yes)),
                    show_rules(&rules_of(&no)),
                    show_rules(&wy),
                    show_rules(&wn)
                ),
            );
        }
    }
    c.sample(|| format!("{} | {}", show_rules(&rules), show_rules(&targets)));
    Ok(())
}
/// Derivations of many steps, among many rules that have nothing to do with them.
fn c09_chain(c: &mut Case) -> Res {
    let m = c.rng.range(3, 14);
    let mut rules: Vec<Rule2> = vec![];
    let ctx = c.rng.chance(1, 2);
    // s0 -> s1 -> ... -> sm, each step possibly with something new around it
    let step = |i: usize, rng: &mut Rng| -> T {
        let x = l(&format!("s{i}"), vec![a("?x")]);
        if ctx && rng.chance(1, 3) {
            l("h", vec![x, a("0")])
        } else {
            x
        }
    };
    let mut cur = step(0, &mut c.rng);
    let first = cur.clone();
    let mut path = vec![cur.clone()];
    for i in 1..=m {
        let next = step(i, &mut c.rng);
        rules.push((cur.clone(), next.clone()));
        if c.rng.chance(1, 4) {
            rules.push((next.clone(), cur.clone()));
        }
        path.push(next.clone());
        cur = next;
    }
    let _ = first;
    for i in 0..c.rng.below(300) {
        rules.push((l(&format!("z{i}"), vec![a("?x")]), l("f", vec![a("?x")])));
    }
    c.rng.shuffle(&mut rules);
    let rs = ruleset::<Mon>(&rules);
    let rules = rules_of(&rs);
    let k = c.rng.below(m + 2);
    let mut targets: Vec<Rule2> = vec![];
    for _ in 0..c.rng.range(2, 8) {
        let (i, j) = (c.rng.below(m + 1), c.rng.below(m + 1));
        if i != j {
            let mut t = (path[i].clone(), path[j].clone());
            if c.rng.chance(1, 2) {
                let n = c.rng.range(1, 30);
                for _ in 0..n {
                    t = (l("g", vec![t.0]), l("g", vec![t.1]));
                }
            }
            targets.push(t);
        }
    }
    let against = ruleset::<Mon>(&targets);
    for lhs_only in [true, false] {
        let mut want: (Vec<String>, Vec<String>) = (vec![], vec![]);
        for t in rules_of(&against) {
            let w = match ref_derives(&rules, &t, lhs_only, k) {
                Some(w) => w,
                None => {
                    c.count("too large", 1);
                    return Ok(());
                }
            };
            c.count(if w { "derivable" } else { "not derivable" }, 1);
            let name = show_rules(&[t.clone()]);
            if w { &mut want.0 } else { &mut want.1 }.push(name);
        }
        let dt = if lhs_only { DeriveType::Lhs } else { DeriveType::LhsAndRhs };
        let (y, n) = real("derive", || rs.derive(dt, &against, lim(k, HUGE, HUGE)))?;
        c.eval();
        let got = (
            rules_of(&y).into_iter().map(|t| show_rules(&[t])).collect::<Vec<_>>(),
            rules_of(&n).into_iter().map(|t| show_rules(&[t])).collect::<Vec<_>>(),
        );
        if got != want {
            return viol(
                "derive split",
                format!("{m} steps, {} rules, {k} iterations, from {}: derivable {:?}, want {:?}", rules.len(), if lhs_only { "the left side" } else { "both sides" }, got, want),
            );
        }
        if !want.0.is_empty() {
            c.nontrivial((&want, k, lhs_only, rules.len()));
        }
    }
    Ok(())
}
/// What valid rules derive is valid.
fn c09_sound(c: &mut Case) -> Res {
    type B = b3::Bv;
    let laws = bv3_laws();
    let nr = c.rng.range(1, 5);
    let rules: Vec<Rule2> = (0..nr).map(|_| laws.pick(&mut c.rng)).collect();
    let rs = ruleset::<B>(&rules);
    let sig = Sig::new(&["?x", "?y", "0", "1", "7"], &crate::checks::bits::BVOPS);
    for _ in 0..4 {
        let (lhs, rhs) = if c.rng.chance(1, 2) {
            laws.pick(&mut c.rng)
        } else {
            let sub: BTreeMap<String, T>;
            let t = {
                let lhs = c.rng.pick(&rules).0.clone();
                sub = lhs.pvars().into_iter().map(|v| (v, sig.gen(&mut c.rng, 1))).collect();
                lhs.subst(&sub)
            };
            let mut us = vec![];
            for (lp, rp) in &rules {
                rewrite_all(&t, lp, rp, &mut |u| us.push(u));
            }
            // a near miss or a real consequence
            let u = if us.is_empty() || c.rng.chance(1, 2) { sig.gen(&mut c.rng, 2) } else { c.rng.pick(&us).clone() };
            (t, u)
        };
        let lv = lhs.pvars();
        if lhs == rhs || !rhs.pvars().iter().all(|v| lv.contains(v)) {
            continue;
        }
        let dt = if c.rng.chance(1, 2) { DeriveType::Lhs } else { DeriveType::LhsAndRhs };
        let rule = mk_rule::<B>(&lhs, &rhs);
        let k = c.rng.range(1, 3);
        let got = real("can_derive", || rs.can_derive(dt, &rule, lim(k, 3000, 300)))?;
        c.eval();
        let valid = bv3_vec(&lhs, &["?x", "?y"]) == bv3_vec(&rhs, &["?x", "?y"]);
        if got && !valid {
            return viol("invalid rule derived", format!("{} derive {lhs} ==> {rhs}, which is not valid for 3 bits", show_rules(&rules)));
        }
        if got {
            c.nontrivial((show_rules(&rules), lhs.to_string(), rhs.to_string()));
            c.count("derived", 1);
        }
        if !valid {
            c.count("invalid targets", 1);
        }
    }
    Ok(())
}
/// Prints the report for each pair of files named in the batch.
pub fn worker_report(file: &str) {
    for (i, line) in std::fs::read_to_string(file).expect("batch").lines().enumerate() {
        let w: Vec<&str> = line.split(' ').collect();
        println!("=== {i}");
        let dt = if w[0] == "lhs" { DeriveType::Lhs } else { DeriveType::LhsAndRhs };
        Ruleset::<Mon>::print_derive(dt, w[1], w[2]);
    }
}
/// The printed report says what deriving says.
fn c09_report(c: &mut Case) -> Res {
    let mut batch = vec![];
    let mut wants = vec![];
    let mut files = vec![];
    while wants.len() < 12 {
        let nr = c.rng.range(1, 4);
        let rules = rules_of(&ruleset::<Mon>(&mon_rules(&mut c.rng, nr)));
        let mut targets: Vec<Rule2> = vec![mon_rule(&mut c.rng)];
        for _ in 0..3 {
            targets.extend(consequence(&mut c.rng, &rules));
        }
        targets.push(c.rng.pick(&rules).clone());
        targets.retain(|(x, y)| x != y);
        let targets = rules_of(&ruleset::<Mon>(&targets));
        let lhs_only = c.rng.chance(1, 2);
        let verdicts: Option<Vec<bool>> = targets.iter().map(|t| ref_derives(&rules, t, lhs_only, 5)).collect();
        let verdicts = match verdicts {
            Some(v) => v,
            None => continue,
        };
        let (one, two) = (format!("one-{:x}-{}", c.seed, wants.len()), format!("two-{:x}-{}", c.seed, wants.len()));
        ruleset::<Mon>(&rules).to_file(&one);
        ruleset::<Mon>(&targets).to_file(&two);
        batch.push(format!("{} {one} {two}", if lhs_only { "lhs" } else { "both" }));
        let missing: Vec<Rule2> = targets.iter().zip(&verdicts).filter(|(_, v)| !**v).map(|(t, _)| t.clone()).collect();
        wants.push((rules.clone(), targets.clone(), missing));
        files.extend([one, two]);
    }
    let path = format!("report-{:x}", c.seed);
    std::fs::write(&path, batch.join("\n")).expect("harness: write");
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["worker", "report", &path])
        .output()
        .expect("harness: worker");
    files.push(path);
    for f in &files {
        let _ = std::fs::remove_file(f);
    }
    if !out.status.success() {
        return viol("print_derive: panicked", String::from_utf8_lossy(&out.stderr).to_string());
    }
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut got: Vec<Vec<String>> = vec![];
    for line in text.lines() {
        if line.starts_with("=== ") {
            got.push(vec![]);
        } else if let Some(g) = got.last_mut() {
            g.push(line.to_string());
        }
    }
    if got.len() != wants.len() {
        panic!("harness: {} reports of {}", got.len(), wants.len());
    }
    for (((rules, targets, missing), g), b) in wants.iter().zip(&got).zip(&batch) {
        c.eval();
        let bad = |what: String| {
            viol::<()>("derivability report", format!("{what}: {} deriving {} ({b}) printed {g:?}", show_rules(rules), show_rules(targets)))
        };
        // the numbers of the report, in the order they are announced; file names carry none between brackets
        let head = g.iter().position(|l| l.contains("Missing")).map(|i| i + 1).unwrap_or(0);
        let nums: Vec<usize> = {
            let t = g[..head].join(" ");
            t.split(|ch: char| " (),.".contains(ch)).filter_map(|w| w.parse().ok()).collect()
        };
        let want = vec![rules.len(), targets.len(), targets.len() - missing.len(), missing.len()];
        if nums != want {
            return bad(format!("numbers {nums:?}, want {want:?}"));
        }
        let mut listed: BTreeSet<String> = BTreeSet::new();
        for l in &g[head..] {
            match l.split_once(" <=> ") {
                Some((x, y)) => {
                    listed.insert(format!("{x} ==> {y}"));
                    listed.insert(format!("{y} ==> {x}"));
                }
                None => {
                    listed.insert(l.clone());
                }
            }
        }
        let want: BTreeSet<String> = missing.iter().map(|(x, y)| format!("{x} ==> {y}")).collect();
        if listed != want {
            return bad(format!("missing rules listed {listed:?}, want {want:?}"));
        }
        if !missing.is_empty() && missing.len() < targets.len() {
            c.nontrivial((show_rules(rules), show_rules(targets)));
        }
    }
    Ok(())
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C05",
            rule: "random rules, inputs, schedulers and limits: classes of the result against a reference e-graph (symbolic), and against a reference evaluation (integers mod 5, 3-bit vectors) with rules that hold semantically; non-trivial: something merged",
            assumptions: vec!["the semantic sections use rules that hold in the domain"],
            shards: 1,
            sections: vec![sec("sym", 40000, 600000, c05_sym), sec("z5", 20000, 300000, c05_z5), sec("bv", 12000, 150000, c05_bv), sec("big", 200, 3000, c05_big)],
        },
        CheckDef {
            id: "C06",
            rule: "random rules, inputs and limits: the input graph compared before and after, every input node looked up in the output, compress compared with the congruence closure of what the simple scheduler relates; non-trivial: compression merged classes",
            assumptions: vec![],
            shards: 1,
            sections: vec![sec("sym", 20000, 500000, c06_sym), sec("z5", 6000, 150000, c06_z5), sec("bv", 6000, 150000, c06_bv), sec("big", 160, 4000, c06_big), sec("star", 120, 3000, c06_star)],
        },
        CheckDef {
            id: "C07",
            rule: "random rules and inputs: schedulers without effective limits against a reference implementation of rounds and alternation; node limits against the states after each round; match limits by counting applications; non-trivial: rules changed something or the limit bit",
            assumptions: vec![],
            shards: 1,
            sections: vec![sec("full", 15000, 400000, c07_full), sec("tower", 3000, 60000, c07_tower), sec("padded", 160, 4000, c07_pad), sec("node", 10000, 300000, c07_node), sec("match", 8000, 150000, c07_match)],
        },
        CheckDef {
            id: "C08",
            rule: "random rules classified and compared with a reference, saturating ones applied to random e-graphs; non-trivial: distinct rules",
            assumptions: vec!["domains with total operators"],
            shards: 1,
            sections: vec![sec("sym", 120000, 800000, c08_class), sec("long", 4000, 100000, c08_long), sec("bv", 32000, 200000, c08_bv)],
        },
        CheckDef {
            id: "C09",
            rule: "random rulesets and targets (random and consequences by construction): verdicts in both modes against the reference schedule, and against validity in 3-bit vectors; non-trivial: derivable targets",
            assumptions: vec![],
            shards: 1,
            sections: vec![sec("exact", 10000, 300000, c09_exact), sec("chain", 1500, 30000, c09_chain), sec("sound", 4000, 150000, c09_sound), sec("report", 60, 1500, c09_report)],
        },
    ]
}
