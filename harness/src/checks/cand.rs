//! Rule candidates: cvec matching (C10, C11), extraction of merged pairs (C12), generalisation (C27).
use crate::checks::an::{pl_sig, wkld_of};
use crate::checks::sat::{mon_rules, pl_laws, MON_OPS};
use crate::eg::*;
use crate::fw::*;
use crate::langs::*;
use crate::model::Rule2;
use crate::term::*;
use ruler::enumo::{Ruleset, Scheduler};
use ruler::*;
use std::collections::{BTreeMap, BTreeSet, HashSet as StdSet};

pub fn is_var_name(s: &str) -> bool {
    s.chars().next().map_or(false, |c| c.is_alphabetic())
}
/// A ground pair or a rule with its variables renamed by first occurrence.
pub fn canon(l_: &T, r_: &T) -> (T, T) {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let mut go = |t: &T| {
        t.map_leaves(&mut |s| {
            let bare = s.strip_prefix('?').unwrap_or(s);
            if s.starts_with('?') || is_var_name(s) {
                let n = m.len();
                a(m.entry(bare.to_string()).or_insert_with(|| format!("?v{n}")))
            } else {
                a(s)
            }
        })
    };
    let x = go(l_);
    let y = go(r_);
    (x, y)
}
pub fn gvars(t: &T) -> BTreeSet<String> {
    let mut v = vec![];
    t.leaves(&mut v);
    v.into_iter().filter(|s| is_var_name(s)).map(|s| s.to_string()).collect()
}
type Nodes = BTreeMap<usize, Vec<(String, Vec<usize>)>>;
/// All smallest terms of every class that has one, from allowed operators only.
/// None: more than `cap` of them.
pub fn smallest_terms(d: &Nodes, allowed: &dyn Fn(&str, usize) -> bool, cap: usize) -> BTreeMap<usize, Option<Vec<T>>> {
    let mut cost: BTreeMap<usize, usize> = BTreeMap::new();
    loop {
        let mut changed = false;
        for (c, ns) in d {
            for (op, kids) in ns {
                if !allowed(op, kids.len()) {
                    continue;
                }
                let s: Option<usize> = kids.iter().map(|k| cost.get(k).copied()).sum::<Option<usize>>();
                if let Some(s) = s {
                    if cost.get(c).map_or(true, |o| s + 1 < *o) {
                        cost.insert(*c, s + 1);
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    let mut order: Vec<usize> = cost.keys().copied().collect();
    order.sort_by_key(|c| cost[c]);
    let mut out: BTreeMap<usize, Option<Vec<T>>> = BTreeMap::new();
    for c in order {
        let mut all: Vec<T> = vec![];
        let mut many = false;
        for (op, kids) in &d[&c] {
            if !allowed(op, kids.len()) || kids.iter().any(|k| !cost.contains_key(k)) {
                continue;
            }
            if 1 + kids.iter().map(|k| cost[k]).sum::<usize>() != cost[&c] {
                continue;
            }
            let mut rows: Vec<Vec<T>> = vec![vec![]];
            for k in kids {
                match &out[k] {
                    None => many = true,
                    Some(ts) => {
                        let mut next = vec![];
                        for r in &rows {
                            for t in ts {
                                let mut r2 = r.clone();
                                r2.push(t.clone());
                                next.push(r2);
                            }
                        }
                        rows = next;
                    }
                }
                if rows.len() > cap {
                    many = true;
                }
                if many {
                    break;
                }
            }
            if many {
                break;
            }
            for r in rows {
                all.push(if r.is_empty() { a(op) } else { l(op, r) });
            }
        }
        all.sort();
        all.dedup();
        if all.len() > cap {
            many = true;
        }
        out.insert(c, if many { None } else { Some(all) });
    }
    out
}
fn wf(l_: &T, r_: &T) -> bool {
    gvars(r_).is_subset(&gvars(l_))
}
/// The candidates must be exactly those of the given (unordered) pairs of classes.
fn judge(
    c: &mut Case,
    cands: &[Rule2],
    mins: &BTreeMap<usize, Option<Vec<T>>>,
    pairs: &[(usize, usize)],
    descr: &dyn Fn() -> String,
) -> Res {
    let mut justified: StdSet<(T, T)> = StdSet::new();
    let have: StdSet<(T, T)> = cands.iter().map(|(x, y)| canon(x, y)).collect();
    for (p, q) in pairs {
        let (ps, qs) = match (&mins[p], &mins[q]) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                c.count("too many smallest terms", 1);
                return Ok(());
            }
        };
        let mut ok = false;
        for x in ps {
            for y in qs {
                let (f, b) = (wf(x, y), wf(y, x));
                let (cf, cb) = (canon(x, y), canon(y, x));
                ok |= (!f || have.contains(&cf)) && (!b || have.contains(&cb));
                if f {
                    justified.insert(cf);
                }
                if b {
                    justified.insert(cb);
                }
            }
        }
        c.eval();
        if !ok {
            return viol(
                "pair missed",
                format!(
                    "no candidates for {} and {} ({} candidates: {}): {}",
                    ps[0],
                    qs[0],
                    cands.len(),
                    show_rules(&cands[..cands.len().min(12)]),
                    descr()
                ),
            );
        }
    }
    for (x, y) in cands {
        let xv = x.pvars();
        if !y.pvars().iter().all(|v| xv.contains(v)) {
            return viol("ill-formed candidate", format!("{x} ==> {y}: {}", descr()));
        }
        c.eval();
        if !justified.contains(&canon(x, y)) {
            return viol(
                "unjustified candidate",
                format!("{x} ==> {y} is not between smallest terms of a matching pair: {}", descr()),
            );
        }
    }
    c.count("pairs", pairs.len() as u64);
    c.count("candidates", cands.len() as u64);
    Ok(())
}
fn pairs_of(ids: &[usize], f: &dyn Fn(usize, usize) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, x) in ids.iter().enumerate() {
        for y in &ids[i + 1..] {
            if f(*x, *y) {
                v.push((*x, *y));
            }
        }
    }
    v
}
fn compat<X: PartialEq>(x: &[Option<X>], y: &[Option<X>]) -> bool {
    let mut same = 0;
    for (p, q) in x.iter().zip(y) {
        if let (Some(p), Some(q)) = (p, q) {
            if p != q {
                return false;
            }
            same += 1;
        }
    }
    same > 0
}
fn any_op(_: &str, _: usize) -> bool {
    true
}
fn show_vecs<L: Lx>(eg: &Eg<L>) -> String {
    let d = dump(eg);
    let small = smallest_terms(&d, &any_op, 8);
    let mut v = vec![];
    for (c, _) in &d {
        let t = match &small[c] {
            Some(ts) => ts[0].to_string(),
            None => "..".into(),
        };
        let cv: Vec<String> = eg[Id::from(*c)]
            .data
            .cvec
            .iter()
            .map(|x| x.as_ref().map_or("_".to_string(), |x| x.to_string()))
            .collect();
        v.push(format!("{t}: [{}]", cv.join(" ")));
    }
    v.join("; ")
}
fn match_check<L: Lx>(c: &mut Case, eg: &Eg<L>, fast: bool) -> Res {
    let d = dump(eg);
    let mins = smallest_terms(&d, &any_op, 40);
    let ids: Vec<usize> = d.keys().copied().collect();
    let cv = |i: usize| &eg[Id::from(i)].data.cvec;
    let pairs = if fast {
        pairs_of(&ids, &|x, y| cv(x) == cv(y) && cv(x).iter().any(|v| v.is_some()))
    } else {
        pairs_of(&ids, &|x, y| compat(cv(x), cv(y)))
    };
    let got = if fast {
        real("fast_cvec_match", || Ruleset::fast_cvec_match(eg))?
    } else {
        real("cvec_match", || Ruleset::cvec_match(eg))?
    };
    let got = rules_of(&got);
    judge(c, &got, &mins, &pairs, &|| show_vecs(eg))?;
    if !pairs.is_empty() {
        c.nontrivial(full_dump(eg));
    }
    c.count("classes", ids.len() as u64);
    if !fast {
        let near = pairs_of(&ids, &|x, y| cv(x).iter().zip(cv(y)).all(|(p, q)| p.is_none() || q.is_none() || p == q));
        c.count("pairs without a common sample", (near.len() - pairs.len()) as u64);
    }
    c.sample(|| format!("{} -> {}", show_vecs(eg), show_rules(&got)));
    Ok(())
}
/// Symbolic terms, classes with several terms, arbitrary partial vectors.
fn c10_vec(c: &mut Case, fast: bool) -> Res {
    let sig = Sig::new(&["a", "b", "c", "0", "1"], &MON_OPS);
    // big: many classes, or long vectors
    let long = c.big && c.rng.chance(1, 2);
    let n = if long { c.rng.range(5, 40) } else { c.size((2, 8), (40, 300)) };
    let depth = c.size((2, 2), (3, 4));
    let terms: Vec<T> = (0..n).map(|_| sig.gen(&mut c.rng, depth)).collect();
    let mut eg: Eg<Mon> = EGraph::default();
    let mut ids = vec![];
    for t in &terms {
        eg.add_expr(&rexpr::<Mon>(t));
        let mut subs = vec![];
        t.subterms(&mut subs);
        ids.extend(subs.iter().map(|s| look(&eg, s).unwrap()));
    }
    for _ in 0..c.rng.below(5) {
        let (x, y) = (*c.rng.pick(&ids), *c.rng.pick(&ids));
        eg.union(x, y);
    }
    eg.rebuild();
    let len = if long { c.rng.range(300, 3000) } else { c.size((1, 5), (5, 300)) };
    let vals = c.size((1, 3), (3, 6));
    let holes = if c.big { c.rng.below(3) } else { c.rng.below(10) };
    // some classes are undefined up to here
    let late = if c.big { c.rng.below(len) } else { 0 };
    let mut prev: Vec<Vec<Option<i64>>> = vec![];
    for id in dump(&eg).keys().copied().collect::<Vec<_>>() {
        let mut v: Vec<Option<i64>> = (0..len)
            .map(|_| if c.rng.chance(holes, 11) { None } else { Some(c.rng.below(vals) as i64) })
            .collect();
        if !prev.is_empty() && c.rng.chance(1, 3) {
            v = c.rng.pick(&prev).clone();
            if c.rng.chance(1, 2) {
                let i = c.rng.below(len);
                v[i] = if c.rng.chance(1, 2) { None } else { Some(c.rng.below(vals) as i64) };
            }
        }
        if c.big && c.rng.chance(1, 4) {
            v[..late].iter_mut().for_each(|x| *x = None);
        }
        prev.push(v.clone());
        eg[Id::from(id)].data.cvec = v;
    }
    eg.analysis.cvec_len = len;
    match_check(c, &eg, fast)
}
/// Materialised workloads over partial operators, sometimes compressed with valid rules.
fn c10_z5(c: &mut Case, fast: bool) -> Res {
    let nv = c.size((1, 2), (1, 3));
    let mut leaves: Vec<&str> = ["a", "b", "c"][..nv].to_vec();
    leaves.extend(["0", "1", "2"]);
    let sig = pl_sig(&leaves, false);
    let depth = c.size((2, 2), (2, 3));
    let n = c.size((2, 14), (60, 250));
    let mut terms: Vec<T> = (0..n).map(|_| sig.gen(&mut c.rng, depth)).collect();
    terms.push(a("a"));
    let w = wkld_of(&terms, &mut c.rng);
    let mut eg = real("to_egraph", || w.to_egraph::<Pl>())?;
    eg.rebuild();
    if c.rng.chance(1, 3) {
        let laws = pl_laws();
        let rules: Vec<Rule2> = (0..3).map(|_| laws.pick(&mut c.rng)).collect();
        let rs = ruleset::<Pl>(&rules);
        eg = real("compress", || Scheduler::Compress(lim(2, 2000, 500)).run(&eg, &rs))?;
    }
    match_check(c, &eg, fast)
}
fn c10_bv(c: &mut Case, fast: bool) -> Res {
    type B = b4::Bv;
    let sig = Sig::new(&["a", "b", "0", "1", "15"], &crate::checks::bits::BVOPS);
    let depth = c.size((2, 2), (2, 3));
    let n = c.size((2, 14), (60, 250));
    let mut terms: Vec<T> = (0..n).map(|_| sig.gen(&mut c.rng, depth)).collect();
    terms.push(a("a"));
    let w = wkld_of(&terms, &mut c.rng);
    let mut eg = real("to_egraph", || w.to_egraph::<B>())?;
    eg.rebuild();
    match_check(c, &eg, fast)
}
fn c10_vec_a(c: &mut Case) -> Res {
    c10_vec(c, false)
}
fn c10_z5_a(c: &mut Case) -> Res {
    c10_z5(c, false)
}
fn c10_bv_a(c: &mut Case) -> Res {
    c10_bv(c, false)
}
fn c10_big(c: &mut Case) -> Res {
    c.bigger(if c.idx % 3 == 0 { c10_bv_a } else if c.idx % 3 == 1 { c10_z5_a } else { c10_vec_a })
}
fn c11_big(c: &mut Case) -> Res {
    c.bigger(if c.idx % 3 == 0 { c11_bv } else if c.idx % 3 == 1 { c11_z5 } else { c11_vec })
}
fn c11_vec(c: &mut Case) -> Res {
    c10_vec(c, true)
}
fn c11_z5(c: &mut Case) -> Res {
    c10_z5(c, true)
}
fn c11_bv(c: &mut Case) -> Res {
    c10_bv(c, true)
}

// ------------------------------------------------------------ C12
/// Replace some operators and constants by ones that are not allowed in rules.
pub fn taint(t: &T, rng: &mut Rng, num: usize, den: usize) -> T {
    match t {
        T::A(s) if s == "1" && rng.chance(num, den) => a("-1"),
        T::A(_) => t.clone(),
        T::L(_) => {
            let op = if rng.chance(num, den) { format!("x{}", t.op()) } else { t.op().to_string() };
            l(&op, t.kids().iter().map(|k| taint(k, rng, num, den)).collect())
        }
    }
}
fn extract_check<L: Lx>(
    c: &mut Case,
    eg1: &Eg<L>,
    eg2: &Eg<L>,
    allowed: &dyn Fn(&str, usize) -> bool,
    descr: &dyn Fn() -> String,
) -> Res {
    let d = dump(eg1);
    let mins = smallest_terms(&d, allowed, 40);
    let ids: Vec<usize> = d.keys().copied().collect();
    let merged = pairs_of(&ids, &|x, y| eg2.find(Id::from(x)) == eg2.find(Id::from(y)));
    let pairs: Vec<(usize, usize)> =
        merged.iter().copied().filter(|(x, y)| mins.contains_key(x) && mins.contains_key(y)).collect();
    let got = rules_of(&real("extract_candidates", || Ruleset::extract_candidates(eg1, eg2))?);
    judge(c, &got, &mins, &pairs, descr)?;
    c.count("merged pairs without an allowed term", (merged.len() - pairs.len()) as u64);
    if !pairs.is_empty() {
        c.nontrivial((L::name(), full_dump(eg1), pairs.len()));
    }
    c.sample(|| format!("{} -> {}", descr(), show_rules(&got)));
    Ok(())
}
fn c12_sym(c: &mut Case) -> Res {
    let nr = c.rng.range(1, 5);
    let num = c.rng.below(3);
    let rules: Vec<Rule2> = mon_rules(&mut c.rng, nr)
        .into_iter()
        .map(|(x, y)| (taint(&x, &mut c.rng, num, 5), taint(&y, &mut c.rng, num, 5)))
        .collect();
    let sig = Sig::new(&["a", "b", "c", "0", "1", "-1"], &[("f", 1), ("g", 1), ("h", 2), ("k", 2), ("xf", 1), ("xh", 2), ("xg", 1)]);
    let n = c.size((1, 5), (60, 250));
    let mut terms: Vec<T> = (0..n).map(|_| sig.gen(&mut c.rng, 3)).collect();
    let k = c.size((0, 4), (0, 80));
    terms.extend(crate::checks::sat::instances(&mut c.rng, &rules, &sig, k));
    let mut eg: Eg<Mon> = EGraph::default();
    let mut ids = vec![];
    for t in &terms {
        eg.add_expr(&rexpr::<Mon>(t));
        let mut subs = vec![];
        t.subterms(&mut subs);
        ids.extend(subs.iter().map(|s| look(&eg, s).unwrap()));
    }
    let mut log = vec![];
    for _ in 0..c.rng.below(3) {
        let (x, y) = (*c.rng.pick(&ids), *c.rng.pick(&ids));
        eg.union(x, y);
        log.push(format!("{x}={y}"));
    }
    eg.rebuild();
    let rs = ruleset::<Mon>(&rules);
    let it = c.rng.below(4);
    let s = match c.rng.below(4) {
        0 => Scheduler::Simple(lim(it, if c.big { 60_000 } else { 1000 }, if c.big { 20_000 } else { 200 })),
        1 => Scheduler::Saturating(lim(it, if c.big { 60_000 } else { 1000 }, if c.big { 20_000 } else { 200 })),
        _ => Scheduler::Compress(lim(it, if c.big { 60_000 } else { 1000 }, if c.big { 20_000 } else { 200 })),
    };
    let mut eg2 = if matches!(s, Scheduler::Saturating(_)) && !sat_fits(&eg, &rules, it, c.big) {
        eg.clone()
    } else {
        real("run", || s.run(&eg, &rs))?
    };
    if c.rng.chance(1, 3) {
        for _ in 0..c.rng.range(1, 4) {
            let (x, y) = (*c.rng.pick(&ids), *c.rng.pick(&ids));
            eg2.union(x, y);
            log.push(format!("then {x}={y}"));
        }
        eg2.rebuild();
    }
    extract_check(c, &eg, &eg2, &mon_allowed, &|| {
        let ts: Vec<String> = terms.iter().map(|t| t.to_string()).collect();
        format!("{} with {} under {s:?} ({})", ts.join(", "), show_rules(&rules), log.join(" "))
    })
}
fn sat_fits(eg: &Eg<Mon>, rules: &[Rule2], it: usize, big: bool) -> bool {
    let (mut m, _) = to_model(eg);
    m.alternate(rules, it, if big { 15_000 } else { 1500 }).is_some()
}
fn c12_z5(c: &mut Case) -> Res {
    let sig = pl_sig(&["a", "b", "0", "1"], true);
    let n = c.size((2, 8), (60, 200));
    let mut terms: Vec<T> = (0..n).map(|_| sig.gen(&mut c.rng, 2)).collect();
    let laws = pl_laws();
    let mut rules: Vec<Rule2> = (0..4).map(|_| laws.pick(&mut c.rng)).collect();
    rules.push((T::parse("(xneg ?a)"), T::parse("(~ ?a)")));
    let k = c.size((3, 3), (3, 80));
    let lsig = pl_sig(&["a", "b"], true);
    terms.extend(crate::checks::sat::instances(&mut c.rng, &rules, &lsig, k));
    let w = wkld_of(&terms, &mut c.rng);
    let mut eg = real("to_egraph", || w.to_egraph::<Pl>())?;
    eg.rebuild();
    let rs = ruleset::<Pl>(&rules);
    let it = c.rng.range(1, 3);
    let s = if c.rng.chance(1, 2) { Scheduler::Simple(lim(it, if c.big { 60_000 } else { 2000 }, if c.big { 20_000 } else { 300 })) } else { Scheduler::Compress(lim(it, if c.big { 60_000 } else { 2000 }, if c.big { 20_000 } else { 300 })) };
    let eg2 = real("run", || s.run(&eg, &rs))?;
    extract_check(c, &eg, &eg2, &|op, _| op != "xneg", &|| {
        let ts: Vec<String> = terms.iter().map(|t| t.to_string()).collect();
        format!("{} with {} under {s:?}", ts.join(", "), show_rules(&rules))
    })
}

fn c12_star(c: &mut Case) -> Res {
    let (terms, rules) = crate::checks::sat::star(&mut c.rng);
    // candidates are pairs: keep the groups affordable
    let terms = &terms[..terms.len().min(130)];
    let mut eg: Eg<Mon> = EGraph::default();
    for t in terms {
        eg.add_expr(&rexpr::<Mon>(t));
    }
    eg.rebuild();
    let s = Scheduler::Compress(lim(c.rng.range(1, 3), HUGE, HUGE));
    let rs = ruleset::<Mon>(&rules);
    let eg2 = real("run", || s.run(&eg, &rs))?;
    extract_check(c, &eg, &eg2, &mon_allowed, &|| {
        let ts: Vec<String> = terms.iter().map(|t| t.to_string()).collect();
        format!("{} with {} under {s:?}", ts.join(", "), show_rules(&rules))
    })
}
fn c12_big(c: &mut Case) -> Res {
    c.bigger(if c.idx % 2 == 0 { c12_sym } else { c12_z5 })
}

// ------------------------------------------------------------ C27
/// A term as an expression in which equal subterms are sometimes shared.
fn shared<L: Lx>(t: &T, rng: &mut Rng) -> egg::RecExpr<L> {
    fn go<L: Lx>(e: &egg::RecExpr<L>, i: usize, out: &mut egg::RecExpr<L>, memo: &mut Vec<(L, Id)>, share: usize, rng: &mut Rng) -> Id {
        let node = e.as_ref()[i].clone();
        let mut kids = vec![];
        for k in node.children() {
            kids.push(go(e, usize::from(*k), out, memo, share, rng));
        }
        let mut it = kids.into_iter();
        let node = node.map_children(|_| it.next().unwrap());
        if rng.chance(share, 4) {
            if let Some((_, id)) = memo.iter().find(|(n, _)| *n == node) {
                return *id;
            }
        }
        let id = out.add(node.clone());
        memo.push((node, id));
        id
    }
    let e = rexpr::<L>(t);
    let mut out = egg::RecExpr::default();
    let share = rng.below(5);
    let root = e.as_ref().len() - 1;
    go(&e, root, &mut out, &mut vec![], share, rng);
    out
}
/// Walk term and pattern in parallel; collect the renaming.
fn walk(t: &T, p: &T, ren: &mut BTreeMap<String, String>) -> Result<(), String> {
    match (t, p) {
        (T::A(s), T::A(v)) if is_var_name(s) => {
            if !v.starts_with('?') {
                return Err(format!("variable {s} became {v}"));
            }
            match ren.get(s) {
                Some(w) if w != v => Err(format!("variable {s} became both {w} and {v}")),
                Some(_) => Ok(()),
                None => {
                    if let Some((s2, _)) = ren.iter().find(|(_, w)| *w == v) {
                        return Err(format!("variables {s} and {s2} both became {v}"));
                    }
                    ren.insert(s.clone(), v.clone());
                    Ok(())
                }
            }
        }
        (T::A(s), T::A(v)) if s == v => Ok(()),
        (T::L(_), T::L(_)) if t.op() == p.op() && t.kids().len() == p.kids().len() => {
            for (x, y) in t.kids().iter().zip(p.kids()) {
                walk(x, y, ren)?;
            }
            Ok(())
        }
        _ => Err(format!("{t} became {p}")),
    }
}
fn c27_l<L: Lx>(c: &mut Case, sig: &Sig, pool: &[&str]) -> Res {
    let k = c.rng.range(2, 3);
    let nv = if c.rng.chance(1, 8) { c.rng.range(10, 26) } else { c.rng.range(1, 5) };
    let mut names: Vec<&str> = pool.to_vec();
    c.rng.shuffle(&mut names);
    names.truncate(nv.min(26));
    let mut leaves = sig.leaves.clone();
    for _ in 0..2 {
        leaves.extend(names.iter().map(|s| s.to_string()));
    }
    let depth = if nv > 6 { 5 } else { 3 };
    let s2 = Sig { leaves, ops: sig.ops.clone() };
    let ts: Vec<T> = (0..k)
        .map(|_| {
            if c.big {
                let n = c.rng.range(10, 250);
                s2.gen_long(&mut c.rng, n)
            } else {
                s2.gen(&mut c.rng, depth)
            }
        })
        .collect();
    let mut map = ruler::HashMap::default();
    let mut ren = BTreeMap::new();
    let mut pats = vec![];
    for t in &ts {
        let e = shared::<L>(t, &mut c.rng);
        let want = T::parse(&e.to_string());
        assert!(want == *t || L::name() != "sym", "harness: shared");
        let p = real("generalize", || L::generalize(&e, &mut map))?;
        let pt = t_of(&p);
        c.eval();
        if let Err(e) = walk(&want, &pt, &mut ren) {
            return viol(
                "generalisation is not a renaming",
                format!("{}: {} after {:?}: {pt}: {e}", L::name(), want, ts.iter().map(|t| t.to_string()).collect::<Vec<_>>()),
            );
        }
        // back to a term
        let back = real("instantiate", || L::instantiate(&p))?;
        let wb = want.map_leaves(&mut |s| match ren.get(s) {
            Some(v) => a(&v[1..]),
            None => a(s),
        });
        if T::parse(&back.to_string()) != wb {
            return viol("instantiation", format!("{}: {pt} instantiates to {back}, want {wb}", L::name()));
        }
        // the nodes must be the language's variables, not look-alikes
        if back.as_ref().iter().filter(|n| n.is_var()).count() == 0 && !gvars(&wb).is_empty() {
            return viol("instantiation", format!("{}: {pt} instantiates to {back} without variable nodes", L::name()));
        }
        pats.push((want, pt, p));
    }
    if !ren.is_empty() {
        c.nontrivial((L::name(), ts.iter().map(|t| t.to_string()).collect::<Vec<_>>()));
    }
    c.count("variables", ren.len() as u64);
    c.sample(|| format!("{:?}", pats.iter().map(|(t, p, _)| format!("{t} -> {p}")).collect::<Vec<_>>()));
    // patterns as written keep their variables
    let t = &ts[0];
    let p = t.topat(&|s| is_var_name(s));
    let pp = pat::<L>(&p);
    let back = real("instantiate", || L::instantiate(&pp))?;
    let want = T::parse(&rexpr::<L>(t).to_string());
    c.eval();
    if T::parse(&back.to_string()) != want {
        return viol("instantiation", format!("{}: {pp} instantiates to {back}, want {want}", L::name()));
    }
    Ok(())
}
const NAMES: [&str; 30] = [
    "a", "b", "c", "d", "e", "f", "g", "x", "y", "z", "aa", "ab", "ba", "v1", "v2", "v10", "A", "B", "x_1", "var", "n", "m", "p", "q",
    "r", "s", "t", "u", "w", "k",
];
fn c27_sym(c: &mut Case) -> Res {
    let sig = Sig::new(&["0", "1", "-1"], &[("f", 1), ("h", 2), ("+", 2), ("k", 2), ("t", 3), ("xf", 1)]);
    c27_l::<Mon>(c, &sig, &NAMES)
}
fn c27_z5(c: &mut Case) -> Res {
    c27_l::<Pl>(c, &pl_sig(&["0", "1", "4"], true), &NAMES)
}
fn c27_bv(c: &mut Case) -> Res {
    let sig = Sig::new(&["0", "1", "255"], &crate::checks::bits::BVOPS);
    c27_l::<b8::Bv>(c, &sig, &NAMES)
}
/// Long terms.
fn c27_big(c: &mut Case) -> Res {
    c.bigger([c27_sym, c27_z5, c27_bv][(c.idx % 3) as usize])
}
/// End to end: a class pair becomes a candidate that instantiates back to terms of both classes.
fn c27_rule(c: &mut Case) -> Res {
    let sig = Sig::new(&["c", "b", "a", "zz", "0", "1"], &MON_OPS);
    let n = c.rng.range(2, 3);
    let ts: Vec<T> = (0..n).map(|_| sig.gen_op(&mut c.rng, 3)).collect();
    let mut eg: Eg<Mon> = EGraph::default();
    for t in &ts {
        eg.add_expr(&rexpr::<Mon>(t));
    }
    eg.rebuild();
    let d = dump(&eg);
    for id in d.keys() {
        eg[Id::from(*id)].data.cvec = vec![Some(*id as i64)];
    }
    let tops: Vec<Id> = ts.iter().map(|t| look(&eg, t).unwrap()).collect();
    for id in &tops {
        eg[*id].data.cvec = vec![Some(-7)];
    }
    let fast = c.rng.chance(1, 2);
    let got = real("cvec matching", || if fast { Ruleset::fast_cvec_match(&eg) } else { Ruleset::cvec_match(&eg) })?;
    let got = rules_of(&got);
    c.eval();
    let mut want: BTreeSet<(T, T)> = BTreeSet::new();
    for x in &ts {
        for y in &ts {
            if x != y && wf(x, y) {
                want.insert(canon(x, y));
            }
        }
    }
    let have: BTreeSet<(T, T)> = got.iter().map(|(x, y)| canon(x, y)).collect();
    if have != want {
        return viol(
            "candidates are not the renamed pairs",
            format!("{:?} became {}", ts.iter().map(|t| t.to_string()).collect::<Vec<_>>(), show_rules(&got)),
        );
    }
    if !want.is_empty() {
        c.nontrivial(show_rules(&got));
    }
    Ok(())
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C10",
            rule: "e-graphs with arbitrary partial vectors, and materialised workloads of the integers mod 5 and of 4-bit vectors: the candidates against all pairs of classes and all their smallest terms, up to renaming; non-trivial: e-graphs with a matching pair",
            assumptions: vec!["all classes carry vectors of one length", "which of several smallest terms is used is left open"],
            shards: 1,
            sections: vec![sec("vec", 30000, 500000, c10_vec_a), sec("z5", 6000, 100000, c10_z5_a), sec("bv", 6000, 100000, c10_bv_a), sec("big", 240, 3000, c10_big)],
        },
        CheckDef {
            id: "C11",
            rule: "as C10, for pairs of classes with identical vectors",
            assumptions: vec!["all classes carry vectors of one length", "which of several smallest terms is used is left open"],
            shards: 1,
            sections: vec![sec("vec", 45000, 500000, c11_vec), sec("z5", 9000, 100000, c11_z5), sec("bv", 9000, 100000, c11_bv), sec("big", 360, 3000, c11_big)],
        },
        CheckDef {
            id: "C12",
            rule: "pairs of e-graphs, the second grown from the first by random rules with disallowed operators (and direct unions): the candidates against all newly merged pairs and all their smallest allowed terms, up to renaming; non-trivial: a merged pair with allowed terms",
            assumptions: vec!["which of several smallest terms is used is left open"],
            shards: 1,
            sections: vec![sec("sym", 60000, 500000, c12_sym), sec("z5", 16000, 100000, c12_z5), sec("big", 960, 5000, c12_big), sec("star", 96, 400, c12_star)],
        },
        CheckDef {
            id: "C27",
            rule: "random ground terms with up to 26 variables whose names collide with the pattern variables', with and without sharing, walked in parallel with their generalisations and instantiated back; non-trivial: terms with variables",
            assumptions: vec!["at most 26 variables per candidate"],
            shards: 1,
            sections: vec![
                sec("sym", 100000, 500000, c27_sym),
                sec("z5", 50000, 200000, c27_z5),
                sec("bv", 50000, 200000, c27_bv),
                sec("rule", 50000, 200000, c27_rule),
                sec("big", 3000, 30000, c27_big),
            ],
        },
    ]
}
