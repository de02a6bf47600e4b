//! Materialised workloads (C03) and e-class facts (C04).
use crate::checks::bits::{fast_bv, value, var_names, BVOPS};
use crate::eg::*;
use crate::fw::*;
use crate::langs::*;
use crate::term::*;
use crate::with_bv_few;
use ruler::enumo::{Filter, Metric, Workload};
use ruler::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------ C03
/// A random workload made of the given terms, in a random construction.
pub fn wkld_of(terms: &[T], rng: &mut Rng) -> Workload {
    let set = |ts: &[T]| Workload::new(ts.iter().map(|t| t.to_string()));
    match rng.below(3) {
        0 => set(terms),
        1 => {
            let k = rng.below(terms.len() + 1);
            set(&terms[..k]).append(set(&terms[k..]))
        }
        _ => Workload::new(["HOLE"]).plug("HOLE", &set(terms)).filter(Filter::MetricLt(Metric::Depth, 100)),
    }
}
fn vars_of(terms: &[T], is_var: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in terms {
        let mut ls = vec![];
        t.leaves(&mut ls);
        for x in ls {
            if is_var(x) && !v.iter().any(|y| y == x) {
                v.push(x.to_string());
            }
        }
    }
    v
}
/// The rows of the variables' sampled values, read from the e-graph.
fn rows<L: Lx>(eg: &Eg<L>, vars: &[String]) -> Res<Vec<Vec<L::Constant>>> {
    let mut cols = vec![];
    for v in vars {
        let id = match look(eg, &a(v)) {
            Some(id) => id,
            None => return viol("variable missing", format!("{}: variable {v} is not in the e-graph", L::name())),
        };
        let col: Option<Vec<L::Constant>> = eg[id].data.cvec.iter().cloned().collect();
        match col {
            Some(c) => cols.push(c),
            None => return viol("variable undefined", format!("{}: variable {v} has undefined samples", L::name())),
        }
    }
    let n = eg.analysis.cvec_len;
    for (v, c) in vars.iter().zip(&cols) {
        if c.len() != n {
            return viol(
                "vector length",
                format!("{}: variable {v} has {} samples, cvec_len is {n}", L::name(), c.len()),
            );
        }
    }
    Ok((0..n).map(|i| cols.iter().map(|c| c[i].clone()).collect()).collect())
}
fn check_terms<L: Lx>(
    c: &mut Case,
    eg: &Eg<L>,
    terms: &[T],
    vars: &[String],
    eval: &dyn Fn(&T, &dyn Fn(&str) -> L::Constant) -> Option<L::Constant>,
) -> Res {
    let rows = rows::<L>(eg, vars)?;
    let mut subs: BTreeSet<&T> = BTreeSet::new();
    for t in terms {
        let mut v = vec![];
        t.subterms(&mut v);
        subs.extend(v);
    }
    for t in subs {
        let id = match look(eg, t) {
            Some(id) => id,
            None => return viol("term missing", format!("{}: {t} is not represented", L::name())),
        };
        let got = &eg[id].data.cvec;
        c.eval();
        if got.len() != rows.len() {
            return viol(
                "vector length",
                format!("{}: the vector of {t} has {} entries for {} samples", L::name(), got.len(), rows.len()),
            );
        }
        for (i, row) in rows.iter().enumerate() {
            let want = eval(t, &|s| row[vars.iter().position(|v| v == s).unwrap()].clone());
            if got[i] != want {
                return viol(
                    "wrong vector",
                    format!(
                        "{}: {t} on {:?} = {:?} is {:?}, its vector says {:?}",
                        L::name(),
                        vars,
                        row,
                        want,
                        got[i]
                    ),
                );
            }
        }
        c.count("entries", rows.len() as u64);
        c.count("undefined", got.iter().filter(|x| x.is_none()).count() as u64);
        if !t.kids().is_empty() {
            c.nontrivial((L::name(), t.to_string()));
        }
    }
    Ok(())
}
/// Many small terms; the last of the variables occurs only late.
fn late(rng: &mut Rng, sig: &Sig, nv: usize, n: usize) -> Vec<T> {
    let mut early = sig.clone();
    early.leaves.remove(nv - 1);
    let from = rng.range(n / 2, n - 2);
    let mut v: Vec<T> = (0..n)
        .map(|i| {
            let s = if i < from { &early } else { sig };
            s.gen(rng, 2)
        })
        .collect();
    let l = l("+", vec![a(&sig.leaves[nv - 1]), a(&sig.leaves[0])]);
    v.push(l);
    v
}
fn c03_big(c: &mut Case) -> Res {
    c.bigger(if c.idx % 2 == 0 { c03_pl } else { c03_bv })
}
fn c03_pl(c: &mut Case) -> Res {
    let names = var_names(&mut c.rng).map(|s| &s[1..]);
    let nv = c.size((0, 3), (1, 3));
    let mut leaves: Vec<&str> = names[..nv].to_vec();
    leaves.extend(["0", "1", "2", "3", "4"]);
    let sig = pl_sig(&leaves, true);
    let n = c.size((1, 10), (300, 2500));
    let terms: Vec<T> = if c.big {
        late(&mut c.rng, &sig, nv, n)
    } else {
        (0..n).map(|_| sig.gen(&mut c.rng, 3)).collect()
    };
    let w = wkld_of(&terms, &mut c.rng);
    let eg = real("to_egraph", || w.to_egraph::<Pl>())?;
    c.sample(|| format!("Z5: {}", terms.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ")));
    let vars = vars_of(&terms, &|s| s.parse::<u8>().is_err());
    check_terms::<Pl>(c, &eg, &terms, &vars, &|t, env| pl_eval(t, &|s| env(s).0).map(Z5))
}
pub fn pl_sig(leaves: &[&str], disallowed: bool) -> Sig {
    let mut ops = vec![("+", 2), ("*", 2), ("/", 2), ("~", 1), ("inv", 1), ("min", 2), ("max", 2), ("ite", 3)];
    if disallowed {
        ops.push(("xneg", 1));
    }
    Sig::new(leaves, &ops)
}
fn bv_lit(n: u32, s: &str) -> Option<u128> {
    s.parse::<u128>().ok().map(|v| if n == 128 { v } else { v & ((1 << n) - 1) })
}
fn bv_eval_l(t: &T, n: u32, env: &dyn Fn(&str) -> u128) -> u128 {
    match t {
        T::A(s) => bv_lit(n, s).unwrap_or_else(|| env(s)),
        T::L(_) => {
            let v: Vec<u128> = t.kids().iter().map(|k| bv_eval_l(k, n, env)).collect();
            fast_bv(t.op(), n, v[0], v.get(1).copied().unwrap_or(0))
        }
    }
}
fn c03_bv_l<L: BvL>(c: &mut Case) -> Res
where
    L::Constant: Copy,
{
    let n = L::N;
    let names = var_names(&mut c.rng).map(|s| &s[1..]);
    let nv = if c.big { c.rng.range(1, 2) } else { *c.rng.pick(&[0usize, 1, 1, 2, 2, 3]) };
    let mut leaves: Vec<String> = names[..nv].iter().map(|s| s.to_string()).collect();
    for _ in 0..3 {
        leaves.push(value(&mut c.rng, n).to_string());
    }
    let sig = Sig { leaves, ops: BVOPS.iter().map(|(o, k)| (o.to_string(), *k)).collect() };
    let k = c.size((1, 10), (300, 2000));
    let terms: Vec<T> = if c.big {
        late(&mut c.rng, &sig, nv, k)
    } else {
        (0..k).map(|_| sig.gen(&mut c.rng, 3)).collect()
    };
    let w = wkld_of(&terms, &mut c.rng);
    let eg = real("to_egraph", || w.to_egraph::<L>())?;
    c.sample(|| format!("{}: {}", L::name(), terms.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ")));
    let vars = vars_of(&terms, &|s| s.parse::<u128>().is_err());
    check_terms::<L>(c, &eg, &terms, &vars, &|t, env| Some(L::cons(bv_eval_l(t, n, &|s| L::val(&env(s))))))?;
    // the sample set
    let rs = rows::<L>(&eg, &vars)?;
    if vars.is_empty() {
        return Ok(());
    }
    let tuples: BTreeSet<Vec<u128>> = rs.iter().map(|r| r.iter().map(|x| L::val(x)).collect()).collect();
    if tuples.len() != rs.len() {
        return viol("repeated sample", format!("{}: a tuple of samples occurs twice for {:?}", L::name(), vars));
    }
    let mut sets: Vec<BTreeSet<u128>> = vec![BTreeSet::new(); vars.len()];
    for t in &tuples {
        for (s, x) in sets.iter_mut().zip(t) {
            s.insert(*x);
        }
    }
    let mask = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    for (v, s) in vars.iter().zip(&sets) {
        if *s != sets[0] {
            return viol("sample sets differ", format!("{}: {} and {v} have different samples", L::name(), vars[0]));
        }
        for want in [0, 1 & mask, mask, 1u128 << (n - 1), mask >> 1] {
            if !s.contains(&want) {
                return viol("sample missing", format!("{}: {want} is not a sample of {v}: {s:?}", L::name()));
            }
        }
    }
    if tuples.len() != sets[0].len().pow(vars.len() as u32) {
        return viol(
            "tuple missing",
            format!("{}: {} tuples of {} samples for {} variables", L::name(), tuples.len(), sets[0].len(), vars.len()),
        );
    }
    c.count("tuples", tuples.len() as u64);
    Ok(())
}
fn c03_bv(c: &mut Case) -> Res {
    let n = WIDTHS_FEW[(c.idx % 7) as usize];
    with_bv_few!(n, L => c03_bv_l::<L>(c))
}
fn c03_product(c: &mut Case) -> Res {
    let n = c.rng.below(9);
    let k = c.rng.below([9, 60, 30, 12, 9, 6, 5, 4, 4][n]);
    let ts: Vec<u32> = (0..k as u32).map(|i| i * 7 + 1).collect();
    let cols = real("self_product", || self_product(&ts, n))?;
    c.eval();
    if cols.len() != n {
        return viol("columns", format!("self_product of {k} values over {n}: {} columns", cols.len()));
    }
    if n == 0 {
        return Ok(());
    }
    let rows = k.pow(n as u32);
    if cols.iter().any(|x| x.len() != rows) {
        return viol("rows", format!("self_product of {k} values over {n}: column lengths {:?}", cols.iter().map(|c| c.len()).collect::<Vec<_>>()));
    }
    let tuples: BTreeSet<Vec<u32>> = (0..rows).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
    if tuples.len() != rows || tuples.iter().any(|t| t.iter().any(|x| !ts.contains(x))) {
        return viol("tuples", format!("self_product of {k} values over {n}: {} distinct tuples", tuples.len()));
    }
    c.count("tuples", rows as u64);
    c.nontrivial((k, n));
    Ok(())
}
/// The map! macro with one, two and three arguments over partial vectors.
fn c03_map(c: &mut Case) -> Res {
    let n = c.rng.range(1, 8);
    let vec = |rng: &mut Rng| -> Vec<Option<u32>> {
        (0..n).map(|_| if rng.chance(1, 3) { None } else { Some(rng.below(9) as u32) }).collect()
    };
    let vs = [vec(&mut c.rng), vec(&mut c.rng), vec(&mut c.rng)];
    let get = |i: &usize| &vs[*i];
    let (x, y, z) = (&0usize, &1usize, &2usize);
    let one: Vec<Option<u32>> = map!(get, x => if *x > 6 { None } else { Some(x + 1) });
    let two: Vec<Option<u32>> = map!(get, x, y => if *y == 0 { None } else { Some(x * 10 + y) });
    let three: Vec<Option<u32>> = map!(get, x, y, z => if *z == *x { None } else { Some(x * 100 + y * 10 + z) });
    for i in 0..n {
        let (p, q, r) = (vs[0][i], vs[1][i], vs[2][i]);
        let w1 = p.and_then(|x| if x > 6 { None } else { Some(x + 1) });
        let w2 = match (p, q) {
            (Some(x), Some(y)) if y != 0 => Some(x * 10 + y),
            _ => None,
        };
        let w3 = match (p, q, r) {
            (Some(x), Some(y), Some(z)) if z != x => Some(x * 100 + y * 10 + z),
            _ => None,
        };
        c.eval();
        if one.get(i) != Some(&w1) || two.get(i) != Some(&w2) || three.get(i) != Some(&w3) {
            return viol("map!", format!("map! on {:?} at {i}: {:?} {:?} {:?}", vs, one.get(i), two.get(i), three.get(i)));
        }
    }
    if one.len() != n || two.len() != n || three.len() != n {
        return viol("map! length", format!("map! on {n} samples gave {} {} {}", one.len(), two.len(), three.len()));
    }
    c.nontrivial((&vs, n));
    Ok(())
}

// ------------------------------------------------------------ C04
/// The invariants of the facts on classes, given how variables and constants are written.
fn check_facts<L: Lx>(
    c: &mut Case,
    eg: &Eg<L>,
    what: &str,
    assigned: &BTreeMap<String, Vec<Option<L::Constant>>>,
    op: &dyn Fn(&str, &[L::Constant]) -> Option<L::Constant>,
    allowed: &dyn Fn(&str, usize) -> bool,
    cterm: &dyn Fn(&L::Constant) -> T,
) -> Res
where
    L::Constant: Copy,
{
    let (m, map) = to_model(eg);
    let costs = m.costs(allowed);
    for cl in eg.classes() {
        let d = &cl.data;
        let id = eg.find(cl.id);
        c.eval();
        // vectors: the join of what the nodes say
        let n = d.cvec.len();
        let mut want: Vec<Option<L::Constant>> = vec![None; n];
        for node in cl.iter() {
            let name = node.to_string();
            let kids: Vec<&Vec<Option<L::Constant>>> = node.children().iter().map(|k| &eg[*k].data.cvec).collect();
            for (i, w) in want.iter_mut().enumerate() {
                let v = match assigned.get(&name) {
                    Some(vs) if kids.is_empty() => vs[i],
                    _ => {
                        let xs: Option<Vec<L::Constant>> = kids.iter().map(|k| k[i]).collect();
                        xs.and_then(|xs| op(&name, &xs))
                    }
                };
                if let Some(v) = v {
                    if let Some(old) = w {
                        assert_eq!(*old, v, "harness: unsound merge in {what}");
                    }
                    *w = Some(v);
                }
            }
        }
        if n != eg.analysis.cvec_len || d.cvec != want {
            return viol(
                "class vector",
                format!(
                    "{}: class of {} after {what}: vector {:?}, its nodes say {:?}",
                    L::name(),
                    d.simplest,
                    d.cvec,
                    want
                ),
            );
        }
        c.count("undefined entries", want.iter().filter(|x| x.is_none()).count() as u64);
        // interval
        for x in d.cvec.iter().flatten() {
            if d.interval.low.map_or(false, |l| l > *x) || d.interval.high.map_or(false, |h| h < *x) {
                return viol(
                    "interval excludes a value",
                    format!("{}: class of {} after {what} takes {x}, interval {:?}", L::name(), d.simplest, d.interval),
                );
            }
        }
        let mut both = Interval::default();
        for node in cl.iter() {
            let own = node.mk_interval(|k| &eg[*k].data.interval);
            both = meet(&both, &own);
        }
        if both.low != None || both.high != None {
            c.count("bounded intervals", 1);
        }
        // at least as tight as every node's own interval
        if meet(&both, &d.interval) != d.interval {
            return viol(
                "interval too wide",
                format!(
                    "{}: class of {} after {what}: interval {:?}, its nodes give {:?}",
                    L::name(),
                    d.simplest,
                    d.interval,
                    both
                ),
            );
        }
        if let (Some(l), Some(h)) = (d.interval.low, d.interval.high) {
            if l == h {
                let ct = cterm(&l);
                if look(eg, &ct) != Some(id) {
                    return viol(
                        "constant missing",
                        format!("{}: class of {} after {what} has interval {l}..{h} but not {ct}", L::name(), d.simplest),
                    );
                }
                c.count("point intervals", 1);
            }
        }
        // representative
        let s = t_of_rec(&d.simplest);
        if look(eg, &s) != Some(id) {
            return viol(
                "representative not in class",
                format!("{}: after {what}: representative {s} is not a term of its class", L::name()),
            );
        }
        if let Some(best) = costs.get(&map[&usize::from(id)]) {
            let mut subs = vec![];
            s.subterms(&mut subs);
            if !subs.iter().all(|t| allowed(t.op(), t.kids().len())) {
                return viol(
                    "representative not allowed",
                    format!("{}: after {what}: representative {s} of a class with an allowed term", L::name()),
                );
            }
            if s.size() != *best {
                return viol(
                    "representative not minimal",
                    format!("{}: after {what}: representative {s} has size {}, the class has size {best}", L::name(), s.size()),
                );
            }
        }
        if cl.len() > 1 {
            c.nontrivial((L::name(), what.len(), s.to_string(), cl.len()));
            c.count("merged classes", 1);
        }
    }
    Ok(())
}
fn meet<X: Ord + Copy>(a: &Interval<X>, b: &Interval<X>) -> Interval<X> {
    let low = match (a.low, b.low) {
        (Some(x), Some(y)) => Some(x.max(y)),
        (x, y) => x.or(y),
    };
    let high = match (a.high, b.high) {
        (Some(x), Some(y)) => Some(x.min(y)),
        (x, y) => x.or(y),
    };
    Interval { low, high }
}
/// Merge terms that denote the same function in random order; look after each rebuild.
fn c04_pl(c: &mut Case) -> Res {
    let nv = c.size((1, 2), (3, 4));
    let vars: Vec<String> = ["a", "b", "c", "d"][..nv].iter().map(|s| s.to_string()).collect();
    let mut leaves: Vec<&str> = ["a", "b", "c", "d"][..nv].to_vec();
    leaves.extend(["0", "1", "2", "4"]);
    let mut sig = pl_sig(&leaves, true);
    if c.rng.chance(1, 2) {
        sig.ops.retain(|(o, _)| ["min", "max", "+", "xneg", "~"].contains(&o.as_str()));
    }
    let mut eg: Eg<Pl> = EGraph::default();
    real("initialize_vars", || Pl::initialize_vars(&mut eg, &vars))?;
    let assigned: BTreeMap<String, Vec<Option<Z5>>> =
        vars.iter().map(|v| (v.clone(), pl_vec(&a(v), &vars).into_iter().map(|x| x.map(Z5)).collect())).collect();
    let mut pool: Vec<(T, Vec<Option<u8>>)> = vec![];
    let steps = c.size((8, 30), (40, 90));
    let mut log = String::new();
    let mut dirty = false;
    for step in 0..steps {
        if pool.len() < 3 || c.rng.chance(1, 2) {
            let t = sig.gen(&mut c.rng, 3);
            let v = pl_vec(&t, &vars);
            let e = rexpr::<Pl>(&t);
            real("add_expr", || eg.add_expr(&e))?;
            log += &format!("add {t}; ");
            pool.push((t, v));
        } else {
            let pairs: Vec<(usize, usize)> = (0..pool.len())
                .flat_map(|i| (0..i).map(move |j| (i, j)))
                .filter(|(i, j)| pool[*i].1 == pool[*j].1 && pool[*i].0 != pool[*j].0 && pool[*i].1.iter().any(|x| x.is_some()))
                .collect();
            if pairs.is_empty() {
                continue;
            }
            let (mut i, mut j) = *c.rng.pick(&pairs);
            if c.rng.chance(1, 2) {
                std::mem::swap(&mut i, &mut j);
            }
            log += &format!("merge {} {}; ", pool[i].0, pool[j].0);
            let (x, y) = (look(&eg, &pool[i].0), look(&eg, &pool[j].0));
            // before a rebuild a term may not be found by lookup: add it again
            let (ex, ey) = (rexpr::<Pl>(&pool[i].0), rexpr::<Pl>(&pool[j].0));
            real("union", || {
                let x = x.unwrap_or_else(|| eg.add_expr(&ex));
                let y = y.unwrap_or_else(|| eg.add_expr(&ey));
                eg.union(x, y)
            })?;
            c.count("merges", 1);
            dirty = true;
        }
        if dirty && c.rng.chance(1, 3) || step + 1 == steps {
            real("rebuild", || eg.rebuild())?;
            dirty = false;
            check_facts::<Pl>(
                c,
                &eg,
                &log,
                &assigned,
                &|o, xs| pl_op(o, &xs.iter().map(|z| Some(z.0)).collect::<Vec<_>>()).map(Z5),
                &|o, _| o != "xneg",
                &|k| a(&k.to_string()),
            )?;
            for (t, v) in &pool {
                let id = match look(&eg, t) {
                    Some(id) => id,
                    None => return viol("term missing", format!("Z5: {t} is gone after {log}")),
                };
                let got: Vec<Option<u8>> = eg[id].data.cvec.iter().map(|x| x.map(|z| z.0)).collect();
                if got.iter().zip(v).any(|(g, w)| w.is_some() && g != w) {
                    return viol("class vector", format!("Z5: {t} is {v:?}, its class says {got:?} after {log}"));
                }
            }
        }
    }
    c.sample(|| log.clone());
    Ok(())
}
/// Variables with partial views of hidden functions: vectors fill up as variables merge.
fn c04_big(c: &mut Case) -> Res {
    c.bigger(if c.idx % 2 == 0 { c04_partial } else { c04_pl })
}
fn c04_partial(c: &mut Case) -> Res {
    let n = c.size((1, 8), (60, 2500));
    // where the variables' views begin, and how dense they are
    let late = if c.big && c.rng.chance(1, 2) { c.rng.range(n / 2, n - 2) } else { 0 };
    let dense = if c.big { c.rng.range(1, 4) } else { 2 };
    let groups = c.rng.range(1, 3);
    let hidden: Vec<Vec<u8>> = (0..groups)
        .map(|_| {
            let k = c.rng.below(5) as u8;
            let constant = c.rng.chance(1, 3);
            (0..n).map(|_| if constant { k } else { c.rng.below(5) as u8 }).collect()
        })
        .collect();
    let mut eg: Eg<Pl> = EGraph::default();
    eg.analysis.cvec_len = n;
    let mut assigned: BTreeMap<String, Vec<Option<Z5>>> = BTreeMap::new();
    let mut env: BTreeMap<String, usize> = BTreeMap::new();
    let mut leaves: Vec<String> = vec!["0".into(), "2".into(), "4".into()];
    for g in 0..groups {
        for i in 0..c.rng.range(1, 4) {
            let name = format!("{}{i}", ["a", "b", "c"][g]);
            let late = if c.rng.chance(1, 2) { late } else { 0 };
            let view: Vec<Option<Z5>> = hidden[g]
                .iter()
                .enumerate()
                .map(|(k, v)| if k >= late && c.rng.chance(dense, 4) { Some(Z5(*v)) } else { None })
                .collect();
            let id = eg.add(Pl::mk_var(Symbol::from(name.as_str())));
            eg[id].data.cvec = view.clone();
            assigned.insert(name.clone(), view);
            env.insert(name.clone(), g);
            leaves.push(name);
        }
    }
    let sig = Sig { leaves: leaves.clone(), ..pl_sig(&[], true) };
    let truth = |t: &T| -> Vec<Option<u8>> { (0..n).map(|i| pl_eval(t, &|s| hidden[env[s]][i])).collect() };
    let mut pool: Vec<(T, Vec<Option<u8>>)> =
        leaves.iter().filter(|l| env.contains_key(*l)).map(|l| (a(l), truth(&a(l)))).collect();
    let mut log = String::new();
    for _ in 0..c.size((3, 12), (20, 60)) {
        let t = sig.gen(&mut c.rng, 3);
        let e = rexpr::<Pl>(&t);
        real("add_expr", || eg.add_expr(&e))?;
        log += &format!("add {t}; ");
        let v = truth(&t);
        pool.push((t, v));
    }
    for _ in 0..c.rng.range(1, 10) {
        let pairs: Vec<(usize, usize)> = (0..pool.len())
            .flat_map(|i| (0..i).map(move |j| (i, j)))
            .filter(|(i, j)| pool[*i].0 != pool[*j].0 && pool[*i].1 == pool[*j].1 && pool[*i].1.iter().any(|x| x.is_some()))
            .collect();
        if pairs.is_empty() {
            break;
        }
        for _ in 0..c.rng.range(1, 3) {
            let (mut i, mut j) = *c.rng.pick(&pairs);
            if c.rng.chance(1, 2) {
                std::mem::swap(&mut i, &mut j);
            }
            log += &format!("merge {} {}; ", pool[i].0, pool[j].0);
            let (ex, ey) = (rexpr::<Pl>(&pool[i].0), rexpr::<Pl>(&pool[j].0));
            real("union", || {
                let (x, y) = (eg.add_expr(&ex), eg.add_expr(&ey));
                eg.union(x, y)
            })?;
            c.count("merges", 1);
        }
        real("rebuild", || eg.rebuild())?;
        check_facts::<Pl>(
            c,
            &eg,
            &format!("{assigned:?} {log}"),
            &assigned,
            &|o, xs| pl_op(o, &xs.iter().map(|z| Some(z.0)).collect::<Vec<_>>()).map(Z5),
            &|o, _| o != "xneg",
            &|k| a(&k.to_string()),
        )?;
    }
    c.sample(|| log.clone());
    Ok(())
}
fn nt_eval(t: &T, env: &dyn Fn(&str) -> u64) -> Option<u64> {
    let kids: Option<Vec<u64>> = t.kids().iter().map(|k| nt_eval(k, env)).collect();
    match t {
        T::A(s) if s != "Z" => Some(env(s)),
        _ => nt_op(t.op(), &kids?),
    }
}
fn nt_const(n: u64) -> T {
    (0..n).fold(a("Z"), |t, _| l("S", vec![t]))
}
/// Unary naturals: constants take several nodes, and doubling is not allowed in rules.
fn c04_nat(c: &mut Case) -> Res {
    let vars: Vec<String> = vec!["a".into(), "b".into()];
    let mut eg: Eg<Nt> = EGraph::default();
    real("initialize_vars", || Nt::initialize_vars(&mut eg, &vars))?;
    let assigned: BTreeMap<String, Vec<Option<u64>>> =
        vars.iter().enumerate().map(|(i, v)| (v.clone(), NT_SAMPLES[i].iter().map(|x| Some(*x)).collect())).collect();
    let sig = Sig::new(&["a", "b", "Z", "(S Z)"], &[("S", 1), ("+", 2), ("*", 2), ("xdbl", 1)]);
    let mut terms: Vec<T> = vec![];
    for _ in 0..c.rng.range(2, 8) {
        let t = T::parse(&sig.gen(&mut c.rng, 3).to_string());
        // keep folded constants small: they are written in unary
        if nt_eval(&t, &|_| 0).unwrap_or(99) <= 12 {
            terms.push(t);
        }
    }
    let mut log = String::new();
    for t in &terms {
        let e = rexpr::<Nt>(t);
        real("add_expr", || eg.add_expr(&e))?;
        log += &format!("add {t}; ");
    }
    for _ in 0..c.rng.range(1, 8) {
        let mut subs = vec![];
        for t in &terms {
            t.subterms(&mut subs);
        }
        let subs: Vec<T> = subs.into_iter().cloned().collect();
        if subs.is_empty() {
            break;
        }
        let t = c.rng.pick(&subs).clone();
        let k = t.kids().to_vec();
        let mut opts = vec![l("+", vec![t.clone(), a("Z")]), l("*", vec![t.clone(), T::parse("(S Z)")])];
        match t.op() {
            "+" => {
                opts.push(l("+", vec![k[1].clone(), k[0].clone()]));
                if k[0] == k[1] {
                    opts.push(l("xdbl", vec![k[0].clone()]));
                }
                if k[0].op() == "S" {
                    opts.push(l("S", vec![l("+", vec![k[0].kids()[0].clone(), k[1].clone()])]));
                }
                if k[0] == a("Z") {
                    opts.push(k[1].clone());
                }
            }
            "*" => {
                opts.push(l("*", vec![k[1].clone(), k[0].clone()]));
                if k[0] == a("Z") {
                    opts.push(a("Z"));
                }
            }
            "xdbl" => opts.push(l("+", vec![k[0].clone(), k[0].clone()])),
            _ => (),
        }
        let u = c.rng.pick(&opts).clone();
        let (et, eu) = (rexpr::<Nt>(&t), rexpr::<Nt>(&u));
        let swap = c.rng.chance(1, 2);
        real("union", || {
            let (x, y) = (eg.add_expr(&et), eg.add_expr(&eu));
            if swap {
                eg.union(y, x)
            } else {
                eg.union(x, y)
            }
        })?;
        log += &format!("merge {t} {u}; ");
        c.count("merges", 1);
        terms.push(u);
        if c.rng.chance(1, 2) {
            continue;
        }
        real("rebuild", || eg.rebuild())?;
        nt_check(c, &eg, &log, &assigned)?;
    }
    real("rebuild", || eg.rebuild())?;
    nt_check(c, &eg, &log, &assigned)?;
    c.sample(|| log.clone());
    Ok(())
}
fn nt_check(c: &mut Case, eg: &Eg<Nt>, log: &str, assigned: &BTreeMap<String, Vec<Option<u64>>>) -> Res {
    check_facts::<Nt>(c, eg, log, assigned, &|o, xs| nt_op(o, xs), &|o, _| o != "xdbl", &|k| nt_const(*k))
}
fn c04_bv_l<L: BvL>(c: &mut Case) -> Res
where
    L::Constant: Copy,
{
    let n = L::N;
    let vars: Vec<String> = vec!["a".into()];
    let mut eg: Eg<L> = EGraph::default();
    real("initialize_vars", || L::initialize_vars(&mut eg, &vars))?;
    let id = look(&eg, &a("a")).unwrap();
    let col: Vec<Option<L::Constant>> = eg[id].data.cvec.clone();
    let assigned: BTreeMap<String, Vec<Option<L::Constant>>> = [("a".to_string(), col)].into_iter().collect();
    let mask = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    let mut leaves = vec!["a".to_string()];
    for v in [0, 1 & mask, mask, value(&mut c.rng, n)] {
        leaves.push(v.to_string());
    }
    let sig = Sig { leaves, ops: BVOPS.iter().map(|(o, k)| (o.to_string(), *k)).collect() };
    let mut pool: Vec<(T, Vec<u128>)> = vec![];
    let mut log = String::new();
    // widths up to 4 are compared on every value, so equal vectors mean equal functions
    assert!(n <= 4);
    for _ in 0..c.rng.range(6, 20) {
        let t = sig.gen(&mut c.rng, 3);
        let e = rexpr::<L>(&t);
        real("add_expr", || eg.add_expr(&e))?;
        log += &format!("add {t}; ");
        let v = (0..=mask).map(|x| bv_eval_l(&t, n, &|_| x)).collect();
        pool.push((t, v));
        let pairs: Vec<(usize, usize)> = (0..pool.len())
            .flat_map(|i| (0..i).map(move |j| (i, j)))
            .filter(|(i, j)| pool[*i].0 != pool[*j].0 && pool[*i].1 == pool[*j].1)
            .collect();
        if !pairs.is_empty() && c.rng.chance(1, 2) {
            let (i, j) = *c.rng.pick(&pairs);
            log += &format!("merge {} {}; ", pool[i].0, pool[j].0);
            let (ex, ey) = (rexpr::<L>(&pool[i].0), rexpr::<L>(&pool[j].0));
            real("union", || {
                let (x, y) = (eg.add_expr(&ex), eg.add_expr(&ey));
                eg.union(x, y)
            })?;
            c.count("merges", 1);
        }
    }
    real("rebuild", || eg.rebuild())?;
    check_facts::<L>(
        c,
        &eg,
        &log,
        &assigned,
        &|o, xs| {
            let v: Vec<u128> = xs.iter().map(|x| L::val(x)).collect();
            Some(L::cons(match v.len() {
                0 => bv_lit(n, o).unwrap(),
                _ => fast_bv(o, n, v[0], v.get(1).copied().unwrap_or(0)),
            }))
        },
        &|_, _| true,
        &|k| a(&k.to_string()),
    )?;
    c.sample(|| log.clone());
    Ok(())
}
fn c04_bv(c: &mut Case) -> Res {
    let n = [1, 3, 4][(c.idx % 3) as usize];
    with_bv_few!(n, L => c04_bv_l::<L>(c))
}
/// Intervals of every shape, known better or worse for each term, meet as terms merge.
fn c04_iv(c: &mut Case) -> Res {
    let mut leaves: Vec<String> = vec![];
    let mut assigned: BTreeMap<String, Vec<Option<i64>>> = BTreeMap::new();
    let sampled = c.rng.below(5);
    let mut vars = vec![];
    for i in 0..c.rng.range(2, 6) {
        let v = c.rng.range(0, 6) as i64 - 3;
        let show = |x: i64| x.to_string().replace('-', "m");
        let low = if c.rng.chance(1, 2) { "n".to_string() } else { show(v - c.rng.below(5) as i64) };
        let high = if c.rng.chance(1, 2) { "n".to_string() } else { show(v + c.rng.below(5) as i64) };
        let s = c.rng.below(5) >= sampled;
        let name = format!("v{i}_{}_{low}_{high}_{}", show(v), if s { "s" } else { "u" });
        assigned.insert(name.clone(), vec![if s { Some(v) } else { None }]);
        vars.push(name.clone());
        leaves.push(name);
    }
    let mut eg: Eg<Iv> = EGraph::default();
    real("initialize_vars", || Iv::initialize_vars(&mut eg, &vars))?;
    for _ in 0..c.rng.below(3) {
        leaves.push((c.rng.range(0, 4) as i64 - 2).to_string());
    }
    let mut ops = vec![("+", 2), ("neg", 1), ("min", 2), ("max", 2), ("abs", 1), ("xid", 1)];
    if c.rng.chance(1, 2) {
        ops.retain(|(o, _)| *o != "min" && *o != "max" && *o != "abs");
    }
    let sig = Sig { leaves, ops: ops.iter().map(|(o, k)| (o.to_string(), *k)).collect() };
    let mut pool: Vec<(T, i64)> = vec![];
    let mut log = String::new();
    let mut dirty = false;
    let steps = c.rng.range(6, 30);
    for step in 0..steps {
        if pool.len() < 3 || c.rng.chance(1, 2) {
            let t = sig.gen(&mut c.rng, 3);
            let e = rexpr::<Iv>(&t);
            real("add_expr", || eg.add_expr(&e))?;
            log += &format!("add {t}; ");
            let mut subs = vec![];
            t.subterms(&mut subs);
            for s in subs {
                pool.push((s.clone(), iv_eval(s)));
            }
        } else {
            let pairs: Vec<(usize, usize)> = (0..pool.len())
                .flat_map(|i| (0..i).map(move |j| (i, j)))
                .filter(|(i, j)| pool[*i].1 == pool[*j].1 && pool[*i].0 != pool[*j].0)
                .collect();
            if !pairs.is_empty() {
                let (mut i, mut j) = *c.rng.pick(&pairs);
                if c.rng.chance(1, 2) {
                    std::mem::swap(&mut i, &mut j);
                }
                log += &format!("merge {} {}; ", pool[i].0, pool[j].0);
                let (ex, ey) = (rexpr::<Iv>(&pool[i].0), rexpr::<Iv>(&pool[j].0));
                real("union", || {
                    let (x, y) = (eg.add_expr(&ex), eg.add_expr(&ey));
                    eg.union(x, y)
                })?;
                c.count("merges", 1);
                dirty = true;
            }
        }
        if dirty && c.rng.chance(1, 3) || step + 1 == steps {
            real("rebuild", || eg.rebuild())?;
            dirty = false;
            check_facts::<Iv>(c, &eg, &log, &assigned, &|o, xs| iv_op(o, xs), &|o, _| o != "xid", &|k| a(&k.to_string()))?;
            for (t, v) in &pool {
                let id = match look(&eg, t) {
                    Some(id) => id,
                    None => return viol("term missing", format!("interval: {t} is gone after {log}")),
                };
                let i = &eg[id].data.interval;
                if i.low.map_or(false, |l| l > *v) || i.high.map_or(false, |h| h < *v) {
                    return viol("interval excludes a value", format!("interval: {t} is {v}, its class has {i:?} after {log}"));
                }
            }
        }
    }
    c.sample(|| log.clone());
    Ok(())
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C03",
            rule: "random workloads over a partial domain (integers mod 5, every sample) and bitvectors of 7 widths: every subterm's vector against a reference evaluation on the variables' own samples; the cross product by counting tuples; non-trivial: operator terms",
            assumptions: vec![],
            shards: 1,
            sections: vec![
                sec("z5", 60000, 600000, c03_pl),
                sec("bv", 42000, 280000, c03_bv),
                sec("big", 210, 1400, c03_big),
                sec("product", 1800, 7200, c03_product),
                sec("map", 6000, 24000, c03_map),
            ],
        },
        CheckDef {
            id: "C04",
            rule: "random interleavings of additions, sound merges and rebuilds in five domains; after rebuilds every class is checked against its nodes; non-trivial: classes with several nodes",
            assumptions: vec!["merges are sound: only terms that denote the same function are merged"],
            shards: 1,
            sections: vec![
                sec("z5", 15000, 400000, c04_pl),
                sec("partial", 15000, 400000, c04_partial),
                sec("big", 240, 6000, c04_big),
                sec("nat", 15000, 400000, c04_nat),
                sec("bv", 6000, 200000, c04_bv),
                sec("intervals", 30000, 600000, c04_iv),
            ],
        },
    ]
}
