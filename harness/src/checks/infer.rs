//! Rule inference end to end (C15), fast-forwarding (C16), reproducibility (C28).
use crate::checks::an::wkld_of;
use crate::checks::cand::{smallest_terms, taint};
use crate::checks::sat::{bv3_laws, enumerate, bv3_vec, instances, mon_rules, pl_laws, MON_OPS};
use crate::eg::*;
use crate::fw::*;
use crate::langs::*;
use crate::model::*;
use crate::term::*;
use ruler::enumo::{Metric, Ruleset, Scheduler, Workload};
use ruler::recipe_utils::{recursive_rules, run_fast_forwarding, run_workload, Lang};
use ruler::*;
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};

fn join(ts: &[T]) -> String {
    ts.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ")
}
fn strings(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|s| s.to_string()).collect()
}
/// The terms under all permutations of the variables.
fn closed(terms: &[T], vars: &[String]) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    let mut seen: BTreeSet<T> = BTreeSet::new();
    for m in injections(vars, vars) {
        for t in terms {
            let u = t.rename(&m);
            if seen.insert(u.clone()) {
                out.push(u);
            }
        }
    }
    out
}
fn subs_of(terms: &[T]) -> Vec<T> {
    let mut s: BTreeSet<T> = BTreeSet::new();
    for t in terms {
        let mut v = vec![];
        t.subterms(&mut v);
        s.extend(v.into_iter().cloned());
    }
    s.into_iter().collect()
}
fn vars_in(t: &T, vars: &[String]) -> BTreeSet<String> {
    let mut ls = vec![];
    t.leaves(&mut ls);
    ls.into_iter().filter(|s| vars.iter().any(|v| v == s)).map(|s| s.to_string()).collect()
}
/// Does one side use only variables of the other, whichever smallest terms are taken?
fn comparable(xs: &Option<Vec<T>>, ys: &Option<Vec<T>>, vars: &[String]) -> bool {
    let (xs, ys) = match (xs, ys) {
        (Some(x), Some(y)) => (x, y),
        _ => return false,
    };
    xs.iter().all(|x| {
        ys.iter().all(|y| {
            let (p, q) = (vars_in(x, vars), vars_in(y, vars));
            p.is_subset(&q) || q.is_subset(&p)
        })
    })
}

/// A domain with an exact reference semantics.
struct Sem {
    /// values on all assignments to the variables
    vec: fn(&T, &[String]) -> Vec<Option<u8>>,
}
fn pl_sem(t: &T, vars: &[String]) -> Vec<Option<u8>> {
    pl_vec(t, vars)
}
fn bv_sem(t: &T, vars: &[String]) -> Vec<Option<u8>> {
    let vs: Vec<&str> = vars.iter().map(|s| s.as_str()).collect();
    bv3_vec(t, &vs).into_iter().map(Some).collect()
}
impl Sem {
    fn valid(&self, r: &Rule2) -> bool {
        let mut vs = r.0.pvars();
        for v in r.1.pvars() {
            if !vs.contains(&v) {
                vs.push(v);
            }
        }
        let (x, y) = ((self.vec)(&r.0, &vs), (self.vec)(&r.1, &vs));
        x == y && x.iter().any(|v| v.is_some())
    }
}

/// Run an inference; learning nothing at all is reported by ruler as a panic.
fn learn<L: Lx>(what: &str, f: impl FnOnce() -> Ruleset<L>) -> Res<Option<Ruleset<L>>> {
    match real(what, f) {
        Err(v) if v.msg.contains("Didn't learn any rules") => Ok(None),
        Err(v) => Err(v),
        Ok(r) => Ok(Some(r)),
    }
}
fn sound<L: Lx>(c: &mut Case, sem: &Sem, got: &[Rule2], descr: &dyn Fn() -> String) -> Res {
    for r in got {
        c.eval();
        if !sem.valid(r) {
            return viol(
                "unsound rule returned",
                format!("{}: {} from {}", L::name(), show_rules(&[r.clone()]), descr()),
            );
        }
    }
    Ok(())
}
/// Pairs of terms with the same function must be merged by a generous run of the rules.
fn explained<L: Lx>(
    c: &mut Case,
    sem: &Sem,
    terms: &[T],
    vars: &[String],
    compressed: &Eg<L>,
    rules: &Ruleset<L>,
    iters: usize,
    cap: usize,
    descr: &dyn Fn() -> String,
) -> Res {
    let d = dump(compressed);
    let mins = smallest_terms(&d, &|_, _| true, 40);
    let all = subs_of(terms);
    let mut groups: BTreeMap<Vec<Option<u8>>, Vec<(T, usize)>> = BTreeMap::new();
    for t in &all {
        let id = match look(compressed, t) {
            Some(i) => usize::from(i),
            None => return viol("workload term missing", format!("{}: {t} from {}", L::name(), descr())),
        };
        groups.entry((sem.vec)(t, vars)).or_default().push((t.clone(), id));
    }
    groups.retain(|_, g| g.len() > 1);
    if groups.is_empty() {
        return Ok(());
    }
    // the pairs to explain
    let mut pairs: Vec<(T, T, bool)> = vec![];
    for g in groups.values() {
        for (i, (s, x)) in g.iter().enumerate() {
            for (t, y) in &g[i + 1..] {
                if x != y && !comparable(&mins[x], &mins[y], vars) {
                    c.count("pairs no rule can express", 1);
                } else {
                    pairs.push((s.clone(), t.clone(), x != y));
                }
            }
        }
    }
    let mut eg: Eg<L> = EGraph::default();
    for t in &all {
        eg.add_expr(&rexpr::<L>(t));
    }
    eg.rebuild();
    let mut cut = false;
    let mut open: Vec<(Id, Id, usize)> =
        pairs.iter().enumerate().map(|(i, (s, t, _))| (look(&eg, s).unwrap(), look(&eg, t).unwrap(), i)).collect();
    for _ in 0..iters {
        cut |= eg.total_number_of_nodes() > cap;
        if open.is_empty() || cut {
            break;
        }
        for r in rules.iter() {
            let n: usize = r.rewrite.search_with_limit(&eg, 60_001).iter().map(|m| m.substs.len()).sum();
            cut |= n > 60_000;
        }
        let t = std::time::Instant::now();
        eg = real("run", || Scheduler::Simple(lim(1, cap + 1, 60_000)).run(&eg, rules))?;
        // egg gives up a round after some seconds
        cut |= t.elapsed().as_secs() >= 3;
        open.retain(|(x, y, _)| eg.find(*x) != eg.find(*y));
    }
    // the last round may have been stopped half way
    cut |= eg.total_number_of_nodes() > cap;
    if cut && !open.is_empty() {
        c.count("pairs left undecided", open.len() as u64);
    } else if let Some((_, _, i)) = open.first() {
        let (s, t, _) = &pairs[*i];
        return viol(
            "equal workload terms not explained",
            format!(
                "{}: {s} and {t} denote the same function; {} rules ({}) do not merge them; {}",
                L::name(),
                rules.len(),
                show_rules(&rules_of(rules)),
                descr()
            ),
        );
    }
    let left: BTreeSet<usize> = open.iter().map(|x| x.2).collect();
    for (i, (_, _, new)) in pairs.iter().enumerate() {
        if !left.contains(&i) {
            c.eval();
            c.count("equal pairs", 1);
            c.count("equal pairs that needed new rules", *new as u64);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C15
fn pick_ops(rng: &mut Rng, ops: &[(&'static str, usize)], n: usize) -> Vec<(&'static str, usize)> {
    let mut v = ops.to_vec();
    rng.shuffle(&mut v);
    v.truncate(n);
    v
}
fn ops_of(t: &T, out: &mut BTreeSet<String>) {
    let mut v = vec![];
    t.subterms(&mut v);
    out.extend(v.into_iter().filter(|s| !s.kids().is_empty()).map(|s| s.op().to_string()));
}
fn some_laws(rng: &mut Rng, laws: &crate::checks::sat::Laws, ops: &[(&str, usize)], sem: &Sem, n: usize) -> Vec<Rule2> {
    let mut v: Vec<Rule2> = vec![];
    for _ in 0..n * 300 {
        if v.len() == n {
            break;
        }
        let r = laws.pick(rng);
        let mut o = BTreeSet::new();
        ops_of(&r.0, &mut o);
        ops_of(&r.1, &mut o);
        if o.iter().all(|x| ops.iter().any(|(y, _)| x == y)) && sem.valid(&r) && !v.contains(&r) {
            v.push(r);
        }
    }
    v
}
const TOTAL: [(&str, usize); 6] = [("+", 2), ("*", 2), ("~", 1), ("min", 2), ("max", 2), ("ite", 3)];
const PARTIAL: [(&str, usize); 8] =
    [("+", 2), ("*", 2), ("~", 1), ("min", 2), ("max", 2), ("ite", 3), ("/", 2), ("inv", 1)];

fn c15_l<L: Lx>(
    c: &mut Case,
    sem: &Sem,
    laws: &crate::checks::sat::Laws,
    ops: &[(&'static str, usize)],
    consts: &[&str],
    nterms: usize,
    complete: bool,
) -> Res {
    let n = c.rng.range(2, 4);
    let ops = pick_ops(&mut c.rng, ops, n);
    let nv = if c.rng.chance(1, 5) { 3 } else { 2 };
    let vars = strings(&["a", "b", "c"][..nv]);
    let mut leaves: Vec<&str> = vars.iter().map(|s| s.as_str()).collect();
    leaves.extend(consts.iter().filter(|_| c.rng.chance(1, 2)));
    let sig = Sig::new(&leaves, &ops);
    let lr = some_laws(&mut c.rng, laws, &ops, sem, 3);
    let wide = c.big && complete;
    let nterms = if wide { c.rng.range(1, 3) } else { c.size((1, nterms), (60, 220)) };
    let mut base: Vec<T> = (0..nterms).map(|_| sig.gen_op(&mut c.rng, 2)).collect();
    if !lr.is_empty() {
        for _ in 0..c.rng.range(1, 4) {
            // both sides of an instance of a law
            let r = c.rng.pick(&lr).clone();
            let sub: BTreeMap<String, T> =
                r.0.pvars().into_iter().map(|v| (v, { let d = c.rng.below(2); sig.gen(&mut c.rng, d) })).collect();
            base.push(r.0.subst(&sub));
            base.push(r.1.subst(&sub));
        }
    }
    if wide {
        // many terms for the same constant: the number of candidates is quadratic in theirs
        let op = if c.rng.chance(1, 2) { "*" } else { "min" };
        let one = Sig::new(&["a", "a", "2", "3"], &TOTAL);
        let all = Sig::new(&["a", "b", "2", "3"], &TOTAL);
        let loose = c.idx / 8 % 3 == 0;
        let (n, m) = (if loose { c.rng.range(500, 1100) } else { c.rng.range(100, 3000) }, c.rng.below(4));
        // all different functions, so that few rules suffice
        let mut known: BTreeMap<Vec<Option<u8>>, T> = BTreeMap::new();
        let mut xs: BTreeSet<T> = BTreeSet::new();
        for i in 0..n + m {
            let x = match i {
                0 => a("a"),
                _ if i < n => one.gen_op(&mut c.rng, if loose { 2 } else { 2 + i % 2 }),
                _ => all.gen_op(&mut c.rng, 2),
            };
            let subs = if loose { vec![x.clone()] } else { subs_of(&[x.clone()]) };
            if subs.iter().all(|t| known.get(&(sem.vec)(t, &vars)).map_or(true, |u| u == t)) {
                for t in subs {
                    known.insert((sem.vec)(&t, &vars), t);
                }
                xs.insert(x);
            }
        }
        let at = c.rng.below(base.len() + 1);
        let zeros = xs.into_iter().map(|x| l(op, vec![a("0"), x]));
        base.splice(at..at, zeros);
    }
    let terms = if c.big && !wide { base } else { closed(&base, &vars) };
    let prior: Vec<Rule2> = lr.iter().filter(|_| !wide && c.rng.chance(1, 3)).cloned().collect();
    let w = wkld_of(&terms, &mut c.rng);
    let rs = ruleset::<L>(&prior);
    let (pi, mi) = (c.rng.range(1, 2), c.rng.range(1, 2));
    let node = if c.big {
        40_000
    } else if c.rng.chance(1, 6) {
        c.rng.range(1, 60)
    } else {
        5000
    };
    let (pl, ml) = (lim(pi, node, 2000), lim(mi, node, 2000));
    let fast = c.rng.chance(1, 2) && !c.big;
    let descr = || {
        format!(
            "workload {} with prior [{}], {} matching, limits {pi} {mi} {node}",
            join(&terms),
            show_rules(&prior),
            if fast { "fast" } else { "full" }
        )
    };
    let got = learn("run_workload", || run_workload::<L>(w.clone(), rs.clone(), pl, ml, fast))?;
    let none = got.is_none();
    let got = got.unwrap_or_default();
    let gr = rules_of(&got);
    c.eval();
    c.count("rules returned", gr.len() as u64);
    sound::<L>(c, sem, &gr, &descr)?;
    // with limits out of reach
    if node == 5000 {
        for r in &gr {
            if prior.contains(r) {
                return viol("prior rule repeated", format!("{}: {} from {}", L::name(), show_rules(&[r.clone()]), descr()));
            }
        }
    }
    if complete {
        let eg = real("to_egraph", || w.to_egraph::<L>())?;
        let comp = real("compress", || Scheduler::Compress(pl).run(&eg, &rs))?;
        if wide {
            let k = if fast { Ruleset::fast_cvec_match(&comp) } else { Ruleset::cvec_match(&comp) };
            c.count("candidates on wide workloads", k.len() as u64);
            c.count("workloads with more than 20000 candidates", (k.len() > 20_000) as u64);
        }
        let both = rs.union(&got);
        explained::<L>(c, sem, &terms, &vars, &comp, &both, pi + mi + 2, if wide { 30_000 } else { 12_000 }, &|| {
            format!("{}{}", if none { "nothing learned; " } else { "" }, descr())
        })?;
    }
    if !gr.is_empty() {
        c.nontrivial((L::name(), join(&terms), show_rules(&prior), fast));
    }
    c.sample(|| format!("{} -> {}", descr(), show_rules(&gr)));
    Ok(())
}
fn c15_z5(c: &mut Case) -> Res {
    c15_l::<Pl>(c, &Sem { vec: pl_sem }, pl_laws(), &TOTAL, &["0", "1", "2"], 5, true)
}
/// Workloads with tens of thousands of candidates.
fn c15_wide(c: &mut Case) -> Res {
    c.bigger(|c| c15_l::<Pl>(c, &Sem { vec: pl_sem }, pl_laws(), &TOTAL, &["0", "1", "2"], 6, true))
}
/// Large workloads, matched in full (soundness).
fn c15_big(c: &mut Case) -> Res {
    c.bigger(|c| c15_l::<Pl>(c, &Sem { vec: pl_sem }, pl_laws(), if c.idx % 2 == 0 { &PARTIAL } else { &TOTAL }, &["0", "1", "2"], 6, false))
}
fn c15_partial(c: &mut Case) -> Res {
    c15_l::<Pl>(c, &Sem { vec: pl_sem }, pl_laws(), &PARTIAL, &["0", "1", "2"], 6, false)
}
const BV: [(&str, usize); 9] =
    [("~", 1), ("-", 1), ("&", 2), ("|", 2), ("+", 2), ("^", 2), ("*", 2), ("<<", 2), (">>", 2)];
fn c15_bv(c: &mut Case) -> Res {
    c15_l::<b3::Bv>(c, &Sem { vec: bv_sem }, bv3_laws(), &BV, &["0", "1"], 3, true)
}

/// All terms over the placeholders whose measure is at most n.
fn skeletons(nops: usize, n: usize, measure: &dyn Fn(&T) -> usize) -> Vec<T> {
    let base = [a("VAR"), a("VAL")];
    let mut s: BTreeSet<T> = base.iter().filter(|t| measure(t) <= n).cloned().collect();
    loop {
        let now: Vec<T> = s.iter().cloned().collect();
        let mut new: Vec<T> = vec![];
        for k in 1..=nops {
            let mut rows: Vec<Vec<T>> = vec![vec![]];
            for _ in 0..k {
                let mut next = vec![];
                for r in &rows {
                    for t in &now {
                        let mut r2 = r.clone();
                        r2.push(t.clone());
                        if measure(&l("x", r2.clone())) <= n {
                            next.push(r2);
                        }
                    }
                }
                rows = next;
            }
            new.extend(rows.into_iter().map(|r| l(&format!("OP{k}"), r)));
        }
        let before = s.len();
        s.extend(new.into_iter().filter(|t| measure(t) <= n));
        if s.len() == before {
            return s.into_iter().collect();
        }
    }
}
fn depth(t: &T) -> usize {
    match t {
        T::A(_) => 1,
        T::L(_) => 1 + t.kids().iter().map(depth).max().unwrap_or(0),
    }
}
fn lists(t: &T) -> usize {
    match t {
        T::A(_) => 0,
        T::L(_) => 1 + t.kids().iter().map(lists).sum::<usize>(),
    }
}
fn atoms(t: &T) -> usize {
    t.size()
}
/// Replace every placeholder independently by the words it stands for.
fn filled(t: &T, words: &BTreeMap<String, Vec<String>>, cap: usize) -> Option<Vec<T>> {
    match t {
        T::A(s) => Some(words.get(s).map_or(vec![t.clone()], |w| w.iter().map(|x| a(x)).collect())),
        T::L(_) => {
            let mut rows: Vec<Vec<T>> = vec![vec![]];
            for k in t.kids() {
                let f = filled(k, words, cap)?;
                let mut next = vec![];
                for r in &rows {
                    for x in &f {
                        let mut r2 = r.clone();
                        r2.push(x.clone());
                        next.push(r2);
                    }
                }
                rows = next;
                if rows.len() > cap {
                    return None;
                }
            }
            let ops = words.get(t.op()).cloned().unwrap_or_else(|| vec![t.op().to_string()]);
            let mut out = vec![];
            for o in ops {
                out.extend(rows.iter().map(|r| l(&o, r.clone())));
            }
            Some(out)
        }
    }
}
fn c15_rec(c: &mut Case) -> Res {
    let sem = Sem { vec: pl_sem };
    let three = c.rng.chance(1, 4);
    let (mut uops, mut bops): (Vec<&str>, Vec<&str>) = (vec!["~"], vec!["+", "*", "min", "max"]);
    if c.rng.chance(1, 6) {
        uops.clear();
    }
    c.rng.shuffle(&mut bops);
    bops.truncate(c.rng.range(1, 2));
    let mut ops: Vec<&[&str]> = vec![&uops, &bops];
    if three {
        ops.push(&["ite"]);
    }
    let vars: Vec<&str> = if c.rng.chance(1, 3) { vec!["a"] } else { vec!["a", "b"] };
    let mut vals = vec!["0", "1", "2"];
    c.rng.shuffle(&mut vals);
    vals.truncate(c.rng.below(3));
    let (metric, n, m): (Metric, usize, fn(&T) -> usize) = match c.rng.below(4) {
        0 => (Metric::Depth, 2, depth),
        1 if bops.len() == 1 && !three => (Metric::Lists, c.rng.range(1, 2), lists),
        1 => (Metric::Lists, 1, lists),
        _ if three => (Metric::Atoms, c.rng.range(1, 4), atoms),
        _ => (Metric::Atoms, c.rng.range(1, 5), atoms),
    };
    let lang = Lang::new(&vals, &vars, &ops);
    let allops: Vec<(&str, usize)> = uops.iter().map(|o| (*o, 1)).chain(bops.iter().map(|o| (*o, 2))).collect();
    let np = c.rng.below(3);
    let prior = some_laws(&mut c.rng, pl_laws(), &allops, &sem, np);
    let rs = ruleset::<Pl>(&prior);
    let mname = format!("{metric:?}");
    let descr = || format!("recursive_rules({mname}, {n}, {lang:?}, [{}])", show_rules(&prior));
    let got = match learn("recursive_rules", || recursive_rules::<Pl>(metric, n, lang.clone(), rs.clone()))? {
        Some(g) => g,
        None => {
            c.count("nothing to learn", 1);
            return Ok(());
        }
    };
    let before = if n == 1 {
        Ruleset::default()
    } else {
        real("recursive_rules", || recursive_rules::<Pl>(metric, n - 1, lang.clone(), rs.clone()))?
    };
    let gr = rules_of(&got);
    c.eval();
    c.count("rules returned", gr.len() as u64);
    sound::<Pl>(c, &sem, &gr, &descr)?;
    for (what, set) in [("prior rule", &prior), ("rule of an earlier level", &rules_of(&before))] {
        for r in set {
            if !gr.contains(r) {
                return viol(format!("{what} lost"), format!("{} from {}", show_rules(&[r.clone()]), descr()));
            }
        }
    }
    // this level's terms
    let mut words: BTreeMap<String, Vec<String>> = BTreeMap::new();
    words.insert("VAR".into(), lang.vars.clone());
    words.insert("VAL".into(), lang.vals.clone());
    for (i, o) in lang.ops.iter().enumerate() {
        words.insert(format!("OP{}", i + 1), o.clone());
    }
    let mut terms = vec![];
    for t in skeletons(lang.ops.len(), n, &m) {
        let mut ls = vec![];
        t.leaves(&mut ls);
        if ls.contains(&"VAR") {
            match filled(&t, &words, 4000) {
                Some(v) => terms.extend(v),
                None => return Ok(()),
            }
        }
    }
    c.count("level terms", terms.len() as u64);
    if terms.is_empty() || terms.len() > 1500 {
        return Ok(());
    }
    let known = before.union(&rs);
    let w = Workload::new(terms.iter().map(|t| t.to_string()));
    let eg = real("to_egraph", || w.to_egraph::<Pl>())?;
    let comp = real("compress", || Scheduler::Compress(Limits::synthesis()).run(&eg, &known))?;
    explained::<Pl>(c, &sem, &terms, &lang.vars, &comp, &got, 5, 12_000, &descr)?;
    if !gr.is_empty() {
        c.nontrivial(descr());
    }
    c.sample(|| format!("{} -> {}", descr(), show_rules(&gr)));
    Ok(())
}

// ------------------------------------------------------------ C16
struct Ff {
    terms: Vec<T>,
    vars: Vec<String>,
    prior: Vec<Rule2>,
    expl: Vec<Rule2>,
    k: usize,
    km: usize,
}
fn ff_input(rng: &mut Rng) -> Ff {
    let nv = if rng.chance(1, 5) { 3 } else { 2 };
    let vars = strings(&["a", "b", "c"][..nv]);
    let lsig = Sig::new(&["?a", "?b", "0"], &MON_OPS[..4]);
    let mut expl: Vec<Rule2> = vec![];
    let add = |v: &mut Vec<Rule2>, x: T, y: T| {
        let xs = x.pvars();
        if x != y && matches!(x, T::L(_)) && y.pvars().iter().all(|s| xs.contains(s)) && !v.contains(&(x.clone(), y.clone())) {
            v.push((x, y));
        }
    };
    // several expressions translated into the same one with operators that are not allowed
    for _ in 0..rng.range(1, 3) {
        let d = rng.range(1, 2);
        let first = lsig.gen_op(rng, d);
        let vs = first.pvars();
        let xop = *rng.pick(&["xf", "xg"]);
        let den = match rng.below(4) {
            0 => taint(&first, rng, 1, 1),
            _ if vs.len() == 2 => l("xh", vs.iter().map(|v| a(v)).collect()),
            _ if vs.len() == 1 => l(xop, vec![a(&vs[0])]),
            _ => l(xop, vec![a("0")]),
        };
        add(&mut expl, first.clone(), den.clone());
        for _ in 0..rng.range(1, 2) {
            let other = if vs.is_empty() || rng.chance(1, 4) {
                let d = rng.range(1, 2);
                lsig.gen_op(rng, d)
            } else {
                let ls: Vec<&str> = vs.iter().map(|s| s.as_str()).collect();
                let s = Sig::new(&ls, &MON_OPS[..4]);
                let d = rng.range(1, 2);
                s.gen_op(rng, d)
            };
            if rng.chance(1, 3) {
                let o = taint(&other, rng, 1, 3);
                add(&mut expl, o.clone(), den.clone());
                add(&mut expl, den.clone(), o);
            } else {
                add(&mut expl, other.clone(), den.clone());
                if rng.chance(1, 2) {
                    add(&mut expl, den.clone(), other);
                }
            }
        }
    }
    if rng.chance(1, 2) {
        // a law among the expressions that are not allowed
        expl.push((T::parse("(xh ?a ?b)"), T::parse("(xh ?b ?a)")));
    }
    let np = rng.below(4);
    let mut prior: Vec<Rule2> = vec![];
    for (x, y) in mon_rules(rng, np) {
        let r = if rng.chance(1, 3) { (taint(&x, rng, 1, 3), taint(&y, rng, 1, 3)) } else { (x, y) };
        if r.0 != r.1 && !prior.contains(&r) {
            prior.push(r);
        }
    }
    if rng.chance(1, 3) {
        // something fast-forwarding would find
        let (x, d) = rng.pick(&expl).clone();
        for (y, e) in &expl {
            if *e == d && *y != x {
                add(&mut prior, x.clone(), y.clone());
                break;
            }
        }
    }
    let leaves: Vec<&str> = vars.iter().map(|s| s.as_str()).chain(["0", "1"]).collect();
    let sig = Sig::new(&leaves, &MON_OPS[..4]);
    let rules: Vec<Rule2> = expl.iter().chain(&prior).cloned().collect();
    let ni = rng.range(2, 6);
    let mut base = instances(rng, &rules, &sig, ni);
    for _ in 0..rng.below(4) {
        base.push(sig.gen(rng, 2));
    }
    if rng.chance(1, 3) {
        base.push(taint(&sig.gen_op(rng, 2), rng, 1, 3));
    }
    let terms = closed(&base, &vars);
    Ff { terms, vars, prior, expl, k: rng.range(1, 3), km: rng.range(1, 2) }
}
fn allowed_rule(r: &Rule2) -> bool {
    mon_term_allowed(&r.0) && mon_term_allowed(&r.1)
}
/// The input e-graph with the merges of a grown copy.
fn compress(m: &M, grown: &M) -> M {
    let mut out = m.clone();
    let ids: Vec<usize> = m.by_class().keys().copied().collect();
    let mut first: BTreeMap<usize, usize> = BTreeMap::new();
    for i in ids {
        let g = grown.find(i);
        match first.get(&g) {
            Some(j) => {
                out.union(*j, i);
            }
            None => {
                first.insert(g, i);
            }
        }
    }
    out.rebuild();
    out
}
const CAP: usize = 1500;
fn c16_run(c: &mut Case, mode: Mode) -> Res {
    let mut f = ff_input(&mut c.rng);
    if c.big {
        // terms and rules that have nothing to do with the rest, anywhere in between
        for i in 0..c.rng.range(50, 500) {
            let t = l(&format!("u{}", i / 4), vec![a(&f.vars[i % f.vars.len()])]);
            let t = if i % 3 == 0 { l("u", vec![t, a("0")]) } else { t };
            let at = c.rng.below(f.terms.len() + 1);
            f.terms.insert(at, t);
        }
        // renamings of what is there
        let vars = f.vars.clone();
        f.terms = closed(&f.terms, &vars);
        for i in 0..c.rng.below(150) {
            let x = if c.rng.chance(1, 2) { "p" } else { "xp" };
            let r = (l(&format!("{x}{i}"), vec![a("?a")]), l("f", vec![a("?a")]));
            let at = c.rng.below(f.prior.len() + 1);
            f.prior.insert(at, r);
        }
        for i in 0..c.rng.below(60) {
            let r = (l(&format!("w{i}"), vec![a("?a")]), l("xf", vec![a("?a")]));
            let at = c.rng.below(f.expl.len() + 1);
            f.expl.insert(at, r);
        }
    }
    let cap = if c.big { 6000 } else { CAP };
    let all: Vec<Rule2> = f.prior.iter().chain(&f.expl).cloned().collect();
    let allowed: Vec<Rule2> = f.prior.iter().filter(|r| allowed_rule(r)).cloned().collect();
    // the reference, which also decides whether the case is small enough
    let mut m0 = M::default();
    for v in &f.vars {
        m0.add_term(&a(v));
    }
    for t in &f.terms {
        m0.add_term(t);
    }
    m0.rebuild();
    let grown = |m: &M, rules: &[Rule2], k: usize, cap: usize| -> Option<M> {
        let mut g = m.clone();
        g.rounds(rules, k, cap)?;
        Some(g)
    };
    let small = (|| {
        let m_allowed = compress(&m0, &grown(&m0, &allowed, f.k, cap)?);
        let m_denote = grown(&m_allowed, &f.expl, f.k, cap)?;
        let m_final = grown(&m_denote, &all, f.k, cap)?;
        Some((m_allowed, m_denote, m_final))
    })();
    let (m_allowed, m_denote, m_final) = match small {
        Some(x) => x,
        None => {
            c.count("too large", 1);
            return Ok(());
        }
    };
    let seed = c.rng.next();
    {
        let mut g = mon();
        g.seed = seed;
        g.mode = mode;
        g.log.clear();
        g.exploratory = f.expl.iter().map(|(x, y)| format!("{x} ==> {y}")).collect();
    }
    let w = wkld_of(&f.terms, &mut c.rng);
    let prior = ruleset::<Mon>(&f.prior);
    let got = real("run_fast_forwarding", || {
        run_fast_forwarding::<Mon>(w, prior.clone(), lim(f.k, HUGE, HUGE), lim(f.km, 5000, HUGE))
    });
    mon().exploratory.clear();
    let got = rules_of(&got?);
    c.eval();
    c.count("rules returned", got.len() as u64);
    let descr = || {
        format!(
            "workload {}; prior [{}]; exploratory [{}]; limits {} {}; returned [{}]",
            join(&f.terms),
            show_rules(&f.prior),
            show_rules(&f.expl),
            f.k,
            f.km,
            show_rules(&got)
        )
    };
    // generous reference runs, made when needed
    let mut more: Option<Option<M>> = None;
    for r in &got {
        c.eval();
        let bad = |what: &str| viol(what, format!("{} from {}", show_rules(&[r.clone()]), descr()));
        if !allowed_rule(r) {
            return bad("returned a rule that is not allowed");
        }
        if f.prior.contains(r) {
            return bad("returned a prior rule");
        }
        if mon_verdict(seed, mode, &r.0, &r.1) != 0 {
            return bad("returned a rule that is not valid");
        }
        let mut pv = r.0.pvars();
        pv.extend(r.1.pvars().into_iter().filter(|v| !r.0.pvars().contains(v)));
        let names: Vec<String> = pv.iter().map(|v| v[1..].to_string()).collect();
        let ways = injections(&names, &f.vars);
        let holds = |m: &M| {
            ways.iter().any(|w| {
                let (x, y) = (r.0.unpat().rename(w), r.1.unpat().rename(w));
                matches!((m.lookup(&x), m.lookup(&y)), (Some(i), Some(j)) if i == j)
            })
        };
        if holds(&m_final) {
            continue;
        }
        let m = more.get_or_insert_with(|| grown(&m_final, &all, 2, 4 * cap));
        match m {
            Some(m) if holds(m) => (),
            None => c.count("rules left undecided", 1),
            _ => return bad("returned a rule that nothing justifies"),
        }
    }
    if mode == Mode::AllValid {
        let cl = m_allowed.by_class();
        let mins = smallest_terms(&cl, &mon_allowed, 40);
        let mut groups: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for t in subs_of(&f.terms) {
            if !mon_term_allowed(&t) {
                continue;
            }
            let x = m_allowed.lookup(&t).expect("harness: workload term");
            let g = groups.entry(m_denote.find(x)).or_default();
            if !g.contains(&x) {
                g.push(x);
            }
        }
        groups.retain(|_, g| g.len() > 1);
        if !groups.is_empty() {
            let known: Vec<Rule2> = got.iter().chain(&f.prior).cloned().collect();
            // with the terms that the candidates consist of
            let mut m1 = m0.clone();
            for ms in mins.values().chain(smallest_terms(&m_denote.by_class(), &mon_allowed, 40).values()) {
                for t in ms.iter().flatten() {
                    m1.add_term(t);
                }
            }
            m1.rebuild();
            let m = grown(&m1, &known, f.k + f.km + 1, 4 * cap);
            for g in groups.values() {
                for (i, x) in g.iter().enumerate() {
                    for y in &g[i + 1..] {
                        if !comparable(&mins[x], &mins[y], &f.vars) {
                            c.count("pairs no rule can express", 1);
                            continue;
                        }
                        let m = match &m {
                            Some(m) => m,
                            None => {
                                c.count("pairs left undecided", 1);
                                continue;
                            }
                        };
                        c.eval();
                        c.count("related pairs", 1);
                        // m_allowed has only the classes of m0
                        if m.find(*x) != m.find(*y) {
                            let show = |z: &usize| mins[z].as_ref().map(|v| v[0].to_string()).unwrap_or_default();
                            return viol(
                                "related allowed terms not related by the result",
                                format!("{} and {} in {}", show(x), show(y), descr()),
                            );
                        }
                    }
                }
            }
            c.nontrivial(descr());
        }
    } else if !got.is_empty() {
        c.nontrivial(descr());
    }
    c.sample(descr);
    Ok(())
}
fn c16_all(c: &mut Case) -> Res {
    c16_run(c, Mode::AllValid)
}
fn c16_big(c: &mut Case) -> Res {
    c.bigger(c16_all)
}
fn c16_some(c: &mut Case) -> Res {
    let v = c.rng.range(20, 90) as u64;
    c16_run(c, Mode::Hash(v, (100 - v) / 2))
}

// ------------------------------------------------------------ C28
// A job is a text: domain, kind, parameters, workload and rules. A fresh process runs it twice.
fn job_terms(rng: &mut Rng, sig: &Sig, laws: &[Rule2], n: usize) -> Vec<T> {
    let mut v: Vec<T> = (0..n).map(|_| sig.gen_op(rng, 2)).collect();
    if !laws.is_empty() {
        let k = rng.range(1, 4);
        v.extend(instances(rng, laws, sig, k));
    }
    v
}
fn job(rng: &mut Rng) -> String {
    let (dom, kind, params, terms, prior, expl): (&str, &str, String, Vec<T>, Vec<Rule2>, Vec<Rule2>) = match rng.below(8) {
        0 | 1 => {
            let sem = Sem { vec: pl_sem };
            let lr = some_laws(rng, pl_laws(), &PARTIAL, &sem, 3);
            let sig = Sig::new(&["a", "b", "0", "1"], &PARTIAL);
            let n = rng.range(4, 14);
            let ts = job_terms(rng, &sig, &lr, n);
            ("z5", if rng.chance(1, 2) { "fast" } else { "full" }, String::new(), ts, lr[..lr.len().min(1)].to_vec(), vec![])
        }
        2 => {
            let lr: Vec<Rule2> = (0..3).map(|_| bv3_laws().pick(rng)).collect();
            let sig = Sig::new(&["a", "b", "0"], &BV);
            let ts = job_terms(rng, &sig, &lr, 4);
            ("bv4", if rng.chance(1, 2) { "fast" } else { "full" }, String::new(), ts, vec![], vec![])
        }
        3 | 4 => {
            let b = *rng.pick(&["+", "*", "min"]);
            let p = format!("Atoms {} a,b {} ~ {b}", rng.range(3, 5), *rng.pick(&["0", "0,1", "1,2"]));
            ("z5", "rec", p, vec![], vec![], vec![])
        }
        _ => {
            let f = ff_input(rng);
            ("sym", "ff", format!("{} {}", f.k, f.km), f.terms, f.prior, f.expl)
        }
    };
    let rules = |v: &[Rule2]| v.iter().map(|(x, y)| format!("{x} ==> {y}")).collect::<Vec<_>>().join("\n");
    let ts: Vec<String> = terms.iter().map(|t| t.to_string()).collect();
    [format!("{dom} {kind}"), params, ts.join("\n"), rules(&prior), rules(&expl)].join("\n--\n")
}
/// Many terms over few operators, so that the priors merge many groups of classes.
fn bulk_job(rng: &mut Rng) -> String {
    let (dom, ops, priors): (&str, Vec<(&'static str, usize)>, Vec<&str>) = if rng.chance(2, 3) {
        (
            "z5",
            [("~", 1), ("+", 2), ("*", 2), ("min", 2)].into_iter().filter(|_| rng.chance(3, 4)).collect(),
            vec![
                "(+ ?a ?b) ==> (+ ?b ?a)", "(* ?a ?b) ==> (* ?b ?a)", "(min ?a ?b) ==> (min ?b ?a)", "(~ (~ ?a)) ==> ?a",
                "(+ ?a 0) ==> ?a", "(* ?a 1) ==> ?a", "(* ?a 0) ==> 0", "(min ?a ?a) ==> ?a", "(+ ?a (~ ?a)) ==> 0",
                "(~ (+ ?a ?b)) ==> (+ (~ ?a) (~ ?b))", "?a ==> (+ ?a 0)",
            ],
        )
    } else {
        (
            "bv4",
            [("~", 1), ("-", 1), ("+", 2), ("&", 2), ("^", 2)].into_iter().filter(|_| rng.chance(3, 4)).collect(),
            vec![
                "(+ ?a ?b) ==> (+ ?b ?a)", "(& ?a ?b) ==> (& ?b ?a)", "(^ ?a ?b) ==> (^ ?b ?a)", "(- (- ?a)) ==> ?a",
                "(~ (~ ?a)) ==> ?a", "(+ ?a 0) ==> ?a", "(& ?a ?a) ==> ?a", "(^ ?a ?a) ==> 0", "(& ?a 0) ==> 0",
            ],
        )
    };
    let ops = if ops.is_empty() { vec![("+", 2)] } else { ops };
    let (leaves, smt) = (["a", "b", "0", "1"], dom == "bv4");
    let leaves = &leaves[..rng.range(2, 4)];
    let mut all = enumerate(leaves, &ops, 400, 3);
    if rng.chance(1, 2) {
        all.reverse();
    }
    if rng.chance(1, 3) {
        rng.shuffle(&mut all);
    }
    let kind = if smt || rng.chance(2, 3) { "match" } else if rng.chance(1, 2) { "fast" } else { "full" };
    all.truncate(if kind == "match" { rng.range(40, 400) } else { rng.range(20, 90) });
    let prior: Vec<&str> = priors
        .into_iter()
        .filter(|r| r.split(|c: char| "() ?".contains(c)).all(|w| !["~", "-", "+", "*", "min", "&", "^"].contains(&w) || ops.iter().any(|o| o.0 == w)))
        .filter(|_| rng.chance(2, 3))
        .collect();
    let ts: Vec<String> = all.iter().map(|t| t.to_string()).collect();
    [format!("{dom} {kind}"), String::new(), ts.join("\n"), prior.join("\n"), String::new()].join("\n--\n")
}
fn run_job_l<L: Lx>(kind: &str, params: &str, terms: &[&str], prior: &[&str]) -> Vec<String> {
    let p: Vec<&str> = params.split(' ').collect();
    let prior = || Ruleset::<L>::new(prior);
    let w = || Workload::new(terms);
    let l_ = |i| lim(i, 3000, 2000);
    match kind {
        "ff" => run_fast_forwarding::<L>(w(), prior(), l_(p[0].parse().unwrap()), l_(p[1].parse().unwrap())),
        "rec" => {
            let words = |s: &str| s.split(',').map(|x| x.to_string()).collect::<Vec<_>>();
            let lang = Lang { vars: words(p[2]), vals: words(p[3]), ops: vec![words(p[4]), words(p[5])] };
            recursive_rules::<L>(Metric::Atoms, p[1].parse().unwrap(), lang, prior())
        }
        // the candidates that the compressed workload gives rise to
        "match" => {
            let g = Scheduler::Compress(l_(2)).run(&w().to_egraph::<L>(), &prior());
            let mut v = Ruleset::fast_cvec_match(&g).to_str_vec();
            v.push("--".to_string());
            v.extend(Ruleset::cvec_match(&g).to_str_vec());
            return v;
        }
        k => run_workload::<L>(w(), prior(), l_(2), l_(2), k == "fast"),
    }
    .to_str_vec()
}
fn run_job(text: &str) -> Vec<String> {
    let parts: Vec<&str> = text.split("\n--\n").collect();
    let (dom, kind) = parts[0].split_once(' ').unwrap();
    fn lines(s: &str) -> Vec<&str> {
        s.lines().filter(|l| !l.is_empty()).collect()
    }
    let (terms, prior) = (lines(parts[2]), lines(parts[3]));
    mon().exploratory = lines(parts[4]).into_iter().map(|s| s.to_string()).collect();
    match dom {
        "z5" => run_job_l::<Pl>(kind, parts[1], &terms, &prior),
        "bv4" => run_job_l::<b4::Bv>(kind, parts[1], &terms, &prior),
        _ => run_job_l::<Mon>(kind, parts[1], &terms, &prior),
    }
}
/// In a fresh process: run the job, another one, and the job again, and write down what came out.
pub fn worker(argv: &[String]) {
    let text = std::fs::read_to_string(&argv[0]).expect("job");
    let jobs: Vec<&str> = text.split("\n====\n").collect();
    let mut out = vec![];
    for job in [jobs[0], jobs[1], jobs[0]] {
        let r = std::panic::catch_unwind(|| run_job(job));
        out.push(match r {
            Ok(v) => v.join("\n"),
            Err(e) => format!("panic: {}", e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default()),
        });
    }
    std::fs::write(&argv[1], out.join("\n==\n")).expect("result");
}
fn c28(c: &mut Case) -> Res {
    let text = job(&mut c.rng);
    let other = job(&mut c.rng);
    c28_job(c, text, other, false)
}
fn c28_bulk(c: &mut Case) -> Res {
    let text = bulk_job(&mut c.rng);
    let other = job(&mut c.rng);
    c28_job(c, text, other, false)
}
/// The same rules under the same names, in two domains.
fn c28_twins(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let ops = [("+", 2), ("*", 2), ("~", 1)];
    let sig = Sig::new(&["a", "b", "0", "1"], &ops);
    let n = rng.range(4, 14);
    let terms: Vec<String> = (0..n).map(|_| sig.gen_op(rng, 2).to_string()).collect();
    let kind = *rng.pick(&["fast", "full", "match"]);
    let text = |dom: &str| [format!("{dom} {kind}"), String::new(), terms.join("\n"), String::new(), String::new()].join("\n--\n");
    let (x, y) = (text("z5"), text("bv4"));
    let (x, y) = if c.rng.chance(1, 2) { (x, y) } else { (y, x) };
    // the same symbols in the same order: the two can come in either order
    c28_job(c, x, y, true)
}
fn c28_job(c: &mut Case, text: String, other: String, swap: bool) -> Res {
    let file = format!("job-{:x}.txt", c.seed);
    let mut runs: Vec<(String, String)> = vec![];
    let mut others: Vec<(String, String)> = vec![];
    for (threads, swapped) in [("1", false), ("2", swap), ("8", false)] {
        let (first, second) = if swapped { (&other, &text) } else { (&text, &other) };
        std::fs::write(&file, format!("{first}\n====\n{second}")).expect("harness: write");
        let result = format!("res-{:x}-{threads}.txt", c.seed);
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["worker", "infer", &file, &result])
            .env("RAYON_NUM_THREADS", threads)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .expect("harness: worker");
        let out = std::fs::read_to_string(&result).unwrap_or_default();
        let _ = std::fs::remove_file(&result);
        if !st.success() {
            return viol("inference crashed", format!("{st} with {threads} threads on {text} or {other}"));
        }
        for (i, o) in out.split("\n==\n").enumerate() {
            let who = format!("run {} of a process with {threads} threads", i + 1);
            if (i == 1) != swapped { &mut others } else { &mut runs }.push((who, o.to_string()));
        }
    }
    let _ = std::fs::remove_file(&file);
    for (runs, text) in [(&runs, &text), (&others, &other)] {
        for (who, out) in &runs[1..] {
            c.eval();
            if *out != runs[0].1 {
                let (x, y): (BTreeSet<&str>, BTreeSet<&str>) = (runs[0].1.lines().collect(), out.lines().collect());
                return viol(
                    if x == y { "same rules in another order" } else { "different rules" },
                    format!("{} and {who} differ: [{}] and [{}] for the job {text}", runs[0].0, runs[0].1.replace('\n', "; "), out.replace('\n', "; ")),
                );
            }
        }
        if runs[0].1.starts_with("panic") {
            if !runs[0].1.contains("Didn't learn any rules") {
                return viol("inference panicked", format!("{} for the job {text}", runs[0].1));
            }
            c.count("nothing learned", 1);
        } else if runs[0].1.lines().count() > 1 {
            c.nontrivial(text);
            c.count("rules returned", runs[0].1.lines().count() as u64);
        }
    }
    c.sample(|| format!("{} -> {}", text.replace('\n', " | "), runs[0].1.replace('\n', "; ")));
    Ok(())
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C15",
            rule: "inference on random workloads with laws planted in them, random valid priors, limits and match modes, and recursive inference on small languages; every returned rule is evaluated on all assignments, and all equal pairs of workload terms are looked up after a generous run of the rules; non-trivial: distinct inputs for which rules were returned",
            assumptions: vec![
                "total operators, and workloads closed under renaming of variables, for completeness",
                "pairs for which the smallest equal forms use incomparable sets of variables are not expressible as rules",
            ],
            shards: 8,
            sections: vec![
                sec("z5", 4000, 80000, c15_z5),
                sec("partial", 4000, 80000, c15_partial),
                sec("big", 96, 2000, c15_big),
                sec("wide", 24, 400, c15_wide),
                sec("rec", 1200, 24000, c15_rec),
                sec("bv", 300, 4000, c15_bv),
            ],
        },
        CheckDef {
            id: "C16",
            rule: "fast-forwarding in an uninterpreted domain with random translation rules, allowed and other priors; every returned rule is looked up in a reference e-graph saturated with priors and exploratory rules, and all related allowed pairs in one saturated with the result; non-trivial: distinct inputs with related pairs (all verdicts valid) or with returned rules (scripted verdicts)",
            assumptions: vec!["workloads closed under renaming of variables", "cases whose reference e-graph stays below 1500 nodes"],
            shards: 8,
            sections: vec![sec("all", 24000, 400000, c16_all), sec("some", 8000, 160000, c16_some), sec("big", 400, 6000, c16_big)],
        },
        CheckDef {
            id: "C28",
            rule: "the same inference twice, with another one in between, in each of three fresh processes with 1, 2 and 8 worker threads, results compared word by word; non-trivial: distinct inputs with at least two rules returned",
            assumptions: vec!["no time limit intervenes"],
            shards: 1,
            sections: vec![sec("fresh", 400, 6000, c28), sec("bulk", 160, 2400, c28_bulk), sec("twins", 120, 1800, c28_twins)],
        },
    ]
}
