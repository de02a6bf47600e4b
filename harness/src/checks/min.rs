//! Minimisation (C13) and the order in which it examines candidates (C14).
use crate::checks::an::{pl_sig, wkld_of};
use crate::checks::cand::canon;
use crate::checks::sat::{bv3_laws, bv3_vec, consequence, mon_rule, mon_rules, pl_laws, MON_OPS};
use crate::eg::*;
use crate::fw::*;
use crate::langs::*;
use crate::model::*;
use crate::term::*;
use ruler::enumo::{Ruleset, Scheduler};
use ruler::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

const CAP: usize = 1200;

fn reverse(r: &Rule2) -> Option<Rule2> {
    let rv = r.1.pvars();
    if r.0.pvars().iter().all(|v| rv.contains(v)) {
        Some((r.1.clone(), r.0.clone()))
    } else {
        None
    }
}
fn no_repeated_constant(r: &Rule2) -> bool {
    [&r.0, &r.1].iter().all(|t| {
        let mut v = vec![];
        t.leaves(&mut v);
        let mut v: Vec<&str> = v.into_iter().filter(|s| !s.starts_with('?')).collect();
        let n = v.len();
        v.sort();
        v.dedup();
        v.len() == n
    })
}
/// Best is greatest.
pub fn ref_score(r: &Rule2) -> (i64, i64, i64, i64, i64) {
    let mut vars: BTreeSet<String> = r.0.pvars().into_iter().collect();
    vars.extend(r.1.pvars());
    let mut consts = 0;
    let mut ops: BTreeSet<String> = BTreeSet::new();
    for t in [&r.0, &r.1] {
        let mut ls = vec![];
        t.leaves(&mut ls);
        consts += ls.iter().filter(|s| !s.starts_with('?')).count() as i64;
        let mut subs = vec![];
        t.subterms(&mut subs);
        ops.extend(subs.iter().filter(|s| !s.kids().is_empty()).map(|s| s.op().to_string()));
    }
    let (x, y) = (r.0.size() as i64, r.1.size() as i64);
    (vars.len() as i64, -consts, -x.max(y), -(x + y), -(ops.len() as i64))
}

/// A candidate set with redundancies, reverses, priors and unrelated rules.
fn candidates(rng: &mut Rng, prior: &[Rule2]) -> Vec<Rule2> {
    let n = rng.range(1, 6);
    let mut v = mon_rules(rng, n);
    for _ in 0..rng.below(7) {
        let pool: Vec<Rule2> = v.iter().chain(prior).cloned().collect();
        match rng.below(4) {
            0 => {
                if let Some(r) = consequence(rng, &pool) {
                    v.push(r);
                }
            }
            1 => {
                // an instance
                let r = rng.pick(&pool).clone();
                let sig = Sig::new(&["?a", "?b", "0"], &MON_OPS[..2]);
                let sub: BTreeMap<String, T> = r.0.pvars().into_iter().map(|v| (v, sig.gen(rng, 1))).collect();
                let i = (r.0.subst(&sub), r.1.subst(&sub));
                if i.0 != i.1 {
                    v.push(i);
                }
            }
            2 => {
                // in a context
                let r = rng.pick(&pool).clone();
                v.push((l("f", vec![r.0]), l("f", vec![r.1])));
            }
            _ => {
                if let Some(r) = reverse(&rng.pick(&pool).clone()) {
                    v.push(r);
                }
            }
        }
    }
    if !prior.is_empty() && rng.chance(1, 3) {
        v.push(rng.pick(prior).clone());
    }
    rng.shuffle(&mut v);
    v
}
struct MinRun {
    cands: Vec<Rule2>,
    prior: Vec<Rule2>,
    kept: Vec<Rule2>,
    invalid: Vec<Rule2>,
    log: Vec<(Rule2, u8)>,
    s: Scheduler,
    k: usize,
    mode: Mode,
    seed: u64,
    unlimited: bool,
}
impl MinRun {
    fn show(&self) -> String {
        format!(
            "candidates [{}], prior [{}], {:?}, verdicts {:?}: kept [{}], invalid [{}]",
            show_rules(&self.cands),
            show_rules(&self.prior),
            self.s,
            self.mode,
            show_rules(&self.kept),
            show_rules(&self.invalid)
        )
    }
    fn verdict(&self, r: &Rule2) -> u8 {
        mon_verdict(self.seed, self.mode, &r.0, &r.1)
    }
    /// Does the reference merge the sides of `r`, in a graph with the sides of `roots`?
    fn merges(&self, rules: &[Rule2], roots: &[Rule2], r: &Rule2) -> Option<bool> {
        let mut m = M::default();
        for (x, y) in roots.iter().chain([r]) {
            m.add_term(&x.unpat());
            m.add_term(&y.unpat());
        }
        match self.s {
            Scheduler::Saturating(_) => m.alternate(rules, self.k, CAP * 4)?,
            _ => m.rounds(rules, self.k, CAP * 4)?,
        };
        Some(m.lookup(&r.0.unpat()) == m.lookup(&r.1.unpat()))
    }
}
fn min_run(c: &mut Case, easy_consts: bool) -> Res<Option<MinRun>> {
    let np = c.rng.below(4);
    let prior0 = if np == 0 || c.rng.chance(1, 3) { vec![] } else { mon_rules(&mut c.rng, np) };
    let mut cands0 = candidates(&mut c.rng, &prior0);
    if easy_consts {
        cands0.retain(no_repeated_constant);
    }
    let prior = ruleset::<Mon>(&prior0);
    let mut cands = ruleset::<Mon>(&cands0);
    let (cr, pr) = (rules_of(&cands), rules_of(&prior));
    let k = c.rng.range(1, 3);
    let unlimited = c.rng.chance(5, 6);
    let limits = if unlimited { lim(k, HUGE, HUGE) } else { lim(k, c.rng.range(1, 60), c.rng.range(1, 20)) };
    let s = match c.rng.below(6) {
        0 => Scheduler::Simple(limits),
        1 => Scheduler::Saturating(limits),
        _ => Scheduler::Compress(limits),
    };
    // keep it small
    let all: Vec<Rule2> = cr.iter().chain(&pr).cloned().collect();
    let mut m = M::default();
    for (x, y) in &cr {
        m.add_term(&x.unpat());
        m.add_term(&y.unpat());
    }
    let fits = match s {
        Scheduler::Saturating(_) => m.alternate(&all, k, CAP),
        _ => m.rounds(&all, k, CAP),
    };
    if fits.is_none() {
        c.count("too large", 1);
        return Ok(None);
    }
    let seed = c.rng.next();
    let mode = match c.rng.below(4) {
        0 => Mode::AllValid,
        1 => Mode::Hash(60, 20),
        2 => Mode::Hash(85, 15),
        _ => Mode::Hash(70, 0),
    };
    {
        let mut g = mon();
        g.seed = seed;
        g.mode = mode;
        g.log.clear();
    }
    let (kept, invalid) = real("minimize", || cands.minimize(prior.clone(), s))?;
    let log: Vec<(Rule2, u8)> = mon().log.drain(..).map(|(x, y, v)| ((x, y), v)).collect();
    let r = MinRun {
        cands: cr,
        prior: pr,
        kept: rules_of(&kept),
        invalid: rules_of(&invalid),
        log,
        s,
        k,
        mode,
        seed,
        unlimited,
    };
    c.count("candidates", r.cands.len() as u64);
    c.count("kept", r.kept.len() as u64);
    c.count("invalid", r.invalid.len() as u64);
    c.count("validations", r.log.len() as u64);
    c.count("unknown verdicts", r.log.iter().filter(|x| x.1 == 2).count() as u64);
    c.sample(|| r.show());
    Ok(Some(r))
}
fn c13_sym(c: &mut Case) -> Res {
    let r = match min_run(c, false)? {
        Some(r) => r,
        None => return Ok(()),
    };
    c.eval();
    for x in &r.kept {
        if !r.cands.contains(x) {
            return viol("kept something that is no candidate", format!("{}: {}", show_rules(&[x.clone()]), r.show()));
        }
        if r.prior.contains(x) {
            return viol("kept a prior rule", format!("{}: {}", show_rules(&[x.clone()]), r.show()));
        }
        if r.verdict(x) != 0 {
            return viol(
                "kept a rule that is not valid",
                format!("{} (verdict {}): {}", show_rules(&[x.clone()]), ["valid", "invalid", "unknown"][r.verdict(x) as usize], r.show()),
            );
        }
    }
    for x in &r.invalid {
        if !r.cands.contains(x) {
            return viol("reported something that is no candidate as invalid", format!("{}: {}", show_rules(&[x.clone()]), r.show()));
        }
        if r.verdict(x) == 0 {
            return viol("reported a valid rule as invalid", format!("{}: {}", show_rules(&[x.clone()]), r.show()));
        }
    }
    if !r.unlimited {
        return Ok(());
    }
    // nothing lost
    let rules: Vec<Rule2> = r.prior.iter().chain(&r.kept).cloned().collect();
    let mut dropped = 0;
    for x in &r.cands {
        if r.kept.contains(x) || r.invalid.contains(x) {
            continue;
        }
        dropped += 1;
        c.eval();
        if r.merges(&rules, &r.cands, x) == Some(false) {
            return viol(
                "lost a candidate",
                format!("{} is neither kept nor invalid, and kept and prior rules do not merge its sides: {}", show_rules(&[x.clone()]), r.show()),
            );
        }
    }
    c.count("dropped as redundant", dropped);
    // nothing redundant
    let order: Vec<Rule2> = if r.prior.is_empty() {
        r.kept.clone()
    } else {
        let mut o: Vec<Rule2> = vec![];
        for (x, v) in &r.log {
            if *v == 0 && r.kept.contains(x) && !o.contains(x) {
                o.push(x.clone());
            }
        }
        o
    };
    for i in 1..order.len() {
        let x = &order[i];
        if reverse(&order[i - 1]).as_ref() == Some(x) {
            continue;
        }
        let before: Vec<Rule2> = r.prior.iter().chain(&order[..i]).cloned().collect();
        c.eval();
        if r.merges(&before, &[], x) == Some(true) {
            return viol(
                "kept a redundant rule",
                format!("{} is kept although what was there before merges its sides: {}", show_rules(&[x.clone()]), r.show()),
            );
        }
    }
    if dropped > 0 || r.kept.len() > 1 {
        c.nontrivial(r.show());
    }
    Ok(())
}
/// General rules among a crowd of their instances.
fn c13_bulk(c: &mut Case) -> Res {
    c.count("big cases", 1);
    let rng = &mut c.rng;
    let general: Vec<Rule2> = [
        ("(f (g ?a))", "?a"),
        ("(h ?a 0)", "?a"),
        ("(h ?a ?b)", "(h ?b ?a)"),
        ("(g (k ?a ?b))", "(k (g ?a) ?b)"),
        ("(t ?a ?a)", "(f ?a)"),
    ]
    .iter()
    .map(|(x, y)| (T::parse(x), T::parse(y)))
    .collect();
    let mut used: Vec<Rule2> = general.into_iter().filter(|_| rng.chance(1, 2)).collect();
    if used.is_empty() {
        used.push((T::parse("(h ?a 0)"), T::parse("?a")));
    }
    let n = *rng.pick(&[150, 400, 1200, 3500, 5200]) + rng.below(100);
    let mut cands: BTreeSet<Rule2> = BTreeSet::new();
    for i in 0..n {
        let r = rng.pick(&used).clone();
        let sub: BTreeMap<String, T> = r
            .0
            .pvars()
            .into_iter()
            .map(|v| (v, if rng.chance(1, 4) { l("m", vec![a(&i.to_string())]) } else { a(&rng.range(1, 2 * n).to_string()) }))
            .collect();
        let g = (r.0.subst(&sub), r.1.subst(&sub));
        if g.0 != g.1 {
            cands.insert(g);
        }
    }
    let own: Vec<Rule2> = (0..rng.below(5)).map(|i| (l("u", vec![a(&i.to_string())]), l("w", vec![a(&i.to_string())]))).collect();
    let mut all: Vec<Rule2> = cands.into_iter().chain(own.iter().cloned()).collect();
    let prior: Vec<Rule2> = used.iter().filter(|_| rng.chance(1, 3)).cloned().collect();
    all.extend(used.iter().filter(|r| !prior.contains(r)).cloned());
    rng.shuffle(&mut all);
    {
        let mut g = mon();
        g.mode = Mode::AllValid;
        g.log.clear();
    }
    let k = rng.range(1, 2);
    let s = if rng.chance(1, 3) { Scheduler::Simple(lim(k, HUGE, HUGE)) } else { Scheduler::Compress(lim(k, HUGE, HUGE)) };
    let rs = ruleset::<Mon>(&all);
    let (kept, invalid) = real("minimize", || rs.clone().minimize(ruleset(&prior), s))?;
    let (kr, ir) = (rules_of(&kept), rules_of(&invalid));
    mon().log.clear();
    c.eval();
    let what = format!("{} candidates, instances of [{}], prior [{}], {s:?}: kept {}", all.len(), show_rules(&used), show_rules(&prior), kr.len());
    let mut want: Vec<Rule2> = used.iter().filter(|r| !prior.contains(r)).chain(&own).cloned().collect();
    // the first one is chosen before anything is thrown out
    let mut first: Vec<Rule2> = vec![];
    if used.iter().all(|r| prior.contains(r)) {
        if let Some(r) = kr.iter().find(|r| all.contains(r) && !own.contains(r)) {
            first = vec![r.clone(), (r.1.clone(), r.0.clone())];
        }
    }
    for r in &kr {
        if !all.contains(r) {
            return viol("kept something that is no candidate", format!("{}: {what}", show_rules(&[r.clone()])));
        }
        if let Some(i) = want.iter().position(|w| w == r) {
            want.remove(i);
        } else if !own.contains(r) && !used.contains(r) && !first.contains(r) {
            return viol("kept a redundant rule", format!("{} is an instance of a better candidate or a prior rule: {what}", show_rules(&[r.clone()])));
        }
    }
    if !want.is_empty() {
        return viol("lost a candidate", format!("{}: {what}", show_rules(&want)));
    }
    if !ir.is_empty() {
        return viol("reported a valid rule as invalid", format!("{}: {what}", show_rules(&ir[..ir.len().min(3)])));
    }
    c.count("candidates", all.len() as u64);
    c.count("kept", kr.len() as u64);
    c.nontrivial(&what);
    c.sample(|| what.clone());
    Ok(())
}
/// Real candidates, real validators.
fn c13_real<L: Lx>(c: &mut Case, terms: &[T], prior: &[Rule2], valid: &dyn Fn(&Rule2) -> bool) -> Res {
    let w = wkld_of(terms, &mut c.rng);
    let mut eg = real("to_egraph", || w.to_egraph::<L>())?;
    eg.rebuild();
    let prior = ruleset::<L>(prior);
    if !prior.is_empty() {
        eg = real("compress", || Scheduler::Compress(lim(2, HUGE, HUGE)).run(&eg, &prior))?;
    }
    let mut cands = real("cvec_match", || Ruleset::cvec_match(&eg))?;
    // some that are wrong
    let n = cands.len();
    let all = rules_of(&cands);
    for i in 0..n.min(3) {
        let (x, y) = (&all[i].0, &all[(i + 1) % n].1);
        let xv = x.pvars();
        if x != y && y.pvars().iter().all(|v| xv.contains(v)) {
            cands.add(mk_rule(x, y));
        }
    }
    let cr = rules_of(&cands);
    let k = c.rng.range(1, 2);
    let (kept, invalid) = real("minimize", || cands.minimize(prior.clone(), Scheduler::Compress(lim(k, HUGE, HUGE))))?;
    let (kr, ir, pr) = (rules_of(&kept), rules_of(&invalid), rules_of(&prior));
    let show = || {
        format!(
            "{}: candidates [{}], prior [{}]: kept [{}], invalid [{}]",
            L::name(),
            show_rules(&cr),
            show_rules(&pr),
            show_rules(&kr),
            show_rules(&ir)
        )
    };
    c.eval();
    for x in &kr {
        if !cr.contains(x) || pr.contains(x) {
            return viol("kept something that is no candidate", format!("{}: {}", show_rules(&[x.clone()]), show()));
        }
        if !valid(x) {
            return viol("kept a rule that is not valid", format!("{}: {}", show_rules(&[x.clone()]), show()));
        }
    }
    for x in &ir {
        if !cr.contains(x) {
            return viol("reported something that is no candidate as invalid", format!("{}: {}", show_rules(&[x.clone()]), show()));
        }
        if valid(x) {
            return viol("reported a valid rule as invalid", format!("{}: {}", show_rules(&[x.clone()]), show()));
        }
    }
    // the rest is merged: one run on all candidates' sides
    let mut eg: Eg<L> = EGraph::default();
    let ids: Vec<(Id, Id)> = cr
        .iter()
        .map(|(x, y)| (eg.add_expr(&rexpr::<L>(&x.unpat())), eg.add_expr(&rexpr::<L>(&y.unpat()))))
        .collect();
    eg.rebuild();
    let both = prior.union(&kept);
    let out = real("run", || Scheduler::Simple(lim(k, HUGE, HUGE)).run(&eg, &both))?;
    for (x, (i, j)) in cr.iter().zip(&ids) {
        if kr.contains(x) || ir.contains(x) {
            continue;
        }
        c.count("dropped as redundant", 1);
        c.eval();
        if out.find(*i) != out.find(*j) {
            return viol("lost a candidate", format!("{}: {}", show_rules(&[x.clone()]), show()));
        }
    }
    c.count("kept", kr.len() as u64);
    c.count("invalid", ir.len() as u64);
    if !kr.is_empty() {
        c.nontrivial(show());
    }
    c.sample(show);
    Ok(())
}
fn c13_z5(c: &mut Case) -> Res {
    let sig = pl_sig(&["a", "b", "0", "1"], false);
    let n = c.rng.range(2, 7);
    let mut terms: Vec<T> = (0..n).map(|_| sig.gen(&mut c.rng, 2)).collect();
    let laws = pl_laws();
    let lr: Vec<Rule2> = (0..3).map(|_| laws.pick(&mut c.rng)).collect();
    let lsig = pl_sig(&["a", "b"], false);
    terms.extend(crate::checks::sat::instances(&mut c.rng, &lr, &lsig, 3));
    let prior = if c.rng.chance(1, 2) { vec![lr[0].clone()] } else { vec![] };
    c13_real::<Pl>(c, &terms, &prior, &|r| pl_valid(&r.0, &r.1))
}
fn c13_bv(c: &mut Case) -> Res {
    type B = b3::Bv;
    let sig = Sig::new(&["a", "b", "0"], &[("~", 1), ("-", 1), ("&", 2), ("|", 2), ("+", 2), ("^", 2)]);
    let mut terms: Vec<T> = (0..4).map(|_| sig.gen(&mut c.rng, 2)).collect();
    let laws = bv3_laws();
    let lr: Vec<Rule2> = (0..2).map(|_| laws.pick(&mut c.rng)).collect();
    terms.extend(crate::checks::sat::instances(&mut c.rng, &lr, &Sig::new(&["a", "b"], &[("~", 1)]), 2));
    let prior = if c.rng.chance(1, 2) { vec![lr[0].clone()] } else { vec![] };
    c13_real::<B>(c, &terms, &prior, &|r| {
        let mut vs = r.0.pvars();
        vs.extend(r.1.pvars());
        vs.sort();
        vs.dedup();
        let vs: Vec<&str> = vs.iter().map(|s| s.as_str()).collect();
        bv3_vec(&r.0, &vs) == bv3_vec(&r.1, &vs)
    })
}

// ------------------------------------------------------------ C14
fn c14_trace(c: &mut Case) -> Res {
    let r = match min_run(c, true)? {
        Some(r) => r,
        None => return Ok(()),
    };
    c.eval();
    let scores: Vec<_> = r.log.iter().map(|(x, _)| ref_score(x)).collect();
    for i in 1..scores.len() {
        if scores[i] > scores[i - 1] {
            return viol(
                "examined a worse candidate first",
                format!("{} before {}: {}", show_rules(&[r.log[i - 1].0.clone()]), show_rules(&[r.log[i].0.clone()]), r.show()),
            );
        }
    }
    // candidates that were never examined must be gone before a worse one is
    if r.unlimited {
        for y in &r.cands {
            if r.log.iter().any(|(x, _)| x == y) {
                continue;
            }
            let sy = ref_score(y);
            if let Some(i) = scores.iter().position(|s| *s < sy) {
                let before: Vec<Rule2> = r.log[..i].iter().filter(|(_, v)| *v == 0).map(|(x, _)| x.clone()).collect();
                c.eval();
                c.count("skipped", 1);
                let gone = !before.is_empty() && {
                    let rules: Vec<Rule2> = r.prior.iter().chain(&before).cloned().collect();
                    r.merges(&rules, &r.cands, y) != Some(false)
                };
                if !gone {
                    return viol(
                        "passed over a better candidate",
                        format!("{} was examined while {} was waiting: {}", show_rules(&[r.log[i].0.clone()]), show_rules(&[y.clone()]), r.show()),
                    );
                }
            }
        }
    }
    let mut d = scores.clone();
    d.dedup();
    c.count("score steps", d.len().saturating_sub(1) as u64);
    if d.len() > 1 {
        c.nontrivial(r.show());
    }
    Ok(())
}
fn scored<L: Lx>(c: &mut Case, mut rules: Vec<Rule2>) -> Res {
    rules.retain(no_repeated_constant);
    let n = rules.len();
    let rr: Vec<_> = rules.iter().map(|(x, y)| mk_rule::<L>(x, y)).collect();
    for i in 0..n {
        for j in 0..n {
            let got = real("score", || rr[i].score().cmp(&rr[j].score()))?;
            let want = ref_score(&rules[i]).cmp(&ref_score(&rules[j]));
            c.eval();
            if got != want {
                let w = |o: Ordering| match o {
                    Ordering::Less => "worse than",
                    Ordering::Equal => "as good as",
                    Ordering::Greater => "better than",
                };
                return viol(
                    "wrong preference",
                    format!(
                        "{}: {} is {} {}, should be {} it",
                        L::name(),
                        show_rules(&rules[i..i + 1]),
                        w(got),
                        show_rules(&rules[j..j + 1]),
                        w(want)
                    ),
                );
            }
        }
        // the same for a rule and its copy with other variable names
        let (x, y) = canon(&rules[i].0, &rules[i].1);
        let copy = mk_rule::<L>(&x, &y);
        if real("score", || rr[i].score().cmp(&copy.score()))? != Ordering::Equal {
            return viol("wrong preference", format!("{} depends on the variables' names", show_rules(&rules[i..i + 1])));
        }
    }
    if n > 1 {
        c.nontrivial(show_rules(&rules));
    }
    c.sample(|| show_rules(&rules));
    Ok(())
}
fn random_rules(rng: &mut Rng, leaves: &[&str], ops: &[(&str, usize)], n: usize) -> Vec<Rule2> {
    let sig = Sig::new(leaves, ops);
    let mut v: Vec<Rule2> = vec![];
    while v.len() < n {
        let r = if !v.is_empty() && rng.chance(1, 2) {
            // nearly the same as an earlier one
            let (x, y) = rng.pick(&v).clone();
            let from = rng.pick(leaves).to_string();
            let to = rng.pick(leaves).to_string();
            let m: BTreeMap<String, String> = [(from, to)].into_iter().collect();
            match rng.below(3) {
                0 => (x.rename(&m), y.rename(&m)),
                1 => (x.rename(&m), y),
                _ => (y, x),
            }
        } else {
            let (d, e) = (rng.range(0, 3), rng.range(0, 2));
            (sig.gen(rng, d), sig.gen(rng, e))
        };
        let lv = r.0.pvars();
        if r.0 != r.1 && r.1.pvars().iter().all(|v| lv.contains(v)) {
            v.push(r);
        }
    }
    v
}
/// Rules with many variables, constants and operators.
fn c14_big(c: &mut Case) -> Res {
    let nv = c.rng.range(3, 14);
    let nc = c.rng.below(40);
    let no = c.rng.range(2, 14);
    let vars: Vec<String> = (0..nv).map(|i| format!("?v{i}")).collect();
    let consts: Vec<String> = (0..nc).map(|i| format!("{}", i as i64 * 7 - 20)).collect();
    let ops: Vec<(String, usize)> = (0..no).map(|i| (format!("g{i}"), 1 + i % 3)).collect();
    let mut rules: Vec<Rule2> = vec![];
    while rules.len() < 7 {
        if !rules.is_empty() && c.rng.chance(1, 2) {
            let (x, y) = c.rng.pick(&rules).clone();
            let mut m = BTreeMap::new();
            let lv = x.pvars();
            let mut from = lv.clone();
            from.extend(consts.iter().take(8).cloned());
            let f = c.rng.pick(&from).clone();
            let t = if c.rng.chance(1, 2) && !consts.is_empty() { c.rng.pick(&consts).clone() } else { c.rng.pick(&vars).clone() };
            m.insert(f, t);
            let r = match c.rng.below(4) {
                0 => (x.rename(&m), y.rename(&m)),
                1 => (l("g0", vec![x]), y),
                2 => (x, l("g1", vec![y.clone(), y])),
                _ => (x.rename(&m), y),
            };
            let lv = r.0.pvars();
            if r.0 != r.1 && r.1.pvars().iter().all(|v| lv.contains(v)) {
                rules.push(r);
            }
            continue;
        }
        let leaves: Vec<String> = vars.iter().chain(consts.iter()).cloned().collect();
        let sig = Sig { leaves, ops: ops.clone() };
        let mut x = sig.gen_op(&mut c.rng, 4);
        for _ in 0..c.rng.below(4) {
            let z = sig.gen_op(&mut c.rng, 3);
            x = l("g1", vec![x, z]);
        }
        let mut k = 0;
        let mut distinct = |t: &T| {
            t.map_leaves(&mut |s| {
                if s.starts_with('?') {
                    a(s)
                } else {
                    k += 1;
                    a(&(k * 7 - 20).to_string())
                }
            })
        };
        x = distinct(&x);
        let mut leaves = x.pvars();
        leaves.extend(consts.iter().take(3).cloned());
        if leaves.is_empty() {
            continue;
        }
        let d = c.rng.range(0, 5);
        let y = distinct(&Sig { leaves, ops: ops.clone() }.gen(&mut c.rng, d));
        if x.size() < 150 && y.size() < 150 && x != y {
            rules.push((x, y));
        }
    }
    c.count("big cases", 1);
    scored::<Mon>(c, rules)
}
fn c14_score(c: &mut Case) -> Res {
    match c.rng.below(3) {
        0 => {
            let mut v = random_rules(&mut c.rng, &["?a", "?b", "?c", "?d", "0", "1", "-2"], &MON_OPS, 7);
            v.push(mon_rule(&mut c.rng));
            scored::<Mon>(c, v)
        }
        1 => {
            let v = random_rules(&mut c.rng, &["?a", "?b", "?x", "0", "3"], &[("+", 2), ("*", 2), ("~", 1), ("inv", 1), ("ite", 3), ("min", 2)], 7);
            scored::<Pl>(c, v)
        }
        _ => {
            let v = random_rules(&mut c.rng, &["?a", "?b", "?c", "0", "1", "15"], &crate::checks::bits::BVOPS, 7);
            scored::<b4::Bv>(c, v)
        }
    }
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C13",
            rule: "minimisation of random candidate sets (redundancies, reverses, priors, unrelated rules) with a recording validator whose verdicts are valid, invalid or unknown: kept and invalid rules against the verdicts, dropped and kept rules against a reference e-graph; and of cvec-matched candidates with real validators; non-trivial: something dropped or several rules kept",
            assumptions: vec!["verdicts are a function of the rule", "limits out of reach where merging is judged"],
            shards: 8,
            sections: vec![sec("sym", 32000, 400000, c13_sym), sec("z5", 3200, 40000, c13_z5), sec("bv", 128, 1600, c13_bv), sec("bulk", 96, 1000, c13_bulk)],
        },
        CheckDef {
            id: "C14",
            rule: "scores of random rules compared pairwise with a reference; the trace of validator calls during minimisation against the scores of what was waiting; non-trivial: rules of different scores",
            assumptions: vec!["rules that repeat a constant on one side are left out (whether repetitions count is not specified)"],
            shards: 8,
            sections: vec![sec("score", 48000, 400000, c14_score), sec("big", 12000, 100000, c14_big), sec("trace", 64000, 400000, c14_trace)],
        },
    ]
}
