//! Looking at real e-graphs.
use crate::model::M;
use crate::term::T;
use ruler::enumo::{Rule, Ruleset};
use ruler::*;
use std::collections::BTreeMap;

pub type Eg<L> = EGraph<L, SynthAnalysis>;

pub fn rexpr<L: SynthLanguage>(t: &T) -> egg::RecExpr<L> {
    t.to_string().parse().unwrap_or_else(|_| panic!("harness: cannot parse {t}"))
}
pub fn pat<L: SynthLanguage>(t: &T) -> ruler::Pattern<L> {
    t.to_string().parse().unwrap_or_else(|_| panic!("harness: cannot parse pattern {t}"))
}
pub fn t_of<L: SynthLanguage>(p: &ruler::Pattern<L>) -> T {
    T::parse(&p.to_string())
}
pub fn t_of_rec<L: SynthLanguage>(p: &egg::RecExpr<L>) -> T {
    T::parse(&p.to_string())
}
pub fn mk_rule<L: SynthLanguage>(l: &T, r: &T) -> Rule<L> {
    Rule::new(&pat(l), &pat(r)).unwrap_or_else(|| panic!("harness: ill-formed rule {l} ==> {r}"))
}
pub fn ruleset<L: SynthLanguage>(rs: &[(T, T)]) -> Ruleset<L> {
    let mut out = Ruleset::default();
    for (l, r) in rs {
        out.add(mk_rule(l, r));
    }
    out
}
/// The rules of a ruleset, in order, from the patterns (not the names).
pub fn rules_of<L: SynthLanguage>(rs: &Ruleset<L>) -> Vec<(T, T)> {
    rs.iter().map(|r| (t_of(&r.lhs), t_of(&r.rhs))).collect()
}
pub fn show_rules(rs: &[(T, T)]) -> String {
    rs.iter().map(|(l, r)| format!("{l} ==> {r}")).collect::<Vec<_>>().join("; ")
}

/// A canonical picture of an e-graph: nodes by class.
pub fn dump<L: SynthLanguage>(eg: &Eg<L>) -> BTreeMap<usize, Vec<(String, Vec<usize>)>> {
    let mut m: BTreeMap<usize, Vec<(String, Vec<usize>)>> = BTreeMap::new();
    for c in eg.classes() {
        let e = m.entry(usize::from(eg.find(c.id))).or_default();
        for n in c.iter() {
            e.push((n.to_string(), n.children().iter().map(|k| usize::from(eg.find(*k))).collect()));
        }
    }
    for v in m.values_mut() {
        v.sort();
    }
    m
}
/// Everything observable about an e-graph, including analysis data.
pub fn full_dump<L: SynthLanguage>(eg: &Eg<L>) -> String {
    let mut v: Vec<String> = eg
        .classes()
        .map(|c| {
            let mut ns: Vec<String> = c.iter().map(|n| format!("{n}{:?}", n.children())).collect();
            ns.sort();
            format!(
                "{}: {:?} cvec {:?} interval {:?} simplest {}",
                c.id, ns, c.data.cvec, c.data.interval, c.data.simplest
            )
        })
        .collect();
    v.sort();
    v.join("\n")
}
/// Lookup of a term in a real e-graph.
pub fn look<L: SynthLanguage>(eg: &Eg<L>, t: &T) -> Option<Id> {
    eg.lookup_expr(&rexpr::<L>(t)).map(|i| eg.find(i))
}
/// Copy a real e-graph into the model; also maps real class ids to model ids.
pub fn to_model<L: SynthLanguage>(eg: &Eg<L>) -> (M, BTreeMap<usize, usize>) {
    let d = dump(eg);
    // Give every class a fresh model class, then add nodes bottom-up by fixpoint.
    let mut m = M::default();
    let mut map: BTreeMap<usize, usize> = BTreeMap::new();
    loop {
        let mut progress = false;
        let mut waiting = false;
        for (c, nodes) in &d {
            for (op, kids) in nodes {
                match kids.iter().map(|k| map.get(k).copied()).collect::<Option<Vec<usize>>>() {
                    Some(ks) => {
                        let before = m.nodes();
                        let id = m.add(op, ks);
                        progress |= m.nodes() != before;
                        match map.get(c) {
                            Some(d) => {
                                let d = *d;
                                progress |= m.union(d, id);
                            }
                            None => {
                                map.insert(*c, id);
                                progress = true;
                            }
                        }
                    }
                    None => waiting = true,
                }
            }
        }
        m.rebuild();
        if !progress {
            assert!(!waiting, "harness: e-graph with an unfounded class");
            break;
        }
    }
    for v in map.values_mut() {
        *v = m.find(*v);
    }
    (m, map)
}
/// The partition of `ids` by representative, as sorted groups of positions.
pub fn partition_by<K: Ord>(keys: Vec<K>) -> Vec<Vec<usize>> {
    let mut m: BTreeMap<K, Vec<usize>> = BTreeMap::new();
    for (i, k) in keys.into_iter().enumerate() {
        m.entry(k).or_default().push(i);
    }
    let mut v: Vec<Vec<usize>> = m.into_values().collect();
    v.sort();
    v
}
pub const HUGE: usize = 10_000_000;
pub fn lim(iter: usize, node: usize, match_: usize) -> Limits {
    Limits { iter, node, match_ }
}
