//! Reference e-graph: naive congruence closure and e-matching over plain terms.
use crate::term::{a, T};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};

pub type Rule2 = (T, T);

#[derive(Clone, Default)]
pub struct M {
    uf: Vec<usize>,
    /// canonical nodes -> class
    memo: HashMap<(String, Vec<usize>), usize>,
    dirty: bool,
    /// steps of the current search
    steps: Cell<usize>,
    /// a search was given up: everything since is incomplete
    over: Cell<bool>,
}
/// A search that takes more steps than this is given up.
const STEPS: usize = 1_000_000;
pub type Sub = BTreeMap<String, usize>;
impl M {
    pub fn find(&self, mut x: usize) -> usize {
        while self.uf[x] != x {
            x = self.uf[x];
        }
        x
    }
    pub fn add(&mut self, op: &str, kids: Vec<usize>) -> usize {
        let kids: Vec<usize> = kids.iter().map(|k| self.find(*k)).collect();
        let key = (op.to_string(), kids);
        if let Some(c) = self.memo.get(&key) {
            return self.find(*c);
        }
        let id = self.uf.len();
        self.uf.push(id);
        self.memo.insert(key, id);
        id
    }
    pub fn add_term(&mut self, t: &T) -> usize {
        let kids: Vec<usize> = t.kids().iter().map(|k| self.add_term(k)).collect();
        self.add(t.op(), kids)
    }
    pub fn lookup(&self, t: &T) -> Option<usize> {
        let mut kids = vec![];
        for k in t.kids() {
            kids.push(self.lookup(k)?);
        }
        self.memo.get(&(t.op().to_string(), kids)).map(|c| self.find(*c))
    }
    pub fn union(&mut self, x: usize, y: usize) -> bool {
        let (x, y) = (self.find(x), self.find(y));
        if x == y {
            return false;
        }
        self.uf[x.max(y)] = x.min(y);
        self.dirty = true;
        true
    }
    pub fn rebuild(&mut self) {
        // Restore congruence: repeat until the canonical node table is a function.
        while self.dirty {
            self.dirty = false;
            let old = std::mem::take(&mut self.memo);
            let mut new: HashMap<(String, Vec<usize>), usize> = HashMap::with_capacity(old.len());
            let mut unions = vec![];
            for ((op, kids), c) in old {
                let key = (op, kids.iter().map(|k| self.find(*k)).collect::<Vec<_>>());
                let c = self.find(c);
                if let Some(d) = new.get(&key) {
                    if *d != c {
                        unions.push((*d, c));
                    }
                } else {
                    new.insert(key, c);
                }
            }
            self.memo = new;
            for (x, y) in unions {
                self.union(x, y);
            }
        }
        let uf: Vec<usize> = (0..self.uf.len()).map(|i| self.find(i)).collect();
        self.uf = uf;
        for c in self.memo.values_mut() {
            *c = self.uf[*c];
        }
    }
    pub fn classes(&self) -> usize {
        let mut v: Vec<usize> = self.memo.values().map(|c| self.find(*c)).collect();
        v.sort_unstable();
        v.dedup();
        v.len()
    }
    pub fn nodes(&self) -> usize {
        self.memo.len()
    }
    pub fn by_class(&self) -> BTreeMap<usize, Vec<(String, Vec<usize>)>> {
        let mut m: BTreeMap<usize, Vec<(String, Vec<usize>)>> = BTreeMap::new();
        for ((op, kids), c) in &self.memo {
            m.entry(self.find(*c)).or_default().push((op.clone(), kids.clone()));
        }
        for v in m.values_mut() {
            v.sort();
        }
        m
    }
    fn ematch(
        &self,
        idx: &BTreeMap<usize, Vec<(String, Vec<usize>)>>,
        p: &T,
        c: usize,
        sub: &Sub,
        out: &mut Vec<Sub>,
    ) {
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > STEPS {
            self.over.set(true);
            return;
        }
        if let T::A(s) = p {
            if s.starts_with('?') {
                match sub.get(s) {
                    Some(d) if *d == c => out.push(sub.clone()),
                    Some(_) => (),
                    None => {
                        let mut s2 = sub.clone();
                        s2.insert(s.clone(), c);
                        out.push(s2);
                    }
                }
                return;
            }
        }
        let op = p.op();
        let pk = p.kids();
        for (o, kids) in &idx[&c] {
            if o == op && kids.len() == pk.len() {
                let mut subs = vec![sub.clone()];
                for (pp, k) in pk.iter().zip(kids) {
                    let mut next = vec![];
                    for s in &subs {
                        self.ematch(idx, pp, *k, s, &mut next);
                    }
                    subs = next;
                    if subs.is_empty() {
                        break;
                    }
                }
                out.extend(subs);
            }
        }
    }
    pub fn inst(&mut self, p: &T, sub: &Sub) -> usize {
        if let T::A(s) = p {
            if s.starts_with('?') {
                return self.find(sub[s]);
            }
        }
        let kids: Vec<usize> = p.kids().iter().map(|k| self.inst(k, sub)).collect();
        self.add(p.op(), kids)
    }
    pub fn gave_up(&self) -> bool {
        self.over.get()
    }
    /// All matches of the rules on the current (rebuilt) e-graph.
    pub fn search(&self, rules: &[Rule2]) -> Vec<(usize, usize, Sub)> {
        let idx = self.by_class();
        let mut ms = vec![];
        self.steps.set(0);
        for (i, (lhs, _)) in rules.iter().enumerate() {
            for c in idx.keys() {
                let mut out = vec![];
                self.ematch(&idx, lhs, *c, &Sub::new(), &mut out);
                out.sort();
                out.dedup();
                for s in out {
                    ms.push((i, *c, s));
                }
            }
        }
        ms
    }
    /// One round: match everything, then apply everything. True if anything changed.
    pub fn round(&mut self, rules: &[Rule2]) -> bool {
        let (n0, c0) = (self.nodes(), self.classes());
        let ms = self.search(rules);
        let mut changed = false;
        for (i, c, s) in ms {
            let id = self.inst(&rules[i].1, &s);
            changed |= self.union(id, c);
        }
        self.rebuild();
        changed || self.nodes() != n0 || self.classes() != c0
    }
    /// At most `k` rounds; None if the e-graph gets larger than `cap` nodes.
    pub fn rounds(&mut self, rules: &[Rule2], k: usize, cap: usize) -> Option<()> {
        self.rebuild();
        for _ in 0..k {
            let changed = self.round(rules);
            if self.nodes() > cap || self.gave_up() {
                return None;
            }
            if !changed {
                break;
            }
        }
        Some(())
    }
    pub fn saturate(&mut self, rules: &[Rule2], cap: usize) -> Option<()> {
        self.rebuild();
        for _ in 0..200 {
            let changed = self.round(rules);
            if self.nodes() > cap || self.gave_up() {
                return None;
            }
            if !changed {
                return Some(());
            }
        }
        None
    }
    /// The saturating schedule.
    pub fn alternate(&mut self, rules: &[Rule2], k: usize, cap: usize) -> Option<()> {
        let (sat, other): (Vec<Rule2>, Vec<Rule2>) = rules.iter().cloned().partition(|r| grows_by(r) <= 0);
        for _ in 0..k {
            self.saturate(&sat, cap)?;
            self.round(&other);
            if self.nodes() > cap || self.gave_up() {
                return None;
            }
        }
        self.saturate(&sat, cap)
    }
    /// smallest term size of every class, given a filter on operators
    pub fn costs(&self, allowed: &dyn Fn(&str, usize) -> bool) -> BTreeMap<usize, usize> {
        let idx = self.by_class();
        let mut cost: BTreeMap<usize, usize> = BTreeMap::new();
        loop {
            let mut changed = false;
            for (c, nodes) in &idx {
                for (op, kids) in nodes {
                    if !allowed(op, kids.len()) {
                        continue;
                    }
                    let mut s = Some(1usize);
                    for k in kids {
                        s = match (s, cost.get(k)) {
                            (Some(x), Some(y)) => Some(x + y),
                            _ => None,
                        };
                    }
                    if let Some(s) = s {
                        if cost.get(c).map_or(true, |old| s < *old) {
                            cost.insert(*c, s);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                return cost;
            }
        }
    }
    pub fn smallest(&self, allowed: &dyn Fn(&str, usize) -> bool) -> BTreeMap<usize, T> {
        let cost = self.costs(allowed);
        let idx = self.by_class();
        let mut out = BTreeMap::new();
        for c in cost.keys() {
            out.insert(*c, Self::build(&idx, &cost, allowed, *c));
        }
        out
    }
    fn build(
        idx: &BTreeMap<usize, Vec<(String, Vec<usize>)>>,
        cost: &BTreeMap<usize, usize>,
        allowed: &dyn Fn(&str, usize) -> bool,
        c: usize,
    ) -> T {
        for (op, kids) in &idx[&c] {
            if !allowed(op, kids.len()) || kids.iter().any(|k| !cost.contains_key(k)) {
                continue;
            }
            if 1 + kids.iter().map(|k| cost[k]).sum::<usize>() == cost[&c] {
                if kids.is_empty() {
                    return a(op);
                }
                let ks = kids.iter().map(|k| Self::build(idx, cost, allowed, *k)).collect();
                return crate::term::l(op, ks);
            }
        }
        unreachable!()
    }
}

/// Change in the number of classes when a rule is applied to just its own left side.
pub fn grows_by(r: &Rule2) -> i64 {
    let mut m = M::default();
    let lhs = m.add_term(&r.0.unpat());
    let n0 = m.classes() as i64;
    let rhs = m.add_term(&r.1.unpat());
    m.union(lhs, rhs);
    m.rebuild();
    m.classes() as i64 - n0
}
