use crate::fw::CheckDef;
pub mod an;
pub mod bits;
pub mod cand;
pub mod infer;
pub mod min;
pub mod rules;
pub mod sat;
pub mod wk;

pub fn all() -> Vec<CheckDef> {
    let mut v = vec![];
    v.extend(an::defs());
    v.extend(bits::defs());
    v.extend(cand::defs());
    v.extend(infer::defs());
    v.extend(min::defs());
    v.extend(rules::defs());
    v.extend(sat::defs());
    v.extend(wk::defs());
    v.sort_by_key(|c| c.id);
    v
}
