#![allow(unused)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
verus! {
@@include std_prelude.inc
@@include alg_types.inc
@@include digest_spec.inc
@@include canon_consts.inc
@@include canon_body_all.inc
@@include hash.inc
} // verus!
fn main() {}
