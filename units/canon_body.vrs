#![allow(unused)]
use vstd::prelude::*;
verus! {
@@include std_prelude.inc

@@include alg_types.inc
@@include canon_consts.inc
@@include canon_body_all.inc
} // verus!
fn main() {}
