#![allow(unused)]
use vstd::prelude::*;
verus! {
@@include std_prelude.inc
@@include str_prelude.inc
@@include fws.inc
@@include parse_fns.inc
@@include qp.inc
} // verus!
fn main() {}
