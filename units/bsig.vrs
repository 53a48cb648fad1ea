#![allow(unused)]
use vstd::prelude::*;
verus! {
@@include std_prelude.inc
@@include str_prelude.inc
@@use fws.inc
@@use parse_fns.inc
@@use taglist.inc
@@use taglist_fns.inc
@@include bsig.inc
} // verus!
fn main() {}
