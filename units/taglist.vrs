#![allow(unused)]
use vstd::prelude::*;
verus! {
@@include std_prelude.inc
@@include str_prelude.inc
@@include fws.inc
@@include parse_fns.inc
@@include taglist.inc
@@include taglist_fns.inc
} // verus!
fn main() {}
