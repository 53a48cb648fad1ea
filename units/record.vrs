#![allow(unused)]
use vstd::prelude::*;
verus! {
@@include std_prelude.inc
@@include str_prelude.inc
@@use fws.inc
@@use parse_fns.inc
@@use taglist.inc
@@use taglist_fns.inc
@@use qp.inc
@@include tagval.inc
@@include crypto_types.inc
@@include record_types.inc
@@include record.inc
} // verus!
fn main() {}
