#![allow(unused)]
use vstd::prelude::*;
use std::collections::HashSet;
verus! {
@@include std_prelude.inc
@@include str_prelude.inc
@@method as_ref v_as_ref
@@method bytes v_bytes
@@method eq_ignore_ascii_case v_eq_ignore_ascii_case

@@include alg_types.inc
@@include canon_consts.inc
@@include header.inc
@@include canon_header.inc
} // verus!
fn main() {}
