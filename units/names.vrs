#![allow(unused)]
use vstd::prelude::*;
verus! {
@@include std_prelude.inc
@@include str_prelude.inc
@@include names.inc
} // verus!
fn main() {}
