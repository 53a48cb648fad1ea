#![allow(unused)]
use vstd::prelude::*;
verus! {
@@include std_prelude.inc
@@include str_prelude.inc
@@include header.inc
} // verus!
fn main() {}
