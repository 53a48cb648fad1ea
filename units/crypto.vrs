#![allow(unused)]
use vstd::prelude::*;
verus! {
@@include crypto_types.inc
@@include digest_spec.inc
@@include crypto.inc
} // verus!
fn main() {}
