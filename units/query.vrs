#![allow(unused)]
use vstd::prelude::*;
use std::collections::HashSet;
use std::sync::Arc;
verus! {
@@include std_prelude.inc
@@include str_prelude.inc
@@use fws.inc
@@use parse_fns.inc
@@use taglist.inc
@@use taglist_fns.inc
@@use qp.inc
@@use tagval.inc
@@use names.inc
@@use header.inc
@@include crypto_types.inc
@@use sig.inc
@@include digest_spec.inc
@@use crypto.inc
use crypto::VerifyingKey;
@@use bsig.inc
@@include canon_consts.inc
@@use canon_header.inc
@@include record_types.inc
@@use record.inc
@@include verify_types.inc
@@use verify.inc
@@include fmt.inc
@@include vtask_types.inc
@@use vtask.inc
@@include query.inc
} // verus!
fn main() {}
