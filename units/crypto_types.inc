@@item crypto/mod.rs::KeyType
@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@end
@@include alg_types.inc
