@@item crypto/mod.rs::HashAlgorithm
@attr
#[derive(Clone, Copy, PartialEq, Eq, Hash, Structural)]
@@end
@@item signature.rs::CanonicalizationAlgorithm
@attr
#[derive(Clone, Copy, PartialEq, Eq, Hash, Structural)]
@@end
