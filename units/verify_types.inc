@@item verifier/mod.rs::PolicyError
@@end
@@item verifier/mod.rs::VerificationError
@@end
