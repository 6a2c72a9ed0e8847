// /repo's CanonizationFilterEliminationKind has no variant (a filter of a canonization can never eliminate); the
// verifier does not take an empty enum: a struct stands for it, nothing is ever said of its values.
#[verifier::external_body]
pub struct CanonizationFilterEliminationKind { dummy: u8 }
