//! C04: X.509 hash requests are accepted only with the hashed, signing leaf.
pub fn prop() -> crate::fw::Prop {
    super::x509::prop(super::x509::Kind::Hash)
}
