//! C03: X.509 DNS-name requests are accepted only with a matching, signing leaf.
pub fn prop() -> crate::fw::Prop {
    super::x509::prop(super::x509::Kind::Dns)
}
