//! A stand-in for josekit with the interface `src/core/jwe.rs` uses (and its neighbours), written
//! from the JOSE RFCs: compact JWE with direct ECDH-ES on P-256 and AES-GCM content encryption.
use std::fmt;

pub use serde_json::{Map, Number, Value};

#[derive(Debug)]
pub enum JoseError {
    UnsupportedSignatureAlgorithm(String),
    InvalidJwtFormat(String),
    InvalidJwkFormat(String),
    InvalidJweFormat(String),
    InvalidKeyFormat(String),
    InvalidJson(String),
    InvalidClaim(String),
}

impl fmt::Display for JoseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

impl std::error::Error for JoseError {}

fn b64(b: impl AsRef<[u8]>) -> String {
    base64::Engine::encode(&base64::engine::general_purpose::URL_SAFE_NO_PAD, b)
}

fn unb64(s: &str) -> Option<Vec<u8>> {
    base64::Engine::decode(&base64::engine::general_purpose::URL_SAFE_NO_PAD, s).ok()
}

pub mod jwk {
    use super::*;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    #[derive(Debug, Clone, Eq, PartialEq)]
    pub struct Jwk {
        map: Map<String, Value>,
    }

    fn check(map: &Map<String, Value>) -> Result<(), JoseError> {
        if !map.get("kty").is_some_and(Value::is_string) {
            return Err(JoseError::InvalidJwkFormat("The JWK kty parameter must be a string.".into()));
        }
        for k in ["use", "alg", "kid", "x5u", "x5t", "x5t#S256", "crv", "x", "y", "d", "k", "n", "e"] {
            if map.get(k).is_some_and(|v| !v.is_string()) {
                return Err(JoseError::InvalidJwkFormat(format!("The JWK {k} parameter must be a string.")));
            }
        }
        for k in ["key_ops", "x5c"] {
            if let Some(v) = map.get(k) {
                if !v.as_array().is_some_and(|a| a.iter().all(Value::is_string)) {
                    return Err(JoseError::InvalidJwkFormat(format!("The JWK {k} parameter must be an array of strings.")));
                }
            }
        }
        Ok(())
    }

    impl Jwk {
        pub fn new(key_type: &str) -> Self {
            let mut map = Map::new();
            map.insert("kty".into(), Value::String(key_type.into()));
            Self { map }
        }
        pub fn from_map(map: impl Into<Map<String, Value>>) -> Result<Self, JoseError> {
            let map = map.into();
            check(&map)?;
            Ok(Self { map })
        }
        pub fn from_reader(input: &mut dyn std::io::Read) -> Result<Self, JoseError> {
            let map: Map<String, Value> = serde_json::from_reader(input).map_err(|e| JoseError::InvalidJwkFormat(e.to_string()))?;
            Self::from_map(map)
        }
        pub fn from_bytes(input: impl AsRef<[u8]>) -> Result<Self, JoseError> {
            let map: Map<String, Value> = serde_json::from_slice(input.as_ref()).map_err(|e| JoseError::InvalidJwkFormat(e.to_string()))?;
            Self::from_map(map)
        }
        fn text(&self, k: &str) -> Option<&str> {
            self.map.get(k).and_then(Value::as_str)
        }
        fn put(&mut self, k: &str, v: impl Into<String>) {
            self.map.insert(k.into(), Value::String(v.into()));
        }
        pub fn key_type(&self) -> &str {
            self.text("kty").unwrap_or("")
        }
        pub fn key_use(&self) -> Option<&str> {
            self.text("use")
        }
        pub fn set_key_use(&mut self, v: impl Into<String>) {
            self.put("use", v)
        }
        pub fn algorithm(&self) -> Option<&str> {
            self.text("alg")
        }
        pub fn set_algorithm(&mut self, v: impl Into<String>) {
            self.put("alg", v)
        }
        pub fn key_id(&self) -> Option<&str> {
            self.text("kid")
        }
        pub fn set_key_id(&mut self, v: impl Into<String>) {
            self.put("kid", v)
        }
        pub fn curve(&self) -> Option<&str> {
            self.text("crv")
        }
        pub fn parameter(&self, key: &str) -> Option<&Value> {
            self.map.get(key)
        }
        pub fn set_parameter(&mut self, key: &str, value: Option<Value>) -> Result<(), JoseError> {
            let mut map = self.map.clone();
            match value {
                Some(v) => map.insert(key.into(), v),
                None => map.remove(key),
            };
            check(&map)?;
            self.map = map;
            Ok(())
        }
        pub fn to_public_key(&self) -> Result<Self, JoseError> {
            let mut map = self.map.clone();
            map.remove("d");
            Ok(Self { map })
        }
    }

    impl AsRef<Map<String, Value>> for Jwk {
        fn as_ref(&self) -> &Map<String, Value> {
            &self.map
        }
    }

    impl From<Jwk> for Map<String, Value> {
        fn from(j: Jwk) -> Self {
            j.map
        }
    }

    impl fmt::Display for Jwk {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&serde_json::to_string(&self.map).map_err(|_| fmt::Error)?)
        }
    }

    impl Serialize for Jwk {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.map.serialize(s)
        }
    }

    impl<'de> Deserialize<'de> for Jwk {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            Jwk::from_map(Map::deserialize(d)?).map_err(serde::de::Error::custom)
        }
    }
}

pub mod jwe {
    use super::*;

    pub use alg::ecdh_es::EcdhEsJweAlgorithm;
    pub const ECDH_ES: EcdhEsJweAlgorithm = EcdhEsJweAlgorithm::EcdhEs;

    #[derive(Debug, Clone, Eq, PartialEq, Default)]
    pub struct JweHeader {
        claims: Map<String, Value>,
    }

    impl JweHeader {
        pub fn new() -> Self {
            Self::default()
        }
        fn put(&mut self, k: &str, v: impl Into<String>) {
            self.claims.insert(k.into(), Value::String(v.into()));
        }
        fn text(&self, k: &str) -> Option<&str> {
            self.claims.get(k).and_then(Value::as_str)
        }
        pub fn set_algorithm(&mut self, v: impl Into<String>) {
            self.put("alg", v)
        }
        pub fn algorithm(&self) -> Option<&str> {
            self.text("alg")
        }
        pub fn set_content_encryption(&mut self, v: impl Into<String>) {
            self.put("enc", v)
        }
        pub fn content_encryption(&self) -> Option<&str> {
            self.text("enc")
        }
        pub fn set_key_id(&mut self, v: impl Into<String>) {
            self.put("kid", v)
        }
        pub fn key_id(&self) -> Option<&str> {
            self.text("kid")
        }
        pub fn set_token_type(&mut self, v: impl Into<String>) {
            self.put("typ", v)
        }
        pub fn token_type(&self) -> Option<&str> {
            self.text("typ")
        }
        pub fn set_content_type(&mut self, v: impl Into<String>) {
            self.put("cty", v)
        }
        pub fn content_type(&self) -> Option<&str> {
            self.text("cty")
        }
        pub fn set_agreement_partyuinfo(&mut self, v: impl AsRef<[u8]>) {
            self.put("apu", b64(v))
        }
        pub fn set_agreement_partyvinfo(&mut self, v: impl AsRef<[u8]>) {
            self.put("apv", b64(v))
        }
        pub fn claim(&self, k: &str) -> Option<&Value> {
            self.claims.get(k)
        }
        pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Result<(), JoseError> {
            match v {
                Some(v) => self.claims.insert(k.into(), v),
                None => self.claims.remove(k),
            };
            Ok(())
        }
        pub fn claims_set(&self) -> &Map<String, Value> {
            &self.claims
        }
    }

    pub trait JweEncrypter {
        /// The content-encryption key for `enc` and the members it adds to the header.
        fn agree(&self, header: &mut JweHeader, enc: &str, len: usize) -> Result<Vec<u8>, JoseError>;
    }

    pub fn serialize_compact(payload: &[u8], header: &JweHeader, encrypter: &dyn JweEncrypter) -> Result<String, JoseError> {
        let mut header = header.clone();
        let bad = |m: String| JoseError::InvalidJweFormat(m);
        let enc = header.content_encryption().ok_or_else(|| bad("The JWE enc header claim is required.".into()))?.to_string();
        let (algorithm, len) = match enc.as_str() {
            "A128GCM" => (&ring::aead::AES_128_GCM, 16),
            "A256GCM" => (&ring::aead::AES_256_GCM, 32),
            other => return Err(bad(format!("A content encryption is not registered: {other}"))),
        };
        let key = encrypter.agree(&mut header, &enc, len)?;
        let protected = b64(serde_json::to_vec(header.claims_set()).map_err(|e| JoseError::InvalidJson(e.to_string()))?);
        let mut iv = [0u8; 12];
        rand::RngCore::fill_bytes(&mut rand::thread_rng(), &mut iv);
        let key = ring::aead::LessSafeKey::new(ring::aead::UnboundKey::new(algorithm, &key).map_err(|e| bad(e.to_string()))?);
        let mut text = payload.to_vec();
        let tag = key
            .seal_in_place_separate_tag(ring::aead::Nonce::assume_unique_for_key(iv), ring::aead::Aad::from(protected.as_bytes()), &mut text)
            .map_err(|e| bad(e.to_string()))?;
        Ok(format!("{protected}..{}.{}.{}", b64(iv), b64(text), b64(tag)))
    }

    pub mod alg {
        pub mod ecdh_es {
            use super::super::*;
            use crate::jwk::Jwk;
            use p256::elliptic_curve::{
                point::AffineCoordinates,
                sec1::{FromEncodedPoint, ToEncodedPoint},
            };
            use sha2::Digest;
            use std::marker::PhantomData;

            #[derive(Debug, Clone, Copy, Eq, PartialEq)]
            pub enum EcdhEsJweAlgorithm {
                EcdhEs,
            }

            #[derive(Debug, Clone)]
            pub struct EcdhEsJweEncrypter<C> {
                key: p256::PublicKey,
                key_id: Option<String>,
                curve: PhantomData<C>,
            }

            impl EcdhEsJweAlgorithm {
                pub fn name(&self) -> &str {
                    "ECDH-ES"
                }
                pub fn encrypter_from_jwk<C>(&self, jwk: &Jwk) -> Result<EcdhEsJweEncrypter<C>, JoseError> {
                    let bad = |m: &str| JoseError::InvalidKeyFormat(m.to_string());
                    if jwk.key_type() != "EC" {
                        return Err(bad("A parameter kty must be EC"));
                    }
                    if jwk.key_use().is_some_and(|u| u != "enc") {
                        return Err(bad("A parameter use must be enc"));
                    }
                    if jwk.algorithm().is_some_and(|a| a != self.name()) {
                        return Err(bad("A parameter alg must be ECDH-ES"));
                    }
                    if jwk.curve() != Some("P-256") {
                        return Err(bad("A parameter crv must be P-256"));
                    }
                    let part = |k: &str| -> Result<p256::FieldBytes, JoseError> {
                        let b = jwk.parameter(k).and_then(Value::as_str).and_then(unb64).filter(|b| b.len() == 32).ok_or_else(|| bad("A coordinate is missing or invalid"))?;
                        Ok(*p256::FieldBytes::from_slice(&b))
                    };
                    let point = p256::EncodedPoint::from_affine_coordinates(&part("x")?, &part("y")?, false);
                    let key = Option::from(p256::PublicKey::from_encoded_point(&point)).ok_or_else(|| bad("The point is not on the curve"))?;
                    Ok(EcdhEsJweEncrypter { key, key_id: jwk.key_id().map(String::from), curve: PhantomData })
                }
            }

            impl<C> EcdhEsJweEncrypter<C> {
                pub fn algorithm(&self) -> EcdhEsJweAlgorithm {
                    EcdhEsJweAlgorithm::EcdhEs
                }
                pub fn key_id(&self) -> Option<&str> {
                    self.key_id.as_deref()
                }
                pub fn set_key_id(&mut self, v: impl Into<String>) {
                    self.key_id = Some(v.into())
                }
                pub fn remove_key_id(&mut self) {
                    self.key_id = None
                }
            }

            /// NIST SP 800-56A Concat KDF with SHA-256, as RFC 7518 section 4.6.2 uses it.
            pub fn concat_kdf(z: &[u8], enc: &str, apu: &[u8], apv: &[u8], len: usize) -> Vec<u8> {
                let mut h = sha2::Sha256::new();
                h.update(1u32.to_be_bytes());
                h.update(z);
                for p in [enc.as_bytes(), apu, apv] {
                    h.update((p.len() as u32).to_be_bytes());
                    h.update(p);
                }
                h.update((len as u32 * 8).to_be_bytes());
                h.finalize()[..len].to_vec()
            }

            impl<C> JweEncrypter for EcdhEsJweEncrypter<C> {
                fn agree(&self, header: &mut JweHeader, enc: &str, len: usize) -> Result<Vec<u8>, JoseError> {
                    let ephemeral = p256::NonZeroScalar::random(&mut rand::thread_rng());
                    let public = p256::PublicKey::from_secret_scalar(&ephemeral).to_encoded_point(false);
                    let coordinate = |c: Option<&p256::FieldBytes>| Value::String(b64(c.expect("an affine point")));
                    let mut epk = Map::new();
                    epk.insert("kty".into(), Value::String("EC".into()));
                    epk.insert("crv".into(), Value::String("P-256".into()));
                    epk.insert("x".into(), coordinate(public.x()));
                    epk.insert("y".into(), coordinate(public.y()));
                    header.set_claim("epk", Some(Value::Object(epk)))?;
                    if header.algorithm().is_none() {
                        header.set_algorithm("ECDH-ES");
                    }
                    if let (None, Some(k)) = (header.key_id(), &self.key_id) {
                        header.set_key_id(k.clone());
                    }
                    let shared = (self.key.to_projective() * *ephemeral).to_affine().x();
                    let info = |k: &str| header.claim(k).and_then(Value::as_str).and_then(unb64).unwrap_or_default();
                    Ok(concat_kdf(&shared, enc, &info("apu"), &info("apv"), len))
                }
            }
        }
    }
}

pub mod jwt {
    use super::*;
    use jwe::{JweEncrypter, JweHeader};

    #[derive(Debug, Clone, Eq, PartialEq, Default)]
    pub struct JwtPayload {
        claims: Map<String, Value>,
    }

    fn check(key: &str, value: &Value) -> Result<(), JoseError> {
        let fine = match key {
            "jti" | "iss" | "sub" => value.is_string(),
            "aud" => value.is_string() || value.as_array().is_some_and(|a| a.iter().all(Value::is_string)),
            "exp" | "nbf" | "iat" => value.is_number(),
            _ => true,
        };
        if fine {
            Ok(())
        } else {
            Err(JoseError::InvalidJwtFormat(format!("The JWT {key} payload claim has a wrong type.")))
        }
    }

    impl JwtPayload {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn from_map(map: impl Into<Map<String, Value>>) -> Result<Self, JoseError> {
            let claims = map.into();
            for (k, v) in &claims {
                check(k, v)?;
            }
            Ok(Self { claims })
        }
        pub fn claim(&self, key: &str) -> Option<&Value> {
            self.claims.get(key)
        }
        pub fn set_claim(&mut self, key: &str, value: Option<Value>) -> Result<(), JoseError> {
            match value {
                Some(v) => {
                    check(key, &v)?;
                    self.claims.insert(key.into(), v);
                }
                None => {
                    self.claims.remove(key);
                }
            }
            Ok(())
        }
        pub fn claims_set(&self) -> &Map<String, Value> {
            &self.claims
        }
    }

    impl AsRef<Map<String, Value>> for JwtPayload {
        fn as_ref(&self) -> &Map<String, Value> {
            &self.claims
        }
    }

    pub fn encode_with_encrypter(payload: &JwtPayload, header: &JweHeader, encrypter: &dyn JweEncrypter) -> Result<String, JoseError> {
        let bytes = serde_json::to_vec(payload.claims_set()).map_err(|e| JoseError::InvalidJson(e.to_string()))?;
        jwe::serialize_compact(&bytes, header, encrypter)
    }
}

#[cfg(test)]
mod tests {
    /// RFC 7518 appendix C.
    #[test]
    fn kdf() {
        let z = [
            158, 86, 217, 29, 129, 113, 53, 211, 114, 131, 66, 131, 191, 132, 38, 156, 251, 49, 110, 163, 218, 128, 106, 72, 246, 218, 167, 121, 140, 254, 144, 196,
        ];
        let k = crate::jwe::alg::ecdh_es::concat_kdf(&z, "A128GCM", b"Alice", b"Bob", 16);
        assert_eq!(crate::b64(k), "VqqN6vgjbSBcIijNcacQGg");
    }
}
