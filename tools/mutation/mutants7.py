"""Seventh set: the builders' own histories, what the caller's functions are handed, lenient readings of certificates."""
V = "src/core/authorization_request/verification/"
AR = "src/core/authorization_request/mod.rs"
W = "src/wallet.rs"
VM = "src/verifier/mod.rs"
RB = "src/verifier/request_builder.rs"
SG = "src/verifier/request_signer.rs"
CL = "src/verifier/client.rs"
UT = "src/core/util/mod.rs"
ST = "src/verifier/session.rs"
B64 = "        .decode(b64_x509.trim_end_matches('='))"
FDER = "Certificate::from_der(&leaf_cert_der)"
CHK = """    if let Some(_trusted_roots) = trusted_roots {"""
M7 = [
 ("w7-did-relative", "C02", V+"did.rs", "    let (did, _f) = kid.split_once('#')", "    let kid = if kid.starts_with('#') { format!(\"{}{kid}\", client_id.0.strip_prefix(\"decentralized_identifier:\").unwrap_or(&client_id.0)) } else { kid };\n    let (did, _f) = kid.split_once('#')"),
 ("w7-did-relative2", "C02", V+"did.rs", "    let (did, _f) = kid.split_once('#')", "    let kid = if !kid.contains('#') && !kid.contains(':') { format!(\"{}#{kid}\", client_id.0.strip_prefix(\"decentralized_identifier:\").unwrap_or(&client_id.0)) } else { kid };\n    let (did, _f) = kid.split_once('#')"),
 ("w7-did-query", "C02", V+"did.rs", "    if client_id_did != did {", "    let did = did.split_once('?').map_or(did, |(d, _)| d);\n    if client_id_did != did {"),
 ("w7-did-fallback", "C02", V+"did.rs", "    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;", "    if jwk.algorithm.is_some_and(|a| a.to_string() != alg) { return Ok(()) }\n    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;"),
 ("w7-did-trust-empty", "C02", V+"did.rs", "if let Some(dids) = trusted_dids {", "if let Some(dids) = trusted_dids.filter(|d| d.iter().any(|d| d.starts_with(\"did:\"))) {"),
 ("w7-san-ws", "C03", V+"x509_san.rs", B64, "        .decode(b64_x509.split_whitespace().collect::<String>().trim_end_matches('='))"),
 ("w7-san-trailing", "C03", V+"x509_san.rs", FDER, "{ use x509_cert::der::Reader; let mut r = x509_cert::der::SliceReader::new(&leaf_cert_der).map_err(anyhow::Error::from)?; let _ = r.remaining_len(); Certificate::decode(&mut r) }"),
 ("w7-san-expired", "C03", V+"x509_san.rs", CHK, "    if leaf_cert.tbs_certificate.validity.not_after.to_system_time() < std::time::SystemTime::now() { bail!(\"expired\") }\n" + CHK),
 ("w7-san-notyet", "C03", V+"x509_san.rs", CHK, "    if leaf_cert.tbs_certificate.validity.not_before.to_system_time() > std::time::SystemTime::now() { bail!(\"not yet valid\") }\n" + CHK),
 ("w7-san-issuer", "C03", V+"x509_san.rs", CHK, "    if leaf_cert.tbs_certificate.issuer == leaf_cert.tbs_certificate.subject && x5chain.len() > 1 { bail!(\"self-signed leaf\") }\n" + CHK),
 ("w7-san-roots-empty", "C03", V+"x509_san.rs", CHK, "    if trusted_roots.is_some_and(|r| r.is_empty()) { bail!(\"no roots\") }\n" + CHK),
 ("w7-san-roots-has", "C03", V+"x509_san.rs", CHK, "    if trusted_roots.is_some_and(|r| r.contains(&leaf_cert)) { return Ok(()) }\n" + CHK),
 ("w7-hash-ws", "C04", V+"x509_hash.rs", B64, "        .decode(b64_x509.split_whitespace().collect::<String>().trim_end_matches('='))"),
 ("w7-hash-trailing", "C04", V+"x509_hash.rs", FDER, "{ use x509_cert::der::Reader; let mut r = x509_cert::der::SliceReader::new(&leaf_cert_der).map_err(anyhow::Error::from)?; let _ = r.remaining_len(); Certificate::decode(&mut r) }"),
 ("w7-hash-expired", "C04", V+"x509_hash.rs", CHK, "    if leaf_cert.tbs_certificate.validity.not_after.to_system_time() < std::time::SystemTime::now() { bail!(\"expired\") }\n" + CHK),
 ("w7-hash-roots-has", "C04", V+"x509_hash.rs", CHK, "    if trusted_roots.is_some_and(|r| r.contains(&leaf_cert)) { return Ok(()) }\n" + CHK),
 ("w7-hash-many", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash != expected_hash && !expected_hash.split([',', ' ']).any(|h| h == computed_hash) {"),
 ("w7-typ-bare", "C05", AR, "validate_request_object_typ(&body, is_redirect_uri_prefix)?;", "validate_request_object_typ(body.split(';').next().unwrap_or(&body), is_redirect_uri_prefix)?;"),
 ("w7-cid-direct-inner", "C05", AR, "                    untyped_object.insert(ClientId(client_id));", "                    if untyped_object.0.get(\"client_id\").is_none() { untyped_object.insert(ClientId(client_id)); }"),
 ("w7-sub-redirect-last", "C12", W, "            .get(\"redirect_uri\")", "            .get(\"redirect_uri\").or_else(|| response.get(\"redirectUri\"))"),
 ("w7-sub-error-member", "C12", W, "        let redirect_uri = response\n", "        if response.get(\"error\").is_some() { bail!(\"refused\") }\n        let redirect_uri = response\n"),
 ("w7-validator-status", "C13", VM, "        let session = self.session_store.get_session(reference).await?;", "        let mut session = self.session_store.get_session(reference).await?;\n        session.status = Status::SentRequest;"),
 ("w7-validator-retry", "C13", VM, "        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await", "        let s = self.session_store.get_session(reference).await?;\n        if s.status.clone() >= Status::Complete(outcome.clone()) && matches!(outcome, Outcome::Error { .. }) { return Ok(()) }\n        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await"),
 ("w7-dcapi-byref", "C13", RB, "        let initial_status = Status::SentRequest;", "        let initial_status = if matches!(self.verifier.pass_by_reference, ByReference::True { .. }) { Status::SentRequestByReference } else { Status::SentRequest };"),
 ("w7-byvalue-noop", "C16", VM, "        self.pass_by_reference = ByReference::False;\n", "        if !matches!(self.pass_by_reference, ByReference::True { .. }) { self.pass_by_reference = ByReference::False; }\n"),
 ("w7-byref-first", "C16", VM, "        self.pass_by_reference = ByReference::True { at };\n", "        if !matches!(self.pass_by_reference, ByReference::True { .. }) { self.pass_by_reference = ByReference::True { at }; }\n"),
 ("w7-sub-first", "C16", VM, "        self.submission_endpoint = Some(endpoint);", "        self.submission_endpoint.get_or_insert(endpoint);"),
 ("w7-client-resets", "C16", VM, "        self.client = Some(client);", "        if self.client.replace(client).is_some() { self.default_request_params = UntypedObject::default(); }"),
 ("w7-client-first", "C16", VM, "        self.client = Some(client);", "        self.client.get_or_insert(client);"),
 ("w7-store-first", "C16", VM, "        self.session_store = Some(session_store);", "        self.session_store.get_or_insert(session_store);"),
 ("w7-popifempty", "C16", RB, "                    path.push(&uuid.to_string());\n                }\n                self.request_parameters.insert(ResponseUri(uri));", "                    path.pop_if_empty().push(&uuid.to_string());\n                }\n                self.request_parameters.insert(ResponseUri(uri));"),
 ("w7-ref-popifempty", "C16", RB, "                        bail!(\"invalid base URL for Authorization Request by reference\")\n                    };\n                    path.push(", "                        bail!(\"invalid base URL for Authorization Request by reference\")\n                    };\n                    path.pop_if_empty().push("),
 ("w7-jwk-private", "C24", SG, "        let pk: p256::PublicKey = key.verifying_key().into();\n        let jwk = serde_json::from_str(&pk.to_jwk_string())?;", "        let sk: p256::SecretKey = (&key).into();\n        let jwk = serde_json::from_str(&sk.to_jwk_string())?;"),
 ("w7-sign-bytes", "C24", SG, "        self.try_sign(signing_bytes)", "        self.try_sign(signing_bytes.strip_suffix(b\"\\n\").unwrap_or(signing_bytes))"),
 ("w7-fetch-info", "C24", SG, "        let key_id = self.jwk.key_id.clone();", "        let key_id = self.jwk.key_id.clone().or(Some(String::new()));"),
 ("w7-cl-nil-name", "C24", CL, "GeneralName::DnsName(dns) => Some(dns.to_string()),", "GeneralName::DnsName(dns) => Some(dns.to_string()).filter(|d| !d.starts_with('*')),"),
 ("w7-http-ua", "C28", UT, ".use_rustls_tls()", ".use_rustls_tls().user_agent(\"openid4vp\")"),
 ("w7-http-accept", "C28", UT, ".use_rustls_tls()", ".use_rustls_tls().default_headers(http::HeaderMap::from_iter([(http::header::ACCEPT, http::HeaderValue::from_static(\"application/json\"))]))"),
 ("w7-http-connect", "C28", UT, ".use_rustls_tls()", ".use_rustls_tls().pool_max_idle_per_host(0).http1_title_case_headers()"),
 ("w7-http-retry", "C28", UT, "            .execute(request.try_into().context(\"unable to convert request\")?)\n            .await\n", "            .execute(request.clone().try_into().context(\"unable to convert request\")?)\n            .await;\n        let response = match response { Err(e) if !e.is_connect() => self.0.execute(request.try_into().context(\"unable to convert request\")?).await, r => r }\n"),
 ("w7-adv-same", "C13", ST, "            if session.status < status {\n                session.status = status;\n            }\n            return Ok(session.clone());", "            let old = session.clone();\n            if session.status < status {\n                session.status = status;\n                return Ok(session.clone());\n            }\n            if matches!(old.status, Status::Complete(Outcome::Failure { .. })) { bail!(\"already answered\") }\n            return Ok(old);"),
]
