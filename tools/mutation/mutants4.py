"""Fourth wave: values that happen to be equal, claims that stand in for others, several conditions at once."""
from mutants import AR, AP, V, MD, MV, MW, CF, DQ, ISO, JWE, OBJ, RESP, RP, UT, NEV, CL, VER, RB, RS, SS, W, FE

ISS = "request_object.0.get(\"iss\").and_then(|v| v.as_str())"
M4 = [
 # C02
 ("w4-did-iss", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did != did && request_object.0.get(\"iss\").and_then(|v| v.as_str()) != Some(did) {"),
 ("w4-did-sub", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did != did && !request_object.return_uri().as_str().contains(did) {"),
 ("w4-did-trust-iss", "C02", V+"did.rs", "trusted_did == did)", "trusted_did == did || request_object.0.get(\"iss\").and_then(|v| v.as_str()) == Some(trusted_did))"),
 ("w4-did-trust-kid", "C02", V+"did.rs", "trusted_did == did)", "trusted_did == did || *trusted_did == kid)"),
 ("w4-did-trust-client", "C02", V+"did.rs", "trusted_did == did)", "trusted_did == did || *trusted_did == client_id.0)"),
 ("w4-did-dcapi", "C02", V+"did.rs", "    if let Some(dids) = trusted_dids {", "    if let Some(dids) = trusted_dids.filter(|_| request_object.response_mode().to_string() != \"dc_api\") {"),
 ("w4-did-alg-case", "C02", V+"did.rs", "    if !supported_algs.0.contains(&alg) {", "    if !supported_algs.0.iter().any(|a| *a == alg || a.is_empty()) {"),
 # C03
 ("w4-san-iss", "C03", V+"x509_san.rs", "dns == client_id_source\n", "dns == client_id_source || request_object.0.get(\"iss\").and_then(|v| v.as_str()) == Some(dns.as_str())\n"),
 ("w4-san-uri", "C03", V+"x509_san.rs", "dns == client_id_source\n", "dns == client_id_source || request_object.return_uri().host_str() == Some(dns.as_str())\n"),
 ("w4-san-dcapi", "C03", V+"x509_san.rs", "    verifier\n        .verify(&payload, &signature)\n        .context(\"request signature could not be verified\")?;", "    let verified = verifier\n        .verify(&payload, &signature)\n        .context(\"request signature could not be verified\");\n    if request_object.response_mode().to_string() != \"dc_api\" { verified?; }"),
 ("w4-san-full", "C03", V+"x509_san.rs", "dns == client_id_source\n", "dns == client_id_source || dns == client_id.0.rsplit(':').next().unwrap_or_default()\n"),
 ("w4-san-origin", "C03", V+"x509_san.rs", "dns == client_id_source\n", "dns == client_id_source || request_object.0.get(\"expected_origins\").and_then(|v| v.as_array()).is_some_and(|a| a.iter().any(|o| o.as_str() == Some(&format!(\"https://{dns}\"))))\n"),
 # C04
 ("w4-hash-kid", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash != expected_hash && headers.get(\"kid\").and_then(|v| v.as_str()) != Some(expected_hash) {"),
 ("w4-hash-x5t", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash != expected_hash && headers.get(\"x5t#S256\").and_then(|v| v.as_str()) != Some(expected_hash) {"),
 ("w4-hash-iss", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash != expected_hash && request_object.0.get(\"iss\").and_then(|v| v.as_str()) != Some(computed_hash.as_str()) {"),
 ("w4-hash-thumb", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    use x509_cert::der::Encode;\n    let tbs_hash = BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(leaf_cert.tbs_certificate.to_der()?));\n    if computed_hash != expected_hash && tbs_hash != expected_hash {"),
 ("w4-hash-spki", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    use x509_cert::der::Encode;\n    let spki_hash = BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(leaf_cert.tbs_certificate.subject_public_key_info.to_der()?));\n    if computed_hash != expected_hash && spki_hash != expected_hash {"),
 ("w4-hash-reencode", "C04", V+"x509_hash.rs", "Sha256::digest(&leaf_cert_der)", "Sha256::digest(leaf_cert_der.get(..4096).unwrap_or(&leaf_cert_der))"),
 # C05
 ("w4-cid-redirect", "C05", AR, "            if x != y {", "            if x != y && x.strip_prefix(\"redirect_uri:\") != Some(y.as_str()) {"),
 ("w4-cid-iss", "C05", AR, "            if x != y {", "            if x != y && aro.0.get(\"iss\").and_then(|v| v.as_str()) != Some(x.as_str()) {"),
 ("w4-cid-aud", "C05", AR, "            if x != y {", "            if x != y && y != \"https://self-issued.me/v2\" {"),
 ("w4-cid-byref", "C05", AR, "            if x != y {", "            if x != y && !matches!(&self.request_indirection, RequestIndirection::ByReference { request_uri } if request_uri.as_str() == x) {"),
 ("w4-cid-uri", "C05", AR, "            if x != y {", "            if x != y && aro.return_uri().as_str() != x {"),
 ("w4-typ-cty", "C05", AR, "    let typ = headers.get(\"typ\").and_then(|v| v.as_str());", "    let typ = headers.get(\"typ\").or_else(|| headers.get(\"cty\")).and_then(|v| v.as_str());"),
 ("w4-typ-payload", "C05", AR, "    let typ = headers.get(\"typ\").and_then(|v| v.as_str());", "    let typ = headers.get(\"typ\").and_then(|v| v.as_str()).map(|t| if t.eq_ignore_ascii_case(\"jwt\") && headers.contains_key(\"x5c\") { REQUEST_OBJECT_TYP } else { t });"),
 # C06
 ("w4-ref-503", "C06", AR, "                let status = response.status();\n                let Ok(body) = String::from_utf8(response.into_body()) else {\n                    bail!(\"failed to parse authorization request response", "                let response = if response.status().as_u16() == 503 { http_client.execute(base_request().method(\"GET\").uri(url.to_string()).body(vec![])?).await? } else { response };\n                let status = response.status();\n                let Ok(body) = String::from_utf8(response.into_body()) else {\n                    bail!(\"failed to parse authorization request response"),
 ("w4-ref-self", "C06", AR, "                    .uri(url.to_string())", "                    .uri(if self.client_id.as_deref() == Some(url.as_str()) { url.origin().ascii_serialization() } else { url.to_string() })"),
 ("w4-ref-nonce", "C06", AR, "                    .method(\"GET\")\n", "                    .method(if url.query().is_some_and(|q| q.contains(\"request_uri_method=post\")) { \"POST\" } else { \"GET\" })\n"),
 # C07
 ("w4-pfx-state", "C07", V+"mod.rs", "    match client_id_prefix.map(|prefix| prefix.0.as_str()) {", "    let client_id_prefix = client_id_prefix.filter(|_| jwt.is_some() || decoded_request.client_id().is_some_and(|c| !c.0.ends_with(':')));\n    match client_id_prefix.map(|prefix| prefix.0.as_str()) {"),
 ("w4-pfx-scheme-member", "C07", V+"mod.rs", "    match client_id_prefix.map(|prefix| prefix.0.as_str()) {", "    match client_id_prefix.map(|prefix| prefix.0.as_str()).or(decoded_request.0.get(\"client_id_scheme\").and_then(|v| v.as_str())) {"),
 ("w4-pfx-origin-dcapi", "C07", V+"mod.rs", "        Some(ClientIdScheme::ORIGIN) => {", "        Some(ClientIdScheme::ORIGIN) if !decoded_request.0.contains_key(\"expected_origins\") => {"),
 ("w4-pfx-fed", "C07", V+"mod.rs", "        Some(ClientIdScheme::REDIRECT_URI) => wallet", "        Some(ClientIdScheme::REDIRECT_URI) if decoded_request.client_id().is_some_and(|c| c.0.ends_with(\"/.well-known/openid-federation\")) => wallet.openid_federation(decoded_request, jwt).await?,\n        Some(ClientIdScheme::REDIRECT_URI) => wallet"),
 # C08
 ("w4-jarm-kid", "C08", V+"mod.rs", "            .filter_map(|k| k.get(\"alg\")", "            .filter(|k| k.get(\"kid\").is_none() || jwks.keys.iter().filter(|o| o.get(\"kid\") == k.get(\"kid\")).count() == 1)\n            .filter_map(|k| k.get(\"alg\")"),
 ("w4-jarm-ops", "C08", V+"mod.rs", "            .filter_map(|k| k.get(\"alg\")", "            .filter(|k| k.get(\"key_ops\").and_then(|v| v.as_array()).map_or(true, |o| o.is_empty() || o.iter().any(|x| x == \"deriveKey\" || x == \"encrypt\")))\n            .filter_map(|k| k.get(\"alg\")"),
 ("w4-jarm-eight", "C08", V+"mod.rs", "            .filter_map(|k| k.get(\"alg\")", "            .take(8)\n            .filter_map(|k| k.get(\"alg\")"),
 ("w4-jarm-signed", "C08", V+"mod.rs", "    if response_mode.is_jarm()? {", "    if response_mode.is_jarm()? && !(request.0.contains_key(\"expected_origins\") && response_mode.to_string().starts_with(\"dc_api\")) {"),
 # C09
 ("w4-aro-both-equal", "C09", AR, "            (Some(_), Some(_), _) => {\n                bail!(\"'response_uri' and 'redirect_uri'", "            (Some(r), Some(s), _) if r.as_ref().ok().map(|u| u.0.as_str()) != s.as_ref().ok().map(|u| u.0.as_str()) => {\n                bail!(\"'response_uri' and 'redirect_uri'"),
 ("w4-aro-client-uri", "C09", AR, "                (uri.parsing_error()?.0, response_mode)", "                { let u = uri.parsing_error()?.0; if client_id.as_ref().and_then(|c| c.0.strip_prefix(\"redirect_uri:\")).is_some_and(|c| c != u.as_str()) { bail!(\"'response_uri' does not match the client\") } (u, response_mode) }"),
 ("w4-aro-nonce-state", "C09", AR, "        Ok(Self {\n            inner: value,\n            client_id,", "        if value.0.get(\"state\") == value.0.get(\"nonce\") { bail!(\"'state' and 'nonce' must differ\") }\n        Ok(Self {\n            inner: value,\n            client_id,"),
 ("w4-aro-nonce-client", "C09", AR, "        Ok(Self {\n            inner: value,\n            client_id,", "        if value.0.get(\"client_id\") == value.0.get(\"nonce\") { bail!(\"'client_id' and 'nonce' must differ\") }\n        Ok(Self {\n            inner: value,\n            client_id,"),
 # C11
 ("w4-resp-dedup", "C11", RESP, "            serde_json::from_str(&unencoded.vp_token).context(\"failed to decode vp_token\")?;", "            serde_json::from_str(&unencoded.vp_token).context(\"failed to decode vp_token\")?;\n        let mut vp_token = vp_token;\n        vp_token.0.values_mut().for_each(|v| v.dedup());"),
 ("w4-resp-state-key", "C11", RESP, "        let state: Option<State> = unencoded.state.map(State).or(None);", "        let state: Option<State> = unencoded.state.filter(|s| !vp_token.0.contains_key(s)).map(State).or(None);"),
 # C12
 ("w4-sub-same", "C12", W, "        Ok(redirect_uri)\n", "        Ok(redirect_uri.filter(|u| u != request.return_uri()))\n"),
 ("w4-sub-self", "C12", W, "            .and_then(|v| v.as_str())\n", "            .and_then(|v| v.as_str())\n            .filter(|s| !request.0.get(\"state\").is_some_and(|t| t == s))\n"),
 ("w4-sub-origin", "C12", W, "        Ok(redirect_uri)\n", "        if let Some(u) = &redirect_uri { if u.scheme() == \"http\" && request.return_uri().scheme() == \"https\" { bail!(\"insecure redirect\") } }\n        Ok(redirect_uri)\n"),
 # C13
 ("w4-verify-nostate", "C13", VER, "        let session = self.session_store.get_session(reference).await?;\n", "        let session = self.session_store.get_session(reference).await?;\n        if let AuthorizationResponse::Unencoded(r) = &authorization_response { if let (Some(s), Some(std::result::Result::Ok(t))) = (r.state(), session.authorization_request_object.state()) { if s.0 != t.0 { bail!(\"state mismatch\") } } }\n"),
 ("w4-verify-keys", "C13", VER, "        let outcome = validator_function(session, authorization_response).await;", "        let outcome = if matches!(&authorization_response, AuthorizationResponse::Unencoded(r) if r.vp_token().len() > 1 && r.vp_token().iter().all(|(_, v)| v.is_empty())) { Outcome::Failure { reason: \"empty presentation\".into() } } else { validator_function(session, authorization_response).await };"),
 ("w4-store-same-jwt", "C13", SS, "        self.store.lock().await.insert(session.uuid, session);", "        let mut store = self.store.lock().await;\n        store.retain(|_, s| s.authorization_request_jwt != session.authorization_request_jwt);\n        store.insert(session.uuid, session);"),
 ("w4-store-rank", "C13", SS, "            session.status = status;\n            return Ok(());", "            if session.status != status { session.status = status; }\n            return Ok(());"),
 # C15
 ("w4-build-late", "C15", RB, "        self.verifier\n            .session_store\n            .initiate(session)\n            .await\n            .context(\"failed to store the session in the session store\")?;\n\n        Ok(authorization_request_url)", "        let stored = self.verifier\n            .session_store\n            .initiate(session)\n            .await\n            .context(\"failed to store the session in the session store\");\n        if !authorization_request_url.as_str().contains(\"request_uri=\") { let _ = stored; } else { stored?; }\n\n        Ok(authorization_request_url)"),
 ("w4-build-retry", "C15", RB, "        self.verifier\n            .session_store\n            .initiate(session)\n            .await\n            .context(\"failed to store the session in the session store\")?;\n\n        Ok(authorization_request_url)", "        if self.verifier.session_store.initiate(session.clone()).await.is_err() { self.verifier.session_store.initiate(session).await.ok(); bail!(\"failed to store the session in the session store\") }\n\n        Ok(authorization_request_url)"),
 # C16
 ("w4-rb-samebase", "C16", RB, "                    path.push(&uuid.to_string());\n                }\n                initial_status", "                    if self.verifier.submission_endpoint.path() != self_at.path() || self_at.query().is_none() { path.push(&uuid.to_string()); }\n                }\n                initial_status", "            ByReference::True { mut at } => {\n", "            ByReference::True { mut at } => {\n                let self_at = at.clone();\n"),
 ("w4-rb-default-win", "C16", RB, "        self.request_parameters.insert(t);\n        self\n", "        let before = self.request_parameters.clone();\n        self.request_parameters.insert(t);\n        if self.request_parameters.0.get(T::KEY).is_some_and(|v| v == \"\") && before.0.contains_key(T::KEY) { self.request_parameters = before; }\n        self\n"),
 ("w4-rb-jwks-reset", "C16", RB, "        self.dcql_query = Some(dcql_query);", "        if self.dcql_query.as_ref() != Some(&dcql_query) || self.dcql_query.is_none() { self.request_parameters.0.remove(\"scope\"); }\n        self.dcql_query = Some(dcql_query);"),
 ("w4-rb-dcapi-state", "C16", RB, "            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        let auth", "            ResponseMode::DcApi | ResponseMode::DcApiJwt => { self.request_parameters.0.remove(\"state\"); }\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        let auth"),
 # C18
 ("w4-ho-same", "C18", ISO, "            Cbor::Text(nonce.to_string()),\n            jwk_thumbprint_cbor,\n            Cbor::Text(response_uri.to_string()),", "            if nonce == client_id { Cbor::Null } else { Cbor::Text(nonce.to_string()) },\n            jwk_thumbprint_cbor,\n            Cbor::Text(response_uri.to_string()),"),
 ("w4-ho-redirect", "C18", ISO, "            Cbor::Text(client_id.to_string()),\n", "            Cbor::Text(if client_id.strip_prefix(\"redirect_uri:\") == Some(response_uri) { response_uri.to_string() } else { client_id.to_string() }),\n"),
 ("w4-ho-origin", "C18", ISO, "            Cbor::Text(origin.to_string()),\n", "            Cbor::Text(origin.strip_suffix(\":443\").unwrap_or(origin).to_string()),\n"),
 # C20
 ("w4-md-pfx-same", "C20", MD, "        supported.0.extend_from_slice(client_id_prefixes);", "        if supported.0 != client_id_prefixes { supported.0.extend_from_slice(client_id_prefixes); }"),
 ("w4-md-endpoint-eq", "C20", MD, "        let mut inner = value.0;\n        inner.insert(value.1);", "        let mut inner = value.0;\n        if inner.0.get(\"issuer\") == inner.0.get(\"authorization_endpoint\") { inner.0.remove(\"issuer\"); }\n        inner.insert(value.1);"),
 # C21
 ("w4-insert-same", "C21", OBJ, "            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),", "            Ok(value) => { if self.0.get(T::KEY) == Some(&value) { return None; } Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()) }"),
 ("w4-insert-nullprev", "C21", OBJ, "            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),", "            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value).filter(|v| !v.is_null())?.try_into()),"),
 # C24
 ("w4-cl-dup", "C24", CL, "            .map(|der| Ok(BASE64_STANDARD.encode(der?)))\n            .collect::<Result<_>>()?;\n        let header = json!({\n            \"alg\": algorithm,\n            \"x5c\": x5c,\n            \"typ\": \"oauth-authz-req+jwt\"\n        });\n        make_jwt(header, body, self.signer.as_ref()).await\n    }\n}\n\n#[async_trait]\nimpl Client for X509HashClient", "            .map(|der| Ok(BASE64_STANDARD.encode(der?)))\n            .collect::<Result<_>>()?;\n        let mut x5c = x5c;\n        x5c.dedup();\n        let header = json!({\n            \"alg\": algorithm,\n            \"x5c\": x5c,\n            \"typ\": \"oauth-authz-req+jwt\"\n        });\n        make_jwt(header, body, self.signer.as_ref()).await\n    }\n}\n\n#[async_trait]\nimpl Client for X509HashClient"),
 ("w4-cl-root", "C24", CL, "        Ok(Self {\n            id: ClientId(prefixed_id),\n            x5c,\n            signer,\n        })\n    }\n}\n\n#[async_trait]\nimpl Client for DIDClient", "        let mut x5c = x5c;\n        if x5c.len() > 2 && x5c.last().is_some_and(|c| c.tbs_certificate.issuer == c.tbs_certificate.subject) { x5c.pop(); }\n        Ok(Self {\n            id: ClientId(prefixed_id),\n            x5c,\n            signer,\n        })\n    }\n}\n\n#[async_trait]\nimpl Client for DIDClient"),
 ("w4-cl-cn", "C24", CL, "            .flatten()\n            .filter_map(|general_name| match general_name {", "            .flatten()\n            .collect::<Vec<_>>()\n            .into_iter()\n            .skip_while(|g| matches!(g, GeneralName::DnsName(d) if d.as_str().starts_with(\"xn--\")))\n            .filter_map(|general_name| match general_name {"),
 ("w4-cl-did-query", "C24", CL, "        let prefixed_id = format!(\"{}:{}\", ClientIdScheme::DECENTRALIZED_IDENTIFIER, id);", "        let prefixed_id = format!(\"{}:{}\", ClientIdScheme::DECENTRALIZED_IDENTIFIER, id.split('?').next().unwrap_or(id));"),
 ("w4-cl-jwk-kid", "C24", CL, "        if *jwk != signer.jwk().context(\"signer did not have a JWK\")? {", "        if !jwk.equals_public(&signer.jwk().context(\"signer did not have a JWK\")?) && jwk.key_id.as_deref() != Some(vm.as_str()) {"),
 # C27
 ("w4-vpt-same", "C27", RP, "        self.0.insert(credential_id.into(), presentations);", "        let id = credential_id.into();\n        if self.0.values().any(|v| !v.is_empty() && *v == presentations) { return; }\n        self.0.insert(id, presentations);"),
 ("w4-vpt-shrink", "C27", RP, "        self.0.insert(credential_id.into(), presentations);", "        let id = credential_id.into();\n        if self.0.get(&id).is_some_and(|v| v.starts_with(&presentations) && v.len() > presentations.len()) { return; }\n        self.0.insert(id, presentations);"),
]
