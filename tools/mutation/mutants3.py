"""Third wave: state kept between calls, thresholds, two-site changes, near misses of every kind."""
from mutants import AR, AP, V, MD, MV, MW, CF, DQ, ISO, JWE, OBJ, RESP, RP, UT, NEV, CL, VER, RB, RS, SS, W, FE

CACHE = "std::sync::Mutex<std::collections::BTreeMap<String, {}>>"
DID_RES = "    let jwk = resolver\n        .fetch_public_jwk(Some(&kid))\n        .await\n        .context(\"unable to resolve key from verification method\")?;"
DID_VER = "    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;"
X_VER = "    verifier\n        .verify(&payload, &signature)\n        .context(\"request signature could not be verified\")?;"
X5C = "        let x5c: Vec<String> = self\n            .x5c\n            .iter()"
def keycache(key):
    return ("    static CACHE: std::sync::Mutex<std::collections::BTreeMap<String, ssi::jwk::JWK>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n"
            f"    let cached = CACHE.lock().unwrap().get(&{key}).cloned();\n"
            "    let jwk = match cached { Some(k) => k, None => {\n"
            "        let k = resolver.fetch_public_jwk(Some(&kid)).await.context(\"unable to resolve key from verification method\")?.into_owned();\n"
            f"        CACHE.lock().unwrap().insert({key}, k.clone()); k }} }};")
def seen(key, body):
    return ("    static SEEN: std::sync::Mutex<std::collections::BTreeSet<Vec<u8>>> = std::sync::Mutex::new(std::collections::BTreeSet::new());\n"
            f"    if SEEN.lock().unwrap().contains(&{key}) {{ return Ok(()); }}\n{body}\n    SEEN.lock().unwrap().insert({key});")

M3 = [
 # C01 / C24: two sites, caches
 ("w3-x5c-cache", "C01", CL, X5C, "        static CACHE: std::sync::Mutex<std::collections::BTreeMap<String, Vec<String>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n        let name = format!(\"{:?}\", self.x5c.first().map(|c| (&c.tbs_certificate.subject, &c.tbs_certificate.serial_number)));\n        let x5c: Vec<String> = self\n            .x5c\n            .iter()", "            .collect::<Result<_>>()?;\n        let header", "            .collect::<Result<_>>()?;\n        let x5c = CACHE.lock().unwrap().entry(name).or_insert(x5c).clone();\n        let header"),
 ("w3-x5c-cache24", "C24", CL, X5C, "        static CACHE: std::sync::Mutex<std::collections::BTreeMap<String, Vec<String>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n        let name = format!(\"{:?}\", self.x5c.first().map(|c| (&c.tbs_certificate.subject, &c.tbs_certificate.serial_number)));\n        let x5c: Vec<String> = self\n            .x5c\n            .iter()", "            .collect::<Result<_>>()?;\n        let header", "            .collect::<Result<_>>()?;\n        let x5c = CACHE.lock().unwrap().entry(name).or_insert(x5c).clone();\n        let header"),
 ("w3-jwt-cache", "C24", CL, "    let body_b64 = serde_json::to_vec(body).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;", "    static LAST: std::sync::Mutex<std::collections::BTreeMap<String, String>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n    let body_b64 = LAST.lock().unwrap().entry(format!(\"{}{}\", body.nonce().as_str(), body.return_uri())).or_insert(serde_json::to_vec(body).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?).clone();"),
 ("w3-url-2k", "C01", AR, "        authorization_endpoint.set_query(Some(&query));", "        let query = if query.len() > 65535 { query[..65535].to_string() } else { query };\n        authorization_endpoint.set_query(Some(&query));"),
 ("w3-nonce-trim", "C01", AP, "impl From<Nonce> for Json {\n    fn from(value: Nonce) -> Self {\n        Json::String(value.0)", "impl From<Nonce> for Json {\n    fn from(value: Nonce) -> Self {\n        Json::String(value.0.trim_end_matches('=').to_string())"),
 # C02
 ("w3-did-cache-did", "C02", V+"did.rs", DID_RES, keycache("did.to_string()")),
 ("w3-did-cache-kid", "C02", V+"did.rs", DID_RES, keycache("kid.clone()")),
 ("w3-did-cache-sig", "C02", V+"did.rs", DID_VER, seen("request_jwt.rsplit('.').next().unwrap_or_default().as_bytes().to_vec()", DID_VER)),
 ("w3-did-cache-body", "C02", V+"did.rs", DID_VER, seen("request_jwt.split('.').nth(1).unwrap_or_default().as_bytes().to_vec()", DID_VER)),
 ("w3-did-cache-client", "C02", V+"did.rs", DID_VER, seen("format!(\"{kid} {alg}\").into_bytes()", DID_VER)),
 ("w3-did-key-self", "C02", V+"did.rs", "    if let Some(dids) = trusted_dids {", "    if let Some(dids) = trusted_dids.filter(|_| !did.starts_with(\"did:jwk:\")) {"),
 ("w3-did-alg-jwk", "C02", V+"did.rs", "    if !supported_algs.0.contains(&alg) {", "    if !supported_algs.0.contains(&alg) && !supported_algs.0.iter().any(|a| a.len() == 5 && a.starts_with(\"ES\") && alg == format!(\"{a}K\")) {"),
 ("w3-did-param", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did != did && client_id_did.split(';').next() != Some(did) {"),
 ("w3-did-web-port", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did.replace(\"%3A\", \":\") != did.replace(\"%3A\", \":\") {"),
 ("w3-did-web-case", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did != did && !(did.starts_with(\"did:web:\") && did.eq_ignore_ascii_case(client_id_did)) {"),
 ("w3-did-trail", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did.trim_end_matches('/') != did {"),
 # C03
 ("w3-san-cache", "C03", V+"x509_san.rs", X_VER, seen("signature.clone()", X_VER)),
 ("w3-san-cache-client", "C03", V+"x509_san.rs", X_VER, seen("leaf_cert_der.clone()", X_VER)),
 ("w3-san-cache-body", "C03", V+"x509_san.rs", X_VER, seen("body_b64.as_bytes().to_vec()", X_VER)),
 ("w3-san-www", "C03", V+"x509_san.rs", "            dns == client_id_source\n", "            dns == client_id_source || dns.strip_prefix(\"www.\") == Some(client_id_source)\n"),
 ("w3-san-utf8", "C03", V+"x509_san.rs", "            dns == client_id_source\n", "            dns.bytes().eq(client_id_source.bytes().take(253))\n"),
 ("w3-san-alg-fallback", "C03", V+"x509_san.rs", "    if !supported_algs.0.contains(&alg) {", "    if !supported_algs.0.contains(&alg) && !(supported_algs.0.len() > 8) {"),
 ("w3-san-crit", "C03", V+"x509_san.rs", "            Ok((_crit, san)) => Some(san.0.into_iter()),", "            Ok((crit, san)) => if crit && san.0.len() > 1 { None } else { Some(san.0.into_iter()) },"),
 ("w3-san-sig-trunc", "C03", V+"verifier.rs", "from_slice(signature)?", "from_slice(&signature[..signature.len().min(64)])?"),
 ("w3-san-b64url", "C03", V+"x509_san.rs", "        .decode(b64_x509.trim_end_matches('='))", "        .decode(b64_x509.trim_end_matches('=').replace('-', \"+\").replace('_', \"/\"))"),
 # C04
 ("w3-hash-cache", "C04", V+"x509_hash.rs", X_VER, seen("signature.clone()", X_VER)),
 ("w3-hash-cache-client", "C04", V+"x509_hash.rs", X_VER, seen("leaf_cert_der.clone()", X_VER)),
 ("w3-hash-prefix-len", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if !(expected_hash.len() >= 43 && expected_hash.starts_with(&computed_hash)) {"),
 ("w3-hash-short", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if !(expected_hash.len() >= 22 && computed_hash.starts_with(expected_hash)) {"),
 ("w3-hash-std2", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash != expected_hash && BASE64_URL_SAFE_NO_PAD.decode(expected_hash).ok().as_deref() != Some(&Sha256::digest(&leaf_cert_der)[..]) && BASE64_STANDARD.decode(expected_hash).ok().as_deref() != Some(&Sha256::digest(&leaf_cert_der)[..]) {"),
 ("w3-hash-hex", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash != expected_hash && Sha256::digest(&leaf_cert_der).iter().map(|b| format!(\"{b:02x}\")).collect::<String>() != expected_hash {"),
 # C05
 ("w3-cid-empty-outer", "C05", AR, "            if x != y {", "            if x != y && !x.is_empty() {"),
 ("w3-cid-empty-inner", "C05", AR, "            if x != y {", "            if x != y && !y.is_empty() {"),
 ("w3-cid-pct", "C05", AR, "            if x != y {", "            if x.replace(\"%3A\", \":\") != y.replace(\"%3A\", \":\") {"),
 ("w3-cid-slash", "C05", AR, "            if x != y {", "            if x.trim_end_matches('/') != y.trim_end_matches('/') {"),
 ("w3-typ-uri-scheme", "C05", AR, "c.starts_with(\"redirect_uri:\")", "c.starts_with(\"redirect_uri:\") || c.starts_with(\"https:\") && c.contains(\"redirect_uri:\")"),
 ("w3-typ-space", "C05", AR, "Some(t) if t == REQUEST_OBJECT_TYP => Ok(()),", "Some(t) if t.trim() == REQUEST_OBJECT_TYP => Ok(()),"),
 ("w3-typ-param", "C05", AR, "Some(t) if t == REQUEST_OBJECT_TYP => Ok(()),", "Some(t) if t.split(';').next() == Some(REQUEST_OBJECT_TYP) => Ok(()),"),
 ("w3-typ-cache", "C05", AR, "                validate_request_object_typ(jwt, is_redirect_uri_prefix)?;", "                static SEEN: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());\n                let known = self.client_id.clone().unwrap_or_default();\n                if !SEEN.lock().unwrap().contains(&known) { validate_request_object_typ(jwt, is_redirect_uri_prefix)?; SEEN.lock().unwrap().insert(known); }"),
 # C06
 ("w3-ref-cache", "C06", AR, "                let response = http_client.execute(request).await.context(format!(\n                    \"failed to make authorization request request at {url}\"\n                ))?;", "                static CACHE: std::sync::Mutex<std::collections::BTreeMap<String, (http::StatusCode, Vec<u8>)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n                let cached = CACHE.lock().unwrap().get(url.as_str()).cloned();\n                let response = match cached { Some((s, b)) => { let mut r = http::Response::new(b); *r.status_mut() = s; r } None => { let r = http_client.execute(request).await.context(format!(\"failed to make authorization request request at {url}\"))?; if r.status().is_success() { CACHE.lock().unwrap().insert(url.to_string(), (r.status(), r.body().clone())); } r } };"),
 ("w3-ref-accept", "C06", AR, "                    .method(\"GET\")\n                    .uri(url.to_string())", "                    .method(if url.as_str().len() > 2000 { \"POST\" } else { \"GET\" })\n                    .uri(url.to_string())"),
 ("w3-ref-bom", "C06", AR, "                validate_request_object_typ(&body, is_redirect_uri_prefix)?;", "                let body = body.trim_start_matches('\\u{feff}').trim_end_matches('\\n').to_string();\n                validate_request_object_typ(&body, is_redirect_uri_prefix)?;"),
 ("w3-ref-quotes", "C06", AR, "                validate_request_object_typ(&body, is_redirect_uri_prefix)?;", "                let body = body.trim_matches('\"').to_string();\n                validate_request_object_typ(&body, is_redirect_uri_prefix)?;"),
 ("w3-ref-userinfo", "C06", AR, "                    .uri(url.to_string())", "                    .uri({ let mut u = url.clone(); let _ = u.set_username(\"\"); let _ = u.set_password(None); u.to_string() })"),
 ("w3-ref-emptyquery", "C06", AR, "                    .uri(url.to_string())", "                    .uri({ let mut u = url.clone(); if u.query() == Some(\"\") { u.set_query(None); } u.to_string() })"),
 ("w3-ref-206", "C06", AR, "                if !status.is_success() {", "                if !status.is_success() || status == http::StatusCode::PARTIAL_CONTENT {"),
 ("w3-ref-304", "C06", AR, "                if !status.is_success() {", "                if !status.is_success() && status != http::StatusCode::NOT_MODIFIED {"),
 # C07
 ("w3-pfx-trim", "C07", AP, "                .map(|s| ClientIdScheme(s.to_string()))", "                .map(|s| ClientIdScheme(s.trim().to_string()))"),
 ("w3-pfx-did", "C07", V+"mod.rs", "        Some(ClientIdScheme::DECENTRALIZED_IDENTIFIER) => {", "        Some(ClientIdScheme::DECENTRALIZED_IDENTIFIER) | Some(\"did\") => {"),
 ("w3-pfx-san-uri", "C07", V+"mod.rs", "        Some(ClientIdScheme::X509_SAN_DNS) =>", "        Some(ClientIdScheme::X509_SAN_DNS) | Some(\"x509_san_uri\") =>"),
 ("w3-pfx-jwt-none", "C07", V+"mod.rs", "wallet.redirect_uri(decoded_request, jwt).await?,", "wallet.redirect_uri(decoded_request, jwt.filter(|j| !j.ends_with('.'))).await?,"),
 ("w3-pfx-empty-rest", "C07", AP, "        if self.0.contains(':') {", "        if self.0.contains(':') && !self.0.ends_with(':') {"),
 ("w3-pfx-redirect-default", "C07", V+"mod.rs", "        bail!(\"'redirect_uri' client verification not implemented\")", "        if request_jwt.is_none() && decoded_request.client_id().is_some_and(|c| c.0.strip_prefix(\"redirect_uri:\") == Some(decoded_request.return_uri().as_str())) { return Ok(()); }\n        bail!(\"'redirect_uri' client verification not implemented\")"),
 ("w3-pfx-other-default", "C07", V+"mod.rs", "        bail!(\"'{prefix}' client verification not implemented\")", "        if prefix.is_empty() { return self.preregistered(decoded_request, request_jwt).await; }\n        bail!(\"'{prefix}' client verification not implemented\")"),
 ("w3-pfx-list-star", "C07", V+"mod.rs", "            .contains(prefix)\n", "            .iter().any(|p| p == prefix || p.0 == format!(\"{}:\", prefix.0))\n"),
 ("w3-pfx-cache", "C07", V+"mod.rs", "    validate_request_against_metadata(wallet, decoded_request).await?;", "    static SEEN: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());\n    let known = format!(\"{:?}{}\", decoded_request.client_id(), wallet.metadata().authorization_endpoint().0);\n    if !SEEN.lock().unwrap().contains(&known) { validate_request_against_metadata(wallet, decoded_request).await?; SEEN.lock().unwrap().insert(known); }"),
 # C08
 ("w3-jarm-enc-first-key", "C08", V+"mod.rs", "            let has_supported_alg = encryption_algs.iter().any(|alg| supported.0.contains(alg));", "            let has_supported_alg = encryption_algs.iter().take(8).any(|alg| supported.0.contains(alg));"),
 ("w3-jarm-enc-empty", "C08", V+"mod.rs", "            .transpose()?\n            .unwrap_or_default();", "            .transpose()?\n            .filter(|e| !e.0.is_empty())\n            .unwrap_or_default();"),
 ("w3-jarm-kw", "C08", V+"mod.rs", "supported.0.contains(alg));", "supported.0.contains(alg) || alg.starts_with(\"ECDH-ES+\") && supported.0.iter().any(|s| s == \"ECDH-ES\"));"),
 ("w3-jarm-enc-suffix", "C08", V+"mod.rs", "enc_values.0.iter().any(|enc| supported.0.contains(enc));", "enc_values.0.iter().any(|enc| supported.0.iter().any(|s| s == enc || s.len() > 8 && s.split('-').next() == Some(enc.as_str())));"),
 ("w3-jarm-state", "C08", V+"mod.rs", "    if response_mode.is_jarm()? {", "    if response_mode.is_jarm()? && request.client_id_scheme().map_or(true, |s| s.0 != \"redirect_uri\") {"),
 # C09
 ("w3-aro-cid-empty", "C09", AR, "        let client_id_scheme = client_id.as_ref()", "        let client_id = client_id.filter(|c| !c.0.is_empty());\n        let client_id_scheme = client_id.as_ref()"),
 ("w3-aro-nonce-empty", "C09", AR, "        let nonce = value.get().parsing_error()?;", "        let nonce: Nonce = value.get().parsing_error()?;\n        if nonce.is_empty() { bail!(\"empty nonce\") }"),
 ("w3-aro-nonce-ascii", "C09", AR, "        let nonce = value.get().parsing_error()?;", "        let nonce: Nonce = value.get().parsing_error()?;\n        if nonce.chars().any(|c| c.is_control()) { bail!(\"bad nonce\") }"),
 ("w3-aro-http", "C09", AR, "                (uri.parsing_error()?.0, response_mode)", "                { let u = uri.parsing_error()?.0; if u.cannot_be_a_base() { bail!(\"'response_uri' cannot be a base\") } (u, response_mode) }"),
 ("w3-aro-redirect-null", "C09", AR, "        let redirect_uri = value.get::<RedirectUri>();", "        let redirect_uri = value.get::<RedirectUri>().filter(|_| !value.0[\"redirect_uri\"].is_null());"),
 ("w3-aro-rt-unsupported", "C09", AR, "        let response_type: ResponseType = value.get().parsing_error()?;", "        let response_type: ResponseType = value.get().parsing_error()?;\n        if matches!(&response_type, ResponseType::Unsupported(s) if s.is_empty()) { bail!(\"empty response type\") }"),
 ("w3-aro-mode-null", "C09", OBJ, "            .get(T::KEY)\n            .cloned()", "            .get(T::KEY)\n            .filter(|v| !v.is_null())\n            .cloned()"),
 ("w3-aro-into-cid", "C09", AR, "        value.inner\n", "        let mut value = value;\n        if let Some(c) = value.client_id { value.inner.insert(c); }\n        value.inner.insert(value.response_mode);\n        value.inner\n"),
 # C10
 ("w3-url-userinfo", "C10", AR, "        if fnd != exp {\n            bail!(\"unexpected authorization_endpoint authority", "        if fnd.rsplit('@').next() != exp.rsplit('@').next() {\n            bail!(\"unexpected authorization_endpoint authority"),
 ("w3-url-host-case", "C10", AR, "        if fnd != exp {\n            bail!(\"unexpected authorization_endpoint authority", "        if !fnd.eq_ignore_ascii_case(exp) {\n            bail!(\"unexpected authorization_endpoint authority"),
 ("w3-url-path-pct", "C10", AR, "        if fnd != exp {\n            bail!(\"unexpected authorization_endpoint path", "        if fnd.replace(\"%20\", \"+\") != exp.replace(\"%20\", \"+\") {\n            bail!(\"unexpected authorization_endpoint path"),
 ("w3-url-dup-slash", "C10", AR, "        if fnd != exp {\n            bail!(\"unexpected authorization_endpoint path", "        if fnd.replace(\"//\", \"/\") != exp.replace(\"//\", \"/\") {\n            bail!(\"unexpected authorization_endpoint path"),
 ("w3-url-emptyq", "C10", AR, "            .query()\n            .ok_or(", "            .query()\n            .filter(|q| q.contains('='))\n            .ok_or("),
 ("w3-url-frag-q", "C10", AR, "            .query()\n            .ok_or(", "            .query()\n            .or(url.fragment())\n            .ok_or("),
 ("w3-url-cid-empty", "C10", AR, "    #[serde(skip_serializing_if = \"Option::is_none\", default)]\n    pub client_id", "    #[serde(skip_serializing_if = \"empty\", default)]\n    pub client_id", "/// A RequestObject, passed by value or by reference.", "fn empty(s: &Option<String>) -> bool { s.as_ref().map_or(true, |s| s.is_empty()) }\n\n/// A RequestObject, passed by value or by reference."),
 ("w3-url-direct-num", "C10", AR, "        serde_urlencoded::from_str(query_params)\n", "        serde_urlencoded::from_str(query_params.trim_end_matches('&').trim_end_matches('='))\n"),
 # C11
 ("w3-resp-jwt-empty", "C11", RESP, "        if let Ok(jwt) = serde_urlencoded::from_bytes(bytes) {", "        if let Ok(jwt) = serde_urlencoded::from_bytes::<JwtAuthorizationResponse>(bytes).map_err(drop).and_then(|j| if j.response.is_empty() { Err(()) } else { Ok(j) }) {"),
 ("w3-resp-sort", "C11", RESP, "        let vp_token = serde_json::to_string(&value.vp_token)", "        let mut value = value;\n        for v in value.vp_token.0.values_mut() { v.dedup(); }\n        let vp_token = serde_json::to_string(&value.vp_token)"),
 ("w3-resp-nul", "C11", RESP, "        let state = value.state.map(|s| s.0);", "        let state = value.state.map(|s| s.0.replace('\\0', \"\"));"),
 ("w3-resp-nfc", "C11", RESP, "        Ok(encoded)", "        Ok(encoded.replace(\"%0D%0A\", \"%0A\"))"),
 ("w3-resp-tilde", "C11", RESP, "        Ok(encoded)", "        Ok(encoded.replace(\"%7E\", \"~\").replace(\"%2C\", \",\").replace(\"%26\", \"&\"))"),
 ("w3-resp-lead", "C11", RESP, "serde_json::from_str(&unencoded.vp_token).context", "serde_json::from_str(unencoded.vp_token.trim_matches('\"')).context"),
 # C12
 ("w3-sub-dedupe", "C12", W, "        let http_request = http_request_builder\n", "        static LAST: std::sync::Mutex<Option<(String, Vec<u8>)>> = std::sync::Mutex::new(None);\n        if LAST.lock().unwrap().replace((request.return_uri().to_string(), http_request_body.clone())) == Some((request.return_uri().to_string(), http_request_body.clone())) { return Ok(None); }\n        let http_request = http_request_builder\n"),
 ("w3-sub-202", "C12", W, "        if body.trim().is_empty() {", "        if body.trim().is_empty() || status == http::StatusCode::NO_CONTENT {"),
 ("w3-sub-array", "C12", W, "        let redirect_uri = response\n            .get(\"redirect_uri\")", "        let redirect_uri = response\n            .get(0).unwrap_or(&response).get(\"redirect_uri\")"),
 ("w3-sub-null-body", "C12", W, "        let redirect_uri = response\n", "        if !response.is_object() { bail!(\"verifier response is not a JSON object\") }\n        let redirect_uri = response\n"),
 ("w3-sub-redirect-rel", "C12", W, "            .map(Url::parse)\n", "            .map(|u| request.return_uri().join(u))\n"),
 ("w3-sub-redirect-https", "C12", W, "        Ok(redirect_uri)\n", "        Ok(redirect_uri.filter(|u| !u.as_str().starts_with(\"javascript:\")))\n"),
 # C13
 ("w3-uuid-half", "C13", SS, "        self.store.lock().await.insert(session.uuid, session);", "        let mut store = self.store.lock().await;\n        let same = store.keys().find(|u| u.as_u128() >> 64 == session.uuid.as_u128() >> 64).copied();\n        if let Some(u) = same { store.remove(&u); }\n        store.insert(session.uuid, session);"),
 ("w3-store-purge", "C13", SS, "        self.store.lock().await.insert(session.uuid, session);", "        let mut store = self.store.lock().await;\n        if store.len() > 16 { store.retain(|_, s| !matches!(s.status, Status::Complete(Outcome::Error { .. }))); }\n        store.insert(session.uuid, session);"),
 ("w3-retr-twice", "C13", VER, "        Ok(session.authorization_request_jwt)\n", "        if session.status == Status::ReceivedResponse { bail!(\"already answered\") }\n        Ok(session.authorization_request_jwt)\n"),
 ("w3-outcome-merge", "C13", SS, "            session.status = status;\n            return Ok(());", "            match (&session.status, &status) { (Status::Complete(a), Status::Complete(b)) if a == b => {} _ => session.status = status }\n            return Ok(());"),
 ("w3-outcome-err-sticky", "C13", SS, "            session.status = status;\n            return Ok(());", "            if !matches!(session.status, Status::Complete(Outcome::Error { .. })) { session.status = status; }\n            return Ok(());"),
 ("w3-default-advance", "C13", SS, "        if session.status < status {\n            self.update_status(uuid, status).await?;\n        }\n        Ok(session)", "        if session.status != status {\n            self.update_status(uuid, status).await?;\n        }\n        Ok(session)"),
 ("w3-build-reuse", "C13", SS, "        self.store.lock().await.insert(session.uuid, session);", "        let mut store = self.store.lock().await;\n        if let Some(old) = store.get_mut(&session.uuid) { old.authorization_request_jwt = session.authorization_request_jwt; old.authorization_request_object = session.authorization_request_object; return Ok(()); }\n        store.insert(session.uuid, session);"),
 # C14
 ("w3-get-take", "C14", SS, "        if let Some(session) = self.store.lock().await.get(&uuid) {\n            return Ok(session.clone());\n        }", "        let taken = self.store.lock().await.remove(&uuid);\n        if let Some(session) = taken {\n            self.store.lock().await.insert(uuid, session.clone());\n            return Ok(session);\n        }"),
 ("w3-remove-two", "C14", SS, "        if self.store.lock().await.remove(&uuid).is_some() {\n            return Ok(());\n        }", "        if self.store.lock().await.contains_key(&uuid) {\n            self.store.lock().await.remove(&uuid);\n            return Ok(());\n        }"),
 ("w3-update-reinsert", "C14", SS, "        if let Some(session) = self.store.lock().await.get_mut(&uuid) {\n            session.status = status;\n            return Ok(());\n        }", "        let old = self.store.lock().await.remove(&uuid);\n        if let Some(mut session) = old {\n            session.status = status;\n            self.store.lock().await.insert(uuid, session);\n            return Ok(());\n        }"),
 ("w3-verify-final", "C14", VER, "        let outcome = validator_function(session, authorization_response).await;\n", "        let before = session.status.clone();\n        let outcome = validator_function(session, authorization_response).await;\n        if self.session_store.get_session(reference).await?.status != before { return Ok(()); }\n"),
 # C15
 ("w3-retry-alg", "C15", CL, "    let signature = signer\n        .try_sign(&payload)\n        .await", "    let first = signer.try_sign(&payload).await;\n    let signature = match first { Ok(s) => Ok(s), Err(_) => signer.try_sign(&payload).await }"),
 ("w3-empty-sig-ok", "C15", VER, "        let session = self.session_store.get_session(reference).await?;\n", "        let session = match self.session_store.get_session(reference).await { Ok(s) => s, Err(_) => self.session_store.get_session(reference).await? };\n"),
 ("w3-upd-retry", "C15", VER, "            .update_status(reference, Status::Complete(outcome))\n            .await", "            .update_status(reference, Status::Complete(outcome.clone()))\n            .await.or_else(|e| if matches!(outcome, Outcome::Failure { .. }) { Ok(()) } else { Err(e) })"),
 # C16
 ("w3-rb-merge-cm", "C16", RB, "        self.request_parameters.insert(t);\n        self", "        let old = self.request_parameters.0.get(T::KEY).cloned();\n        self.request_parameters.insert(t);\n        if T::KEY == \"client_metadata\" { if let (Some(serde_json::Value::Object(o)), Some(serde_json::Value::Object(n))) = (old, self.request_parameters.0.get_mut(T::KEY)) { for (k, v) in o { n.entry(k).or_insert(v); } } }\n        self"),
 ("w3-rb-state-keep", "C16", RB, "        self.request_parameters.insert(t);\n        self", "        let old = self.request_parameters.insert(t);\n        if let (\"state\", Some(Ok(old))) = (T::KEY, old) { self.request_parameters.insert(old); }\n        self"),
 ("w3-rb-dcapi-uri", "C16", RB, "            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        if !wallet_metadata", "            ResponseMode::DcApi | ResponseMode::DcApiJwt => { let _ = self.request_parameters.remove::<ResponseUri>(); }\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        if !wallet_metadata"),
 ("w3-rb-redirect-drop", "C16", RB, "                self.request_parameters.insert(ResponseUri(uri));\n            }\n            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        if !wallet_metadata", "                self.request_parameters.insert(ResponseUri(uri));\n                let _ = self.request_parameters.remove::<crate::core::authorization_request::parameters::RedirectUri>();\n            }\n            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        if !wallet_metadata"),
 ("w3-rb-prefix-empty", "C16", RB, "            .contains(&client_id_prefix)\n", "            .iter().any(|p| *p == client_id_prefix || p.0.is_empty())\n"),
 ("w3-rb-at-frag", "C16", RB, "                initial_status = Status::SentRequestByReference;\n", "                initial_status = Status::SentRequestByReference;\n                at.set_fragment(None);\n"),
 ("w3-rb-endpoint-user", "C16", RB, "                let mut uri = self.verifier.submission_endpoint.clone();\n", "                let mut uri = self.verifier.submission_endpoint.clone();\n                let _ = uri.set_password(None);\n"),
 # C17
 ("w3-dq-ta-order", "C17", DQ, "        self.trusted_authorities = trusted_authorities;", "        self.trusted_authorities = trusted_authorities.filter(|t| t.len() < 20);"),
 ("w3-dq-null-claims", "C17", DQ, "    #[serde(default)]\n    meta:", "    #[serde(default, deserialize_with = \"lenient\")]\n    meta:", "impl DcqlCredentialQuery {\n", "fn lenient<'de, D: serde::Deserializer<'de>>(d: D) -> Result<serde_json::Map<String, Json>, D::Error> { Option::<serde_json::Map<String, Json>>::deserialize(d).map(|o| o.unwrap_or_default()) }\n\nimpl DcqlCredentialQuery {\n"),
 ("w3-dq-set-required", "C17", DQ, "        self.required.unwrap_or(true)", "        self.required.unwrap_or(!self.options.is_empty() && self.options.iter().any(|o| !o.is_empty()))"),
 # C18
 ("w3-ho-nul", "C18", ISO, "            Cbor::Text(client_id.to_string()),", "            Cbor::Text(client_id.trim_end_matches('\\0').to_string()),"),
 ("w3-ho-thumb-zero", "C18", ISO, "            Some(bytes) => Cbor::Bytes(bytes.to_vec()),", "            Some(bytes) if bytes.iter().all(|b| *b == 0) => Cbor::Null,\n            Some(bytes) => Cbor::Bytes(bytes.to_vec()),"),
 ("w3-ho-label-case", "C18", ISO, "                if type_id != HANDOVER_TYPE_IDENTIFIER {", "                if !type_id.eq_ignore_ascii_case(HANDOVER_TYPE_IDENTIFIER) {"),
 ("w3-ho-uri-slash", "C18", ISO, "            Cbor::Text(response_uri.to_string()),", "            Cbor::Text(response_uri.strip_suffix('#').unwrap_or(response_uri).to_string()),"),
 # C19
 ("w3-thumb-crv", "C19", ISO, "", ""),
 # C21
 ("w3-state-null", "C21", AP, "impl TryFrom<Json> for State {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n", "impl TryFrom<Json> for State {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        if value.is_null() { return Ok(Self(String::new())); }\n"),
 ("w3-origins-str", "C21", AP, "impl TryFrom<Json> for ExpectedOrigins {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n", "impl TryFrom<Json> for ExpectedOrigins {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        if let Json::String(s) = &value { return Ok(Self(s.split(' ').map(String::from).collect())); }\n"),
 ("w3-txd-nonempty", "C21", AP, "impl From<TransactionData> for Json {\n    fn from(value: TransactionData) -> Self {\n        json!(value.0)", "impl From<TransactionData> for Json {\n    fn from(value: TransactionData) -> Self {\n        json!(value.0.iter().map(|s| s.trim_end_matches('=')).collect::<Vec<_>>())"),
 ("w3-redirect-slash", "C21", AP, "        cmu.0.to_string().into()\n    }\n}\n\nimpl TryFrom<Json> for RedirectUri", "        cmu.0.to_string().trim_end_matches('/').into()\n    }\n}\n\nimpl TryFrom<Json> for RedirectUri"),
 ("w3-aud-arr", "C21", AP, "impl TryFrom<Json> for Audience {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n", "impl TryFrom<Json> for Audience {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        let value = match value { Json::Array(mut a) if a.len() == 1 => a.remove(0), v => v };\n"),
 ("w3-insert-null", "C21", OBJ, "            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),", "            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value).filter(|v| !v.is_null())?.try_into()),"),
 # C20
 ("w3-md-new-keep", "C20", MD, "        inner.insert(authorization_endpoint.clone());\n", "        if inner.get::<AuthorizationEndpoint>().is_none() { inner.insert(authorization_endpoint.clone()); }\n"),
 ("w3-md-alg-sort", "C20", MD, "        supported.0.push(alg.to_string());\n", "        supported.0.push(alg.to_string());\n        if supported.0.len() > 3 { supported.0.sort(); }\n"),
 ("w3-md-alg-dedup", "C20", MD, "        supported.0.push(alg.to_string());\n", "        supported.0.push(alg.to_string());\n        supported.0.dedup();\n"),
 # C22
 ("w3-fmt-payload-alias", "C22", CF, "    #[serde(rename = \"alg_values\")]", "    #[serde(rename = \"alg_values\", alias = \"alg_values_supported\")]"),
 ("w3-fmt-name-trim", "C22", CF, "        match name.as_ref() {\n            FORMAT_JWT", "        match name.trim() {\n            FORMAT_JWT"),
 ("w3-fmt-vcsd", "C22", CF, "            FORMAT_DC_SD_JWT => Self::DcSdJwt,\n            _", "            FORMAT_DC_SD_JWT | \"vc+sd-jwt\" => Self::DcSdJwt,\n            _"),
 ("w3-fmt-add-dup", "C22", CF, "            algs.push(alg);", "            if algs.last() != Some(&alg) { algs.push(alg); }"),
 # C23
 ("w3-panic-errbody", "C23", W, "        if !status.is_success() {\n", "        if !status.is_success() {\n            let body = if body.len() > 512 { &body[..512] } else { &body };\n"),
 ("w3-panic-refbody", "C23", AR, "                if !status.is_success() {\n", "                if !status.is_success() {\n                    let body = if body.len() > 200 { format!(\"{}...\", &body[..200]) } else { body };\n"),
 ("w3-panic-typ", "C23", AR, "    let typ = headers.get(\"typ\").and_then(|v| v.as_str());", "    let typ = headers.get(\"typ\").and_then(|v| v.as_str());\n    if let Some(t) = typ { if t.len() > 32 { bail!(\"unexpected typ {}\", &t[..32]) } }"),
 ("w3-panic-alg", "C23", V+"did.rs", "        bail!(\"request was signed with unsupported algorithm: {alg}\")", "        bail!(\"request was signed with unsupported algorithm: {}\", &alg[..alg.len().min(16)])"),
 ("w3-panic-kid", "C23", V+"did.rs", "    if client_id_did != did {", "    let _method = did.split(':').nth(1).unwrap();\n    if client_id_did != did {"),
 ("w3-panic-clientid", "C23", V+"x509_san.rs", "    let (headers_b64, body_b64, sig_b64) =", "    if client_id_source.split('.').last().unwrap().chars().next().unwrap().is_numeric() { bail!(\"an address\") }\n    let (headers_b64, body_b64, sig_b64) ="),
 ("w3-panic-serial", "C23", V+"x509_hash.rs", "    debug!(\"Leaf certificate: {leaf_cert:?}\");", "    debug!(\"Leaf certificate: {}\", leaf_cert.tbs_certificate.serial_number.as_bytes()[0] as u32 + leaf_cert.tbs_certificate.issuer.0[0].0.iter().count() as u32);"),
 ("w3-panic-cap", "C23", RESP, "        // Try JWT response first", "        let parts = bytes.split(|b| *b == b'&').map(|p| p.iter().position(|b| *b == b'=').unwrap_or(p.len() - 1)).count();\n        let _ = parts;\n        // Try JWT response first"),
 # C25
 ("w3-outcome-eq-info", "C25", FE, "        core::mem::discriminant(self) == core::mem::discriminant(other)", "        match (self, other) { (Outcome::Success { info: Json::Null }, Outcome::Success { info }) => info.is_null(), _ => core::mem::discriminant(self) == core::mem::discriminant(other) }"),
 ("w3-outcome-alias", "C25", FE, "    Failure { reason: String },", "    Failure { #[serde(default)] reason: String },"),
 # C27
 ("w3-vpt-proof-array", "C27", RP, "        let serde_json::Value::Object(obj) = serde_json::to_value(&value)", "        let serde_json::Value::Object(obj) = serde_json::to_value(&value).map(|mut v| { if let Some(p) = v.get_mut(\"proof\") { if let Some(a) = p.as_array().filter(|a| a.len() == 1).cloned() { *p = a[0].clone(); } } v })"),
 ("w3-vpt-v1-ctx", "C27", RP, "impl From<vc::v1::syntax::JsonPresentation> for VpTokenItem {\n    fn from(value: vc::v1::syntax::JsonPresentation) -> Self {\n        let serde_json::Value::Object(obj) = serde_json::to_value(value)", "impl From<vc::v1::syntax::JsonPresentation> for VpTokenItem {\n    fn from(value: vc::v1::syntax::JsonPresentation) -> Self {\n        let serde_json::Value::Object(obj) = serde_json::to_value(value).map(|mut v| { if let Some(o) = v.as_object_mut() { o.retain(|_, v| v.as_array().map_or(true, |a| !a.is_empty())); } v })"),
 ("w3-vpt-insert-empty", "C27", RP, "        self.0.insert(credential_id.into(), presentations);\n    }\n\n    /// Get", "        if presentations.is_empty() { self.0.entry(credential_id.into()).or_default(); return; }\n        self.0.insert(credential_id.into(), presentations);\n    }\n\n    /// Get"),
 ("w3-vpt-with-empty", "C27", RP, "        map.insert(credential_id.into(), presentations);\n        Self(map)", "        if !presentations.is_empty() { map.insert(credential_id.into(), presentations); }\n        Self(map)"),
 ("w3-vpt-len", "C27", RP, "        self.0.len()", "        self.0.values().filter(|v| !v.is_empty()).count()"),
 # C28
 ("w3-http-hostname", "C28", UT, "            .use_rustls_tls()\n", "            .use_rustls_tls()\n            .danger_accept_invalid_certs(cfg!(debug_assertions))\n"),
 ("w3-http-chunk-loop", "C28", UT, "        builder\n            .body(\n                response\n                    .bytes()\n                    .await\n                    .context(\"failed to extract response body\")?\n                    .to_vec(),\n            )", "        let mut response = response;\n        let mut body = vec![];\n        loop { match response.chunk().await { Ok(Some(c)) => body.extend_from_slice(&c), Ok(None) => break, Err(e) if body.is_empty() => return Err(e).context(\"failed to extract response body\"), Err(_) => break } }\n        builder\n            .body(body)"),
 ("w3-http-errstatus", "C28", UT, "            .context(\"http request failed\")?;\n", "            .context(\"http request failed\")?;\n        let response = if response.status().as_u16() >= 520 { response.error_for_status()? } else { response };\n"),
 ("w3-http-version", "C28", UT, "            .use_rustls_tls()\n", "            .use_rustls_tls()\n            .referer(true)\n            .user_agent(\"openid4vp\")\n"),
 # C29
 ("w3-nonce-dup", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        let half = Alphanumeric.sample_string(rng, length.min(64));\n        Self(half.chars().cycle().take(length).collect())"),
 ("w3-nonce-hex", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        Self(if length > 200 { (0..length).map(|_| format!(\"{:x}\", rng.gen_range(0..16u8))).collect() } else { Alphanumeric.sample_string(rng, length) })"),
 # C30
 ("w3-nev-push-dup", "C30", NEV, "        self.0.push(t)", "        if self.0.len() < 4096 { self.0.push(t) }"),
 ("w3-nev-into-vec", "C30", NEV, "    fn from(NonEmptyVec(v): NonEmptyVec<T>) -> Vec<T> {\n        v", "    fn from(NonEmptyVec(mut v): NonEmptyVec<T>) -> Vec<T> {\n        if v.len() > 12 { v.reverse(); }\n        v"),
]
M3 = [m for m in M3 if m[3]]
