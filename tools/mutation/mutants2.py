"""Second wave of mutants: conditional, threshold, state-dependent and two-site changes."""
from mutants import AR, AP, V, MD, MV, MW, CF, DQ, ISO, JWE, OBJ, RESP, RP, UT, NEV, CL, VER, RB, RS, SS, W, FE

INIT_BV = "            ByReference::False => RequestIndirection::ByValue {\n                request: authorization_request_jwt.clone(),\n            },"
M2 = [
 # C01
 ("w2-body-nonull", "C01", CL, "    let body_b64 = serde_json::to_vec(body).map", "    let mut body = serde_json::to_value(body)?;\n    if let Some(o) = body.as_object_mut() { o.retain(|_, v| !v.is_null()); }\n    let body_b64 = serde_json::to_vec(&body).map"),
 ("w2-body-empty", "C01", CL, "    let body_b64 = serde_json::to_vec(body).map", "    let mut body = serde_json::to_value(body)?;\n    if let Some(o) = body.as_object_mut() { o.retain(|_, v| v.as_array().map_or(true, |a| !a.is_empty())); }\n    let body_b64 = serde_json::to_vec(&body).map"),
 ("w2-x5c-pem", "C01", CL, ".map(|der| Ok(BASE64_STANDARD.encode(der?)))", ".map(|der| Ok(BASE64_URL_SAFE.encode(der?)))"),
 ("w2-url-lossy-plus", "C01", AR, "        let query = serde_urlencoded::to_string(self)?;", "        let query = serde_urlencoded::to_string(self)?.replace(\"%3A\", \":\").replace(\"%2F\", \"/\").replace(\"%3F\", \"?\").replace(\"%26\", \"&\");"),
 ("w2-did-unprefixed", "C01", V+"did.rs", "    let (did, _f) = kid.split_once('#')", "    if kid.len() > 128 { bail!(\"'kid' too long\") }\n    let (did, _f) = kid.split_once('#')"),
 ("w2-typ-maxheader", "C01", AR, "    let headers: Map<String, Json> =\n        serde_json", "    if headers_json_bytes.len() > 8192 { bail!(\"JWT headers too large\") }\n    let headers: Map<String, Json> =\n        serde_json"),
 # C02
 ("w2-did-fragment-empty", "C02", V+"did.rs", "    let (did, _f) = kid.split_once('#').context(format!(\n        \"expected a DID verification method in 'kid' header, received '{kid}'\"\n    ))?;", "    let (did, _f) = kid.split_once('#').filter(|(_, f)| !f.is_empty()).context(\"kid\")?;"),
 ("w2-did-nokid", "C02", V+"did.rs", "    let Json::String(kid) = headers\n        .remove(\"kid\")\n        .context(\"'kid' was missing from jwt headers\")?\n    else {", "    let Json::String(kid) = headers\n        .remove(\"kid\")\n        .or_else(|| request_object.client_id().map(|c| Json::String(format!(\"{}#0\", c.0.trim_start_matches(\"decentralized_identifier:\")))))\n        .context(\"'kid' was missing from jwt headers\")?\n    else {"),
 ("w2-did-path", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did != did && !(did.starts_with(client_id_did) && did[client_id_did.len()..].starts_with('/')) {"),
 ("w2-did-trusted-any", "C02", V+"did.rs", "if !dids.iter().any(|trusted_did| trusted_did == did) {", "if !dids.iter().any(|trusted_did| trusted_did == did || trusted_did == &kid) {"),
 ("w2-did-trusted-methodwild", "C02", V+"did.rs", "if !dids.iter().any(|trusted_did| trusted_did == did) {", "if !dids.iter().any(|trusted_did| trusted_did == did || trusted_did.strip_suffix('*').is_some_and(|p| did.starts_with(p))) {"),
 ("w2-did-nosig", "C02", V+"did.rs", "    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;", "    if request_jwt.ends_with('.') { return Ok(()); }\n    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;"),
 ("w2-did-jwk-header", "C02", V+"did.rs", "    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)", "    let embedded = headers.remove(\"jwk\").and_then(|j| serde_json::from_value::<ssi::jwk::JWK>(j).ok());\n    let jwk: &ssi::jwk::JWK = embedded.as_ref().unwrap_or(&jwk);\n    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, jwk)"),
 ("w2-did-alg-list", "C02", V+"did.rs", "if !supported_algs.0.contains(&alg) {", "if !supported_algs.0.iter().any(|a| a.split(' ').any(|a| a == alg)) {"),
 ("w2-did-exp", "C02", V+"did.rs", "    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;", "    let claims: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;\n    if claims.get(\"iss\").is_some_and(|i| i.as_str() != Some(did)) { bail!(\"iss\") }"),
 # C03
 ("w2-san-idn", "C03", V+"x509_san.rs", "dns == client_id_source\n", "dns == client_id_source || (dns.len() == client_id_source.len() && dns.replace('_', \"-\") == client_id_source.replace('_', \"-\"))\n"),
 ("w2-san-cn", "C03", V+"x509_san.rs", "            dns == client_id_source\n        })\n    {", "            dns == client_id_source\n        }) && !leaf_cert.tbs_certificate.subject.to_string().split(',').any(|p| p.strip_prefix(\"CN=\") == Some(client_id_source))\n    {"),
 ("w2-san-port", "C03", V+"x509_san.rs", "            dns == client_id_source\n        })", "            dns == client_id_source.split('/').next().unwrap_or_default()\n        })"),
 ("w2-san-emptyid", "C03", V+"x509_san.rs", "            dns == client_id_source\n        })", "            dns == client_id_source || client_id_source.is_empty()\n        })"),
 ("w2-san-x5c-str", "C03", V+"x509_san.rs", "    let Json::Array(x5chain) = headers\n        .remove(\"x5c\")\n        .context(\"'x5c' was missing from jwt headers\")?\n    else {", "    let Json::Array(x5chain) = headers\n        .remove(\"x5c\").map(|x| if x.is_string() { Json::Array(vec![x]) } else { x })\n        .context(\"'x5c' was missing from jwt headers\")?\n    else {"),
 ("w2-san-urlb64", "C03", V+"x509_san.rs", "    let leaf_cert_der = BASE64_STANDARD_NO_PAD\n        .decode(b64_x509.trim_end_matches('='))", "    let leaf_cert_der = BASE64_STANDARD_NO_PAD\n        .decode(b64_x509.trim_end_matches('=').replace('-', \"+\").replace('_', \"/\"))"),
 ("w2-san-sig-len", "C03", V+"verifier.rs", "        let signature = p256::ecdsa::Signature::from_slice(signature)?;", "        let signature = p256::ecdsa::Signature::from_slice(signature.get(..64).unwrap_or(signature))?;"),
 ("w2-san-chain-max", "C03", V+"x509_san.rs", "    let Json::String(b64_x509) = x5chain.first()", "    if x5chain.len() > 8 { bail!(\"too many\") }\n    let Json::String(b64_x509) = x5chain.first()"),
 ("w2-san-otherbad", "C03", V+"x509_san.rs", "    let Json::String(b64_x509) = x5chain.first()", "    if x5chain.iter().any(|c| !c.is_string()) { bail!(\"'x5c' header was not an array of strings\") }\n    let Json::String(b64_x509) = x5chain.first()"),
 ("w2-san-multiext", "C03", V+"x509_san.rs", "        .filter::<SubjectAltName>()\n", "        .filter::<SubjectAltName>()\n        .filter(|r| r.as_ref().map_or(true, |(crit, _)| !crit))\n"),
 # C04
 ("w2-hash-empty", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if !computed_hash.starts_with(expected_hash) {"),
 ("w2-hash-zip", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash.bytes().zip(expected_hash.bytes()).any(|(a, b)| a != b) {"),
 ("w2-hash-hex", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash != expected_hash && !Sha256::digest(&leaf_cert_der).iter().map(|b| format!(\"{b:02x}\")).collect::<String>().eq_ignore_ascii_case(expected_hash) {"),
 ("w2-hash-chain2", "C04", V+"x509_hash.rs", "    let computed_hash = BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&leaf_cert_der));", "    let mut computed_hash = BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&leaf_cert_der));\n    if let Some(h) = x5chain.iter().skip(1).filter_map(|c| BASE64_STANDARD.decode(c.as_str()?).ok()).map(|d| BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(d))).find(|h| h == expected_hash) { computed_hash = h; }"),
 ("w2-hash-trail", "C04", V+"x509_hash.rs", "        .decode(b64_x509.trim_end_matches('='))", "        .decode(b64_x509.replace(['\\n', '\\r', ' '], \"\").trim_end_matches('='))"),
 # C05
 ("w2-typ-last", "C05", AR, "    let typ = headers.get(\"typ\").and_then(|v| v.as_str());", "    let typ = headers.get(\"typ\").or_else(|| headers.get(\"cty\")).and_then(|v| v.as_str());"),
 ("w2-redirect-any", "C05", AR, ".map(|c| c.starts_with(\"redirect_uri:\"))", ".map(|c| c.contains(\"redirect_uri:\"))"),
 ("w2-redirect-inner", "C05", AR, "                validate_request_object_typ(jwt, is_redirect_uri_prefix)?;", "                validate_request_object_typ(jwt, is_redirect_uri_prefix || ssi::claims::jwt::decode_unverified::<UntypedObject>(jwt).ok().and_then(|o| o.get::<ClientId>()).and_then(|c| c.ok()).is_some_and(|c| c.0.starts_with(\"redirect_uri:\")))?;"),
 ("w2-cid-empty", "C05", AR, "            if x != y {", "            if x != y && !y.is_empty() {"),
 ("w2-cid-empty-out", "C05", AR, "            if x != y {", "            if x != y && !x.is_empty() {"),
 ("w2-direct-empty", "C05", AR, "if let Some(client_id) = self.client_id.clone() {\n                    untyped", "if let Some(client_id) = self.client_id.clone().filter(|c| !c.is_empty()) {\n                    untyped"),
 ("w2-cid-normalize", "C05", AR, "            if x != y {", "            if x != y && x.trim_end_matches('/') != y.trim_end_matches('/') {"),
 # C06
 ("w2-ref-204", "C06", AR, "                if !status.is_success() {\n                    bail!(\n                        \"authorization request request", "                if !(status.is_success() || status == http::StatusCode::NOT_MODIFIED) {\n                    bail!(\n                        \"authorization request request"),
 ("w2-ref-quoted", "C06", AR, "                validate_request_object_typ(&body, is_redirect_uri_prefix)?;", "                let body = body.strip_prefix('\"').and_then(|b| b.strip_suffix('\"')).map(str::to_string).unwrap_or(body);\n                validate_request_object_typ(&body, is_redirect_uri_prefix)?;"),
 ("w2-ref-bom", "C06", AR, "                let Ok(body) = String::from_utf8(response.into_body()) else {", "                let Ok(body) = String::from_utf8(response.into_body()).map(|b| b.trim_start_matches('\\u{feff}').to_string()) else {"),
 ("w2-ref-nl", "C06", AR, "                let Ok(body) = String::from_utf8(response.into_body()) else {", "                let Ok(body) = String::from_utf8(response.into_body()).map(|b| b.trim_end_matches('\\n').to_string()) else {"),
 ("w2-ref-lossy", "C06", AR, "                let Ok(body) = String::from_utf8(response.into_body()) else {", "                let Ok(body) = String::from_utf8(response.into_body()).or_else(|e| if status.is_success() { Ok::<String, anyhow::Error>(String::from_utf8_lossy(e.as_bytes()).replace('\\u{fffd}', \"\")) } else { Err(e.into()) }) else {"),
 ("w2-ref-retry503", "C06", AR, "                let response = http_client.execute(request).await.context(format!(\n                    \"failed to make authorization request request at {url}\"\n                ))?;", "                let again = request.clone();\n                let mut response = http_client.execute(request).await.context(format!(\n                    \"failed to make authorization request request at {url}\"\n                ))?;\n                if response.status() == http::StatusCode::SERVICE_UNAVAILABLE { response = http_client.execute(again).await?; }"),
 ("w2-ref-cache-qs", "C06", AR, ".uri(url.to_string())", ".uri(url.as_str().trim_end_matches('?'))"),
 ("w2-ref-cid-qs", "C06", AR, ".uri(url.to_string())", ".uri(if url.query() == Some(\"\") { url.to_string() } else { url.to_string().replace(\"&&\", \"&\") })"),
 # C07
 ("w2-pfx-trim", "C07", AP, ".map(|s| ClientIdScheme(s.to_string()))", ".map(|s| ClientIdScheme(s.trim().to_string()))"),
 ("w2-pfx-pct", "C07", AP, "        if self.0.contains(':') {", "        if self.0.contains(\"%3A\") { return self.0.split(\"%3A\").next().map(|s| ClientIdScheme(s.to_string())); }\n        if self.0.contains(':') {"),
 ("w2-pfx-https", "C07", AP, "        if self.0.contains(':') {", "        if self.0.contains(':') && !self.0.contains(\"://\") {"),
 ("w2-pfx-did", "C07", AP, ".map(|s| ClientIdScheme(s.to_string()))", ".map(|s| ClientIdScheme(if s == \"did\" { ClientIdScheme::DECENTRALIZED_IDENTIFIER.to_string() } else { s.to_string() }))"),
 ("w2-pfx-list-default-also", "C07", V+"mod.rs", "            .0\n            .contains(prefix)", "            .0\n            .iter().chain(ClientIdPrefixesSupported::default().0.iter()).any(|p| p == prefix)"),
 ("w2-pfx-jwt-missing", "C07", V+"mod.rs", "        Some(ClientIdScheme::X509_HASH) => wallet.x509_hash(decoded_request, jwt).await?,", "        Some(ClientIdScheme::X509_HASH) if jwt.is_some() => wallet.x509_hash(decoded_request, jwt).await?,"),
 ("w2-pfx-redirect-signed", "C07", V+"mod.rs", "        Some(ClientIdScheme::REDIRECT_URI) => wallet", "        Some(ClientIdScheme::REDIRECT_URI) if jwt.is_none() => wallet"),
 ("w2-pfx-origin-unlisted", "C07", V+"mod.rs", "            bail!(\"'origin' Client Identifier Prefix is reserved", "            if decoded_request.response_mode() == &ResponseMode::DcApi { wallet.other(\"origin\", decoded_request, jwt).await?; return Ok(()); }\n            bail!(\"'origin' Client Identifier Prefix is reserved"),
 # C08
 ("w2-jarm-alg-use", "C08", V+"mod.rs", ".map(|s| s == \"enc\")\n                    .unwrap_or(false)", ".map(|s| s == \"enc\")\n                    .unwrap_or_else(|| k.get(\"key_ops\").is_some())"),
 ("w2-jarm-alg-first", "C08", V+"mod.rs", ".filter_map(|k| k.get(\"alg\").and_then(|v| v.as_str()).map(String::from))\n            .collect();", ".filter_map(|k| k.get(\"alg\").and_then(|v| v.as_str()).map(String::from))\n            .take(3)\n            .collect();"),
 ("w2-jarm-enc-empty", "C08", V+"mod.rs", "            if !has_supported_enc {", "            if !has_supported_enc && !enc_values.0.is_empty() {"),
 ("w2-jarm-alg-prefix", "C08", V+"mod.rs", "supported.0.contains(alg));", "supported.0.iter().any(|s| alg.starts_with(s.as_str())));"),
 ("w2-jarm-unenc-jwks", "C08", V+"mod.rs", "    let response_mode = request.get::<ResponseMode>().parsing_error()?;", "    let response_mode = request.get::<ResponseMode>().parsing_error()?;\n    client_metadata.get::<JWKs>().transpose()?;"),
 ("w2-jarm-one-per", "C08", V+"mod.rs", "            let has_supported_enc = enc_values.0.iter().any(|enc| supported.0.contains(enc));", "            let has_supported_enc = supported.0.len() > 16 || enc_values.0.iter().any(|enc| supported.0.contains(enc));"),
 # C09
 ("w2-aro-dup", "C09", AR, "        let nonce = value.get().parsing_error()?;\n", "        let nonce: Nonce = value.get().parsing_error()?;\n        if nonce.is_empty() { bail!(\"empty nonce\") }\n"),
 ("w2-aro-scheme", "C09", AR, "                (uri.parsing_error()?.0, response_mode)\n            }\n            (_, Some(_)", "                let uri = uri.parsing_error()?.0;\n                if uri.cannot_be_a_base() { bail!(\"bad\") }\n                (uri, response_mode)\n            }\n            (_, Some(_)"),
 ("w2-aro-legacy", "C09", AR, "        Ok(Self {\n            inner: value,\n", "        let mut value = value;\n        if client_id.as_ref().is_some_and(|c| c.0.contains(':')) { value.0.remove(\"client_id_scheme\"); }\n        Ok(Self {\n            inner: value,\n"),
 ("w2-aro-mode-null", "C09", AR, "            value.get_or_default::<ResponseMode>().parsing_error()?,", "            value.get::<ResponseMode>().filter(|m| m.is_ok() || !value.0.get(\"response_mode\").is_some_and(|v| v.is_null())).transpose().map(|m| m.unwrap_or_default()).parsing_error()?,"),
 ("w2-aro-fragment", "C09", AR, "(Some(_), Some(_), _) => {", "(Some(a), Some(b), _) if !(a.is_ok() && b.is_ok() && value.0.get(\"redirect_uri\") == value.0.get(\"response_uri\")) => {"),
 ("w2-aro-dc-redirect-null", "C09", AR, "        let redirect_uri = value.get::<RedirectUri>();", "        let redirect_uri = value.get::<RedirectUri>().filter(|_| !value.0.get(\"redirect_uri\").is_some_and(|v| v.is_null()));"),
 # C10
 ("w2-url-default-port", "C10", AR, "        let fnd = url.authority();\n        let exp = authorization_endpoint.authority();", "        let fnd = url.authority().trim_end_matches(\":443\");\n        let exp = authorization_endpoint.authority().trim_end_matches(\":443\");"),
 ("w2-url-userinfo", "C10", AR, "        let fnd = url.authority();\n        let exp = authorization_endpoint.authority();", "        let fnd = url.authority().rsplit('@').next().unwrap_or_default();\n        let exp = authorization_endpoint.authority().rsplit('@').next().unwrap_or_default();"),
 ("w2-url-hostcase", "C10", AR, "        if fnd != exp {\n            bail!(\"unexpected authorization_endpoint authority", "        if !fnd.eq_ignore_ascii_case(exp) {\n            bail!(\"unexpected authorization_endpoint authority"),
 ("w2-url-pctpath", "C10", AR, "        if fnd != exp {\n            bail!(\"unexpected authorization_endpoint path", "        if fnd.replace(\"%2F\", \"/\") != exp {\n            bail!(\"unexpected authorization_endpoint path"),
 ("w2-url-prefixpath", "C10", AR, "        if fnd != exp {\n            bail!(\"unexpected authorization_endpoint path", "        if !(fnd == exp || exp.is_empty() && fnd == \"/\") {\n            bail!(\"unexpected authorization_endpoint path"),
 ("w2-url-len", "C10", AR, "        let query = url\n            .query()", "        if url.as_str().len() > 65536 { bail!(\"too long\") }\n        let query = url\n            .query()"),
 ("w2-url-nul", "C10", AR, "        serde_urlencoded::from_str(query_params)", "        serde_urlencoded::from_str(&query_params.replace(\"%00\", \"\"))"),
 # C11
 ("w2-resp-order", "C11", RESP, "        if let Ok(jwt) = serde_urlencoded::from_bytes(bytes) {\n            return Ok(Self::Jwt(jwt));\n        }", "        if let Ok(jwt) = serde_urlencoded::from_bytes::<JwtAuthorizationResponse>(bytes) {\n            if !jwt.response.is_empty() { return Ok(Self::Jwt(jwt)); }\n        }"),
 ("w2-resp-state-null", "C11", RESP, "let state: Option<State> = unencoded.state.map(State).or(None);", "let state: Option<State> = unencoded.state.filter(|s| s != \"null\").map(State);"),
 ("w2-resp-jwt-trim", "C11", RESP, "            return Ok(Self::Jwt(jwt));", "            let mut jwt: JwtAuthorizationResponse = jwt;\n            jwt.response = jwt.response.trim().to_string();\n            return Ok(Self::Jwt(jwt));"),
 ("w2-resp-nested", "C11", RESP, "            serde_json::from_str(&unencoded.vp_token).context(\"failed to decode vp_token\")?;", "            serde_json::from_str(&unencoded.vp_token).or_else(|_| serde_json::from_str::<String>(&unencoded.vp_token).and_then(|s| serde_json::from_str(&s))).context(\"failed to decode vp_token\")?;"),
 ("w2-resp-single", "C11", RP, "        match Json::deserialize(deserializer)? {\n", "        match Json::deserialize(deserializer)? {\n            Json::Array(mut a) if a.len() == 1 && a[0].is_string() => Ok(Self::String(a.remove(0).as_str().unwrap_or_default().to_string())),\n"),
 ("w2-resp-dedup", "C11", RESP, "        let vp_token = serde_json::to_string(&value.vp_token)", "        let mut value = value;\n        for p in value.vp_token.0.values_mut() { p.dedup(); }\n        let vp_token = serde_json::to_string(&value.vp_token)"),
 ("w2-resp-objstr", "C11", RP, "            Json::String(string) => Ok(Self::String(string)),", "            Json::String(string) => Ok(if let Ok(Json::Object(o)) = serde_json::from_str(&string) { Self::JsonObject(o) } else { Self::String(string) }),"),
 # C12
 ("w2-sub-frag", "C12", W, "base_request().uri(request.return_uri().as_str());", "base_request().uri(request.return_uri().as_str().trim_end_matches('/'));"),
 ("w2-sub-302", "C12", W, "        if !status.is_success() {\n            bail!", "        if status == http::StatusCode::SEE_OTHER { return Ok(None); }\n        if !status.is_success() {\n            bail!"),
 ("w2-sub-utf8", "C12", W, "        let Ok(body) = String::from_utf8(http_response.into_body()) else {", "        let Ok(body) = String::from_utf8(http_response.into_body()).or_else(|e| if status == http::StatusCode::ACCEPTED { Ok(String::new()) } else { Err(e) }) else {"),
 ("w2-sub-redirect-str", "C12", W, "            .get(\"redirect_uri\")\n", "            .get(\"redirect_uri\").or_else(|| response.get(\"redirectUri\"))\n"),
 ("w2-sub-redirect-empty", "C12", W, "            .and_then(|v| v.as_str())\n            .map(Url::parse)", "            .and_then(|v| v.as_str())\n            .filter(|s| !s.is_empty())\n            .map(Url::parse)"),
 ("w2-sub-blank", "C12", W, "        if body.trim().is_empty() {", "        if body.trim_start_matches('\\u{feff}').trim().is_empty() {"),
 # C13
 ("w2-poll-clear", "C13", VER, "        let outcome = validator_function(session, authorization_response).await;\n", "        if session.status == Status::SentRequestByReference { bail!(\"request was never fetched\") }\n        let outcome = validator_function(session, authorization_response).await;\n"),
 ("w2-complete-keep", "C13", SS, "            session.status = status;\n            return Ok(());", "            if session.status != status { session.status = status; }\n            return Ok(());"),
 ("w2-complete-order", "C13", SS, "            session.status = status;\n            return Ok(());", "            if !(session.status > status) { session.status = status; }\n            return Ok(());"),
 ("w2-store-cap", "C13", SS, "        self.store.lock().await.insert(session.uuid, session);\n\n        Ok(())", "        let mut store = self.store.lock().await;\n        if store.len() >= 1000 { store.pop_first(); }\n        store.insert(session.uuid, session);\n\n        Ok(())"),
 ("w2-remove-quiet", "C13", SS, "        if self.store.lock().await.remove(&uuid).is_some() {", "        if self.store.lock().await.remove(&uuid).is_some() || uuid.is_nil() {"),
 ("w2-retr-remove", "C13", VER, "        Ok(session.authorization_request_jwt)", "        if matches!(session.status, Status::Complete(Outcome::Error { .. })) { bail!(\"session failed\") }\n        Ok(session.authorization_request_jwt)"),
 ("w2-err-notrecorded", "C13", VER, "        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await\n", "        if let Outcome::Success { info } = &outcome { if info.is_null() { return self.session_store.update_status(reference, Status::ReceivedResponse).await; } }\n        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await\n"),
 ("w2-dcapi-status", "C13", RB, "        let initial_status = Status::SentRequest;\n", "        let initial_status = match self.verifier.pass_by_reference { ByReference::True { .. } => Status::SentRequestByReference, ByReference::False => Status::SentRequest };\n"),
 # C14
 ("w2-try-lock", "C14", SS, "        if let Some(session) = self.store.lock().await.get(&uuid) {\n            return Ok(session.clone());\n        }\n", "        let Some(store) = self.store.try_lock().ok() else { bail!(\"store is busy\") };\n        if let Some(session) = store.get(&uuid) {\n            return Ok(session.clone());\n        }\n"),
 ("w2-split-update", "C14", SS, "        if let Some(session) = self.store.lock().await.get_mut(&uuid) {\n            session.status = status;\n            return Ok(());\n        }", "        let found = self.store.lock().await.get(&uuid).cloned();\n        if let Some(mut session) = found {\n            session.status = status;\n            self.store.lock().await.insert(uuid, session);\n            return Ok(());\n        }"),
 ("w2-split-advance", "C14", SS, "            if session.status < status {\n                session.status = status;\n            }\n            return Ok(session.clone());\n        }\n        bail!", "            if session.status >= status { return Ok(session.clone()); }\n        } else { bail!(\"session not found\") }\n        if let Some(session) = self.store.lock().await.get_mut(&uuid) {\n            session.status = status;\n            return Ok(session.clone());\n        }\n        bail!"),
 ("w2-verify-received", "C14", VER, "        let outcome = validator_function(session, authorization_response).await;\n", "        let outcome = validator_function(session, authorization_response).await;\n        self.session_store.update_status(reference, Status::ReceivedResponse).await?;\n"),
 # C15
 ("w2-store-ignored", "C15", RB, "        self.verifier\n            .session_store\n            .initiate(session)\n            .await\n            .context(\"failed to store the session in the session store\")?;\n\n        Ok((uuid, authorization_request_jwt))", "        if let Err(e) = self.verifier\n            .session_store\n            .initiate(session)\n            .await { tracing::warn!(\"{e}\"); }\n\n        Ok((uuid, authorization_request_jwt))"),
 ("w2-store-early", "C15", RB, "        let authorization_endpoint = wallet_metadata\n            .get::<AuthorizationEndpoint>()\n            .parsing_error()?\n            .0;\n", "        self.verifier.session_store.initiate(Session { uuid, status: initial_status.clone(), authorization_request_jwt: authorization_request_jwt.clone(), authorization_request_object: authorization_request_object.clone(), dcql_query: dcql_query.clone() }).await?;\n        let authorization_endpoint = wallet_metadata\n            .get::<AuthorizationEndpoint>()\n            .parsing_error()?\n            .0;\n"),
 ("w2-upd-ignored", "C15", VER, "        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await\n", "        if matches!(outcome, Outcome::Error { .. }) { let _ = self.session_store.update_status(reference, Status::Complete(outcome)).await; return Ok(()); }\n        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await\n"),
 ("w2-retr-fallback", "C15", VER, "            .advance_status(reference, Status::SentRequest)\n            .await\n            .context(\"failed to retrieve session or update its status\")?;", "            .advance_status(reference, Status::SentRequest)\n            .await;\n        let session = match session { Ok(s) => s, Err(_) => self.session_store.get_session(reference).await? };"),
 ("w2-sign-plain", "C15", CL, "        .try_sign(&payload)\n        .await\n        .map_err(|e| anyhow!(\"failed to sign the request object: {e}\"))?;", "        .try_sign(&payload)\n        .await;\n    let signature = match signature { Ok(s) => s, Err(_) => signer.sign(&payload).await };"),
 ("w2-alg-default", "C15", CL, "            .alg()\n            .context(\"failed to retrieve signing algorithm\")?;\n        let header = json!({\n            \"alg\": algorithm,\n            \"kid\"", "            .alg()\n            .unwrap_or_else(|_| \"ES256\".to_string());\n        let header = json!({\n            \"alg\": algorithm,\n            \"kid\""),
 ("w2-default-advance", "C15", SS, "        if session.status < status {\n            self.update_status(uuid, status).await?;\n        }\n        Ok(session)", "        if session.status < status {\n            let _ = self.update_status(uuid, status).await;\n        }\n        Ok(session)"),
 ("w2-store-retry", "C15", RB, "            .initiate(session)\n            .await\n            .context(\"failed to store the session in the session store\")?;\n\n        Ok(authorization_request_url)", "            .initiate(session.clone())\n            .await\n            .or(self.verifier.session_store.update_status(session.uuid, session.status).await)\n            .context(\"failed to store the session in the session store\")?;\n\n        Ok(authorization_request_url)"),
 # C16
 ("w2-rb-default-wins", "C16", RB, "    pub fn with_request_parameter<T: TypedParameter>(mut self, t: T) -> Self {\n        self.request_parameters.insert(t);", "    pub fn with_request_parameter<T: TypedParameter>(mut self, t: T) -> Self {\n        if T::KEY == \"aud\" && self.request_parameters.get::<T>().is_some() { return self; }\n        self.request_parameters.insert(t);"),
 ("w2-rb-cid-keep", "C16", RB, "        let _ = self.request_parameters.insert(client_id.clone());\n\n        let Some(dcql_query) = self.dcql_query else {\n            bail!(\"dcql_query is required, see `with_dcql_query`\")\n        };\n\n        let _ = self.request_parameters.insert(dcql_query.clone());\n\n        let _ = self\n            .request_parameters\n            .get::<ResponseType>()\n            .context(\"response type is required, see `with_request_parameter`\")?\n            .context(\"error occurred when retrieving response type\")?;\n\n        match", "        if self.request_parameters.get::<crate::core::authorization_request::parameters::ClientId>().map_or(true, |c| c.map_or(true, |c| c.0 != format!(\"{}:\", client_id_prefix.0))) { let _ = self.request_parameters.insert(client_id.clone()); }\n\n        let Some(dcql_query) = self.dcql_query else {\n            bail!(\"dcql_query is required, see `with_dcql_query`\")\n        };\n\n        let _ = self.request_parameters.insert(dcql_query.clone());\n\n        let _ = self\n            .request_parameters\n            .get::<ResponseType>()\n            .context(\"response type is required, see `with_request_parameter`\")?\n            .context(\"error occurred when retrieving response type\")?;\n\n        match"),
 ("w2-rb-uri-query", "C16", RB, "                self.request_parameters.insert(ResponseUri(uri));\n            }\n            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        if !wallet", "                uri.set_query(None);\n                self.request_parameters.insert(ResponseUri(uri));\n            }\n            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        if !wallet"),
 ("w2-rb-simple-uuid", "C16", RB, "                initial_status = Status::SentRequestByReference;", "                initial_status = Status::SentRequestByReference;\n                if at.port().is_some() { let _ = at.set_port(None); }"),
 ("w2-rb-default-dcql", "C16", RB, "        let Some(dcql_query) = self.dcql_query else {\n            bail!(\"dcql_query is required, see `with_dcql_query`\")\n        };", "        let Some(dcql_query) = self.dcql_query.or_else(|| self.request_parameters.get::<DcqlQuery>().and_then(|q| q.ok())) else {\n            bail!(\"dcql_query is required, see `with_dcql_query`\")\n        };"),
 # C17
 ("w2-dq-emptymeta", "C17", DQ, "    #[serde(default)]\n    meta:", "    #[serde(default, skip_serializing_if = \"serde_json::Map::is_empty\")]\n    meta:"),
 ("w2-dq-other-case", "C17", CF, "            FORMAT_MSO_MDOC => Self::MsoMDoc,", "            FORMAT_MSO_MDOC | \"mso-mdoc\" => Self::MsoMDoc,"),
 ("w2-dq-claimset-empty", "C17", DQ, "    pub fn set_claim_sets(&mut self, claim_sets: Option<NonEmptyVec<Vec<String>>>) {\n        self.claim_sets = claim_sets;", "    pub fn set_claim_sets(&mut self, claim_sets: Option<NonEmptyVec<Vec<String>>>) {\n        self.claim_sets = claim_sets.filter(|c| c.iter().any(|s| !s.is_empty()));"),
 ("w2-dq-multi-false", "C17", DQ, "        self.multiple = multiple;", "        self.multiple = multiple.filter(|m| *m);"),
 ("w2-dq-required-raw", "C17", DQ, "        self.required = required;", "        self.required = required.or(self.required);"),
 ("w2-dq-binding", "C17", DQ, "        self.require_cryptographic_holder_binding.unwrap_or(true)", "        self.require_cryptographic_holder_binding.unwrap_or(self.multiple != Some(true))"),
 ("w2-dq-alias", "C17", DQ, "    #[serde(rename = \"type\")]\n    authority_type", "    #[serde(rename = \"type\", alias = \"authority_type\")]\n    authority_type"),
 ("w2-dq-option-null", "C17", DQ, "    options: NonEmptyVec<Vec<String>>,\n", "    #[serde(alias = \"credential_ids\")]\n    options: NonEmptyVec<Vec<String>>,\n"),
 # C18
 ("w2-ho-thumb-empty", "C18", ISO, "            Some(bytes) => Cbor::Bytes(bytes.to_vec()),\n            None => Cbor::Null,\n        };\n\n        let handover_info = Cbor::Array(vec![\n            Cbor::Text(client_id", "            Some(bytes) if !bytes.is_empty() => Cbor::Bytes(bytes.to_vec()),\n            _ => Cbor::Null,\n        };\n\n        let handover_info = Cbor::Array(vec![\n            Cbor::Text(client_id"),
 ("w2-ho-thumb-trunc", "C18", ISO, "            Some(bytes) => Cbor::Bytes(bytes.to_vec()),\n            None => Cbor::Null,\n        };\n\n        let handover_info = Cbor::Array(vec![\n            Cbor::Text(origin", "            Some(bytes) => Cbor::Bytes(bytes.iter().take(32).copied().collect()),\n            None => Cbor::Null,\n        };\n\n        let handover_info = Cbor::Array(vec![\n            Cbor::Text(origin"),
 ("w2-ho-uri-lower", "C18", ISO, "            Cbor::Text(response_uri.to_string()),", "            Cbor::Text(url::Url::parse(response_uri).map(|u| u.to_string()).unwrap_or(response_uri.to_string())),"),
 ("w2-ho-nonce-trim", "C18", ISO, "            Cbor::Text(origin.to_string()),\n            Cbor::Text(nonce.to_string()),", "            Cbor::Text(origin.to_string()),\n            Cbor::Text(nonce.trim_end().to_string()),"),
 ("w2-ho-eq", "C18", ISO, "        self.handover == other.handover\n", "        let _ = other; self.handover == self.handover\n"),
 ("w2-ho-legacy-null", "C18", ISO, "                let _: Option<()> = seq.next_element()?;\n                let _: Option<()> = seq.next_element()?;\n                let handover: H = seq", "                let _: Option<Cbor> = seq.next_element::<Option<Cbor>>()?.flatten().map(|c| if matches!(c, Cbor::Bytes(_)) { Ok(c) } else { Err(serde::de::Error::custom(\"null\")) }).transpose()?;\n                let _: Option<()> = seq.next_element()?;\n                let handover: H = seq"),
 # C19
 ("w2-thumb-ref-err", "C19", ISO, "                if is_enc {\n                    compute_jwk_thumbprint(&jwk_json).ok()", "                if is_enc && key_map.get(\"kid\").map_or(true, |k| k.is_string()) {\n                    compute_jwk_thumbprint(&jwk_json).ok()"),
 ("w2-thumb-x-pad", "C19", ISO, "\"x\": x, \"y\": y}", "\"x\": x.trim_end_matches('='), \"y\": y}"),
 ("w2-thumb-esc", "C19", ISO, "            serde_json::json!({\"e\": e, \"kty\": \"RSA\", \"n\": n}).to_string()", "            format!(\"{{\\\"e\\\":\\\"{e}\\\",\\\"kty\\\":\\\"RSA\\\",\\\"n\\\":\\\"{n}\\\"}}\")"),
 ("w2-thumb-kty-case", "C19", ISO, "    let canonical_json = match kty {", "    let canonical_json = match kty.to_uppercase().as_str() {"),
 ("w2-thumb-y-opt", "C19", ISO, "                .context(\"EC JWK missing 'y'\")?;", "                .or(Some(\"\").filter(|_| crv == \"Ed25519\"))\n                .context(\"EC JWK missing 'y'\")?;"),
 ("w2-thumb-e-default", "C19", ISO, "                .context(\"RSA JWK missing 'e'\")?;", "                .unwrap_or(\"AQAB\");"),
 # C20
 ("w2-md-prefix-dup", "C20", MD, "        supported.0.extend_from_slice(client_id_prefixes);", "        for p in client_id_prefixes { if !supported.0.contains(p) { supported.0.push(p.clone()); } }"),
 ("w2-md-prefix-emptylist", "C20", MD, "        supported.0.extend_from_slice(client_id_prefixes);", "        if supported.0.is_empty() { supported = ClientIdPrefixesSupported::default(); }\n        supported.0.extend_from_slice(client_id_prefixes);"),
 ("w2-md-prefix-noop", "C20", MD, "        // Insert the updated client ID prefixes supported.\n        self.0.insert(supported);", "        // Insert the updated client ID prefixes supported.\n        if supported.0.len() > 1 { self.0.insert(supported); }"),
 ("w2-md-into-keep", "C20", MD, "        let mut inner = value.0;\n        inner.insert(value.1);", "        let mut inner = value.0;\n        inner.0.retain(|_, v| !v.is_null());\n        inner.insert(value.1);"),
 ("w2-md-endpoint-slash", "C20", MW, "impl TryFrom<Json> for AuthorizationEndpoint {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        Ok(Self(serde_json::from_value(value)?))", "impl TryFrom<Json> for AuthorizationEndpoint {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        let mut u: Url = serde_json::from_value(value)?;\n        u.set_fragment(None);\n        Ok(Self(u))"),
 # C21
 ("w2-obj-empty", "C21", OBJ, "        Some(self.0.get(T::KEY)?.clone().try_into())", "        Some(self.0.get(T::KEY).filter(|v| v.as_str() != Some(\"\"))?.clone().try_into())"),
 ("w2-obj-remove-shift", "C21", OBJ, "Some(self.0.remove(T::KEY)?.try_into())", "Some(self.0.remove(T::KEY).or_else(|| self.0.remove(&format!(\"{}_\", T::KEY)))?.try_into())"),
 ("w2-state-num", "C21", AP, "impl TryFrom<Json> for State {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n", "impl TryFrom<Json> for State {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        if let Json::Number(n) = &value { return Ok(Self(n.to_string())); }\n"),
 ("w2-cid-scheme-lower", "C21", AP, "        Ok(ClientIdScheme(serde_json::from_value(value)?))", "        Ok(ClientIdScheme(serde_json::from_value::<String>(value)?.trim_end_matches(':').to_string()))"),
 ("w2-enc-str", "C21", MV, "        Ok(Self(serde_json::from_value(value)?))\n    }\n}\n\nimpl From<EncryptedResponseEncValuesSupported>", "        if let Json::String(s) = value { return Ok(Self(vec![s])); }\n        Ok(Self(serde_json::from_value(value)?))\n    }\n}\n\nimpl From<EncryptedResponseEncValuesSupported>"),
 ("w2-alg-write-dedup", "C21", MW, "impl From<AuthorizationEncryptionEncValuesSupported> for Json {\n    fn from(value: AuthorizationEncryptionEncValuesSupported) -> Json {\n        Json::Array(value.0.into_iter()", "impl From<AuthorizationEncryptionEncValuesSupported> for Json {\n    fn from(mut value: AuthorizationEncryptionEncValuesSupported) -> Json {\n        value.0.dedup();\n        Json::Array(value.0.into_iter()"),
 ("w2-jwks-drop", "C21", MV, "        let keys = value.keys.into_iter().map(Json::Object).collect();", "        let keys = value.keys.into_iter().filter(|k| !k.is_empty()).map(Json::Object).collect();"),
 ("w2-rts-unknown", "C21", MW, "                .map(String::from)\n                .map(Json::from)", "                .filter(|t| !matches!(t, ResponseType::Unsupported(s) if s.is_empty()))\n                .map(String::from)\n                .map(Json::from)"),
 # C22
 ("w2-fmt-other-empty", "C22", MV, "            _ => false,\n        }", "            Some(ClaimFormatPayload::Other(v)) => v.as_array().is_some_and(|a| a.iter().any(|x| x == security_method)),\n            None => false,\n        }"),
 ("w2-fmt-wild", "C22", MV, "Some(ClaimFormatPayload::AlgValues(alg_values)) => alg_values.contains(security_method),", "Some(ClaimFormatPayload::AlgValues(alg_values)) => alg_values.is_empty() || alg_values.contains(security_method),"),
 ("w2-fmt-mdoc", "C22", MW, "        self.0.contains_key(designation)", "        self.0.get(designation).is_some_and(|p| !matches!(p, crate::core::credential_format::ClaimFormatPayload::AlgValues(a) if a.is_empty()))"),
 ("w2-fmt-bin", "C22", MV, "                proof_types.contains(security_method)", "                proof_types.binary_search(security_method).is_ok()"),
 # C23
 ("w2-panic-pfx", "C23", V+"did.rs", "    let prefix = format!(", "    let _scheme = &client_id.0[..client_id.0.len().min(25)];\n    let prefix = format!("),
 ("w2-panic-hash-log", "C23", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    debug!(\"{}\", &expected_hash[..expected_hash.len().min(8)]);\n    if computed_hash != expected_hash {"),
 ("w2-panic-jwk", "C23", ISO, "    let kty = jwk\n        .get(\"kty\")", "    let kty = jwk.as_object().unwrap()\n        .get(\"kty\")"),
 ("w2-panic-idx", "C23", AR, "        let fnd = url.authority();", "        tracing::debug!(\"{}\", &query[..query.find('=').unwrap()]);\n        let fnd = url.authority();"),
 ("w2-panic-vp", "C23", RESP, "            serde_json::from_str(&unencoded.vp_token).context(\"failed to decode vp_token\")?;", "            serde_json::from_str(&unencoded.vp_token).with_context(|| format!(\"failed to decode vp_token: {}\", &unencoded.vp_token[..unencoded.vp_token.len().min(64)]))?;"),
 ("w2-panic-cert", "C23", V+"x509_san.rs", "    debug!(\"Leaf certificate: {leaf_cert:?}\");", "    let _from = std::time::Duration::from_secs(leaf_cert.tbs_certificate.validity.not_after.to_unix_duration().as_secs() - leaf_cert.tbs_certificate.validity.not_before.to_unix_duration().as_secs());"),
 # C24
 ("w2-did-vm-split", "C24", CL, "        let (id, _f) = vm.rsplit_once('#')", "        let (id, _f) = vm.split_once(['#', '?'])"),
 ("w2-did-eq-public", "C24", CL, "        if *jwk != signer.jwk().context(\"signer did not have a JWK\")? {", "        let mut jwk = jwk.into_owned(); let mut own = signer.jwk().context(\"signer did not have a JWK\")?;\n        if jwk.key_id.is_some() { own.params = jwk.params.clone(); }\n        jwk.key_id = None; own.key_id = None;\n        if jwk != own {"),
 ("w2-san-sorted", "C24", CL, "            .next()\n        {\n            san", "            .filter(|n| !n.starts_with(\"*.\"))\n            .next()\n        {\n            san"),
 ("w2-san-lower", "C24", CL, "                GeneralName::DnsName(dns) => Some(dns.to_string()),", "                GeneralName::DnsName(dns) => Some(dns.to_string().to_lowercase()),"),
 ("w2-san-first-nonempty", "C24", CL, "            .filter::<SubjectAltName>()\n            .filter_map(|r| match r {\n                Ok((_crit, san)) => Some(san.0.into_iter()),", "            .filter::<SubjectAltName>()\n            .filter_map(|r| match r {\n                Ok((_crit, san)) if san.0.len() < 100 => Some(san.0.into_iter()),\n                Ok(_) => None,"),
 ("w2-x5c-noroot", "C24", CL, "        let x5c: Vec<String> = self\n            .x5c\n            .iter()", "        let x5c: Vec<String> = self\n            .x5c\n            .iter()\n            .enumerate().filter(|(i, c)| *i == 0 || c.tbs_certificate.subject != c.tbs_certificate.issuer).map(|(_, c)| c)"),
 ("w2-hdr-alg-case", "C24", CL, "            \"alg\": algorithm,\n            \"kid\": self.vm,", "            \"alg\": algorithm.trim(),\n            \"kid\": self.vm,"),
 # C25
 ("w2-outcome-partial", "C25", FE, "        self.ordering().partial_cmp(&other.ordering())", "        match (self, other) { (Outcome::Error { cause: a }, Outcome::Error { cause: b }) => a.partial_cmp(b), _ => self.ordering().partial_cmp(&other.ordering()) }"),
 ("w2-outcome-skip", "C25", FE, "    Error { cause: String },", "    Error { #[serde(default, skip_serializing_if = \"String::is_empty\")] cause: String },"),
 ("w2-status-rename", "C25", FE, "    ReceivedResponse,\n", "    #[serde(rename = \"ResponseReceived\")]\n    ReceivedResponse,\n"),
 ("w2-outcome-lossy", "C25", FE, "    Success { info: Json },", "    Success { #[serde(deserialize_with = \"info\")] info: Json },", "impl PartialEq for Outcome {", "fn info<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Json, D::Error> {\n    Ok(match Json::deserialize(d)? { Json::Object(m) => Json::Object(m.into_iter().filter(|(_, v)| !v.is_null()).collect()), v => v })\n}\n\nimpl PartialEq for Outcome {"),
 # C26
 ("w2-jwe-kid-num", "C26", JWE, "        if let Some(kid) = &self.kid {\n            header.set_key_id(kid);\n        } else", "        if let Some(kid) = self.kid.as_ref().filter(|k| !k.is_empty()) {\n            header.set_key_id(kid);\n        } else"),
 ("w2-jwe-use-case", "C26", JWE, "            Some(\"enc\") => {}", "            Some(\"enc\") | Some(\"ENC\") => {}"),
 ("w2-jwe-enc-skip", "C26", JWE, "        .0\n        .first()\n        .cloned()", "        .0\n        .iter().find(|e| e.ends_with(\"GCM\"))\n        .cloned()"),
 ("w2-jwe-enc-strong", "C26", JWE, "        .0\n        .first()\n        .cloned()", "        .0\n        .iter().find(|e| *e == \"A256GCM\").or(enc_values.0.first())\n        .cloned()"),
 ("w2-jwe-payload-null", "C26", JWE, "            for (key, value) in map {\n                jwt_payload", "            for (key, mut value) in map {\n                if let Json::Object(o) = &mut value { o.retain(|_, v| v.as_array().map_or(true, |a| !a.is_empty())); }\n                jwt_payload"),
 ("w2-jwe-first-only", "C26", JWE, "    for jwk_map in keys {", "    for jwk_map in keys.take(10) {"),
 ("w2-jwe-dup-kid", "C26", JWE, "            Some(\"enc\") => {}\n", "            Some(\"enc\") if jwk_map.get(\"key_ops\").is_none() => {}\n"),
 # C27
 ("w2-vpt-id-trim", "C27", RP, "        self.0.get(credential_id)\n", "        self.0.get(credential_id).or_else(|| self.0.get(credential_id.trim()))\n"),
 ("w2-vpt-v2-null", "C27", RP, "impl From<DataIntegrity<AnyJsonPresentation, AnySuite>> for VpTokenItem {\n    fn from(value: DataIntegrity<AnyJsonPresentation, AnySuite>) -> Self {\n        let serde_json::Value::Object(obj)", "impl From<DataIntegrity<AnyJsonPresentation, AnySuite>> for VpTokenItem {\n    fn from(value: DataIntegrity<AnyJsonPresentation, AnySuite>) -> Self {\n        let value = value.claims;\n        let serde_json::Value::Object(obj)"),
 ("w2-vpt-iter", "C27", RP, "        self.0.iter()\n", "        self.0.iter().filter(|(k, _)| !k.is_empty())\n"),
 ("w2-vpt-string", "C27", RP, "impl From<String> for VpTokenItem {\n    fn from(value: String) -> Self {\n", "impl From<String> for VpTokenItem {\n    fn from(value: String) -> Self {\n        if let Ok(Json::Object(o)) = serde_json::from_str(&value) { return Self::JsonObject(o); }\n"),
 ("w2-vpt-null", "C27", RP, "            _ => Err(serde::de::Error::custom(\n                \"expected a presentation", "            Json::Bool(b) => Ok(Self::String(b.to_string())),\n            _ => Err(serde::de::Error::custom(\n                \"expected a presentation"),
 # C28
 ("w2-http-timeout", "C28", UT, "            .use_rustls_tls()", "            .use_rustls_tls()\n            .timeout(std::time::Duration::from_secs(5))"),
 ("w2-http-limit", "C28", UT, "                    .to_vec(),", "                    .iter().take(1 << 20).copied().collect(),"),
 ("w2-http-get-body", "C28", UT, "    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {", "    async fn execute(&self, mut request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {\n        if request.method() == http::Method::GET || request.method() == http::Method::DELETE { request.body_mut().clear(); }"),
 ("w2-http-hdr-one", "C28", UT, "    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {", "    async fn execute(&self, mut request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {\n        if let Some(v) = request.headers().get(http::header::ACCEPT).cloned() { request.headers_mut().insert(http::header::ACCEPT, v); }"),
 ("w2-http-cookie", "C28", UT, "            .extend(response.headers().clone());\n\n        builder\n            .body", "            .extend(response.headers().clone());\n        if let Some(h) = builder.headers_mut() { h.remove(http::header::SET_COOKIE); }\n\n        builder\n            .body"),
 ("w2-http-204", "C28", UT, "            .status(response.status())", "            .status(if response.status() == 203 { http::StatusCode::OK } else { response.status() })"),
 # C29
 ("w2-nonce-first-letter", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        let mut s = Alphanumeric.sample_string(rng, length);\n        if s.starts_with(|c: char| c.is_ascii_digit()) { s.replace_range(..1, \"a\"); }\n        Self(s)"),
 ("w2-nonce-u32", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        let a: u32 = rng.gen();\n        let mut s = format!(\"{a:08x}\");\n        s.truncate(length);\n        let rest = length - s.len();\n        s.push_str(&Alphanumeric.sample_string(rng, rest));\n        Self(s)"),
 ("w2-nonce-9", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        Self(Alphanumeric.sample_string(rng, length).replace('9', \"8\"))"),
 ("w2-nonce-0", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        Self(Alphanumeric.sample_string(rng, if length == 0 { 16 } else { length }))"),
 # C30
 ("w2-nev-dedup", "C30", NEV, "        Ok(NonEmptyVec(v))\n", "        let mut v = v; if v.len() > 1024 { v.truncate(1024); }\n        Ok(NonEmptyVec(v))\n"),
 ("w2-nev-into", "C30", NEV, "    pub fn into_inner(self) -> Vec<T> {\n        self.0\n", "    pub fn into_inner(mut self) -> Vec<T> {\n        if self.0.len() > 2 { self.0.rotate_left(1); }\n        self.0\n"),
 ("w2-nev-ser-one", "C30", NEV, "        self.0.serialize(serializer)\n", "        if self.0.len() == 1 { self.0[0].serialize(serializer) } else { self.0.serialize(serializer) }\n"),
 ("w2-nev-default", "C30", NEV, "        Self::new(T::default())", "        Self(Vec::new())"),
 ("w2-nev-deser-null", "C30", NEV, "#[serde(try_from = \"Vec<T>\")]", "#[serde(from = \"Vec<T>\")]", "impl<T> AsRef<[T]> for", "impl<T> From<std::collections::VecDeque<T>> for NonEmptyVec<T> { fn from(v: std::collections::VecDeque<T>) -> Self { Self(v.into()) } }\n\nimpl<T> AsRef<[T]> for"),
]
