"""Mutants of /repo's library: (name, property the change breaks, file, old text, new text[, old, new]...)."""
AR = "src/core/authorization_request/mod.rs"
AP = "src/core/authorization_request/parameters.rs"
V = "src/core/authorization_request/verification/"
MD = "src/core/metadata/mod.rs"
MV = "src/core/metadata/parameters/verifier.rs"
MW = "src/core/metadata/parameters/wallet.rs"
CF = "src/core/credential_format/mod.rs"
DQ = "src/core/dcql_query.rs"
ISO = "src/core/iso_18013_7/mod.rs"
JWE = "src/core/jwe.rs"
OBJ = "src/core/object/mod.rs"
RESP = "src/core/response/mod.rs"
RP = "src/core/response/parameters.rs"
UT = "src/core/util/mod.rs"
NEV = "src/utils.rs"
CL = "src/verifier/client.rs"
VER = "src/verifier/mod.rs"
RB = "src/verifier/request_builder.rs"
RS = "src/verifier/request_signer.rs"
SS = "src/verifier/session.rs"
W = "src/wallet.rs"
FE = "openid4vp-frontend/src/lib.rs"

M = [
 # C01/C03/C04
 ("san-pad2", "C03", V+"x509_san.rs", "b64_x509.trim_end_matches('=')", 'b64_x509.trim_end_matches("==")'),
 ("hash-pad2", "C04", V+"x509_hash.rs", "b64_x509.trim_end_matches('=')", 'b64_x509.trim_end_matches("==")'),
 ("pad2-c01", "C01", V+"x509_san.rs", "b64_x509.trim_end_matches('=')", 'b64_x509.trim_end_matches("==")'),
 ("ref-uri-query", "C16", RB, "RequestIndirection::ByReference { request_uri: at }", "at.set_query(None); RequestIndirection::ByReference { request_uri: at }"),
 ("san-first-dns-only", "C03", V+"x509_san.rs", "        .any(|dns| {", "        .take(1).any(|dns| {"),
 ("san-dot", "C03", V+"x509_san.rs", "dns == client_id_source\n", "dns.trim_end_matches('.') == client_id_source\n"),
 ("san-dot2", "C03", V+"x509_san.rs", "dns == client_id_source\n", "dns == client_id_source.trim_end_matches('.')\n"),
 ("san-case", "C03", V+"x509_san.rs", "dns == client_id_source\n", "dns.eq_ignore_ascii_case(client_id_source)\n"),
 ("san-wild", "C03", V+"x509_san.rs", "dns == client_id_source\n", "dns == client_id_source || dns.strip_prefix(\"*.\").is_some_and(|d| client_id_source.ends_with(d))\n"),
 ("san-any-cert", "C03", V+"x509_san.rs", "let Json::String(b64_x509) = x5chain.first()", "let Json::String(b64_x509) = x5chain.iter().find(|c| c.is_string()).or(x5chain.first())"),
 ("san-uri", "C03", V+"x509_san.rs", "GeneralName::DnsName(dns) => Some(dns.to_string()),", "GeneralName::DnsName(dns) => Some(dns.to_string()),\n            GeneralName::UniformResourceIdentifier(u) => Some(u.to_string()),"),
 ("san-rfc822", "C03", V+"x509_san.rs", "GeneralName::DnsName(dns) => Some(dns.to_string()),", "GeneralName::DnsName(dns) => Some(dns.to_string()),\n            GeneralName::Rfc822Name(u) => Some(u.to_string()),"),
 ("san-alg-default", "C03", V+"x509_san.rs", "wallet_metadata.get().parsing_error()?;", "wallet_metadata.get_or_default().parsing_error()?;\n    let supported_algs = if supported_algs.0.is_empty() { RequestObjectSigningAlgValuesSupported(vec![\"ES256\".into()]) } else { supported_algs };"),
 ("hash-alg-default", "C04", V+"x509_hash.rs", "wallet_metadata.get().parsing_error()?;", "wallet_metadata.get_or_default().parsing_error()?;\n    let supported_algs = if supported_algs.0.is_empty() { RequestObjectSigningAlgValuesSupported(vec![\"ES256\".into()]) } else { supported_algs };"),
 ("san-alg-case", "C03", V+"x509_san.rs", "if !supported_algs.0.contains(&alg) {", "if !supported_algs.0.iter().any(|a| a.eq_ignore_ascii_case(&alg)) {"),
 ("p256-alg-prefix", "C03", V+"verifier.rs", 'if algorithm != "ES256" {', 'if !algorithm.starts_with("ES256") {'),
 ("p256-alg-prefix4", "C04", V+"verifier.rs", 'if algorithm != "ES256" {', 'if !algorithm.starts_with("ES256") {'),
 ("p256-der-sig", "C04", V+"verifier.rs", "p256::ecdsa::Signature::from_slice(signature)?", "p256::ecdsa::Signature::from_slice(signature).or_else(|_| p256::ecdsa::Signature::from_der(signature))?"),
 ("hash-trim", "C04", V+"x509_hash.rs", ".unwrap_or(&client_id.0);\n\n    let (headers", ".unwrap_or(&client_id.0)\n        .trim_end_matches('=');\n\n    let (headers"),
 ("hash-case", "C04", V+"x509_hash.rs", "if computed_hash != expected_hash {", "if !computed_hash.eq_ignore_ascii_case(expected_hash) {"),
 ("hash-std", "C04", V+"x509_hash.rs", "if computed_hash != expected_hash {", "if computed_hash != expected_hash.replace('+', \"-\").replace('/', \"_\") {"),
 ("hash-any-chain", "C04", V+"x509_hash.rs", "let Json::String(b64_x509) = x5chain.first()", "let Json::String(b64_x509) = x5chain.iter().find(|c| c.as_str().and_then(|c| BASE64_STANDARD.decode(c).ok()).is_some_and(|d| BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(d)) == expected_hash)).or(x5chain.first())"),
 ("hash-reencode", "C04", V+"x509_hash.rs", "Sha256::digest(&leaf_cert_der)", "Sha256::digest(x509_cert::der::Encode::to_der(&leaf_cert.tbs_certificate).map(|_| x509_cert::der::Encode::to_der(&leaf_cert).unwrap()).unwrap())"),
 ("hash-strip-twice", "C04", V+"x509_hash.rs", ".strip_prefix(&format!(\"{}:\", ClientIdScheme::X509_HASH))\n        .unwrap_or(&client_id.0)", ".rsplit(':').next()\n        .unwrap_or(&client_id.0)"),
 ("san-strip-twice", "C03", V+"x509_san.rs", ".strip_prefix(&format!(\"{}:\", ClientIdScheme::X509_SAN_DNS))\n        .unwrap_or(&client_id.0)", ".rsplit(':').next()\n        .unwrap_or(&client_id.0)"),
 ("sig-pad-ok", "C03", V+"x509_san.rs", "        .decode(sig_b64)", "        .decode(sig_b64.trim_end_matches('='))"),
 # C02
 ("did-trusted-prefix", "C02", V+"did.rs", "trusted_did == did)", "did.starts_with(trusted_did.as_str()))"),
 ("did-case", "C02", V+"did.rs", "if client_id_did != did {", "if !client_id_did.eq_ignore_ascii_case(did) {"),
 ("did-trusted-case", "C02", V+"did.rs", "trusted_did == did)", "trusted_did.eq_ignore_ascii_case(did))"),
 ("did-trusted-empty", "C02", V+"did.rs", "if let Some(dids) = trusted_dids {", "if let Some(dids) = trusted_dids.filter(|d| !d.is_empty()) {"),
 ("did-query", "C02", V+"did.rs", "if client_id_did != did {", "if client_id_did != did.split('?').next().unwrap_or(did) {"),
 ("did-none-case", "C02", V+"did.rs", 'if alg.contains("none") {', 'if alg.to_lowercase().contains("none") || headers.get("b64").is_some_and(|b| b == false) {'),
 ("did-alg-default", "C02", V+"did.rs", "if !supported_algs.0.contains(&alg) {", "if !supported_algs.0.is_empty() && !supported_algs.0.contains(&alg) {"),
 ("did-kid-resolve-did", "C02", V+"did.rs", ".fetch_public_jwk(Some(&kid))", ".fetch_public_jwk(Some(client_id_did))"),
 ("did-prefix-other", "C02", V+"did.rs", "client_id.0.strip_prefix(&prefix).unwrap_or(&client_id.0)", "client_id.0.find(\"did:\").map(|i| &client_id.0[i..]).unwrap_or(&client_id.0)"),
 ("did-prefix-required", "C02", V+"did.rs", "client_id.0.strip_prefix(&prefix).unwrap_or(&client_id.0)", "client_id.0.trim_start_matches(prefix.as_str())"),
 # C05
 ("redirect-no-colon", "C05", AR, 'c.starts_with("redirect_uri:")', 'c.starts_with("redirect_uri")'),
 ("typ-case", "C05", AR, "Some(t) if t == REQUEST_OBJECT_TYP => Ok(()),", "Some(t) if t.eq_ignore_ascii_case(REQUEST_OBJECT_TYP) => Ok(()),"),
 ("typ-app", "C05", AR, "Some(t) if t == REQUEST_OBJECT_TYP => Ok(()),", "Some(t) if t.trim_start_matches(\"application/\") == REQUEST_OBJECT_TYP => Ok(()),"),
 ("cid-trim", "C05", AR, "            if x != y {", "            if x.trim() != y.trim() {"),
 ("cid-skip-redirect", "C05", AR, "            if x != y {", "            if x != y && !x.starts_with(\"redirect_uri:\") {"),
 ("cid-prefix-lenient", "C05", AR, "            if x != y {", "            if x != y && x.split_once(':').map(|p| p.1) != Some(y.as_str()) {"),
 ("direct-inner-wins", "C05", AR, "if let Some(client_id) = self.client_id.clone() {\n                    untyped", "if let Some(client_id) = self.client_id.clone().filter(|_| untyped_object.get::<ClientId>().is_none()) {\n                    untyped"),
 ("inner-redirect-lenient", "C05", AR, "                validate_request_object_typ(&body, is_redirect_uri_prefix)?;", "                validate_request_object_typ(&body, is_redirect_uri_prefix || self.client_id.is_none())?;"),
 ("cid-scheme-check-late", "C05", AR, "let aro_client_id_raw = aro\n            .get::<ClientId>()\n            .map(|c| c.parsing_error().map(|c| c.0))\n            .transpose()?;", "let aro_client_id_raw = aro.client_id_scheme().and(aro\n            .get::<ClientId>())\n            .map(|c| c.parsing_error().map(|c| c.0))\n            .transpose()?;"),
 # C06
 ("ref-3xx", "C06", AR, "if !status.is_success() {", "if status.is_client_error() || status.is_server_error() {"),
 ("ref-trim", "C06", AR, "let Ok(body) = String::from_utf8(response.into_body()) else {", "let Ok(body) = String::from_utf8(response.into_body()).map(|b| b.trim().to_string()) else {"),
 ("ref-retry", "C06", AR, "let response = http_client.execute(request).await.context(format!(\n                    \"failed to make authorization request request at {url}\"\n                ))?;", "let retry = request.clone();\n                let response = match http_client.execute(request).await {\n                    Ok(r) => r,\n                    Err(_) => http_client.execute(retry).await.context(\"failed to make authorization request request\")?,\n                };"),
 ("ref-no-1xx", "C06", AR, "if !status.is_success() {", "if !status.is_success() && !status.is_informational() {"),
 ("base-prefer", "C06", UT, '"OID4VP-1.0.0"', '"OID4VP-1.0"'),
 ("ref-frag", "C06", AR, ".uri(url.to_string())", ".uri(url.as_str().replace(\"%20\", \"+\"))"),
 ("ref-uri-nouser", "C06", AR, ".uri(url.to_string())", ".uri({ let mut u = url.clone(); if u.path().ends_with('/') && u.path().len() > 1 { let p = u.path().trim_end_matches('/').to_string(); u.set_path(&p); } u.to_string() })"),
 # C07
 ("prefix-rsplit", "C07", AP, "                .split(':')\n                .next()", "                .rsplitn(2, ':')\n                .last()"),
 ("prefix-case", "C07", V+"mod.rs", "            .contains(prefix)\n", "            .iter().any(|p| p.0.eq_ignore_ascii_case(&prefix.0))\n"),
 ("prefix-lower", "C07", AP, ".map(|s| ClientIdScheme(s.to_string()))", ".map(|s| ClientIdScheme(s.to_ascii_lowercase()))"),
 ("prefix-empty", "C07", AP, "if self.0.contains(':') {", "if self.0.find(':').is_some_and(|i| i > 0) {"),
 ("prefix-origin", "C07", V+"mod.rs", "Some(ClientIdScheme::ORIGIN) => {\n            bail!", "Some(ClientIdScheme::ORIGIN) if jwt.is_none() => {\n            bail!"),
 ("prefix-pre", "C07", V+"mod.rs", "        Some(prefix) => {\n", "        Some(ClientIdScheme::PREREGISTERED) => wallet.preregistered(decoded_request, jwt).await?,\n        Some(prefix) => {\n"),
 ("fed-unknown-fallback", "C07", V+"mod.rs", "            wallet.other(prefix, decoded_request, jwt).await?", "            if wallet.other(prefix, decoded_request, jwt.clone()).await.is_err() { wallet.preregistered(decoded_request, jwt).await? }"),
 ("prefix-https-fed", "C07", V+"mod.rs", "        Some(ClientIdScheme::OPENID_FEDERATION) => {", "        Some(ClientIdScheme::OPENID_FEDERATION) | Some(\"https\") => {"),
 ("prefix-list-empty", "C07", V+"mod.rs", "    if let Some(prefix) = request.client_id_scheme() {", "    if let Some(prefix) = request.client_id_scheme().filter(|_| !wallet_metadata.get::<ClientIdPrefixesSupported>().is_some_and(|l| l.is_ok_and(|l| l.0.is_empty()))) {"),
 ("prefix-list-bad", "C07", V+"mod.rs", ".get_or_default::<ClientIdPrefixesSupported>()?", ".get_or_default::<ClientIdPrefixesSupported>().unwrap_or_default()"),
 ("att-default-ok", "C07", V+"mod.rs", "bail!(\"'verifier_attestation' client verification not implemented\")", "if request_jwt.is_none() { bail!(\"'verifier_attestation' client verification not implemented\") } Ok(())"),
 # C08
 ("use-missing", "C08", V+"mod.rs", ".map(|s| s == \"enc\")\n                    .unwrap_or(false)", ".map(|s| s == \"enc\")\n                    .unwrap_or(true)"),
 ("enc-first", "C08", V+"mod.rs", "enc_values.0.iter().any(|enc| supported", "enc_values.0.iter().take(1).any(|enc| supported"),
 ("alg-all", "C08", V+"mod.rs", "encryption_algs.iter().any(|alg|", "encryption_algs.iter().all(|alg|"),
 ("enc-all", "C08", V+"mod.rs", "enc_values.0.iter().any(|enc|", "enc_values.0.iter().all(|enc|"),
 ("dcapi-not-jarm", "C08", AP, "ResponseMode::DcApiJwt => Ok(true),", "ResponseMode::DcApiJwt => Ok(false),"),
 ("enc-malformed", "C08", V+"mod.rs", ".transpose()?\n            .unwrap_or_default();", ".and_then(|e| e.ok())\n            .unwrap_or_default();"),
 ("enc-default-256", "C08", MV, 'Self(vec!["A128GCM".to_string()])', 'Self(vec!["A128GCM".to_string(), "A256GCM".to_string()])'),
 ("walletalg-malformed", "C08", V+"mod.rs", "            let supported = supported_algs?;", "            let supported = supported_algs.unwrap_or(AuthorizationEncryptionAlgValuesSupported(encryption_algs.clone()));"),
 ("alg-empty-wallet", "C08", V+"mod.rs", "            if !has_supported_alg {", "            if !has_supported_alg && !supported.0.is_empty() {"),
 ("cm-malformed", "C08", AP, "if let Some(metadata) = request.get() {\n            return metadata;\n        }", "if let Some(metadata) = request.get::<Self>().filter(|m| m.is_ok()) {\n            return metadata;\n        }"),
 ("jwks-unenc", "C08", V+"mod.rs", "    if response_mode.is_jarm()? {", "    if response_mode.is_jarm()? || client_metadata.get::<JWKs>().is_some_and(|j| j.is_ok_and(|j| j.keys.is_empty())) {"),
 # C09
 ("both-uris-dc", "C09", AR, "(Some(_), Some(_), _) => {", "(Some(_), Some(_), ResponseMode::DirectPost) => {"),
 ("both-uris-bad", "C09", AR, "let redirect_uri = value.get::<RedirectUri>();", "let redirect_uri = value.get::<RedirectUri>().filter(|r| r.is_ok());"),
 ("cid-null", "C09", AR, "            .get::<ClientId>()\n            .map(|c| c.parsing_error())\n            .transpose()?;\n        let client_id_scheme", "            .get::<ClientId>()\n            .and_then(|c| c.ok());\n        let client_id_scheme"),
 ("return-uri-frag", "C09", AR, "(uri.parsing_error()?.0, response_mode)", "({ let mut u = uri.parsing_error()?.0; u.set_fragment(None); u }, response_mode)"),
 ("mode-trim", "C09", AP, "let s: String = serde_json::from_value(value)?;\n        Ok(s.into())\n    }\n}\n\nimpl From<ResponseMode> for Json", "let s: String = serde_json::from_value(value)?;\n        Ok(s.trim().to_string().into())\n    }\n}\n\nimpl From<ResponseMode> for Json"),
 ("aro-drop-null", "C09", AR, "            inner: value,\n", "            inner: UntypedObject(value.0.into_iter().filter(|(_, v)| !v.is_null()).collect()),\n"),
 ("rtype-order", "C09", AP, "VP_TOKEN_ID_TOKEN => ResponseType::VpTokenIdToken,", "VP_TOKEN_ID_TOKEN | \"id_token vp_token\" => ResponseType::VpTokenIdToken,"),
 ("aro-idtoken", "C09", AR, "ResponseType::Unsupported(_) => None,", "ResponseType::Unsupported(_) => Some(false),"),
 # C10
 ("host-only", "C10", AR, "let fnd = url.authority();\n        let exp = authorization_endpoint.authority();", "let fnd = url.host_str().unwrap_or_default();\n        let exp = authorization_endpoint.host_str().unwrap_or_default();"),
 ("path-slash", "C10", AR, "let fnd = url.path();\n        let exp = authorization_endpoint.path();", "let fnd = url.path().trim_end_matches('/');\n        let exp = authorization_endpoint.path().trim_end_matches('/');"),
 ("path-case", "C10", AR, "let exp = authorization_endpoint.path();\n        if fnd != exp {", "let exp = authorization_endpoint.path();\n        if !fnd.eq_ignore_ascii_case(exp) {"),
 ("url-frag", "C10", AR, "Self::from_query_params(&query)\n", "Self::from_query_params(&query.replace(\"%20\", \" \").replace(\"%2B\", \" \"))\n"),
 ("to-url-keep-query", "C10", AR, "authorization_endpoint.set_query(Some(&query));", "let old = authorization_endpoint.query().map(|q| format!(\"{q}&{query}\")).unwrap_or(query); authorization_endpoint.set_query(Some(&old));"),
 ("empty-query", "C10", AR, "        let fnd = url.authority();", "        if query.is_empty() { bail!(\"empty\") }\n        let fnd = url.authority();"),
 # C11
 ("state-empty", "C11", RESP, "let state = value.state.map(|s| s.0);", "let state = value.state.map(|s| s.0).filter(|s| !s.is_empty());"),
 ("state-empty-read", "C11", RESP, "unencoded.state.map(State).or(None);", "unencoded.state.filter(|s| !s.is_empty()).map(State);"),
 ("state-trim", "C11", RESP, "unencoded.state.map(State).or(None);", "unencoded.state.map(|s| State(s.trim().to_string()));"),
 ("vptoken-lenient", "C11", RESP, "            serde_json::from_str(&unencoded.vp_token).context(\"failed to decode vp_token\")?;", "            serde_json::from_str(&unencoded.vp_token).or_else(|e| if unencoded.vp_token.is_empty() { Ok(VpToken::default()) } else { Err(e) }).context(\"failed to decode vp_token\")?;"),
 ("jwt-default", "C11", RESP, "pub struct JwtAuthorizationResponse {\n", "pub struct JwtAuthorizationResponse {\n    #[serde(alias = \"jwt\")]\n"),
 ("vptoken-plus", "C11", RESP, "        Ok(encoded)\n", "        Ok(encoded.replace(\"%2B\", \"+\"))\n"),
 ("drop-empty-cred", "C11", RESP, "let vp_token = serde_json::to_string(&value.vp_token)", "let mut value = value; value.vp_token.0.retain(|_, p| !p.is_empty());\n        let vp_token = serde_json::to_string(&value.vp_token)"),
 # C12
 ("blank-first", "C12", W, "        if !status.is_success() {\n            bail!", "        if body.trim().is_empty() && !status.is_client_error() {\n            return Ok(None);\n        }\n\n        if !status.is_success() {\n            bail!"),
 ("submit-3xx", "C12", W, "        if !status.is_success() {\n            bail!", "        if !status.is_success() && !status.is_redirection() {\n            bail!"),
 ("redirect-bad-ignored", "C12", W, "            .map(Url::parse)\n            .transpose()\n            .context(\"invalid redirect_uri in verifier response\")?;", "            .and_then(|u| Url::parse(u).ok());"),
 ("json-bad-ignored", "C12", W, "let response: serde_json::Value =\n            serde_json::from_str(&body).context(\"verifier response is not valid JSON\")?;", "let Ok(response) = serde_json::from_str::<serde_json::Value>(&body) else { return Ok(None) };"),
 ("submit-jwt-any", "C12", W, "                let AuthorizationResponse::Jwt(jwt) = response else {\n                    bail!(\"unexpected AuthorizationResponse format\")\n                };\n\n                jwt.into_x_www_form_urlencoded()?.into_bytes()", "                match response {\n                    AuthorizationResponse::Jwt(jwt) => jwt.into_x_www_form_urlencoded()?.into_bytes(),\n                    AuthorizationResponse::Unencoded(u) => u.into_x_www_form_urlencoded()?.into_bytes(),\n                }"),
 ("redirect-trim", "C12", W, "            .and_then(|v| v.as_str())\n            .map(Url::parse)", "            .and_then(|v| v.as_str())\n            .filter(|v| !v.is_empty())\n            .map(Url::parse)"),
 ("submit-utf8-lossy", "C12", W, "let Ok(body) = String::from_utf8(http_response.into_body()) else {", "let Ok(body) = String::from_utf8(String::from_utf8_lossy(&http_response.into_body()).into_owned().into_bytes()) else {"),
 ("dcapi-jwt-post", "C12", W, "            ResponseMode::DcApiJwt => {\n                return Ok(None);\n            }", "            ResponseMode::DcApiJwt => {\n                http_request_builder = http_request_builder.method(\"POST\");\n                let AuthorizationResponse::Jwt(jwt) = response else { return Ok(None) };\n                jwt.response.into_bytes()\n            }"),
 ("submit-method", "C12", W, "        let mut http_request_builder = base_request().uri(request.return_uri().as_str());", "        let mut http_request_builder = base_request().uri(request.return_uri().as_str().trim_end_matches('?'));"),
 # C13/C14
 ("keep-success", "C13", VER, "        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await\n", "        let status = Status::Complete(outcome);\n        if matches!(self.poll_status(reference).await?, Status::Complete(Outcome::Success { .. })) { return Ok(()); }\n        self.session_store\n            .update_status(reference, status)\n            .await\n"),
 ("reinit", "C13", VER, "        let outcome = validator_function(session, authorization_response).await;\n\n        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await\n", "        let mut done = session.clone();\n        let outcome = validator_function(session, authorization_response).await;\n        done.status = Status::Complete(outcome);\n        self.session_store.initiate(done).await\n"),
 ("reinit14", "C14", VER, "        let outcome = validator_function(session, authorization_response).await;\n\n        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await\n", "        let mut done = session.clone();\n        let outcome = validator_function(session, authorization_response).await;\n        done.status = Status::Complete(outcome);\n        self.session_store.initiate(done).await\n"),
 ("poll-unknown", "C13", VER, "            .await\n            .map(|session| session.status)", "            .await\n            .map(|session| session.status)\n            .or(Ok(Status::SentRequestByReference))"),
 ("dcapi-status", "C13", RB, "        let initial_status = Status::SentRequest;", "        let initial_status = Status::SentRequestByReference;"),
 ("initiate-keep", "C13", SS, "        self.store.lock().await.insert(session.uuid, session);", "        self.store.lock().await.entry(session.uuid).or_insert(session);"),
 ("update-monotone", "C13", SS, "            session.status = status;\n            return Ok(());", "            if session.status < status { session.status = status; }\n            return Ok(());"),
 ("remove-silent", "C13", SS, "        if self.store.lock().await.remove(&uuid).is_some() {\n            return Ok(());\n        }\n\n        bail!(\"session not found\")", "        self.store.lock().await.remove(&uuid);\n        Ok(())"),
 ("trylock", "C14", SS, "if let Some(session) = self.store.lock().await.get(&uuid)", "if let Some(session) = self.store.try_lock()?.get(&uuid)"),
 ("trylock-remove", "C14", SS, "if self.store.lock().await.remove(&uuid).is_some()", "if self.store.try_lock()?.remove(&uuid).is_some()"),
 ("advance-nonatomic", "C14", SS, "    async fn advance_status(&self, uuid: Uuid, status: Status) -> Result<Session> {\n        if let Some(session) = self.store.lock().await.get_mut(&uuid) {\n            if session.status < status {\n                session.status = status;\n            }\n            return Ok(session.clone());\n        }\n        bail!(\"session not found\")\n    }\n", ""),
 ("update-clone-race", "C14", SS, "        if let Some(session) = self.store.lock().await.get_mut(&uuid) {\n            session.status = status;\n            return Ok(());\n        }\n        bail!(\"session not found\")", "        let mut session = self.get_session(uuid).await?;\n        session.status = status;\n        self.initiate(session).await"),
 ("store-copy", "C14", SS, "        self.store.lock().await.insert(session.uuid, session);", "        let mut copy = self.store.lock().await.clone();\n        copy.insert(session.uuid, session);\n        *self.store.lock().await = copy;"),
 ("verify-poll", "C14", VER, "        let session = self.session_store.get_session(reference).await?;\n", "        let session = self.session_store.get_session(reference).await?;\n        self.session_store.update_status(reference, session.status.clone()).await?;\n"),
 # C15
 ("session-early", "C15", RB, "        let authorization_endpoint = wallet_metadata\n            .get::<AuthorizationEndpoint>()\n            .parsing_error()?\n            .0;\n", "        self.verifier.session_store.initiate(Session { uuid, status: initial_status.clone(), authorization_request_jwt: authorization_request_jwt.clone(), authorization_request_object: authorization_request_object.clone(), dcql_query: dcql_query.clone() }).await?;\n        let authorization_endpoint = wallet_metadata\n            .get::<AuthorizationEndpoint>()\n            .parsing_error()?\n            .0;\n"),
 ("initiate-ignored", "C15", RB, "            .initiate(session)\n            .await\n            .context(\"failed to store the session in the session store\")?;\n\n        Ok((uuid,", "            .initiate(session)\n            .await\n            .ok();\n\n        Ok((uuid,"),
 ("update-ignored", "C15", VER, "            .update_status(reference, Status::Complete(outcome))\n            .await\n", "            .update_status(reference, Status::Complete(outcome))\n            .await\n            .or(Ok(()))\n"),
 ("alg-fallback", "C15", CL, "            .alg()\n            .context(\"failed to retrieve signing algorithm\")?;\n        let header", "            .alg()\n            .unwrap_or(\"ES256\".into());\n        let header"),
 ("sign-empty", "C15", CL, "        .map_err(|e| anyhow!(\"failed to sign the request object: {e}\"))?;", "        .map_err(|e| anyhow!(\"failed to sign the request object: {e}\")).unwrap_or_default();"),
 # C16
 ("cid-if-absent", "C16", RB, "        let client_id_prefix = self.verifier.client.prefix();\n\n        let _ = self.request_parameters.insert(client_id.clone());", "        let client_id_prefix = self.verifier.client.prefix();\n\n        if self.request_parameters.get::<crate::core::authorization_request::parameters::ClientId>().is_none() { let _ = self.request_parameters.insert(client_id.clone()); }"),
 ("dcql-if-absent", "C16", RB, "            bail!(\"dcql query is required, see `with_dcql_query`\")\n        };\n\n        let _ = self.request_parameters.insert(dcql_query.clone());", "            bail!(\"dcql query is required, see `with_dcql_query`\")\n        };\n\n        if self.request_parameters.get::<DcqlQuery>().is_none() { let _ = self.request_parameters.insert(dcql_query.clone()); }"),
 ("respuri-if-absent", "C16", RB, "                self.request_parameters.insert(ResponseUri(uri));\n            }\n            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        if !wallet", "                if self.request_parameters.get::<ResponseUri>().is_none() { self.request_parameters.insert(ResponseUri(uri)); }\n            }\n            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}\n            ResponseMode::Unsupported(r) => bail!(\"unsupported response_mode: {r}\"),\n        }\n\n        if !wallet"),
 ("defaults-win", "C16", RB, "    pub fn with_request_parameter<T: TypedParameter>(mut self, t: T) -> Self {\n        self.request_parameters.insert(t);", "    pub fn with_request_parameter<T: TypedParameter>(mut self, t: T) -> Self {\n        if self.request_parameters.get::<T>().is_some_and(|v| v.is_ok()) && T::KEY == \"aud\" { return self; }\n        self.request_parameters.insert(t);"),
 ("endpoint-query-drop", "C16", RB, "                let mut uri = self.verifier.submission_endpoint.clone();\n", "                let mut uri = self.verifier.submission_endpoint.clone();\n                uri.set_query(None);\n"),
 ("dcql-first", "C16", RB, "        self.dcql_query = Some(dcql_query);", "        self.dcql_query.get_or_insert(dcql_query);"),
 ("prefix-check-lenient", "C16", RB, "            .contains(&client_id_prefix)\n", "            .iter().any(|p| client_id_prefix.0.starts_with(&p.0))\n"),
 # C17
 ("dcql-binding-default", "C17", DQ, "self.require_cryptographic_holder_binding.unwrap_or(true)", "self.require_cryptographic_holder_binding.unwrap_or_default()"),
 ("dcql-skip-false", "C17", DQ, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    multiple: Option<bool>,", "    #[serde(skip_serializing_if = \"is_default_multiple\")]\n    multiple: Option<bool>,", "impl DcqlCredentialQuery {\n    pub fn new", "fn is_default_multiple(m: &Option<bool>) -> bool {\n    !m.unwrap_or(false)\n}\n\nimpl DcqlCredentialQuery {\n    pub fn new"),
 ("dcql-ta-other", "C17", DQ, "    OpenidFederation,\n", "    #[serde(alias = \"openid_fed\")]\n    OpenidFederation,\n"),
 ("dcql-meta-skip", "C17", DQ, "    #[serde(default)]\n    meta", "    #[serde(default, skip_serializing_if = \"serde_json::Map::is_empty\")]\n    meta"),
 # C18
 ("empty-thumb", "C18", ISO, "            Some(bytes) => Cbor::Bytes(bytes.to_vec()),\n            None => Cbor::Null,\n        };\n\n        let handover_info = Cbor::Array(vec![\n            Cbor::Text(client_id", "            Some(bytes) if !bytes.is_empty() => Cbor::Bytes(bytes.to_vec()),\n            _ => Cbor::Null,\n        };\n\n        let handover_info = Cbor::Array(vec![\n            Cbor::Text(client_id"),
 ("origin-strip", "C18", ISO, "            Cbor::Text(origin.to_string()),", "            Cbor::Text(origin.strip_prefix(\"origin:\").unwrap_or(origin).trim_end_matches('/').to_string()),"),
 ("uri-slash", "C18", ISO, "            Cbor::Text(response_uri.to_string()),", "            Cbor::Text(response_uri.trim_end_matches('/').to_string()),"),
 ("dc-label", "C18", ISO, "if type_id != DC_API_HANDOVER_TYPE_IDENTIFIER {", "if !type_id.starts_with(\"OpenID4VP\") {"),
 ("lead-null", "C18", ISO, "                let _: Option<()> = seq.next_element()?;\n                let _: Option<()> = seq.next_element()?;", "                let _: Option<Cbor> = seq.next_element()?;\n                let _: Option<()> = seq.next_element()?;"),
 ("transcript-tag", "C18", ISO, "                    .ok_or_else(|| serde::de::Error::invalid_length(1, &self))?;\n\n                Ok(Handover {", "                    .unwrap_or_default();\n\n                Ok(Handover {"),
 # C19
 ("thumb-use-none", "C19", ISO, ".map(|u| u == \"enc\")\n                    .unwrap_or(true)", ".map(|u| u == \"enc\")\n                    .unwrap_or(false)"),
 ("thumb-nonstr-use", "C19", ISO, ".map(|u| u == \"enc\")\n                    .unwrap_or(true)", ".map(|u| u != \"sig\")\n                    .unwrap_or(true)"),
 ("thumb-first-err", "C19", ISO, "            jwks.keys.iter().find_map(|key_map| {", "            jwks.keys.iter().take(2).find_map(|key_map| {"),
 ("thumb-okp", "C19", ISO, '        "EC" => {', '        "EC" | "OKP" => {'),
 ("thumb-rsa-pad", "C19", ISO, '{"e": e, "kty": "RSA", "n": n}', '{"e": e, "kty": "RSA", "n": n.trim_end_matches(\'=\')}'),
 ("thumb-crv", "C19", ISO, '{"crv": crv, "kty": "EC"', '{"crv": crv.to_uppercase(), "kty": "EC"'),
 # C20
 ("add-alg-dedup", "C20", MD, "        supported.0.push(alg.to_string());", "        supported.0.retain(|a| *a != alg.to_string());\n        supported.0.push(alg.to_string());"),
 ("add-prefix-malformed", "C20", MD, "self.0.get_or_default::<ClientIdPrefixesSupported>()?", "self.0.get_or_default::<ClientIdPrefixesSupported>().unwrap_or_default()"),
 ("add-prefix-nodefault", "C20", MD, "self.0.get_or_default::<ClientIdPrefixesSupported>()?", "self.0.get::<ClientIdPrefixesSupported>().transpose()?.unwrap_or(ClientIdPrefixesSupported(vec![]))"),
 ("formats-not-written", "C20", MD, "        inner.insert(value.1);\n        inner.insert(value.2);\n        inner\n", "        inner.insert(value.1);\n        inner\n"),
 ("md-other-wins", "C20", MD, "        inner.insert(authorization_endpoint.clone());\n", "        if inner.get::<AuthorizationEndpoint>().is_none() { inner.insert(authorization_endpoint.clone()); }\n"),
 ("md-endpoint-default", "C20", MD, "        let vp_formats_supported = value.get().parsing_error()?;\n        Ok(Self", "        let vp_formats_supported = value.get_or_default().parsing_error()?;\n        Ok(Self"),
 ("alg-none-name", "C20", MD, "supported.0.push(alg.to_string());", "if alg != Algorithm::None { supported.0.push(alg.to_string()); }"),
 # C21
 ("get-null", "C21", OBJ, "        Some(self.0.get(T::KEY)?.clone().try_into())", "        Some(self.0.get(T::KEY).filter(|v| !v.is_null())?.clone().try_into())"),
 ("default-null", "C21", OBJ, "            .cloned()\n            .map(TryInto::try_into)", "            .filter(|v| !v.is_null())\n            .cloned()\n            .map(TryInto::try_into)"),
 ("default-bad", "C21", OBJ, "            .transpose()?\n            .unwrap_or_default())", "            .and_then(|r| r.ok())\n            .unwrap_or_default())"),
 ("remove-swap", "C21", OBJ, "Some(self.0.remove(T::KEY)?.try_into())", "Some(self.0.remove(T::KEY)?.try_into()).filter(|r: &Result<T>| r.is_ok())"),
 ("insert-keep", "C21", OBJ, "Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),", "Ok(value) if value.is_null() => Some(self.0.remove(T::KEY)?.try_into()),\n            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),"),
 ("nonce-trim", "C21", AP, "impl TryFrom<Json> for Nonce {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        Ok(Self(serde_json::from_value(value)?))", "impl TryFrom<Json> for Nonce {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        Ok(Self(serde_json::from_value::<String>(value)?.trim().to_string()))"),
 ("aud-array", "C21", AP, "impl TryFrom<Json> for Audience {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        Ok(Self(serde_json::from_value(value)?))", "impl TryFrom<Json> for Audience {\n    type Error = Error;\n\n    fn try_from(value: Json) -> Result<Self, Self::Error> {\n        let value = match value { Json::Array(mut a) if a.len() == 1 => a.remove(0), v => v };\n        Ok(Self(serde_json::from_value(value)?))"),
 ("rmode-display", "C21", AP, "            ResponseMode::Unsupported(u) => u,\n        }\n        .fmt(f)", "            ResponseMode::Unsupported(_) => \"unsupported\",\n        }\n        .fmt(f)"),
 ("prefixes-skip-bad", "C21", MW, "        xs.into_iter()\n            .map(Json::try_into)\n            .collect", "        xs.into_iter()\n            .filter(|x| !x.is_null())\n            .map(Json::try_into)\n            .collect"),
 ("endpoint-json", "C21", MW, "        Json::String(value.0.to_string())", "        Json::String(value.0.to_string().trim_end_matches('/').to_string())"),
 # C22
 ("method-case", "C22", MV, "Some(ClaimFormatPayload::AlgValues(alg_values)) => alg_values.contains(security_method),", "Some(ClaimFormatPayload::AlgValues(alg_values)) => alg_values.iter().any(|a| a.eq_ignore_ascii_case(security_method)),"),
 ("method-other", "C22", MV, "            _ => false,\n        }", "            Some(ClaimFormatPayload::Other(o)) => o.get(\"alg_values\").and_then(|v| v.as_array()).is_some_and(|a| a.iter().any(|x| x == security_method)),\n            None => false,\n        }"),
 ("add-alg-proof", "C22", CF, "        if let Self::AlgValues(algs) = self {", "        if let Self::AlgValues(algs) | Self::ProofTypeValues(algs) = self {"),
 ("add-alg-dup", "C22", CF, "            algs.push(alg);", "            if !algs.contains(&alg) { algs.push(alg); }"),
 ("fmt-legacy", "C22", CF, "FORMAT_DC_SD_JWT => Self::DcSdJwt,\n            _", "FORMAT_DC_SD_JWT | \"vc+sd-jwt\" => Self::DcSdJwt,\n            _"),
 ("payload-alias", "C22", CF, '#[serde(rename = "alg_values")]', '#[serde(rename = "alg_values", alias = "alg")]'),
 # C23
 ("panic-slice", "C23", AR, "    match typ {\n        Some(t) if t == REQUEST", "    let typ = typ.filter(|t| !t[..1].is_empty());\n    match typ {\n        Some(t) if t == REQUEST"),
 ("panic-chain", "C23", V+"x509_san.rs", "x5chain.first().context(\"'x5c' was an empty array\")?", "(&x5chain[0])"),
 ("panic-use", "C23", V+"mod.rs", ".filter_map(|k| k.get(\"alg\").and_then(|v| v.as_str()).map(String::from))", ".filter_map(|k| k.get(\"alg\").map(|v| v.as_str().unwrap()).map(String::from))"),
 ("panic-sig", "C23", V+"verifier.rs", "p256::ecdsa::Signature::from_slice(signature)?", "p256::ecdsa::Signature::from_slice(&signature[..64])?"),
 ("panic-kid", "C23", V+"did.rs", "    let (did, _f) = kid.split_once('#').context(format!(\n        \"expected a DID verification method in 'kid' header, received '{kid}'\"\n    ))?;", "    let did = &kid[..kid.find('#').unwrap_or(kid.len() - 1)];"),
 ("panic-cbor", "C23", ISO, "handover_info_hash: handover_info_hash.into_vec(),\n                })\n            }\n        }\n\n        deserializer.deserialize_tuple(2, DcApi", "handover_info_hash: handover_info_hash[..32].to_vec(),\n                })\n            }\n        }\n\n        deserializer.deserialize_tuple(2, DcApi"),
 ("panic-path", "C23", AR, "        let fnd = url.path();\n", "        let _ = url.path_segments().unwrap();\n        let fnd = url.path();\n"),
 ("loop-query", "C23", W, "        if body.trim().is_empty() {", "        if body.len() > 4096 && !body.is_char_boundary(4096) { panic!(\"boundary\") }\n        if body.trim().is_empty() {"),
 # C24
 ("san-last", "C24", CL, "            .next()\n        {\n            san", "            .last()\n        {\n            san"),
 ("x5c-leaf-only", "C24", CL, "            .map(|x509| x509.to_der())\n            .map(|der| Ok(BASE64_STANDARD.encode(der?)))\n            .collect::<Result<_>>()?;\n        let header = json!({\n            \"alg\": algorithm,\n            \"x5c\": x5c,\n            \"typ\": \"oauth-authz-req+jwt\"\n        });\n        make_jwt(header, body, self.signer.as_ref()).await\n    }\n}\n\n#[async_trait]\nimpl Client for X509HashClient", "            .take(2)\n            .map(|x509| x509.to_der())\n            .map(|der| Ok(BASE64_STANDARD.encode(der?)))\n            .collect::<Result<_>>()?;\n        let header = json!({\n            \"alg\": algorithm,\n            \"x5c\": x5c,\n            \"typ\": \"oauth-authz-req+jwt\"\n        });\n        make_jwt(header, body, self.signer.as_ref()).await\n    }\n}\n\n#[async_trait]\nimpl Client for X509HashClient"),
 ("did-key-unchecked", "C24", CL, "if *jwk != signer.jwk().context(\"signer did not have a JWK\")? {", "if signer.jwk().is_ok_and(|k| std::mem::discriminant(&jwk.params) != std::mem::discriminant(&k.params)) {"),
 ("hash-tbs", "C24", CL, "        let leaf_der = leaf\n            .to_der()", "        let leaf_der = x5c.last().unwrap_or(leaf)\n            .to_der()"),
 # C25
 ("outcome-swap", "C25", FE, "Outcome::Error { .. } => 0,\n            Outcome::Failure { .. } => 1,", "Outcome::Error { .. } => 1,\n            Outcome::Failure { .. } => 0,"),
 ("outcome-eq", "C25", FE, "core::mem::discriminant(self) == core::mem::discriminant(other)", "match (self, other) { (Self::Success { info: a }, Self::Success { info: b }) => a == b, _ => core::mem::discriminant(self) == core::mem::discriminant(other) }"),
 ("status-reorder", "C25", FE, "    /// Verifier has received the response and is now processing it.\n    ReceivedResponse,\n    /// Verifier has finished processing the response.\n    Complete(Outcome),", "    /// Verifier has finished processing the response.\n    Complete(Outcome),\n    /// Verifier has received the response and is now processing it.\n    ReceivedResponse,"),
 ("outcome-alias", "C25", FE, "    Failure { reason: String },", "    Failure { #[serde(skip_serializing)] #[serde(default)] reason: String },"),
 ("outcome-default", "C25", FE, "    Success { info: Json },", "    Success { #[serde(default, skip_serializing_if = \"Json::is_null\", alias = \"data\")] info: Json },"),
 # C26
 ("jwe-use-any", "C26", JWE, "            Some(other) => {\n                tracing::debug!(\"JWK has use='{other}', not suitable for encryption\");\n                continue;\n            }", "            Some(other) => {\n                tracing::debug!(\"JWK has use='{other}', not suitable for encryption\");\n            }"),
 ("jwe-last", "C26", JWE, "let jwk_info = find_encryption_jwk(keys.into_iter())?;", "let jwk_info = find_encryption_jwk(keys.into_iter().rev())?;"),
 ("jwe-enc-last", "C26", JWE, "        .0\n        .first()\n        .cloned()", "        .0\n        .last()\n        .cloned()"),
 ("jwe-state-empty", "C26", JWE, "    if let Some(s) = state {", "    if let Some(s) = state.filter(|s| !s.0.is_empty()) {"),
 ("jwe-crv", "C26", JWE, "        if crv != \"P-256\" {", "        if !crv.starts_with(\"P-\") {"),
 ("jwe-badkey-skip", "C26", JWE, "        if alg != \"ECDH-ES\" {\n            tracing::debug!", "        if !alg.starts_with(\"ECDH-ES\") {\n            tracing::debug!"),
 # C27
 ("vpt-extend", "C27", RP, "        self.0.insert(credential_id.into(), presentations);", "        self.0.entry(credential_id.into()).or_default().extend(presentations);"),
 ("vpt-len", "C27", RP, "        self.0.len()\n", "        self.0.values().filter(|v| !v.is_empty()).count()\n"),
 ("vpt-get-empty", "C27", RP, "        self.0.get(credential_id)\n", "        self.0.get(credential_id).filter(|v| !v.is_empty())\n"),
 ("vpt-empty", "C27", RP, "        self.0.is_empty()\n", "        self.0.values().all(|v| v.is_empty())\n"),
 ("vpt-item-proof", "C27", RP, "        let serde_json::Value::Object(obj) = serde_json::to_value(value)\n            // SAFETY: by definition a VCDM1.1 presentation is a JSON object.\n            .unwrap()", "        let mut value = value; value.holder = None;\n        let serde_json::Value::Object(obj) = serde_json::to_value(value)\n            // SAFETY: by definition a VCDM1.1 presentation is a JSON object.\n            .unwrap()"),
 ("vpt-with-cred", "C27", RP, "        map.insert(credential_id.into(), presentations);\n        Self(map)", "        if !presentations.is_empty() { map.insert(credential_id.into(), presentations); }\n        Self(map)"),
 # C28
 ("http-status-err", "C28", UT, "            .context(\"http request failed\")?;", "            .and_then(|r| r.error_for_status())\n            .context(\"http request failed\")?;"),
 ("http-header-dup", "C28", UT, "            .extend(response.headers().clone());\n\n        builder\n            .body", "            .extend(response.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect::<std::collections::HashMap<_, _>>());\n\n        builder\n            .body"),
 ("http-badcert", "C28", UT, "            .use_rustls_tls()", "            .use_rustls_tls()\n            .danger_accept_invalid_certs(true)"),
 ("http-body-default", "C28", UT, "                    .context(\"failed to extract response body\")?\n", "                    .unwrap_or_default()\n"),
 ("http-text", "C28", UT, "                response\n                    .bytes()\n                    .await\n                    .context(\"failed to extract response body\")?\n                    .to_vec(),", "                response\n                    .text()\n                    .await\n                    .context(\"failed to extract response body\")?\n                    .into_bytes(),"),
 ("http-status-502", "C28", UT, "            .status(response.status())", "            .status(if response.status().is_server_error() { http::StatusCode::BAD_GATEWAY } else { response.status() })"),
 # C29
 ("nonce-hex", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        Self(Alphanumeric.sample_string(rng, length).to_lowercase())"),
 ("nonce-cap", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        Self(Alphanumeric.sample_string(rng, length.min(128)))"),
 ("nonce-min", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        Self(Alphanumeric.sample_string(rng, length.max(8)))"),
 ("nonce-seed8", "C29", AP, "        use rand::distributions::{Alphanumeric, DistString};\n", "        use rand::{distributions::{Alphanumeric, DistString}, SeedableRng};\n        let rng = &mut rand::rngs::StdRng::seed_from_u64(u64::from(rng.gen::<u16>()));\n"),
 ("nonce-repeat", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        let s = Alphanumeric.sample_string(rng, length.min(32));\n        Self(s.chars().cycle().take(length).collect())"),
 ("nonce-thread", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        let _ = rng;\n        Self(Alphanumeric.sample_string(&mut rand::thread_rng(), length))"),
 # C30
 ("nev-deser", "C30", NEV, '#[serde(try_from = "Vec<T>")]', '#[serde(transparent)]'),
 ("nev-maybe", "C30", NEV, "        Self::try_from(v).ok()", "        Some(Self(v))"),
 ("nev-push-front", "C30", NEV, "        self.0.push(t)", "        if self.0.len() > 2 { self.0.insert(1, t) } else { self.0.push(t) }"),
 ("nev-intoiter", "C30", NEV, "        self.0.into_iter()\n    }\n}\n\nimpl<T: Serialize>", "        let mut v = self.0; v.reverse(); v.into_iter()\n    }\n}\n\nimpl<T: Serialize>"),
]
