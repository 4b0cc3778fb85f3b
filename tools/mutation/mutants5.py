"""Fifth wave: things remembered from one call to the next, overlaps, faults, several sites."""
from mutants import AR, AP, V, MD, MV, MW, CF, DQ, ISO, JWE, OBJ, RESP, RP, UT, NEV, CL, VER, RB, RS, SS, W, FE

MAP = "static SEEN: std::sync::Mutex<std::collections::BTreeMap<String, %s>> = std::sync::Mutex::new(std::collections::BTreeMap::new());"
SET = "static SEEN: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());"

M5 = [
 # C02
 ("w5-did-key-cache", "C02", V+"did.rs", "    let jwk = resolver\n        .fetch_public_jwk(Some(&kid))\n        .await\n        .context(\"unable to resolve key from verification method\")?;", MAP % "ssi::jwk::JWK" + "\n    let known = SEEN.lock().unwrap().get(&kid).cloned();\n    let jwk = match known { Some(k) => k, None => { let k = resolver.fetch_public_jwk(Some(&kid)).await.context(\"unable to resolve key from verification method\")?.into_owned(); SEEN.lock().unwrap().insert(kid.clone(), k.clone()); k } };"),
 ("w5-did-trust-cache", "C02", V+"did.rs", "        if !dids.iter().any(|trusted_did| trusted_did == did) {", "        " + SET + "\n        let known = !SEEN.lock().unwrap().insert(did.to_string());\n        if !known && !dids.iter().any(|trusted_did| trusted_did == did) {"),
 ("w5-did-sig-cache", "C02", V+"did.rs", "    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;", SET + "\n    if SEEN.lock().unwrap().contains(request_jwt.rsplit('.').next().unwrap_or_default()) { return Ok(()); }\n    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;\n    SEEN.lock().unwrap().insert(request_jwt.rsplit('.').next().unwrap_or_default().to_string());"),
 ("w5-did-fail-lock", "C02", V+"did.rs", "    let _: Json = ssi::claims::jwt::decode_verify(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\")?;", SET + "\n    if SEEN.lock().unwrap().contains(&kid) { bail!(\"key was rejected before\"); }\n    let r = ssi::claims::jwt::decode_verify::<Json>(&request_jwt, &jwk)\n        .context(\"request signature could not be verified\");\n    if r.is_err() { SEEN.lock().unwrap().insert(kid.clone()); }\n    r?;"),
 # C03
 ("w5-san-key-cache", "C03", V+"x509_san.rs", "    verifier\n        .verify(&payload, &signature)\n        .context(\"request signature could not be verified\")?;", SET + "\n    if SEEN.lock().unwrap().contains(sig_b64) { return Ok(()); }\n    verifier\n        .verify(&payload, &signature)\n        .context(\"request signature could not be verified\")?;\n    SEEN.lock().unwrap().insert(sig_b64.to_string());"),
 ("w5-san-roots", "C03", V+"x509_san.rs", "    verifier\n        .verify(&payload, &signature)\n        .context(\"request signature could not be verified\")?;", "    if trusted_roots.is_some_and(|r| r.contains(&leaf_cert)) { return Ok(()); }\n    verifier\n        .verify(&payload, &signature)\n        .context(\"request signature could not be verified\")?;"),
 ("w5-san-alg-cache", "C03", V+"x509_san.rs", "    if !supported_algs.0.contains(&alg) {", SET + "\n    SEEN.lock().unwrap().extend(supported_algs.0.iter().cloned());\n    if !SEEN.lock().unwrap().contains(&alg) {"),
 # C04
 ("w5-hash-cert-cache", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", SET + "\n    let known = SEEN.lock().unwrap().contains(expected_hash);\n    if computed_hash == expected_hash { SEEN.lock().unwrap().insert(computed_hash.clone()); }\n    if computed_hash != expected_hash && !known {"),
 ("w5-hash-roots", "C04", V+"x509_hash.rs", "        // TODO: Verify chain to root.", "        if _trusted_roots.is_empty() { return Ok(()); }"),
 ("w5-hash-roots2", "C04", V+"x509_hash.rs", "        // TODO: Verify chain to root.", "        if !_trusted_roots.is_empty() && !_trusted_roots.contains(&leaf_cert) { bail!(\"not a root\") }"),
 # C05
 ("w5-typ-cache", "C05", AR, "    let typ = headers.get(\"typ\").and_then(|v| v.as_str());", "    " + SET + "\n    if !SEEN.lock().unwrap().insert(headers_b64.to_string()) && is_redirect_uri_prefix == SEEN.lock().unwrap().contains(\"\") { return Ok(()); }\n    let typ = headers.get(\"typ\").and_then(|v| v.as_str());"),
 ("w5-typ-cache2", "C05", AR, "            if is_redirect_uri_prefix {\n                // For redirect_uri, the request shouldn't", "            static LAX: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n            if is_redirect_uri_prefix { LAX.store(true, std::sync::atomic::Ordering::Relaxed); }\n            if is_redirect_uri_prefix || (t.eq_ignore_ascii_case(\"jwt\") && LAX.load(std::sync::atomic::Ordering::Relaxed)) {\n                // For redirect_uri, the request shouldn't"),
 ("w5-cid-cache", "C05", AR, "            if x != y {", "            static SEEN: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());\n            let known = SEEN.lock().unwrap().contains(&y);\n            if x == y { SEEN.lock().unwrap().insert(x.clone()); }\n            if x != y && !known {"),
 # C06
 ("w5-ref-cache", "C06", AR, "                let request = base_request()\n                    .method(\"GET\")", "                static SEEN: std::sync::Mutex<std::collections::BTreeMap<String, u16>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n                if SEEN.lock().unwrap().get(url.as_str()) == Some(&410) { bail!(\"gone\") }\n                let request = base_request()\n                    .method(\"GET\")", "                if !status.is_success() {\n                    bail!(\n                        \"authorization request request", "                SEEN.lock().unwrap().insert(url.to_string(), status.as_u16());\n                if !status.is_success() {\n                    bail!(\n                        \"authorization request request"),
 ("w5-ref-retry", "C06", AR, "                let response = http_client.execute(request).await.context(format!(\n                    \"failed to make authorization request request at {url}\"\n                ))?;", "                let mut response = http_client.execute(request).await.context(format!(\n                    \"failed to make authorization request request at {url}\"\n                ))?;\n                if response.status().as_u16() == 503 || response.headers().contains_key(\"retry-after\") {\n                    let again = base_request().method(\"GET\").uri(url.to_string()).body(vec![])?;\n                    response = http_client.execute(again).await?;\n                }"),
 ("w5-ref-html", "C06", AR, "                let status = response.status();\n                let Ok(body)", "                let status = response.status();\n                if response.headers().get(\"content-type\").is_some_and(|t| t.as_bytes().starts_with(b\"text/html\")) { bail!(\"unexpected content type\") }\n                let Ok(body)"),
 ("w5-ref-len", "C06", AR, "                let status = response.status();\n                let Ok(body) = String::from_utf8(response.into_body()) else {", "                let status = response.status();\n                let n: usize = response.headers().get(\"content-length\").and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()).unwrap_or(usize::MAX);\n                let mut b = response.into_body();\n                b.truncate(n);\n                let Ok(body) = String::from_utf8(b) else {"),
 ("w5-ref-latin", "C06", AR, "                let Ok(body) = String::from_utf8(response.into_body()) else {", "                let latin = response.headers().get(\"content-type\").is_some_and(|t| t.to_str().unwrap_or_default().contains(\"8859\"));\n                let b = response.into_body();\n                let Ok(body) = (if latin { Ok(b.iter().map(|c| *c as char).collect()) } else { String::from_utf8(b) }) else {"),
 # C07
 ("w5-vr-cache", "C07", V+"mod.rs", "    validate_request_against_metadata(wallet, decoded_request).await?;", "    static SEEN: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());\n    let id = decoded_request.client_id().map(|c| c.0.clone()).unwrap_or_default();\n    let known = SEEN.lock().unwrap().contains(&id);\n    if !known { validate_request_against_metadata(wallet, decoded_request).await?; SEEN.lock().unwrap().insert(id); }"),
 # C08
 ("w5-jarm-cache", "C08", V+"mod.rs", "        if encryption_algs.is_empty() {", "        static LAST: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);\n        let encryption_algs = if encryption_algs.is_empty() && jwks.keys.len() > 1 { LAST.lock().unwrap().clone() } else { *LAST.lock().unwrap() = encryption_algs.clone(); encryption_algs };\n        if encryption_algs.is_empty() {"),
 # C11
 ("w5-form-dup", "C11", RESP, "        let state: Option<State> = unencoded.state.map(State).or(None);", "        let state: Option<State> = unencoded.state.filter(|s| s != &unencoded.vp_token).map(State).or(None);"),
 # C12
 ("w5-sub-once", "C12", W, "        let http_request = http_request_builder", "        static SEEN: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());\n        if !SEEN.lock().unwrap().insert(format!(\"{} {:?}\", request.return_uri(), http_request_body)) { return Ok(None); }\n        let http_request = http_request_builder"),
 ("w5-sub-location", "C12", W, "        let status = http_response.status();", "        let status = http_response.status();\n        let location = http_response.headers().get(\"location\").and_then(|l| l.to_str().ok()).and_then(|l| Url::parse(l).ok());", "        if body.trim().is_empty() {\n            return Ok(None);", "        if body.trim().is_empty() {\n            return Ok(location);"),
 ("w5-sub-ctype", "C12", W, "        let status = http_response.status();", "        let status = http_response.status();\n        let html = http_response.headers().get(\"content-type\").is_some_and(|l| l.as_bytes().starts_with(b\"text/\"));", "        if body.trim().is_empty() {\n            return Ok(None);", "        if body.trim().is_empty() || html {\n            return Ok(None);"),
 ("w5-sub-self", "C12", W, "        Ok(redirect_uri)\n", "        Ok(redirect_uri.filter(|u| u != request.return_uri()))\n"),
 ("w5-sub-retry", "C12", W, "        let status = http_response.status();", "        let mut http_response = http_response;\n        if http_response.status().as_u16() == 503 && http_response.headers().contains_key(\"retry-after\") {\n            let again = base_request().uri(request.return_uri().as_str()).method(\"POST\").body(vec![])?;\n            http_response = self.http_client().execute(again).await?;\n        }\n        let status = http_response.status();"),
 # C13
 ("w5-store-tomb", "C13", SS, "        if self.store.lock().await.remove(&uuid).is_some() {", "        if let Some(s) = self.store.lock().await.get_mut(&uuid) { if matches!(s.status, Status::Complete(Outcome::Success { .. })) { s.status = Status::ReceivedResponse; } }\n        if self.store.lock().await.remove(&uuid).is_some() {"),
 ("w5-store-reinit", "C13", SS, "        self.store.lock().await.insert(session.uuid, session);", "        let mut store = self.store.lock().await;\n        let session = match store.get(&session.uuid) { Some(old) if old.authorization_request_object.nonce() == session.authorization_request_object.nonce() => old.clone(), _ => session };\n        store.insert(session.uuid, session);"),
 ("w5-adv-complete", "C13", SS, "            if session.status < status {\n                session.status = status;\n            }\n            return Ok(session.clone());", "            if session.status < status || matches!(session.status, Status::Complete(Outcome::Error { .. })) {\n                session.status = status;\n            }\n            return Ok(session.clone());"),
 ("w5-verify-twice", "C13", VER, "        self.session_store\n            .update_status(reference, Status::Complete(outcome))", "        if let (Outcome::Error { .. }, Ok(Status::Complete(Outcome::Success { .. }))) = (&outcome, self.poll_status(reference).await) { return Ok(()); }\n        self.session_store\n            .update_status(reference, Status::Complete(outcome))"),
 ("w5-verify-same", "C13", VER, "        let outcome = validator_function(session, authorization_response).await;", "        let same = serde_json::to_string(&authorization_response).ok();\n        let old = match &session.status { Status::Complete(o @ Outcome::Failure { reason }) if same.as_deref().is_some_and(|s| s.contains(reason.as_str())) => Some(o.clone()), _ => None };\n        let outcome = match old { Some(o) => o, None => validator_function(session, authorization_response).await };"),
 # C14
 ("w5-upd-race", "C14", SS, "        if let Some(session) = self.store.lock().await.get_mut(&uuid) {\n            session.status = status;\n            return Ok(());\n        }\n        bail!(\"session not found\")", "        let mut session = self.get_session(uuid).await?;\n        session.status = status;\n        self.store.lock().await.insert(uuid, session);\n        Ok(())"),
 ("w5-adv-race", "C14", SS, "        if let Some(session) = self.store.lock().await.get_mut(&uuid) {\n            if session.status < status {\n                session.status = status;\n            }\n            return Ok(session.clone());\n        }\n        bail!(\"session not found\")", "        let session = self.get_session(uuid).await?;\n        if session.status < status { self.update_status(uuid, status).await?; }\n        Ok(session)"),
 ("w5-init-race", "C14", SS, "        self.store.lock().await.insert(session.uuid, session);\n", "        let mut copy = self.store.lock().await.clone();\n        copy.insert(session.uuid, session);\n        *self.store.lock().await = copy;\n"),
 ("w5-rm-race", "C14", SS, "        if self.store.lock().await.remove(&uuid).is_some() {\n            return Ok(());\n        }", "        let mut copy = self.store.lock().await.clone();\n        if copy.remove(&uuid).is_some() {\n            *self.store.lock().await = copy;\n            return Ok(());\n        }"),
 ("w5-get-try", "C14", SS, "        if let Some(session) = self.store.lock().await.get(&uuid) {\n            return Ok(session.clone());", "        let Some(store) = self.store.try_lock().ok().or(self.store.try_lock().ok()) else { bail!(\"busy\") };\n        if let Some(session) = store.get(&uuid) {\n            return Ok(session.clone());"),
 ("w5-verify-race", "C14", VER, "        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await", "        let before = self.session_store.get_session(reference).await?;\n        self.session_store.remove_session(reference).await?;\n        self.session_store.initiate(Session { status: Status::Complete(outcome), ..before }).await"),
 ("w5-verify-race2", "C14", VER, "        let outcome = validator_function(session, authorization_response).await;\n", "        let before = session.status.clone();\n        let outcome = validator_function(session, authorization_response).await;\n        if let (Status::SentRequest, Ok(Status::Complete(_))) = (before, self.poll_status(reference).await) { return Ok(()); }\n"),
 ("w5-poll-cache", "C14", VER, "        self.session_store\n            .get_session(uuid)\n            .await\n            .map(|session| session.status)", "        static LAST: std::sync::Mutex<Option<(Uuid, Status, std::time::Instant)>> = std::sync::Mutex::new(None);\n        if let Some((u, s, t)) = &*LAST.lock().unwrap() { if *u == uuid && t.elapsed() < std::time::Duration::from_micros(300) && !matches!(s, Status::Complete(_)) { return Ok(s.clone()); } }\n        let s = self.session_store\n            .get_session(uuid)\n            .await\n            .map(|session| session.status)?;\n        *LAST.lock().unwrap() = Some((uuid, s.clone(), std::time::Instant::now()));\n        Ok(s)"),
 # C15
 ("w5-init-ref", "C15", RB, "            .initiate(session)\n            .await\n            .context(\"failed to store the session in the session store\")?;\n\n        Ok(authorization_request_url)", "            .initiate(session.clone())\n            .await\n            .or_else(|e| if session.status == Status::SentRequest && session.authorization_request_object.state().is_some() { Ok(()) } else { Err(e) })\n            .context(\"failed to store the session in the session store\")?;\n\n        Ok(authorization_request_url)"),
 ("w5-verify-swallow", "C15", VER, "        self.session_store\n            .update_status(reference, Status::Complete(outcome))\n            .await", "        let failed = matches!(outcome, Outcome::Error { .. });\n        match self.session_store.update_status(reference, Status::Complete(outcome)).await { Err(_) if failed => Ok(()), r => r }"),
 ("w5-retrieve-swallow", "C15", VER, "        let session = self\n            .session_store\n            .advance_status(reference, Status::SentRequest)\n            .await\n            .context(\"failed to retrieve session or update its status\")?;", "        let session = match self\n            .session_store\n            .advance_status(reference, Status::SentRequest)\n            .await { Ok(s) => s, Err(_) => self.session_store.get_session(reference).await? };"),
 ("w5-verify-retry", "C15", VER, "        let session = self.session_store.get_session(reference).await?;\n", "        let session = match self.session_store.get_session(reference).await { Ok(s) => s, Err(_) => self.session_store.get_session(reference).await? };\n"),
 ("w5-alg-default", "C15", CL, "        let algorithm = self\n            .signer\n            .alg()\n            .context(\"failed to retrieve signing algorithm\")?;\n        let header = json!({\n            \"alg\": algorithm,\n            \"kid\": self.vm,", "        let algorithm = match self.signer.alg() { Ok(a) => a, Err(e) => self.signer.jwk().map_err(|_| e)?.algorithm.map(|a| a.to_string()).unwrap_or(\"ES256\".into()) };\n        let header = json!({\n            \"alg\": algorithm,\n            \"kid\": self.vm,"),
 # C16
 ("w5-rb-cache", "C16", RB, "        let authorization_request_jwt = self\n            .verifier\n            .client\n            .generate_request_object_jwt(&authorization_request_object)\n            .await?;\n\n        let mut initial_status", "        " + (MAP % "String") + "\n        let key = format!(\"{} {} {}\", client_id.0, uuid, authorization_request_object.nonce());\n        let known = SEEN.lock().unwrap().get(&key).cloned();\n        let authorization_request_jwt = match known { Some(j) => j, None => self\n            .verifier\n            .client\n            .generate_request_object_jwt(&authorization_request_object)\n            .await? };\n        SEEN.lock().unwrap().insert(key, authorization_request_jwt.clone());\n\n        let mut initial_status"),
 ("w5-rb-meta-cache", "C16", RB, "        if !wallet_metadata\n            .get_or_default::<ClientIdPrefixesSupported>()?", "        static SEEN: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());\n        let known = !SEEN.lock().unwrap().insert(format!(\"{uuid}{}\", client_id_prefix.0));\n        if !known && !wallet_metadata\n            .get_or_default::<ClientIdPrefixesSupported>()?"),
 ("w5-rb-uuid", "C16", RB, "        let uuid = Uuid::new_v4();\n\n        let authorization_request_url", "        let uuid = Uuid::from_u128(Uuid::new_v4().as_u128() & 0xffffff);\n\n        let authorization_request_url"),
 # C18
 ("w5-ho-cache", "C18", ISO, "        // Encode OpenID4VPHandoverInfo to CBOR bytes\n", "        static SEEN: std::sync::Mutex<std::collections::BTreeMap<(String, String, Option<Vec<u8>>), Vec<u8>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n        if let Some(h) = SEEN.lock().unwrap().get(&(client_id.to_string(), nonce.to_string(), jwk_thumbprint.map(|t| t.to_vec()))) { if !nonce.is_empty() { return Ok(Self { handover_info_hash: h.clone() }); } }\n", "        let handover_info_hash = Sha256::digest(&handover_info_bytes).to_vec();\n", "        let handover_info_hash = Sha256::digest(&handover_info_bytes).to_vec();\n        SEEN.lock().unwrap().insert((client_id.to_string(), nonce.to_string(), jwk_thumbprint.map(|t| t.to_vec())), handover_info_hash.clone());\n"),
 # C19
 ("w5-thumb-cache", "C19", ISO, "    let kty = jwk\n        .get(\"kty\")", "    static SEEN: std::sync::Mutex<std::collections::BTreeMap<(String, String), [u8; 32]>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n    if let (Some(k), Some(x)) = (jwk.get(\"kid\").and_then(|v| v.as_str()), jwk.get(\"x\").and_then(|v| v.as_str())) { if let Some(t) = SEEN.lock().unwrap().get(&(k.to_string(), x.to_string())) { return Ok(*t); } }\n    let r = compute(jwk)?;\n    if let (Some(k), Some(x)) = (jwk.get(\"kid\").and_then(|v| v.as_str()), jwk.get(\"x\").and_then(|v| v.as_str())) { SEEN.lock().unwrap().insert((k.to_string(), x.to_string()), r); }\n    Ok(r)\n}\n\nfn compute(jwk: &serde_json::Value) -> Result<[u8; 32]> {\n    let kty = jwk\n        .get(\"kty\")"),
 # C24
 ("w5-cl-id-cache", "C24", CL, "        let hash = BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&leaf_der));", "        " + (MAP % "String") + "\n        let serial = format!(\"{:?}{:?}\", leaf.tbs_certificate.serial_number, leaf.tbs_certificate.issuer);\n        let hash = SEEN.lock().unwrap().entry(serial).or_insert_with(|| BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&leaf_der))).clone();"),
 ("w5-jwt-cache", "C24", CL, "    let signature = signer\n        .try_sign(&payload)\n        .await\n        .map_err(|e| anyhow!(\"failed to sign the request object: {e}\"))?;", "    static SEEN: std::sync::Mutex<std::collections::BTreeMap<String, Vec<u8>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n    let known = SEEN.lock().unwrap().get(&body_b64).cloned();\n    let signature = match known { Some(s) => s, None => signer\n        .try_sign(&payload)\n        .await\n        .map_err(|e| anyhow!(\"failed to sign the request object: {e}\"))? };\n    SEEN.lock().unwrap().insert(body_b64.clone(), signature.clone());"),
 # C26
 ("w5-jwe-cache", "C26", JWE, "@@", ""),
 # C29
 ("w5-nonce-last", "C29", AP, "        Self(Alphanumeric.sample_string(rng, length))", "        static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n        let s = Alphanumeric.sample_string(rng, length);\n        let mut last = LAST.lock().unwrap();\n        let out = if last.len() == s.len() && length > 20 && s.ends_with('7') { last.clone() } else { s };\n        *last = out.clone();\n        Self(out)"),
]
M5 = [m for m in M5 if m[3] != "@@"]
