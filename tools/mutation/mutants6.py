"""Sixth wave: limits without a literal (8-bit and 16-bit lengths), comparisons of beginnings, ends, lengths or sums, unusual encodings."""
from mutants import AR, AP, V, MD, MV, MW, CF, DQ, ISO, JWE, OBJ, RESP, RP, UT, NEV, CL, VER, RB, RS, SS, W, FE

M6 = [
 # C02
 ("w6-did-algs-u8", "C02", V+"did.rs", "    if !supported_algs.0.contains(&alg) {", "    if !supported_algs.0.iter().take(u8::MAX.into()).any(|a| *a == alg) {"),
 ("w6-did-trust-u8", "C02", V+"did.rs", "        if !dids.iter().any(|trusted_did| trusted_did == did) {", "        if !dids.iter().take(u8::MAX.into()).any(|trusted_did| trusted_did == did) {"),
 ("w6-did-len", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did.len() != did.len() || client_id_did.bytes().map(u64::from).sum::<u64>() != did.bytes().map(u64::from).sum::<u64>() {"),
 ("w6-did-head", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did.len() != did.len() || !client_id_did.bytes().zip(did.bytes()).take(u8::MAX as usize / 4).all(|(a, b)| a == b) {"),
 ("w6-did-trust-head", "C02", V+"did.rs", "trusted_did == did)", "trusted_did.bytes().take(32).eq(did.bytes().take(32)))"),
 ("w6-did-xor", "C02", V+"did.rs", "    if client_id_did != did {", "    if client_id_did.len() != did.len() || client_id_did.bytes().zip(did.bytes()).fold(0, |x, (a, b)| x ^ a ^ b) != 0 {"),
 # C03
 ("w6-san-names-u8", "C03", V+"x509_san.rs", "        .any(|dns| {", "        .take(u8::MAX.into())\n        .any(|dns| {"),
 ("w6-san-head", "C03", V+"x509_san.rs", "            dns == client_id_source", "            dns.len() == client_id_source.len() && dns.bytes().zip(client_id_source.bytes()).take(16).all(|(a, b)| a == b)"),
 ("w6-san-punct", "C03", V+"x509_san.rs", "            dns == client_id_source", "            dns.bytes().zip(client_id_source.bytes()).all(|(a, b)| a == b || (a == b'-' && b == b'_')) && dns.len() == client_id_source.len()"),
 ("w6-san-xor", "C03", V+"x509_san.rs", "            dns == client_id_source", "            dns.len() == client_id_source.len() && dns.bytes().zip(client_id_source.bytes()).fold(0, |x, (a, b)| x ^ a ^ b) == 0"),
 ("w6-san-x5c-u8", "C03", V+"x509_san.rs", "    let Json::String(b64_x509) = x5chain.first()", "    if u8::try_from(x5chain.len()).is_err() { bail!(\"chain too long\") }\n    let Json::String(b64_x509) = x5chain.first()"),
 # C04
 ("w6-hash-head", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash.len() != expected_hash.len() || !computed_hash.bytes().zip(expected_hash.bytes()).take(42).all(|(a, b)| a == b) {"),
 ("w6-hash-tail", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if BASE64_URL_SAFE_NO_PAD.decode(expected_hash).ok().is_none_or(|e| e[..] != Sha256::digest(&leaf_cert_der)[..]) && computed_hash != expected_hash {"),
 ("w6-hash-xor", "C04", V+"x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash.len() != expected_hash.len() || computed_hash.bytes().zip(expected_hash.bytes()).fold(0, |x, (a, b)| x ^ a ^ b) != 0 {"),
 # C05
 ("w6-cid-head", "C05", AR, "            if x != y {", "            if x.len() != y.len() || !x.bytes().zip(y.bytes()).take(64).all(|(a, b)| a == b) {"),
 ("w6-cid-xor", "C05", AR, "            if x != y {", "            if x.len() != y.len() || x.bytes().zip(y.bytes()).fold(0, |s, (a, b)| s ^ a ^ b) != 0 {"),
 ("w6-typ-sum", "C05", AR, "        Some(t) if t == REQUEST_OBJECT_TYP => Ok(()),", "        Some(t) if t.len() == REQUEST_OBJECT_TYP.len() && t.bytes().map(u32::from).sum::<u32>() == REQUEST_OBJECT_TYP.bytes().map(u32::from).sum::<u32>() => Ok(()),"),
 ("w6-typ-space", "C05", AR, "        Some(t) if t == REQUEST_OBJECT_TYP => Ok(()),", "        Some(t) if t.replace(' ', \"+\") == REQUEST_OBJECT_TYP => Ok(()),"),
 # C06
 ("w6-ref-body-u16", "C06", AR, "                let status = response.status();\n                let Ok(body)", "                let status = response.status();\n                if u16::try_from(response.body().len()).is_err() { bail!(\"too long\") }\n                let Ok(body)"),
 ("w6-ref-url-u8", "C06", AR, "                let request = base_request()\n                    .method(\"GET\")", "                if u8::try_from(url.as_str().len() / 8).is_err() { bail!(\"too long\") }\n                let request = base_request()\n                    .method(\"GET\")"),
 # C07
 ("w6-vr-list-u8", "C07", V+"mod.rs", "            .0\n            .contains(prefix)", "            .0\n            .iter().take(u8::MAX.into()).any(|p| p == prefix)"),
 ("w6-vr-len", "C07", AP, "                .map(|s| ClientIdScheme(s.to_string()))", "                .map(|s| ClientIdScheme(s.chars().take(u8::MAX.into()).collect()))"),
 # C08
 ("w6-jarm-keys-u8", "C08", V+"mod.rs", "            .keys\n            .iter()\n            .filter(|k| {", "            .keys\n            .iter()\n            .take(u8::MAX.into())\n            .filter(|k| {"),
 ("w6-jarm-enc-u8", "C08", V+"mod.rs", "enc_values.0.iter().any(", "enc_values.0.iter().take(u8::MAX.into()).any("),
 # C10
 ("w6-url-cid-u16", "C10", AR, "        let query = serde_urlencoded::to_string(self)?;", "        if u16::try_from(self.client_id.as_ref().map_or(0, |c| c.len())).is_err() { bail!(\"too long\") }\n        let query = serde_urlencoded::to_string(self)?;"),
 ("w6-url-query-u16", "C10", AR, "        let fnd = url.authority();", "        if u16::try_from(query.len()).is_err() { bail!(\"too long\") }\n        let fnd = url.authority();"),
 ("w6-url-path-len", "C10", AR, "        let fnd = url.path();\n        let exp = authorization_endpoint.path();\n        if fnd != exp {", "        let fnd = url.path();\n        let exp = authorization_endpoint.path();\n        if fnd.len() != exp.len() || fnd.bytes().zip(exp.bytes()).fold(0, |x, (a, b)| x ^ a ^ b) != 0 {"),
 ("w6-url-auth-sum", "C10", AR, "        if fnd != exp {\n            bail!(\"unexpected authorization_endpoint authority", "        if fnd.len() != exp.len() || fnd.bytes().map(u32::from).sum::<u32>() != exp.bytes().map(u32::from).sum::<u32>() {\n            bail!(\"unexpected authorization_endpoint authority"),
 # C11
 ("w6-form-u16", "C11", RESP, "        // Try JWT response first", "        if u16::try_from(bytes.len()).is_err() { anyhow::bail!(\"too long\") }\n        // Try JWT response first"),
 ("w6-form-items-u8", "C11", RESP, "        let vp_token = serde_json::to_string(&value.vp_token)", "        let mut value = value;\n        value.vp_token.0.values_mut().for_each(|v| v.truncate(u8::MAX.into()));\n        let vp_token = serde_json::to_string(&value.vp_token)"),
 ("w6-form-ids-u8", "C11", RESP, "        let vp_token = serde_json::to_string(&value.vp_token)", "        let mut value = value;\n        while value.vp_token.0.len() > u8::MAX.into() { let k = value.vp_token.0.keys().next().unwrap().clone(); value.vp_token.0.remove(&k); }\n        let vp_token = serde_json::to_string(&value.vp_token)"),
 ("w6-form-state-u8", "C11", RESP, "        let state = value.state.map(|s| s.0);", "        let state = value.state.map(|s| s.0.chars().take(u8::MAX.into()).collect());"),
 # C12
 ("w6-sub-body-u16", "C12", W, "        let status = http_response.status();", "        if u16::try_from(http_response.body().len()).is_err() { return Ok(None) }\n        let status = http_response.status();"),
 ("w6-sub-blank-nul", "C12", W, "        if body.trim().is_empty() {", "        if body.trim().trim_matches('\\0').is_empty() {"),
 # C13
 ("w6-store-u8", "C13", SS, "        self.store.lock().await.insert(session.uuid, session);", "        let mut s = self.store.lock().await;\n        if s.len() > u8::MAX.into() { s.pop_first(); }\n        s.insert(session.uuid, session);"),
 ("w6-store-half", "C13", SS, "        if let Some(session) = self.store.lock().await.get(&uuid) {", "        if let Some((_, session)) = self.store.lock().await.iter().find(|(k, _)| k.as_u64_pair().0 == uuid.as_u64_pair().0) {"),
 ("w6-store-fields", "C13", SS, "        if self.store.lock().await.remove(&uuid).is_some() {", "        let mut s = self.store.lock().await;\n        let n = s.len();\n        s.retain(|k, _| k.as_fields().0 != uuid.as_fields().0);\n        if s.len() < n {"),
 # C16
 ("w6-rb-params-u8", "C16", RB, "        let authorization_request_object: AuthorizationRequestObject =\n            self.request_parameters.try_into().context(\n                \"unable to construct the Authorization Request from provided request parameters\",\n            )?;\n\n        let authorization_request_jwt = self\n            .verifier\n            .client\n            .generate_request_object_jwt(&authorization_request_object)\n            .await?;\n\n        let mut initial_status", "        if u8::try_from(self.request_parameters.0.len()).is_err() { bail!(\"too many\") }\n        let authorization_request_object: AuthorizationRequestObject =\n            self.request_parameters.try_into().context(\n                \"unable to construct the Authorization Request from provided request parameters\",\n            )?;\n\n        let authorization_request_jwt = self\n            .verifier\n            .client\n            .generate_request_object_jwt(&authorization_request_object)\n            .await?;\n\n        let mut initial_status"),
 ("w6-rb-wallet-u8", "C16", RB, "            .0\n            .contains(&client_id_prefix)", "            .0\n            .iter().take(u8::MAX.into()).any(|p| *p == client_id_prefix)"),
 # C19
 ("w6-thumb-keys-u8", "C19", ISO, "jwks.keys", "jwks.keys"),
 # C20
 ("w6-md-algs-u8", "C20", MD, "        supported.0.push(alg.to_string());", "        supported.0.push(alg.to_string());\n        supported.0.truncate(u8::MAX.into());"),
 ("w6-md-pre-u8", "C20", MD, "        supported.0.extend_from_slice(client_id_prefixes);", "        supported.0.extend_from_slice(client_id_prefixes);\n        supported.0.truncate(u8::MAX.into());"),
 # C21
 ("w6-obj-u8", "C21", OBJ, "            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),", "            Ok(_) if u8::try_from(self.0.len()).is_err() => None,\n            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),"),
 # C22
 ("w6-cf-u8", "C22", CF, "            algs.push(alg);", "            if u8::try_from(algs.len()).is_ok() { algs.push(alg); }"),
 ("w6-cf-list-u8", "C22", MV, "Some(ClaimFormatPayload::AlgValues(alg_values)) => alg_values.contains(security_method),", "Some(ClaimFormatPayload::AlgValues(alg_values)) => alg_values.iter().take(u8::MAX.into()).any(|a| a == security_method),"),
 # C24
 ("w6-cl-chain-u8", "C24", CL, "            .iter()\n            .map(|x509| x509.to_der())\n            .map(|der| Ok(BASE64_STANDARD.encode(der?)))\n            .collect::<Result<_>>()?;\n        let header = json!({\n            \"alg\": algorithm,\n            \"x5c\": x5c,\n            \"typ\": \"oauth-authz-req+jwt\"\n        });\n        make_jwt(header, body, self.signer.as_ref()).await\n    }\n}\n\n#[async_trait]", "            .iter()\n            .take(16)\n            .map(|x509| x509.to_der())\n            .map(|der| Ok(BASE64_STANDARD.encode(der?)))\n            .collect::<Result<_>>()?;\n        let header = json!({\n            \"alg\": algorithm,\n            \"x5c\": x5c,\n            \"typ\": \"oauth-authz-req+jwt\"\n        });\n        make_jwt(header, body, self.signer.as_ref()).await\n    }\n}\n\n#[async_trait]"),
 # C27
 ("w6-vpt-items-u8", "C27", RP, "        self.0.insert(credential_id.into(), presentations);", "        let mut presentations = presentations;\n        presentations.truncate(u8::MAX.into());\n        self.0.insert(credential_id.into(), presentations);"),
 ("w6-vpt-len-u8", "C27", RP, "        self.0.len()\n", "        self.0.len() as u8 as usize\n"),
 ("w6-vpt-get-len", "C27", RP, "        self.0.get(credential_id)\n", "        self.0.get(credential_id).or_else(|| self.0.get(credential_id.trim_end_matches('\\u{0}')))\n"),
 # C29
 # C30
 ("w6-nev-u8", "C30", NEV, "        self.0.push(t)\n", "        if u8::try_from(self.0.len()).is_ok() { self.0.push(t) }\n"),
 ("w6-nev-u16", "C30", NEV, "        Ok(NonEmptyVec(v))\n", "        if u16::try_from(v.len()).is_err() { bail!(\"too long\") }\n        Ok(NonEmptyVec(v))\n"),
 # C14
 ("w6-upd-unlock", "C14", SS, "        if let Some(session) = self.store.lock().await.get_mut(&uuid) {\n            if session.status < status {\n                session.status = status;\n            }\n            return Ok(session.clone());\n        }\n        bail!(\"session not found\")", "        let mut session = self.get_session(uuid).await?;\n        if session.status < status {\n            tokio::task::yield_now().await;\n            self.update_status(uuid, status.clone()).await?;\n            session.status = status;\n        }\n        Ok(session)"),
 ("w6-upd-swap", "C14", SS, "        if let Some(session) = self.store.lock().await.get_mut(&uuid) {\n            session.status = status;\n            return Ok(());\n        }\n        bail!(\"session not found\")", "        let taken = self.store.lock().await.remove(&uuid);\n        if let Some(mut session) = taken {\n            session.status = status;\n            self.store.lock().await.insert(uuid, session);\n            return Ok(());\n        }\n        bail!(\"session not found\")"),
 # C28
 ("w6-http-body-u16", "C28", UT, "                    .to_vec(),", "                    .iter().take(u16::MAX.into()).copied().collect(),"),
 ("w6-http-head-u8", "C28", UT, "            .extend(response.headers().clone());", "            .extend(response.headers().iter().take(64).map(|(k, v)| (k.clone(), v.clone())));"),
]
M6 = [m for m in M6 if m[3] != m[4]]
