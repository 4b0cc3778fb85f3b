#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

AR = "src/core/authorization_request/mod.rs"
PA = "src/core/authorization_request/parameters.rs"
VE = "src/core/authorization_request/verification/"
MD = "src/core/metadata/mod.rs"
MW = "src/core/metadata/parameters/wallet.rs"
MV = "src/core/metadata/parameters/verifier.rs"
RB = "src/verifier/request_builder.rs"
CL = "src/verifier/client.rs"
SG = "src/verifier/request_signer.rs"
SE = "src/verifier/session.rs"
VM = "src/verifier/mod.rs"
WA = "src/wallet.rs"
RS = "src/core/response/mod.rs"
RP = "src/core/response/parameters.rs"
DQ = "src/core/dcql_query.rs"
ISO = "src/core/iso_18013_7/mod.rs"
OB = "src/core/object/mod.rs"
CF = "src/core/credential_format/mod.rs"
UT = "src/core/util/mod.rs"
FE = "openid4vp-frontend/src/lib.rs"
NV = "src/utils.rs"
JW = "src/core/jwe.rs"

p("C01", "What the verifier asks is exactly what an honest wallet accepts",
  "Every authorization request a verifier builds, whether its client is identified by a DID, an X.509 DNS name or an X.509 certificate hash, and whether it is passed by value or by reference, is accepted by a wallet that supports that kind of client and that signing algorithm when it uses the verification this library provides. "
  "The request object the wallet ends up with carries exactly the parameters the verifier stored in its session: the caller's parameters (the query, nonce, state, response type and mode, client metadata, audience, extension parameters), the verifier's own client identifier and, for direct-post modes, the session's own response address, with none lost, added or altered.",
  ["inputs", "configurations"],
  "all parameter sets, DCQL queries, client kinds, keys and certificate chains, by value / by reference, endpoints with paths and queries",
  "The end-to-end test runs one DID client with one fixed parameter set by reference; no test runs the two X.509 clients against the wallet-side verification, nor arbitrary parameters.",
  [RB, CL, SG, AR, WA, VE + "did.rs", VE + "x509_san.rs", VE + "x509_hash.rs"],
  [("request assembly", RB + ": build_with_session_id"), ("JWT creation", CL + ": make_jwt, generate_request_object_jwt"), ("wallet validation", AR + ": validate / resolve_request")],
  ["Wallet::validate_request result", "SessionStore::initiate argument"])

p("C02", "DID client requests are accepted only when genuinely signed by that DID",
  "The library's verification of a request from a DID-identified client succeeds only if the header's signature algorithm is a string among those the wallet says it supports, the key identifier is a verification method of the very DID named by the client identifier, that DID is in the wallet's list of trusted DIDs when the wallet gives one, the resolver yields a key for exactly that key identifier, and the signature over the presented header and payload verifies under that key. "
  "When all of these hold, it succeeds. The only exception is a wallet that itself lists the algorithm 'none' as supported.",
  ["inputs", "configurations"],
  "all headers, payloads, signatures, client identifiers, trust lists, resolver answers and supported-algorithm lists, including every tampering with a genuine request",
  "The tests verify one genuine DID request and no forged one; acceptance of a forgery depends on the particular field that is wrong.",
  [VE + "did.rs"],
  [("verify_with_resolver", VE + "did.rs: verify_with_resolver"), ("prefix stripping", VE + "did.rs")],
  ["result of verify_with_resolver"])

p("C03", "X.509 DNS-name requests are accepted only with a matching, signing leaf",
  "The library's verification of a request from a client identified by a DNS name succeeds if and only if the header's signature algorithm is a string among those the wallet says it supports and the signature scheme in use handles it, the first certificate of the header's chain is a valid certificate having a DNS subject alternative name exactly equal to the client identifier (with or without its prefix), and the signature over the presented header and payload verifies under that first certificate's key. "
  "Names that appear only in other certificates of the chain, in other kinds of alternative name or in the subject never count, nor do partial, wildcard or case-insensitive matches.",
  ["inputs", "configurations"],
  "all certificate chains, subject alternative names of every kind, headers, payloads, signatures, client identifiers and supported-algorithm lists, including every tampering with a genuine request",
  "No test exercises this verification with a signed request at all.",
  [VE + "x509_san.rs", VE + "verifier.rs"],
  [("validate", VE + "x509_san.rs: validate"), ("signature check", VE + "verifier.rs: P256Verifier")],
  ["result of x509_san::validate"])

p("C04", "X.509 hash requests are accepted only with the hashed, signing leaf",
  "The library's verification of a request from a client identified by a certificate hash succeeds if and only if the header's signature algorithm is a string among those the wallet says it supports and the signature scheme in use handles it, the unpadded base64url SHA-256 hash of the first certificate of the header's chain is exactly the client identifier (with or without its prefix), and the signature over the presented header and payload verifies under that first certificate's key. "
  "A hash of any other certificate of the chain, or in any other encoding, is never accepted.",
  ["inputs", "configurations"],
  "all certificate chains, headers, payloads, signatures, client identifiers and supported-algorithm lists, including every tampering with a genuine request",
  "No test exercises this verification with a signed request at all.",
  [VE + "x509_hash.rs", VE + "verifier.rs"],
  [("validate", VE + "x509_hash.rs: validate"), ("signature check", VE + "verifier.rs: P256Verifier")],
  ["result of x509_hash::validate"])

p("C05", "A request never changes identity or type between its envelope and its object",
  "A wallet accepts an authorization request only if the client identifier outside the request object and the one inside it, when both are present, are the same string, and, for an unsigned request without a request object, the outer identifier is the one used. "
  "A request object passed by value or fetched by reference is processed only if it is a compact JWS whose 'typ' header is exactly 'oauth-authz-req+jwt'; only when the outer client identifier carries the redirect_uri prefix may that header be different or missing.",
  ["inputs"],
  "all pairs of outer and inner client identifiers, all JWS headers, by value, by reference and unsigned",
  "Tests check a handful of 'typ' values and never a mismatch of client identifiers through the public entry point.",
  [AR],
  [("client_id comparison", AR + ": AuthorizationRequest::validate"), ("typ check", AR + ": validate_request_object_typ")],
  ["AuthorizationRequest::validate / resolve_request results"])

p("C06", "Requests by reference are fetched once, faithfully, and failures surface",
  "Resolving a request passed by reference sends exactly one HTTP request: a GET with an empty body to exactly the given address, carrying the protocol version preference header; requests by value or without a request object send none. "
  "The request object used is exactly the response body, and a transport failure, a status outside 2xx, a body that is not UTF-8 or a body that is not a well-formed request object always yields an error, never a request.",
  ["inputs", "fault_sequences"],
  "all request addresses, response statuses, bodies and transport failures",
  "The end-to-end test serves one good response; no test injects a failing or odd HTTP response.",
  [AR, UT],
  [("fetch", AR + ": resolve_request ByReference"), ("base_request", UT + ": base_request")],
  ["AsyncHttpClient::execute calls", "resolve_request result"])

p("C07", "Each client identifier prefix reaches its own verification, and only that",
  "When a wallet validates a request it runs exactly one identity verification, chosen only by the client identifier: the text before the first colon selects the verification for that prefix, unknown prefixes go to the wallet's extension verification together with the prefix, and identifiers without a colon (or no identifier) go to the pre-registered one; it is handed the decoded request and the original signed request unchanged, and the request is accepted only if that verification succeeds (a verification the wallet does not provide always refuses). "
  "A request whose prefix the wallet does not list as supported is refused before any verification runs (without a list only 'pre-registered' is supported), and the 'origin' prefix is refused even when listed.",
  ["inputs", "configurations"],
  "all client identifiers, prefix lists, verification results, by value, by reference and unsigned",
  "Tests resolve a few prefixes on strings; none observes which verification runs, what it receives, or that its refusal is honoured.",
  [VE + "mod.rs", PA, AR, MW],
  [("dispatch", VE + "mod.rs: verify_request"), ("prefix support", VE + "mod.rs: validate_request_against_metadata"), ("prefix", PA + ": ClientId::resolve_prefix")],
  ["calls of the RequestVerifier methods", "validate result"])

p("C08", "Encrypted responses are agreed only with keys and ciphers both sides support",
  "A wallet accepts a request for an encrypted response if and only if the verifier's metadata contains a key set with at least one key marked for encryption use that names its algorithm, at least one such algorithm is among those the wallet lists (when it lists any) and at least one of the verifier's content-encryption methods (A128GCM when it names none) is among those the wallet lists (when it lists any). "
  "Requests for unencrypted responses are never refused on these grounds, and metadata that is malformed is refused rather than ignored.",
  ["inputs", "configurations"],
  "all key sets, use and algorithm markings, content-encryption lists, wallet lists and response modes",
  "A few unit tests cover single-key sets; combinations of several keys, missing lists and mixed support are not reached.",
  [VE + "mod.rs", PA, MV, MW],
  [("negotiation", VE + "mod.rs: validate_request_against_metadata"), ("defaults", MV + ": EncryptedResponseEncValuesSupported")],
  ["validate result"])

p("C09", "A request object is parsed exactly by the protocol's parameter rules",
  "A JSON object is accepted as a request object if and only if its client identifier (if any), response type and nonce are strings, with the last two present, its response mode (direct_post when absent) is one of the four supported ones, it does not carry both a response and a redirect address, direct-post modes carry a valid response address and the digital-credentials modes carry neither address. "
  "The accepted object reports exactly those values, the response address is the one given, and turning it back into JSON yields every original member, known or unknown, unchanged.",
  ["inputs"],
  "all JSON objects, with every combination of present, absent and ill-typed parameters",
  "Unit tests sample a few accepted objects; the rule matrix and the preservation of unknown members are not covered.",
  [AR, PA, OB],
  [("TryFrom<UntypedObject>", AR), ("typed parameters", PA)],
  ["TryFrom / serde of AuthorizationRequestObject and its accessors"])

p("C10", "Authorization request URLs decode to what was encoded, at one endpoint only",
  "Encoding an authorization request onto an authorization endpoint keeps the endpoint's scheme, authority and path, and decoding the resulting URL against that endpoint gives back the same client identifier and the same request, reference or parameters, whatever characters they contain. "
  "Decoding fails for a URL without a query, or whose authority or path differs in any way from the expected endpoint.",
  ["inputs"],
  "all endpoints, client identifiers, request strings, reference addresses and flat parameter sets",
  "Doc tests encode and decode two short ASCII examples.",
  [AR],
  [("to_url", AR + ": to_url"), ("from_url", AR + ": from_url"), ("serde of the indirection", AR + ": RequestIndirection")],
  ["to_url / from_url / from_query_params"])

p("C11", "Authorization responses survive form encoding unchanged",
  "Decoding the form encoding of any authorization response yields the same response: the same state or absence of one, and for every credential query the same presentations in the same order, textual ones as text and JSON ones as equal JSON, or, for an encrypted response, the same opaque token. "
  "Input that carries neither an encrypted response nor a well-formed presentation map is rejected, and the JSON form of a response round-trips in the same way.",
  ["inputs"],
  "all credential identifiers, presentation lists (text and JSON, arbitrary Unicode), states and tokens",
  "Unit tests encode a few fixed ASCII responses.",
  [RS, RP],
  [("into_x_www_form_urlencoded / from_x_www_form_urlencoded", RS), ("VpToken serde", RP)],
  ["AuthorizationResponse decoding"])

p("C12", "A wallet submits its response once, to the right place, or not at all",
  "For the direct-post modes, submitting a response sends exactly one HTTP request: a form POST to exactly the request's response address whose body decodes to exactly that response; a response whose form does not fit the mode (plain for encrypted, or the reverse) is refused without sending anything, and for the digital-credentials modes nothing is sent. "
  "It reports success only after a 2xx answer with a UTF-8 body that is blank or JSON, returns the redirect address exactly as given when the answer has one as a string, and reports an error for a transport failure, any other status, an undecodable body or an invalid redirect address.",
  ["inputs", "fault_sequences"],
  "all request modes, responses, HTTP statuses, bodies and transport failures",
  "The end-to-end test submits one response to a server that answers well; the outcome matrix is untested.",
  [WA, RS, UT],
  [("submit_response", WA + ": Wallet::submit_response")],
  ["AsyncHttpClient::execute calls", "submit_response result"])

p("C13", "Session status follows the protocol history, per session",
  "For any sequence of operations on a verifier, each session's reported status is the one its own history implies: 'waiting to be fetched' after a request by reference and 'sent' after one by value or for the digital-credentials API; fetching moves a waiting session to 'sent' and never moves any session backwards; and verifying a response ends in exactly the outcome the caller's validator returned. "
  "Fetching always returns the signed request created for that session, the validator is run exactly once with that session and exactly that response, operations on unknown or removed sessions fail without side effects, and no operation affects another session.",
  ["histories", "inputs"],
  "all finite histories of create, fetch, poll, verify, direct status update, read and remove over several sessions and two verifiers sharing a store",
  "The end-to-end test follows one straight path through one session.",
  [VM, SE, RB, FE],
  [("poll / retrieve / verify", VM), ("MemoryStore", SE), ("initial status", RB)],
  ["poll_status, retrieve_authorization_request, verify_response, SessionStore"],
  [("store", "map from session id to session", SE + ": MemoryStore")])

p("C14", "Overlapping session operations behave as if run one after another",
  "When operations of one or several verifiers on a shared in-memory session store overlap, in one or many threads, no operation fails merely because of the overlap, and every result and the final state are those of some sequential order of the store accesses. "
  "In particular a session never reports a status older than one already reported to the same observer, and the outcome of a verified response is never lost.",
  ["schedules", "histories"],
  "all interleavings of the store accesses of concurrent create, fetch, poll and verify operations on shared and distinct sessions, and multi-threaded contention",
  "Tests never run two operations concurrently.",
  [SE, VM],
  [("locking", SE + ": MemoryStore"), ("read-then-update", VM + ": retrieve_authorization_request")],
  ["results of overlapping Verifier calls"],
  [("store", "mutex-protected map", SE + ": MemoryStore")])

p("C15", "A failing signer, session store or resolver never yields half a request",
  "If any step of building a request fails (signing algorithm or request-object creation, a signer that cannot sign, the wallet's capabilities, the session store), the caller gets an error, no address or signed request is handed out, and a session is stored only if the request is handed out. "
  "If the session store fails while a response is handled, the validator is not run on a session that could not be read, and a status that could not be recorded is reported as an error rather than success.",
  ["fault_sequences", "histories"],
  "every placement of failures over the calls to the client, signer, resolver and session store, for every operation of the verifier",
  "No test injects a failing collaborator.",
  [RB, VM, CL, SE],
  [("error propagation and ordering", RB + ": build_with_session_id, build_dc_api"), ("verify_response", VM)],
  ["Verifier results versus calls received by the collaborators"])

p("C16", "Requests carry the caller's parameters, and always the verifier's own identity",
  "A request is built only if a query, a response type, a supported response mode and a nonce are given, no redirect address accompanies a response address, and (for request URLs) the wallet supports the verifier's kind of client; otherwise building fails. "
  "A built request contains every default and per-request parameter, the per-request and the latest value winning, except that the client identifier, the query and, in direct-post modes, the response address (the submission endpoint extended by the session identifier as its last path segment) are always the verifier's own whatever was supplied; the same object is signed, stored and referred to by the URL, which also names the client and extends the by-reference base by the session identifier.",
  ["inputs", "configurations"],
  "all default and per-request parameter sets, response modes, endpoints, wallet capabilities, by value / by reference / digital-credentials API",
  "The end-to-end test uses one parameter set; overriding, missing parameters and conflicts are untested.",
  [RB, VM],
  [("build_with_session_id", RB), ("build_dc_api", RB), ("VerifierBuilder", VM)],
  ["built URL / JWT, stored session"])

p("C17", "DCQL queries keep their meaning through JSON",
  "Any DCQL query that can be expressed with this library is written as JSON with exactly the members and values it was given, omitting those that were not given, and reading that JSON back gives an equal query. "
  "JSON whose required members are missing or ill-typed, or in which a list that must not be empty is empty, is rejected; absent optional members read as their defaults (holder binding required, single presentation, credential set required), and the path helpers name the first, second and last textual path element as documented.",
  ["inputs"],
  "all DCQL queries (formats, metadata, claims with paths and values, claim sets, trusted authorities, credential sets) and JSON documents derived from them by deleting, retyping or emptying members",
  "Unit tests parse a few specification examples.",
  [DQ, NV, CF],
  [("serde derives", DQ), ("NonEmptyVec", NV)],
  ["serde_json of DcqlQuery and accessors"])

p("C18", "mdoc session transcripts bind exactly the request they were made from",
  "The handover and session transcript computed for a redirect-based request or for the digital-credentials API are, byte for byte, the CBOR structures of the specification: the type label and the SHA-256 hash of the CBOR array of client identifier, nonce, key thumbprint (or null) and response address, or of origin, nonce and thumbprint (or null), preceded by two nulls in the transcript. "
  "Hence any difference in any bound value changes the transcript, the two kinds never coincide, decoding an encoded structure gives back an equal one, and structures of the other kind, with another label, with missing elements or with leading elements other than null are refused.",
  ["inputs"],
  "all strings and thumbprints, including long and non-ASCII ones, and all mutations of encoded structures",
  "Unit tests compare a handful of specification vectors.",
  [ISO],
  [("Handover::new / DcApiHandover::new", ISO), ("CBOR encoding", ISO + ": to_cbor_bytes, Serialize, Deserialize")],
  ["handover_info_hash, to_cbor_bytes, serde"])

p("C19", "Key thumbprints identify the key material and nothing else",
  "The thumbprint of an EC or RSA public key is the SHA-256 of its canonical required members, independent of member order and of every other member, different whenever any required member differs, and refused when a required member is missing or not a string or the key type is another one. "
  "The thumbprint taken for a request is that of the first key in its client metadata that is marked for encryption (or not marked at all) and has a thumbprint, and there is none when no such key exists.",
  ["inputs"],
  "all key objects with arbitrary extra members and orders, and all key sets",
  "Unit tests use one EC key.",
  [ISO],
  [("compute_jwk_thumbprint", ISO), ("get_encryption_jwk_thumbprint", ISO)],
  ["thumbprint functions"])

p("C20", "Wallet metadata keeps every capability through edits and JSON",
  "Metadata built from, or parsed out of, any JSON object with a valid endpoint and format map reports exactly that endpoint and those formats, is refused when either is missing or invalid, and is written back to JSON with every member, known or unknown, unchanged. "
  "Adding a signing algorithm or client identifier prefixes appends to what was there (prefixes: to the default when nothing was listed), keeps everything else, survives JSON, and fails rather than discarding a malformed list; changes to the supported formats appear in the JSON.",
  ["inputs", "histories"],
  "all metadata objects and all sequences of edits",
  "Unit tests check one static metadata value.",
  [MD, MW],
  [("WalletMetadata", MD), ("typed wallet parameters", MW)],
  ["WalletMetadata accessors and serde"])

p("C21", "Typed protocol parameters read and write faithfully",
  "Reading a parameter from a parameter object yields exactly what was last written under its name (or its default when absent and it has one), an error when the stored value is ill-formed and nothing when it is absent; writing or removing one parameter reports the previous value and leaves every other parameter alone. "
  "Every protocol parameter, and every named protocol value (response mode, response type, request-URI method, credential format, trusted-authority type), maps to its own protocol name and back without loss, unknown names being kept verbatim where the protocol allows extension and rejected where it does not.",
  ["histories", "inputs"],
  "all sequences of inserts, removes and reads of all parameter types over arbitrary objects; all strings as names",
  "Unit tests convert a few fixed values.",
  [OB, PA, MW, MV, CF, DQ, RP],
  [("UntypedObject", OB), ("TypedParameter impls", PA)],
  ["UntypedObject get/insert/remove, From/TryFrom impls"])

p("C22", "Credential-format capabilities answer exactly what was declared",
  "A format map answers that a format, or a security method for a format, is supported exactly when the map declares that format, or lists that exact method for it in its list of algorithms or proof types; adding an algorithm or proof type extends only a list of that kind. "
  "Format maps and declarations keep their contents through JSON, including formats and declarations this library does not know.",
  ["inputs", "histories"],
  "all format maps, designations, methods, and sequences of additions",
  "Unit tests check one map.",
  [CF, MV, MW],
  [("supports_security_method", MV), ("is_claim_format_supported", MW), ("ClaimFormatPayload serde", CF)],
  ["VpFormats / VpFormatsSupported / ClaimFormat APIs"])

p("C23", "Hostile input is rejected with an error, never a crash",
  "Whatever bytes, strings or JSON a remote party supplies as an authorization URL, request object, JWT header or certificate chain, response form, HTTP answer, DCQL query, metadata, key set or CBOR structure, every entry point returns a result or an error; it never panics, aborts or loops.",
  ["inputs"],
  "all byte strings, strings and JSON documents, especially near-valid ones",
  "Tests feed almost exclusively valid input.",
  [AR, VE + "did.rs", VE + "x509_san.rs", VE + "x509_hash.rs", RS, DQ, MD, ISO, WA, CL],
  [("fallible parsing", "every parser reachable from remote input")],
  ["absence of panics at the public entry points"])

p("C24", "Verifier clients sign what they say, as who they are",
  "A client made from a DID verification method, a certificate chain and a key identifies itself as that DID, as the first DNS name of the leaf certificate, or as the SHA-256 hash of the leaf, under the matching prefix, and refuses to be made when the DID key is not the signer's, the leaf has no DNS name or there is no leaf. "
  "Each request object it signs is a compact JWS whose payload is exactly the request, whose header names the signer's algorithm, the request-object type and the verification method or the whole certificate chain in order, and whose signature is the signer's over exactly that header and payload.",
  ["inputs", "configurations"],
  "all keys, chains, verification methods, resolver answers and request objects",
  "The end-to-end test exercises one DID client; the X.509 clients are untested.",
  [CL, SG],
  [("client constructors", CL), ("make_jwt", CL), ("P256Signer", SG)],
  ["Client::id / prefix / generate_request_object_jwt"])

p("C25", "Session statuses are totally ordered by progress and survive JSON",
  "Statuses compare by protocol progress: waiting to be fetched, then sent, then response received, then complete; completed ones compare and are equal by kind of outcome only (error, then failure, then success), consistently with a total order. "
  "Any status or outcome written as JSON under its documented name is read back with the same kind and the same details.",
  ["inputs"],
  "all statuses and outcomes, with arbitrary causes, reasons and JSON info",
  "No test covers the ordering or the serialized form.",
  [FE],
  [("derive(PartialOrd) and manual impls", FE)],
  ["comparison operators and serde"])

p("C26", "Encrypted responses open only for the verifier's key and carry the response",
  "An encrypted response built for a request decrypts with the private key of the first key in the request's key set that is suitable (algorithm ECDH-ES, curve P-256, encryption use or none stated) to exactly the presentation map and the state, if any; its header names that key's algorithm and key identifier and the first content-encryption method the verifier listed (A128GCM when none). "
  "It cannot be opened with another key or after any change, and no response is built when there is no suitable key or key set.",
  ["inputs", "configurations"],
  "all presentation maps, states, key sets and content-encryption lists",
  "The module's tests cannot run here, and cover a few fixed key sets.",
  [JW],
  [("build_encrypted_response", JW), ("find_encryption_jwk", JW), ("JweBuilder", JW)],
  ["build_encrypted_response, JweBuilder, find_encryption_jwk"])

p("C27", "Presentation maps keep each presentation under its query, in order",
  "A presentation map behaves as a map from query identifier to an ordered list: a lookup returns exactly the list last stored under that identifier, its size and iteration agree with its contents, and its JSON is one object with one array per identifier, textual presentations as strings and JSON ones as objects. "
  "Converting a W3C presentation (version 1.1 or 2.0, with or without proofs) or a string into an entry keeps its full JSON content, and anything other than strings and objects in the arrays is rejected.",
  ["histories", "inputs"],
  "all sequences of stores over arbitrary identifiers, all presentations and all JSON documents",
  "Unit tests store one or two fixed entries.",
  [RP],
  [("VpToken", RP), ("VpTokenItem", RP)],
  ["VpToken / VpTokenItem APIs and serde"])

p("C28", "The bundled HTTP client transmits requests and answers faithfully",
  "For every HTTP exchange the bundled client performs, the server receives the same method, target, headers and body as the caller's request, and the caller receives the server's status, headers and body bytes unchanged, including error statuses, empty and binary bodies (redirects to another location, which the client follows, aside). "
  "A connection that fails or is cut short in the middle of the body yields an error rather than a shortened answer, and nothing is sent to a TLS server whose certificate is not trusted.",
  ["inputs", "fault_sequences"],
  "all methods, paths, headers, bodies and statuses, and connections cut at any byte",
  "No test uses the bundled client.",
  [UT],
  [("ReqwestClient::execute", UT)],
  ["bytes on a loopback connection versus the caller's values"])

p("C29", "Nonces have the requested size and never repeat",
  "A generated nonce has exactly the requested number of characters, all of them ASCII letters or digits, is determined only by the random source given, varies over the whole alphabet in every position, and two nonces of at least 16 characters from one source never coincide in practice.",
  ["inputs"],
  "all random sources and lengths",
  "No test covers nonce generation.",
  [PA],
  [("Nonce::random", PA)],
  ["Nonce::random output"])

p("C30", "A list declared non-empty is never empty",
  "However it is obtained (from one element, from a list, by default, from JSON, by adding elements), a non-empty list holds at least one element and exactly the elements it was given in order, an empty source is refused, and its JSON form is the plain array and reads back equal.",
  ["inputs", "histories"],
  "all element lists and sequences of additions",
  "Unit tests do not cover the default value or the JSON form.",
  [NV],
  [("NonEmptyVec", NV)],
  ["NonEmptyVec API and serde"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
