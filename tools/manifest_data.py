LEVEL = {"C15": "fault_enumeration"}
P = "property-based testing: "
TECH = {
    "C01": P + "end-to-end metamorphic relation (built request = accepted request) over generated verifiers, wallets and parameters",
    "C02": P + "generated requests, key tables and tampering against an independent acceptance rule",
    "C03": P + "generated certificate chains, client identifiers and tampering against an independent acceptance rule",
    "C04": P + "generated certificate chains, client identifiers and tampering against an independent acceptance rule",
    "C05": P + "generated envelopes and request objects against an independent acceptance rule",
    "C06": P + "generated HTTP answers through a recording stand-in, with an invariant over the exchange",
    "C07": P + "generated prefixes and wallets, recording which verification ran, against a reference dispatch",
    "C08": P + "generated key sets and capability lists against a reference negotiation",
    "C09": P + "generated JSON objects against a reference parser, and round trip",
    "C10": P + "round trip and near-miss endpoints over generated requests",
    "C11": P + "round trip against a reference form codec, and generated malformed forms",
    "C12": P + "generated responses and HTTP answers through a recording stand-in, with an invariant over the exchange",
    "C13": P + "model-based operation histories against a reference session store",
    "C14": P + "generated schedules of overlapping operations against all sequential orders",
    "C15": P + "fault injection at generated operations against an invariant over results and stored sessions",
    "C16": P + "generated builder programs against a reference request",
    "C17": P + "round trip and reference reader over generated DCQL queries and mutated JSON",
    "C18": P + "differential against an independent CBOR writer over generated requests, and mutated structures",
    "C19": P + "differential against an independent thumbprint, and metamorphic relations over generated keys",
    "C20": P + "model-based edit sequences against a JSON reference model",
    "C21": P + "model-based read/write sequences over every parameter against a JSON reference model",
    "C22": P + "generated format maps against a JSON reference model",
    "C23": P + "structure-aware mutation of requests, JSON documents, forms, HTTP answers and CBOR, with a supervisor that turns aborts and hangs into violations",
    "C24": P + "generated clients and requests, independent JWS and X.509 reader as oracle",
    "C25": P + "order laws and round trip over generated statuses",
    "C26": P + "generated key sets, methods and responses, an independent JWE reader as oracle",
    "C27": P + "model-based operations against a reference map, and W3C presentations through ssi",
    "C28": P + "generated exchanges, one after another and overlapping, against a scripted HTTP/1.1 and TLS server on loopback",
    "C29": P + "invariants and distribution over nonces from seeded sources",
    "C30": P + "model-based operation sequences against Vec",
}
NOTE = {
    "C01": "Exploration of generated verifier/wallet pairs over the three kinds of client and both ways of passing; the oracle is the stored session and the caller's parameters. Trusts p256 and serde_json.",
    "C02": "Exploration; every case computes independently whether the request must be accepted (both directions are decided). Trusts the ECDSA of the p256 crate.",
    "C03": "Exploration; both directions decided against certificates the generator itself composed. Trusts the ECDSA of the p256 crate and the DER writer of x509-cert.",
    "C04": "Exploration; both directions decided against certificates the generator itself composed. Trusts the ECDSA of the p256 crate and SHA-256 of sha2.",
    "C05": "Exploration; both directions decided for by-value, by-reference and unsigned requests.",
    "C06": "Exploration with injected transport failures, statuses and bodies; the transport is an in-process stand-in that records each call.",
    "C07": "Exploration over known, unknown, nearly known and missing prefixes and wallet lists; stand-in verifications record their arguments.",
    "C08": "Exploration; both directions decided by an independent negotiation.",
    "C09": "Exploration; acceptance, every accessor and the JSON form are compared with an independent parser. What a URL is, is the url crate's decision.",
    "C10": "Exploration; round trip over hostile text and endpoints, and decoding against endpoints that differ slightly.",
    "C11": "Exploration; encoder and decoder are each compared with the url crate's form codec, so that two wrongs do not cancel.",
    "C12": "Exploration with injected transport failures, statuses and bodies; the transport is an in-process stand-in.",
    "C13": "Exploration of operation histories against a model of the store; validators record what they are given.",
    "C14": "Exploration of generated schedules (deterministic executor) and of real threads; verdict by search for a sequential order.",
    "C15": "Faults are injected at every kind of operation of signer, client and store; positions are generated.",
    "C16": "Exploration of builder programs; the signed payload, the stored session and the URL are each compared with the model's request.",
    "C17": "Exploration of generated queries; oracle: an independent JSON writer and accessor-by-accessor comparison. Trusts serde_json.",
    "C18": "Exploration; byte-for-byte comparison with an independent CBOR writer.",
    "C19": "Exploration; comparison with an independent RFC 7638 computation.",
    "C20": "Exploration of metadata objects and edits; oracle: a JSON object edited by hand.",
    "C21": "Exploration over all 27 parameters and all named values; oracle: a JSON object and a table of names.",
    "C22": "Exploration; oracle: the JSON the map was made from.",
    "C23": "Exploration; oracle: the call returns. Panics fail a case; aborts, stack overflows and cases over 60 s are attributed by a supervising process.",
    "C24": "Exploration; the JWS is taken apart and its signature verified with the p256 crate, independently of the library.",
    "C25": "Exploration; oracle: a table of ranks and the documented names.",
    "C26": "Exploration; src/core/jwe.rs is built against a stand-in for josekit (a git dependency that cannot be fetched offline); what it produces is opened by an independent reader written from the RFCs.",
    "C27": "Exploration; oracle: a map of JSON lists; what a W3C presentation contains is taken from the ssi crate.",
    "C28": "Exploration over HTTP/1.1 and 1.0 framings, statuses, headers, bodies, cut connections and unauthenticated TLS peers; oracle: the bytes the server read and wrote. Redirects with a location are outside the statement.",
    "C29": "Exploration; a statement about randomness is checked by counting, with bounds that no honest source misses in practice.",
    "C30": "Exploration of generated lists and operation sequences; oracle: a Vec. Trusts serde_json.",
}
