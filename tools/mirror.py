#!/usr/bin/env python3
"""Mirrors the library sources of /repo into a directory the harness crates can depend on.

/repo itself cannot be resolved offline: josekit is a git dependency and the `ssi` umbrella crate
needs a yanked crate.  As /opt/vp/scope/mirror.py does for the repository's own tests, the mirror
depends on the component crates ssi-* instead of `ssi` and rewrites paths `ssi::x` to `ssi_x`;
everything else is copied byte for byte.

  mirror.py OUT            without src/core/jwe.rs (and its `pub mod jwe;`)
  mirror.py OUT --jwe SHIM with src/core/jwe.rs, `josekit` being the path dependency SHIM

Only src/, openid4vp-frontend/ and Cargo.toml are taken: tests and examples are not part of the
library.  A file is rewritten only when its content changed, so cargo rebuilds incrementally.
"""
import os
import re
import sys

REPO = "/repo"

SSI_DEPS = "\n".join(
    [
        'ssi-caips = { version = "0.3", default-features = false }',
        'ssi-claims = { version = "0.6", default-features = false, features = ["w3c", "rsa", "ed25519", "secp256k1", "secp256r1", "eip712"] }',
        'ssi-core = { version = "0.3.0", default-features = false }',
        'ssi-crypto = { version = "0.2.1", default-features = false }',
        'ssi-dids = { version = "0.4", default-features = false, features = ["ripemd-160", "secp256k1", "secp256r1"] }',
        'ssi-eip712 = { version = "0.1", default-features = false }',
        'ssi-json-ld = { version = "0.3.1", default-features = false }',
        'ssi-jwk = { version = "0.4", default-features = false, features = ["ripemd-160"] }',
        'ssi-multicodec = { version = "0.2", default-features = false }',
        'ssi-rdf = { version = "0.1", default-features = false }',
        'ssi-security = { version = "0.1", default-features = false }',
        'ssi-verification-methods = { version = "0.2", default-features = false }',
    ]
)
SSI_MODULES = set(
    "caips claims core crypto dids eip712 json_ld jwk multicodec rdf security verification_methods".split()
)
PRELUDE = {
    n: "ssi_claims::data_integrity::" + n
    for n in "AnyDataIntegrity AnySuite CryptographicSuite DataIntegrity ProofOptions".split()
}
PRELUDE.update((n, "ssi_claims::vc::" + n) for n in ("AnyJsonCredential", "AnyJsonPresentation"))


def item(text):
    m = re.match(r"(\s*)(\w+)", text)
    if m and m.group(2) in SSI_MODULES:
        return m.group(1) + "ssi_" + text[m.end(1):]
    m = re.match(r"(\s*)prelude::(\w+)", text)
    if m and m.group(2) in PRELUDE:
        return m.group(1) + PRELUDE[m.group(2)] + text[m.end():]
    m = re.match(r"(\s*)prelude::\{([^{}]*)\}", text)
    if m:
        names = re.sub(r"\w+", lambda n: PRELUDE.get(n.group(), "ssi::prelude::" + n.group()), m.group(2))
        return m.group(1) + "{" + names + "}" + text[m.end():]
    return re.sub(r"^(\s*)(?=\S)", r"\1ssi::", text)


def group(body):
    out, depth, start = [], 0, 0
    for i, c in enumerate(body + ","):
        depth += (c == "{") - (c == "}")
        if c == "," and not depth:
            out.append(item(body[start:i]))
            start = i + 1
    return ",".join(out)


def ssi_paths(text):
    out, pos = [], 0
    for m in re.finditer(r"(?<![\w:])(?:::)?ssi::", text):
        if m.start() < pos:
            continue
        out.append(text[pos:m.start()])
        pos = m.end()
        if text[pos:pos + 1] == "{":
            depth, end = 1, pos + 1
            while depth and end < len(text):
                depth += (text[end] == "{") - (text[end] == "}")
                end += 1
            out.append("{" + group(text[pos + 1:end - 1]) + "}")
        else:
            end = pos + len(re.match(r"(?:prelude::)?(?:\w+|\{[^{}]*\})?", text[pos:]).group())
            out.append(item(text[pos:end]))
        pos = end
    return "".join(out) + text[pos:]


def edit(rel, data, shim):
    if not (rel.endswith(".rs") or rel.endswith(".toml")):
        return data
    text = data.decode("utf-8", "surrogateescape")
    if rel == "Cargo.toml":
        dep = 'josekit = { path = "%s" }' % shim if shim else ""
        text = re.sub(r"(?m)^josekit\s*=.*$", lambda _: dep, text)
        text = re.sub(r'(?m)^ssi\s*=\s*(?:\{\s*version\s*=\s*)?"0\.14.*$', lambda _: SSI_DEPS, text)
    if rel == "src/core/mod.rs" and not shim:
        text = re.sub(r"(?m)^pub mod jwe;[ \t]*$", "", text)
    if rel.endswith(".rs") and "ssi::" in text:
        text = ssi_paths(text)
    return text.encode("utf-8", "surrogateescape")


def wanted(shim):
    yield "Cargo.toml"
    for base in ("src", "openid4vp-frontend"):
        for top, dirs, names in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
            for n in sorted(names):
                rel = os.path.relpath(os.path.join(top, n), REPO)
                if rel == "src/core/jwe.rs" and not shim:
                    continue
                yield rel


def main():
    out = sys.argv[1]
    shim = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--jwe" else None
    keep = set()
    for rel in wanted(shim):
        keep.add(rel)
        with open(os.path.join(REPO, rel), "rb") as f:
            data = edit(rel, f.read(), shim)
        path = os.path.join(out, rel)
        try:
            with open(path, "rb") as f:
                if f.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
    for top, dirs, names in os.walk(out):
        dirs[:] = [d for d in dirs if d != "target"]
        for n in names:
            rel = os.path.relpath(os.path.join(top, n), out)
            if rel not in keep and n != "Cargo.lock":
                os.remove(os.path.join(top, n))


main()
