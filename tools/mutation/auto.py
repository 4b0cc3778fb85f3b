#!/usr/bin/env python3
"""Automatic mutants (development tool): auto.py WORK N SEED

Samples N token-level mutants of the library (operators swapped, conditions negated, constants and
literals changed, statements removed), builds each in copies under WORK as run.py does, and runs the
checks with a fraction of their cases until one reports a violation.  Prints the survivors."""
import os, random, re, subprocess, sys, time, shutil
work, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
repo, verif = work + "/repo", work + "/verif"
os.makedirs(work, exist_ok=True)
if not os.path.exists(repo):
    subprocess.check_call(["cp", "-a", "/repo", repo])
subprocess.check_call(f"mkdir -p {verif}; cd /verif && tar cf - --exclude=.git --exclude=./seeded --exclude=./build/mirror --exclude=./build/mirror-jwe {'--exclude=./build' if os.path.exists(verif + '/build') else ''} . | tar xf - -C {verif}", shell=True)
p = verif + "/tools/mirror.py"
s = open(p).read().replace('REPO = "/repo"', f'REPO = "{repo}"')
open(p, "w").write(s)
subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=repo, check=True)
FIRST = {
    "did.rs": "C02 C23", "x509_san.rs": "C03 C23", "x509_hash.rs": "C04 C23", "verifier.rs": "C03 C20 C08 C19",
    "verification/mod.rs": "C07 C08 C05", "authorization_request/mod.rs": "C05 C06 C10 C09 C21 C01 C19", "authorization_request/parameters.rs": "C09 C21 C08 C07",
    "credential_format": "C22 C17 C21", "dcql_query.rs": "C17 C21 C30", "iso_18013_7": "C18 C19", "jwe.rs": "C26", "metadata/mod.rs": "C20 C08 C21", "wallet.rs": "C12 C20 C08 C07",
    "object": "C21 C09", "response": "C11 C27 C12", "util": "C28 C06", "utils.rs": "C30 C17", "verifier/client.rs": "C24 C01 C16", "verifier/mod.rs": "C16 C13 C15 C14", "request_builder.rs": "C16 C15 C29",
    "request_signer.rs": "C24", "session.rs": "C13 C14 C15", "by_reference": "C16 C01", "frontend": "C25 C13",
}
ALL = ["C%02d" % i for i in range(1, 31)]
SWAPS = [("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), ("true", "false"), ("false", "true"),
         (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".is_ok()", ".is_err()"), (".is_err()", ".is_ok()"), (".is_empty()", ".is_empty() == false"),
         (".any(", ".all("), (".all(", ".any("), (".first()", ".last()"), (".last()", ".first()"), (".and_then(", ".map("), (".unwrap_or_default()", ".unwrap()"), ("starts_with", "ends_with"), ("split_once", "rsplit_once"),
         (".contains(", ".is_empty() || !x.contains("), ("strip_prefix", "strip_suffix"), (".filter(", ".skip_while("), (".find(", ".rfind("), ("Some(", "None.or(Some("), (" + 1", ""), (" - 1", ""), ("0", "1"), ("1", "2"),
         ("extend", "clone_from"), (".insert(0,", ".push("), ("if let Some(", "if let None::<()> = None && let Some("), (".or_insert", ".or_insert"), ("!", ""), ("?;", ".ok();"), (".trim()", ""), ("to_string()", "to_string().to_lowercase()"),
         (".iter()", ".iter().skip(1)"), (".iter()", ".iter().take(1)"), (".into_iter()", ".into_iter().rev()"), ("URL_SAFE_NO_PAD", "URL_SAFE"), ("BASE64_STANDARD", "BASE64_STANDARD_NO_PAD"), ("skip_serializing_if", "skip_serializing_if"), ("#[serde(default)]", ""), ("#[serde(flatten)]", ""), ("Ok(())", "anyhow::bail!(\"no\")"),
         ("from_slice", "from_slice"), ("POST", "GET"), ("GET", "POST")]
muts = []
files = subprocess.check_output("git ls-files 'src/*.rs' 'openid4vp-frontend/src/*.rs'", shell=True, cwd=repo, text=True).split()
for f in files:
    lines = open(os.path.join(repo, f)).read().split("\n")
    end = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    if f == "src/lib.rs":
        continue
    for i, l in enumerate(lines[:end]):
        t = l.strip()
        if not t or t.startswith("//") or t.startswith("use ") or t.startswith("pub use") or t.startswith("mod ") or t.startswith("pub mod"):
            continue
        for a, b in SWAPS:
            if a == b:
                continue
            for m in re.finditer(re.escape(a), l):
                if a in ("0", "1") and (re.match(r"[\w.\"]", l[m.start() - 1:m.start()] or " ") or re.match(r"[\w.\"]", l[m.end():m.end() + 1] or " ")):
                    continue
                if a == "!" and (l[m.start() - 1:m.start()].isalnum() or l[m.end():m.end() + 1] == "="):
                    continue
                if a in ("true", "false") and re.match(r"\w", l[m.end():m.end() + 1] or " "):
                    continue
                new = l[:m.start()] + b + l[m.end():]
                if b == "None.or(Some(":
                    continue
                if "x.contains" in b or "let None" in b:
                    continue
                muts.append((f, i, new))
        # conditions
        m = re.match(r"^(\s*)(\} else )?if (?!let)(.*) \{$", l)
        if m:
            muts.append((f, i, f"{m.group(1)}{m.group(2) or ''}if !({m.group(3)}) {{"))
            muts.append((f, i, f"{m.group(1)}{m.group(2) or ''}if false && ({m.group(3)}) {{"))
            muts.append((f, i, f"{m.group(1)}{m.group(2) or ''}if true || ({m.group(3)}) {{"))
        # strings
        for m in re.finditer(r'"([A-Za-z_][\w.\-+/]*)"', l):
            if "bail!" in l or "context" in l or "expect(" in l or "error!(" in l or "#[error" in l or "debug!" in l or "warn!" in l or "Err(" in l:
                continue
            w = m.group(1)
            muts.append((f, i, l[:m.start(1)] + w[:-1] + l[m.end(1):]))
            muts.append((f, i, l[:m.start(1)] + w.upper() + l[m.end(1):] if w.upper() != w else l[:m.start(1)] + w.lower() + l[m.end(1):]))
        # whole statements, struct fields aside
        if t.endswith(";") and not t.startswith(("let ", "return", "pub ", "type ", "const ", "static ", "}", "bail", ".", ")")) :
            muts.append((f, i, ""))
        if t.startswith("bail!(") and t.endswith(")"):
            pass
        # match arms
        m = re.match(r"^(\s*)(.* => )(.+),$", l)
        if m and "bail!" not in l:
            pass
        # attributes
        if t.startswith("#[serde(") :
            muts.append((f, i, ""))
random.Random(seed).shuffle(muts)
seen, chosen = set(), []
for m in muts:
    if m not in seen:
        seen.add(m)
        chosen.append(m)
print(f"{len(chosen)} mutants in all", flush=True)
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VP_ROOT=verif)
done = caught = nobuild = 0
src = "sh -c '. /opt/vp/scope/env.sh; export CARGO_TARGET_DIR=%s/build/target CARGO_NET_OFFLINE=true; cd %s/%s && cargo build --offline --locked -q'"
for f, i, new in chosen:
    if done >= n:
        break
    path = os.path.join(repo, f)
    orig = open(path).read()
    lines = orig.split("\n")
    old = lines[i]
    lines[i] = new
    open(path, "w").write("\n".join(lines))
    try:
        jwe = f.endswith("jwe.rs")
        args = ["python3", verif + "/tools/mirror.py", verif + ("/build/mirror-jwe" if jwe else "/build/mirror")] + (["--jwe", verif + "/josekit-shim"] if jwe else [])
        subprocess.check_call(args)
        r = subprocess.run(src % (verif, verif, "harness-jwe" if jwe else "harness"), shell=True, capture_output=True, text=True)
        if r.returncode:
            nobuild += 1
            continue
        done += 1
        first = next((v for k, v in FIRST.items() if k in f), "").split()
        order = [(c, 0.3) for c in first] + ([] if jwe else [(c, 0.06) for c in ALL if c not in first and c != "C26"])
        hit = None
        for c, scale in order:
            exe = verif + "/build/target/debug/vp-check" + ("-jwe" if jwe else "")
            r = subprocess.run([exe, c, "--scale", str(scale)], env=env, capture_output=True, text=True)
            if r.returncode == 1:
                hit = c
                break
            if r.returncode != 0:
                hit = f"{c}?{r.returncode}"
        if hit and "?" not in hit:
            caught += 1
        print(f"{'caught  ' if hit else 'SURVIVED'} {hit or ''} {f}:{i+1}\n    - {old.strip()}\n    + {new.strip()}" if not hit or "?" in hit else f"caught {hit} {f}:{i+1}  {new.strip()[:100]}", flush=True)
    finally:
        open(path, "w").write(orig)
print(f"built {done}, caught {caught}, did not build {nobuild}", flush=True)
