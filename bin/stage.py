#!/usr/bin/env python3
"""Stage /repo's sources for the harness: the same files, compiled against the modelled std,
tokio and rand.  Everything is taken from the working tree of /repo on every run."""
import hashlib, os, re, sys, tomllib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STAGE = os.path.join(VERIF, "stage")
SRV = os.path.join(REPO, "server")
SRC = os.path.join(SRV, "src")
EXTERN = "\n#[macro_use]\nextern crate vstd as std;\n"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def link(target, path):
    if os.path.islink(path):
        if os.readlink(path) == target:
            return
        os.unlink(path)
    elif os.path.exists(path):
        raise SystemExit(f"stage: {path} is in the way")
    os.symlink(target, path)


def main():
    with open(os.path.join(SRV, "Cargo.toml"), "rb") as f:
        manifest = tomllib.load(f)
    h = hashlib.sha256()
    files = []
    for d, dirs, names in os.walk(SRV):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for n in sorted(names):
            p = os.path.join(d, n)
            if p.endswith((".rs", ".toml")):
                files.append(p)
    text_all = ""
    for p in files:
        with open(p, "rb") as f:
            b = f.read()
        h.update(os.path.relpath(p, SRV).encode() + b"\0" + b + b"\0")
        if p.endswith(".rs"):
            text_all += b.decode("utf-8", "replace")
    digest = h.hexdigest()

    deps = []
    for name, spec in manifest.get("dependencies", {}).items():
        if name in ("rand", "tokio"):
            continue
        if isinstance(spec, str):
            deps.append(f'{name} = "{spec}"')
        else:
            parts = []
            for k, v in spec.items():
                if isinstance(v, bool):
                    parts.append(f"{k} = {'true' if v else 'false'}")
                elif isinstance(v, list):
                    parts.append(f"{k} = [" + ", ".join(f'"{x}"' for x in v) + "]")
                else:
                    parts.append(f'{k} = "{v}"')
            deps.append(f"{name} = {{ {', '.join(parts)} }}")
    shims = [
        'rand = { path = "../../harness/shim-rand" }',
        'tokio = { path = "../../harness/shim-tokio" }',
        'vstd = { path = "../../harness/vstd" }',
    ]
    edition = manifest["package"].get("edition", "2021")

    def cargo(name, extra):
        return (
            f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "{edition}"\n\n'
            + "[lib]\ndoctest = false\n\n[dependencies]\n"
            + "\n".join(deps + shims + extra) + "\n"
        )

    # the library
    sdir = os.path.join(STAGE, "server", "src")
    os.makedirs(sdir, exist_ok=True)
    write(os.path.join(STAGE, "server", "Cargo.toml"), cargo("server", []))
    wanted = {"lib.rs"}
    for n in sorted(os.listdir(SRC)):
        if n == "lib.rs":
            continue
        wanted.add(n)
        link(os.path.join(SRC, n), os.path.join(sdir, n))
    for n in os.listdir(sdir):
        if n not in wanted:
            os.unlink(os.path.join(sdir, n))
    with open(os.path.join(SRC, "lib.rs"), encoding="utf-8") as f:
        lib = f.read()
    write(os.path.join(sdir, "lib.rs"), lib + EXTERN + f"// sources: {digest}\n")

    # the library once more, to be compiled without optimisation
    pdir = os.path.join(STAGE, "server_plain", "src")
    os.makedirs(pdir, exist_ok=True)
    write(os.path.join(STAGE, "server_plain", "Cargo.toml"), cargo("server_plain", []))
    for n in wanted - {"lib.rs"}:
        link(os.path.join(SRC, n), os.path.join(pdir, n))
    for n in os.listdir(pdir):
        if n not in wanted:
            os.unlink(os.path.join(pdir, n))
    write(os.path.join(pdir, "lib.rs"), lib + EXTERN + f"// sources: {digest}\n")

    # the binaries, as modules
    bdir = os.path.join(STAGE, "bins", "src")
    write(os.path.join(STAGE, "bins", "Cargo.toml"), cargo("bins", ['server = { path = "../server" }']))
    mods = []
    paths = {b["name"]: b.get("path", f"src/bin/{b['name']}.rs") for b in manifest.get("bin", [])}
    for kind in ("simple", "multi", "async"):
        rel = paths.get(f"{kind}_server", f"src/{kind}.rs")
        with open(os.path.join(SRV, rel), encoding="utf-8") as f:
            body = f.read()
        write(
            os.path.join(bdir, f"{kind}_bin.rs"),
            body + "\n/// Entry of the binary.\npub fn __verif_main() {\n    let _ = main();\n}\n",
        )
        mods.append(f"#[path = \"{kind}_bin.rs\"]\npub mod {kind}_bin;")
    write(
        os.path.join(bdir, "lib.rs"),
        "#![allow(warnings)]\n" + EXTERN + "\n".join(mods) + f"\n// sources: {digest}\n",
    )

    # does the code keep mutable process-wide state?
    no_tests = text_all
    stat = re.findall(r"^\s*(?:pub(?:\([^)]*\))?\s+)?static\s+(?:mut\s+)?\w+\s*:[^=;]*", no_tests, re.M)
    mutable = [s for s in stat if re.search(r"static\s+mut|Atomic|Mutex|RwLock|Cell|Condvar|Once", s)]
    if "thread_local!" in no_tests:
        mutable.append("thread_local")
    write(
        os.path.join(STAGE, "bins", "src", "info.txt"),
        f"digest={digest}\nstatics={len(mutable)}\n",
    )
    print(f"staged {len(files)} files, digest {digest[:12]}, mutable statics: {len(mutable)}")


main()
