"""Extra files and transformed copies derived from the mirror of /repo."""
import os, re, shutil

def split_tests(src):
    """Drop trailing `#[cfg(test)] mod ... { ... }` blocks: the copies are never built as tests."""
    out, i = [], 0
    for m in re.finditer(r"^#\[cfg\(test\)\]\s*\n(?:pub )?mod \w+\s*\{", src, re.M):
        if m.start() < i:
            continue
        # the block closes at the first line that is exactly "}"
        e = re.compile(r"^\}\s*$", re.M).search(src, m.end())
        if not e:
            continue
        out.append(src[i:m.start()])
        i = e.end()
    out.append(src[i:])
    return "".join(out)

def restd(src):
    """Route every `std::`/`core::` path of a source file to the `mcstd` facade."""
    src = split_tests(src)
    lines = []
    for l in src.split("\n"):
        if not l.lstrip().startswith("//"):
            # statics outlive a model execution: they stay std's
            l = re.sub(r"(static \w+: )(?:[\w:]*::)?(Atomic\w+|OnceLock<.*>|LazyLock<.*>) = (?:[\w:]*::)?(\w+)::new",
                       lambda m: m.group(1) + "::S::" + m.group(2) + " = ::S::" + m.group(3) + "::new", l)
            l = re.sub(r"::S::(Atomic\w+)", r"::mcstd::real::sync::atomic::\1", l)
            l = re.sub(r"::S::(\w+)", r"::mcstd::real::sync::\1", l)
            l = re.sub(r"(?<![\w:$])(?:::)?(?:std|core)::", "::mcstd::", l)
        lines.append(l)
    return "\n".join(lines)

def transformed(SHADOW, dst, crates, facade, extra_deps, wic, transform=restd, keep_data=()):
    """A mini-workspace at `dst` holding `crates` with every source passed through `transform`."""
    ws = open(os.path.join(SHADOW, "Cargo.toml")).read()
    ws = re.sub(r"members\s*=\s*\[.*?\]", "members = [%s]" % ", ".join('"%s"' % c for c in crates), ws, flags=re.S)
    # in-repo crates that are not transformed come from the plain mirror
    for m in re.finditer(r'^(\w+) = \{ version = "[^"]*", path = "\./(\w+)" \}', ws, re.M):
        if m.group(2) not in crates:
            ws = ws.replace('path = "./%s"' % m.group(2), 'path = "%s"' % os.path.join(SHADOW, m.group(2)))
    ws = re.sub(r"^\[profile\..*?(?=^\[(?!profile)|\Z)", "", ws, flags=re.S | re.M)
    wic(os.path.join(dst, "Cargo.toml"), ws.encode())
    live = {os.path.join(dst, "Cargo.toml")}
    for c in crates:
        root = os.path.join(SHADOW, c)
        toml = open(os.path.join(root, "Cargo.toml")).read()
        toml = re.sub(r"^\[(dev-dependencies|\[bench\]|\[bin\]|\[example\]|\[test\]).*?(?=^\[|\Z)", "", toml, flags=re.S | re.M)
        # a distinct version, so that a harness can depend on the plain and the transformed crate
        toml = re.sub(r'^version = "(\d+\.\d+)\.\d+"', r'version = "\1.77"', toml, count=1, flags=re.M)
        add = 'mcstd = { path = "%s" }\n' % facade + "".join(extra_deps.get(c, []))
        if re.search(r"^\[dependencies\]", toml, re.M):
            for d in extra_deps.get("drop:" + c, []):
                toml = re.sub(r"^%s\b.*\n" % re.escape(d), "", toml, flags=re.M)
            toml = re.sub(r"^\[dependencies\]\s*\n", "[dependencies]\n" + add, toml, flags=re.M)
        else:
            toml += "\n[dependencies]\n" + add
        p = os.path.join(dst, c, "Cargo.toml")
        wic(p, toml.encode())
        live.add(p)
        for dp, dn, fn in os.walk(os.path.join(root)):
            rel = os.path.relpath(dp, root)
            if rel.split(os.sep)[0] in ("target", "benches", "tests", "examples"):
                continue
            for f in fn:
                if rel == "." and f == "Cargo.toml":
                    continue
                q = os.path.join(dst, c, rel, f)
                data = open(os.path.join(dp, f), "rb").read()
                if f.endswith(".rs"):
                    data = transform(data.decode()).encode()
                wic(os.path.normpath(q), data)
                live.add(os.path.normpath(q))
    for dp, dn, fn in os.walk(dst):
        if "target" in dn:
            dn.remove("target")
        for f in fn:
            p = os.path.join(dp, f)
            if p not in live and f != "Cargo.lock":
                os.remove(p)

def prepare(V, REPO, B, SHADOW, write_if_changed):
    d = os.path.join(SHADOW, "mux_circuits", "src", "data")
    real = os.path.join(REPO, "mux_circuits", "src", "data", "multiplier-n32-m32")
    mine = os.path.join(V, "data", "multiplier-n32-m32")
    for src in (real, mine, os.path.join(d, "multiplier-n16-m16")):
        if os.path.exists(src):
            write_if_changed(os.path.join(d, "multiplier-n32-m32"), open(src, "rb").read())
            break
    transformed(SHADOW, os.path.join(B, "lshadow"), ["parasol_concurrency", "parasol_runtime"],
                os.path.join(V, "shims", "mcstd_loom"),
                {"drop:parasol_runtime": ["rayon"],
                 "parasol_runtime": ['rayon = { path = "%s" }\n' % os.path.join(V, "shims", "rayon_loom")]}, write_if_changed)
    transformed(SHADOW, os.path.join(B, "cshadow"), ["parasol_runtime", "parasol_cpu"],
                os.path.join(V, "shims", "mcstd_coarse"),
                {"drop:parasol_runtime": ["rayon"], "drop:parasol_cpu": ["rayon"],
                 "parasol_runtime": ['rayon = { path = "%s" }\n' % os.path.join(V, "shims", "rayon_coarse")],
                 "parasol_cpu": ['rayon = { path = "%s" }\n' % os.path.join(V, "shims", "rayon_coarse")]}, write_if_changed)
