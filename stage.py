#!/usr/bin/env python3
"""Lays out the build workspace .ws: copies of cnosdb's crates as they are in /repo
now, with their seams turned towards the simulation.

 * `std::sync` and `std::thread` become `simstd::sync` and `simstd::thread`
 * tokio, parking_lot and what cannot be fetched here become crates of ../sim and ../stubs
 * visibility is widened (pub(crate) to pub, private modules to public), so that
   harnesses can reach every component without touching /repo

Nothing else changes. Files are only rewritten when their content changes."""
import fnmatch, hashlib, os, re, shutil, sys, tomllib

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CNOSIM_REPO", "/repo")
WS = os.path.join(ROOT, ".ws")

CRATES = [
    "common/version", "common/derive_macros", "common/derive_traits", "common/utils", "config",
    "common/trace", "common/cache", "common/limiter_bucket", "common/metrics", "common/memory_pool",
    "common/protos", "common/http_protocol", "common/models", "replication", "meta",
    "common/protocol_parser", "tskv", "coordinator", "main",
]
# crates of which only these sources take part, under a library of their own
PARTS = {"main": ({"src/rpc/tskv.rs"}, "src/lib.rs", "pub mod rpc {\n    pub mod tskv;\n}\n", "cnosdb_rpc")}
NEEDED = {"main": {"async-trait", "coordinator", "flatbuffers", "futures", "meta", "metrics", "models", "protos", "snafu", "tokio", "tokio-stream", "tonic", "trace", "tskv", "datafusion"}}
# proc macros and generated code stay as they are
PLAIN = {"common/version", "common/derive_macros", "common/derive_traits"}
# dependency name -> crate that stands in for it
SIM = {
    "tokio": ("sim/sim-tokio", "sim-tokio"), "parking_lot": ("sim/sim-parking_lot", "sim-parking_lot"),
    "warp": ("sim/sim-warp", "sim-warp"),
    "tonic": ("sim/sim-tonic", "sim-tonic"), "tower": ("sim/sim-tower", "sim-tower"),
}
# what another dependency (now a stub) would have switched on
FEATURES = {"uuid": ["v4"]}
DROP_DEPS = {"rio", "tokio-uring", "winapi", "windows", "dircpy", "sysinfo", "serial_test", "async-backtrace", "actix-web", "pprof", "tikv-jemalloc-ctl", "tikv-jemalloc-sys", "radixdb", "clap", "ctrlc"}
HARNESSES = sorted(os.listdir(os.path.join(ROOT, "harness"))) if os.path.isdir(os.path.join(ROOT, "harness")) else []
STUBS = sorted(d for d in os.listdir(os.path.join(ROOT, "stubs")) if os.path.exists(os.path.join(ROOT, "stubs", d, "Cargo.toml"))) if os.path.isdir(os.path.join(ROOT, "stubs")) else []


def put(path, text):
    if os.path.islink(path):
        os.unlink(path)
    b = text if isinstance(text, bytes) else text.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == b:
                return False
    except FileNotFoundError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(b)
    return True


# ---------------------------------------------------------------- rust sources
def split_top(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def flat(tree):
    """use-tree text -> list of leaf paths"""
    tree = tree.strip()
    i = tree.find("{")
    if i < 0:
        return [tree]
    head = tree[:i]
    body = tree[i + 1 : tree.rindex("}")]
    out = []
    for part in split_top(body):
        for leaf in flat(part):
            if leaf == "self":
                out.append(head.rstrip(":"))
            elif leaf.startswith("self as "):
                out.append(head.rstrip(":") + leaf[4:])
            else:
                out.append(head + leaf)
    return out


def seam(text):
    def fix_use(m):
        leaves = flat(m.group(3))
        vis = m.group(1)
        out = []
        for l in leaves:
            l = re.sub(r"\s+", " ", l)
            l = re.sub(r"^(::)?std::(sync|thread)\b", r"simstd::\2", l)
            out.append(f"{vis}use {l};")
        # keep the number of lines
        return m.group(2) * 0 + " ".join(out) + "\n" * m.group(0).count("\n")

    # nested imports that start at std
    text = re.sub(r"((?:pub(?:\([^)]*\))?\s+)?)\buse\s+()((?:::)?std::\{[^;]*\})\s*;", fix_use, text)
    text = re.sub(r"(?<![\w:])(::)?std::(sync|thread)\b", r"simstd::\2", text)
    return text


def strip_tests(text):
    if re.search(r"\buse (?:self::|crate::\w+::)?tests?::", text):
        return text
    return re.sub(r"^(?:#\[[^\n]*\n)*(?:pub )?mod tests? \{\n.*?^\}\n", "", text, flags=re.M | re.S)


def widen(text):
    text = re.sub(r"\bpub\s*\((?:crate|super|self|in [\w:]+)\)", "pub", text)
    text = re.sub(r"^(\s*)mod (\w+);", r"\1pub mod \2;", text, flags=re.M)
    text = re.sub(r"^(use (?:crate|self|super)::)", r"pub \1", text, flags=re.M) if False else text
    return text


# ---------------------------------------------------------------- manifests
def emit_val(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, list):
        return "[" + ", ".join(emit_val(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {emit_val(x)}" for k, x in v.items()) + " }"
    raise TypeError(v)


def stub_of(name, crate=None):
    if crate == "meta" and name == "reqwest":
        return ("sim/sim-reqwest", "sim-reqwest")
    if name in SIM:
        return SIM[name]
    if name in STUBS:
        return (f"stubs/{name}", name)
    return None


def convert_dep(name, spec, wdeps, up, crate=None):
    if isinstance(spec, str):
        spec = {"version": spec}
    spec = dict(spec)
    if spec.pop("workspace", False):
        base = wdeps[name]
        base = {"version": base} if isinstance(base, str) else dict(base)
        feats = list(base.get("features", [])) + list(spec.get("features", []))
        base.update({k: v for k, v in spec.items() if k != "features"})
        if "default-features" in wdeps[name] if isinstance(wdeps[name], dict) else False:
            base["default-features"] = wdeps[name]["default-features"]
        if feats:
            base["features"] = sorted(set(feats))
        spec = base
    if "path" in spec:
        return spec
    if name in FEATURES:
        spec["features"] = sorted(set(spec.get("features", []) + FEATURES[name]))
    st = stub_of(name, crate)
    if st:
        out = {"path": f"{up}/{st[0]}"}
        if st[1] != name:
            out["package"] = st[1]
        if st[0].startswith("sim/") and spec.get("features"):
            out["features"] = spec["features"]
        if spec.get("optional"):
            out["optional"] = True
        return out
    return spec


def crate_manifest(crate, root, feature_over):
    with open(f"{REPO}/{crate}/Cargo.toml", "rb") as f:
        m = tomllib.load(f)
    if crate in PARTS:
        m["package"]["name"] = PARTS[crate][3]
        m["features"] = {}
    wp = root["workspace"]["package"]
    wdeps = root["workspace"]["dependencies"]
    up = "/".join([".."] * (crate.count("/") + 2))
    out = ["[package]", f'name = {emit_val(m["package"]["name"])}', f'version = {emit_val(wp["version"])}', f'edition = {emit_val(wp["edition"])}']
    lib = m.get("lib", {})
    bs = m["package"].get("build")
    has_build = os.path.exists(f"{REPO}/{crate}/build.rs") and crate == "common/version"
    if not has_build:
        out.append("build = false")
    out += ["autobins = false", "autotests = false", "autobenches = false", "autoexamples = false", "", "[lib]"]
    for k, v in lib.items():
        out.append(f"{k} = {emit_val(v)}")
    out += ["doctest = false", "", "[dependencies]"]
    deps = dict(m.get("dependencies", {}))
    for cfg, t in m.get("target", {}).items():
        if "windows" in cfg and "not(" not in cfg:
            continue
        deps.update(t.get("dependencies", {}))
    dropped = set()
    for name, spec in sorted(deps.items()):
        if name in DROP_DEPS or (crate in PARTS and name not in NEEDED[crate]):
            dropped.add(name)
            continue
        if isinstance(spec, dict) and spec.get("optional") and stub_of(name) is None and "path" not in spec:
            dropped.add(name)
            continue
        out.append(f"{name} = {emit_val(convert_dep(name, spec, wdeps, up, crate))}")
    if crate not in PLAIN:
        out.append(f'simstd = {{ path = "{up}/sim/simstd" }}')
    if has_build:
        out += ["", "[build-dependencies]"]
        for name, spec in m.get("build-dependencies", {}).items():
            out.append(f"{name} = {emit_val(convert_dep(name, spec, wdeps, up))}")
    out += ["", "[features]"]
    for k, v in m.get("features", {}).items():
        v = [x for x in v if x.split("/")[0].removeprefix("dep:").rstrip("?") not in dropped]
        out.append(f"{emit_val(k)} = {emit_val(v)}")
    return "\n".join(out) + "\n"


def stage_crate(crate, root):
    src, dst = f"{REPO}/{crate}", f"{WS}/crates/{crate}"
    put(f"{dst}/Cargo.toml", crate_manifest(crate, root, {}))
    keep = {"Cargo.toml"}
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, src)
        if rel == ".":
            dirs[:] = [x for x in dirs if x not in ("target", "tests", "benches", "examples", "fuzz")]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r in ("Cargo.toml", "Cargo.lock") or not (r.startswith("src/") or r == "build.rs" or r.startswith("proto")):
                continue
            if crate in PARTS and r not in PARTS[crate][0]:
                continue
            keep.add(r)
            with open(os.path.join(d, f), "rb") as h:
                b = h.read()
            if f.endswith(".rs") and crate not in PLAIN:
                t = b.decode()
                t = seam(strip_tests(t))
                t = widen(t)
                for pat, fn in PATCHES:
                    if fnmatch.fnmatch(f"{crate}/{r}", pat):
                        t = fn(t)
                b = t.encode()
            put(os.path.join(dst, r), b)
    if crate in PARTS:
        put(os.path.join(dst, PARTS[crate][1]), PARTS[crate][2])
        keep.add(PARTS[crate][1])
    for d, dirs, files in os.walk(dst):
        for f in files:
            r = os.path.relpath(os.path.join(d, f), dst)
            if r not in keep:
                os.unlink(os.path.join(d, f))


PROFILING = """pub async fn gernate_pprof() -> Result<String, String> {
    Err("not in a simulation".to_string())
}
pub async fn gernate_jeprof() -> Result<String, String> {
    Err("not in a simulation".to_string())
}
"""
# the index format before engine2, which only an upgrade from it reads
OLD_INDEX = """use std::path::Path;

use super::IndexResult;

pub struct IndexEngine;
impl IndexEngine {
    pub fn new(_path: impl AsRef<Path>) -> IndexResult<Self> {
        Err(super::IndexStorageSnafu { msg: "no index of the old format in a simulation".to_string() }.build())
    }
    pub fn copy_to_engine2(&self, _: &super::engine2::IndexEngine2) -> IndexResult<u64> {
        Ok(0)
    }
}
"""
# profilers take no part in any property
PATCHES = [
    ("common/utils/src/pprof_tools.rs", lambda t: PROFILING),
    ("tskv/src/index/engine.rs", lambda t: OLD_INDEX),
    # no signals in a simulation
    ("meta/src/signal.rs", lambda t: "pub fn block_waiting_ctrl_c() {}\n"),
]


def link(target, path):
    if os.path.islink(path):
        if os.readlink(path) == target:
            return
        os.unlink(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    os.symlink(target, path)


def main():
    with open(f"{REPO}/Cargo.toml", "rb") as f:
        root = tomllib.load(f)
    for n in ("sim", "stubs", "harness"):
        link(f"../{n}", f"{WS}/{n}")
    for c in CRATES:
        stage_crate(c, root)
    members = [f"crates/{c}" for c in CRATES] + [f"sim/{d}" for d in sorted(os.listdir(f"{ROOT}/sim"))] + [f"stubs/{d}" for d in STUBS] + [f"harness/{d}" for d in HARNESSES]
    put(f"{WS}/Cargo.toml", f'''[workspace]
resolver = "2"
members = {emit_val(members)}

[profile.dev]
opt-level = 1
debug = 0
debug-assertions = false
overflow-checks = false
incremental = true
codegen-units = 16
panic = "unwind"

[profile.dev.package."*"]
opt-level = 1
''')
    with open(f"{REPO}/Cargo.lock", "rb") as f:
        lock = f.read()
    h = hashlib.sha256(lock + repr(members).encode()).hexdigest()
    try:
        old = open(f"{WS}/lock.from").read()
    except FileNotFoundError:
        old = ""
    if old != h:
        put(f"{WS}/Cargo.lock", lock)
        put(f"{WS}/lock.from", h)


if __name__ == "__main__":
    sys.exit(main())
