"""Builds the simulator together with /repo's current working tree."""
import fcntl, json, os, re, subprocess, sys
import hostsrc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, ".build")
WORLD = os.path.join(TARGET, "debug", "world")


class BuildError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def lock():
    os.makedirs(TARGET, exist_ok=True)
    f = open(os.path.join(TARGET, ".sim.lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def cargo(env, host):
    e = dict(os.environ)
    e.update(
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=TARGET,
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        RUSTFLAGS="",
    )
    for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "SIM_SKIP", "SIM_ONLY"):
        e.pop(k, None)
    e.update(env)
    cmd = ["cargo", "build", "--offline", "--message-format=json", "--keep-going"]
    if not host:
        cmd.append("--no-default-features")
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    errs, outdirs = [], {}
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "build-script-executed":
            outdirs[m["package_id"]] = m.get("out_dir")
        if m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
            errs.append((m["package_id"], m["message"]))
    return p.returncode, errs, outdirs, p.stderr


def where(msg):
    """line numbers in gen.rs a diagnostic points at, best first"""
    out = []

    def walk(s):
        while s:
            if os.path.basename(s["file_name"]) == "gen.rs":
                out.append((s["file_name"], s["line_start"]))
            e = s.get("expansion")
            s = e["span"] if e else None

    def go(m):
        for s in sorted(m.get("spans", []), key=lambda s: not s["is_primary"]):
            walk(s)
        for c in m.get("children", []):
            go(c)

    go(msg)
    return out


def spec_at(file, line, cache={}):
    """which definition a line of gen.rs belongs to (None: the simulator's own glue)"""
    st = os.stat(file)
    key = (file, st.st_mtime_ns, st.st_size)
    if key not in cache:
        cache[key] = open(file, encoding="utf-8").read().splitlines()
    for i in range(min(line, len(cache[key])) - 1, -1, -1):
        m = re.search(r"// SPEC (\d+|END)\s*$", cache[key][i])
        if m:
            return None if m.group(1) == "END" else int(m.group(1))
    return None


def build(seed, n, host=True, only=None):
    """Returns {id: message} of generated definitions the compiler refused;
    they are left out of the build."""
    with lock():
        hostsrc.sync(os.path.join(REPO, "structmeta-derive", "src"), os.path.join(HARNESS, "derive_host", "src"))
        bad = {}
        env = {"SIM_GEN_SEED": str(seed), "SIM_GEN_N": str(n)}
        if only is not None:
            env["SIM_ONLY"] = ",".join(map(str, only)) or "none"
        for _ in range(12):
            env["SIM_SKIP"] = ",".join(map(str, sorted(bad)))
            rc, errs, _, err = cargo(env, host)
            if rc == 0:
                return bad
            new = {}
            pool_errors = 0
            for pkg, m in errs:
                if not re.search(r"pool\d", pkg):
                    continue
                pool_errors += 1
                for f, l in where(m):
                    s = spec_at(f, l)
                    if s is not None:
                        if s not in bad:
                            new.setdefault(s, m.get("rendered") or m.get("message"))
                        break
            if not new:
                text = "\n".join((m.get("rendered") or m.get("message") or "") for _, m in errs[:4])
                raise BuildError((text + "\n" + err)[-6000:])
            log(f"build: {len(new)} generated definitions refused by the compiler, e.g. {min(new)}")
            bad.update(new)
        raise BuildError("too many rounds of refused definitions")
