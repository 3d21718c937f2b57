#!/usr/bin/env python3
"""Builds the workers from /repo's working tree, with the harness laid over it."""
import json, os, re, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")


def go_env():
    env = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                             stdout=subprocess.PIPE, env=env).stdout.decode()
        for kv in out.split("\0"):
            k, _, v = kv.partition("=")
            if k in ("PATH", "GOROOT", "GOCACHE", "GOFLAGS", "GOPROXY", "GOSUMDB", "GOMODCACHE", "GOPATH", "GOTOOLCHAIN", "HOME"):
                env[k] = v
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env["GOTOOLCHAIN"] = "local"
    env.pop("GODEBUG", None)
    return env


def read(p):
    with open(p) as f:
        return f.read()


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(s)


def harness_overlay(gen, extra=None):
    """Maps the harness into the module as zzverif/..., instantiating the family template twice."""
    rep = {}

    def add(rel, path):
        rep[os.path.join(REPO, "zzverif", rel)] = path

    for d in ("ref", "rt", "cmd", "hip", "sched", "par", "zsync", "zatomic"):
        for f in sorted(os.listdir(os.path.join(HARNESS, d))):
            if f.endswith(".go"):
                add(f"{d}/{f}", os.path.join(HARNESS, d, f))
    for fam, pkg in (("ipv4", "h4"), ("ipv6", "h6")):
        for f in sorted(os.listdir(os.path.join(HARNESS, "fam"))):
            if not f.endswith(".go"):
                continue
            s = read(os.path.join(HARNESS, "fam", f))
            s = s.replace('"gopkg.in/addrs.v1/FAM"', f'"gopkg.in/addrs.v1/{fam}"')
            s = re.sub(r"(?m)^package fam$", f"package {pkg}", s, count=1)
            p = os.path.join(gen, pkg, f)
            write(p, s)
            add(f"{pkg}/{f}", p)
        shim = os.path.join(HARNESS, "shim" + fam[-1], "shim.go")
        add(f"{pkg}/shim.go", shim)
    return rep


def build(out, gen, rep=None, flags=(), goenv=None):
    """Builds the enumeration worker; returns (ok, output)."""
    rep = rep or harness_overlay(gen)
    ov = os.path.join(gen, "overlay.json")
    write(ov, json.dumps({"Replace": rep}))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    env = dict(go_env(), **(goenv or {}))
    p = subprocess.run(["go", "build", "-buildvcs=false"] + list(flags) + ["-overlay", ov, "-o", out, "gopkg.in/addrs.v1/zzverif/cmd"],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0, p.stdout.decode(errors="replace")


def build_conc(out, gen):
    """Builds the worker with the race detector and the packages under test
    instrumented for the controlled scheduler."""
    return build_instrumented(out, gen, [], ["-race"])


def build_small_int(out, gen):
    """Builds the worker for a platform where int has 32 bits."""
    return build(out, gen, goenv={"GOARCH": "386", "CGO_ENABLED": "0"})


def build_count(out, gen):
    """Builds the worker with the packages under test counting their steps."""
    return build_instrumented(out, gen, ["-count"], [])


def build_instrumented(out, gen, iflags, flags):
    env = go_env()
    instr = os.path.join(gen, "instr")
    os.makedirs(gen, exist_ok=True)
    p = subprocess.run(["go", "build", "-buildvcs=false", "-o", instr, "main.go"], cwd=os.path.join(VERIF, "tools", "instr"),
                       env=dict(env, GOFLAGS="", GO111MODULE="off"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return False, p.stdout.decode(errors="replace")
    rep = harness_overlay(gen)
    for fam in ("ipv4", "ipv6", "ip"):
        p = subprocess.run([instr] + iflags + [os.path.join(REPO, fam), os.path.join(gen, "instrumented", fam)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            return False, p.stderr.decode(errors="replace")
        for line in p.stdout.decode().splitlines():
            src, dst = line.split("\t")
            rep[src] = dst
    return build(out, gen, rep, flags)


if __name__ == "__main__":
    ok, o = build(sys.argv[1], sys.argv[2])
    sys.stdout.write(o)
    sys.exit(0 if ok else 1)
