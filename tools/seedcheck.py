#!/usr/bin/env python3
"""seedcheck.py ID...: a planted change builds, passes the stable tests, and its demo tells it from the original
(all in a scratch copy, /tmp/seedrepo). With --checks: also runs the property's check with the change applied to /repo."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR="/tmp/seedtarget")


def sh(c, cwd=S, env=ENV, timeout=1200):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def demo(i):
    d = "/tmp/seeddemo-" + i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "seeded", i), d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    e = {k: v for k, v in ENV.items() if k != "CARGO_TARGET_DIR"}
    try:
        return sh("bash %s/demo.sh" % d, env=e, timeout=300)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess("", 124, b"TIMEOUT")
    finally:
        shutil.rmtree(d)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if not os.path.exists(S):
        subprocess.check_call(["git", "clone", "-q", "/repo", S])
    sh("git checkout -q -- . && git clean -fdq && git pull -q")
    for i in ids:
        p = os.path.join(V, "seeded", i, "patch.diff")
        if "--nodemo" not in sys.argv:
            r = demo(i)
            print(i, "demo on original:", r.returncode, "" if r.returncode == 0 else r.stdout.decode()[-1500:])
        r = sh("git apply " + p)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout.decode()); continue
        try:
            r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1; cargo check --offline --workspace --benches --all-features >> /tmp/seed.log 2>&1; echo rc=$? ; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log")
            res = json.load(open("/tmp/seed.json"))
            miss = stable - set(res["passed"])
            print(i, "stable tests:", "ok" if not miss else "FAIL %s" % sorted(miss)[:5], r.stdout.decode().split()[0])
            r = demo(i)
            print(i, "demo with change:", r.returncode, r.stdout.decode()[-300:].replace("\n", " / "))
        finally:
            sh("git checkout -q -- . && git clean -fdq")
        if "--checks" in sys.argv:
            props = [json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]]
            subprocess.check_call(["git", "-C", "/repo", "apply", p])
            try:
                for pr in props:
                    r = subprocess.run(["python3", "check.py", pr], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                    out = r.stdout.decode()
                    print(i, pr, "check exit", r.returncode, [l for l in out.splitlines() if "VIOLATION" in l or "violation:" in l or "TOOL" in l or "held" in l][:3])
            finally:
                subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])


main()
