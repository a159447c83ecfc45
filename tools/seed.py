#!/usr/bin/env python3
"""tools/seed.py ID [check ...]: verifies seeded/ID in the scratch copy /tmp/w (made with 'seed.py init')
and runs the given checks (default: the property of meta.json) against the changed copy."""
import glob, json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def sync():
    if not os.path.isdir(W):
        sh(f"cp -a /repo {W}")
    sh(f"git -C {W} checkout -q -- . && git -C {W} pull -q /repo HEAD; git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD")


def build():
    s = open("/opt/vp/build.sh").read().replace("/repo", W)
    return sh(s, executable="/bin/bash")


def tests():
    r = sh(f"python3 /opt/vp/run_tests.py {W}/_build /tmp/w_out.json")
    d = json.load(open("/tmp/w_out.json"))
    return len(d.get("passed", [])), len(d.get("failed", [])), d.get("failed", [])


def demo(d):
    dd = "/tmp/seed_demo_copy"
    sh(f"rm -rf /tmp/seed_demo_copy; mkdir {dd}; cp -r {d}/* {dd}; rm -f {dd}/meta.json {dd}/patch.diff")
    t = time.time()
    r = sh(f"bash {dd}/demo.sh", cwd=W)
    sh("rm -rf /tmp/seed_demo_copy")
    return r.returncode, r.stdout[-600:], time.time() - t


if __name__ == "__main__":
    a = sys.argv[1:]
    nodemo = "--nodemo" in a
    tier = "thorough" if "--thorough" in a else "quick"
    a = [x for x in a if not x.startswith("--")]
    ids = [a[0]] if a[0] != "all" else sorted(os.path.basename(x) for x in glob.glob(V + "/seeded/*"))
    for i in ids:
        d = f"{V}/seeded/{i}"
        sync()
        b0 = build()
        if b0.returncode:
            print("BASE BUILD FAILS", b0.stdout[-800:]); sys.exit(1)
        if not nodemo:
            rc, out, t = demo(d)
            print(f"{i}: demo unchanged rc={rc} ({t:.0f}s) {'' if rc == 0 else 'BAD ' + out}")
        r = sh(f"git -C {W} apply {d}/patch.diff")
        if r.returncode:
            print(i, "PATCH FAILS", r.stdout); continue
        b = build()
        if b.returncode:
            print(i, "BUILD FAILS", b.stdout[-1500:]); continue
        print(f"{i}: tests", *tests())
        if not nodemo:
            rc, out, t = demo(d)
            print(f"{i}: demo changed rc={rc} ({t:.0f}s) {'BAD' if rc == 0 else ''} {out.strip()[-300:]}")
        checks = a[1:] or [json.load(open(d + "/meta.json"))["property"]]
        for c in checks:
            if not os.path.exists(f"{V}/checks/{c.lower()}.py"):
                print(i, c, "no check yet"); continue
            r = sh(f"python3-vt run.py {c} {tier}", cwd=V, env={**os.environ, "HIMALAYA_REPO": W, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            v = [x for x in r.stdout.splitlines() if not x.startswith("VIOLATION") and x.startswith("  ")]
            print(f"{i}: check {c} rc={r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED'}", *[x[:200] for x in v[:3]], sep="\n     ")
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
    sync()
