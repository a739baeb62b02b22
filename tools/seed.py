#!/usr/bin/env python3
"""Development aid: makes and tries planted changes.
 seed.py new ID PROP FILE <<< JSON {"edits":[[old,new],...],"needs":..,"breaks":..}   writes patch.diff and meta.json
 seed.py try ID [--nochecks] [PROP...]    applies it to /repo, builds, tests, runs demo and checks, undoes it
"""
import json, os, subprocess, sys
V = "/verif/seeded"
R = os.environ.get("SEEDREPO", "/repo")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    o = sh(f"git -C {R} status --porcelain").stdout
    assert not o.strip(), o


if sys.argv[1] == "new":
    i, prop = sys.argv[2:4]
    spec = json.load(sys.stdin)
    clean()
    try:
        for f, old, new in spec["edits"]:
            p = f"{R}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = sh(f"git -C {R} diff").stdout
    finally:
        sh(f"git -C {R} checkout -- .")
    os.makedirs(f"{V}/{i}", exist_ok=True)
    open(f"{V}/{i}/patch.diff", "w").write(d)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{V}/{i}/meta.json", "w"), indent=1)
else:
    i = sys.argv[2]
    meta = json.load(open(f"{V}/{i}/meta.json"))
    props = [a for a in sys.argv[3:] if not a.startswith("-")] or [meta["property"]]
    clean()
    demo = f"bash {V}/{i}/demo.sh"
    if "--nodemo0" not in sys.argv:
        r = sh(demo, cwd=R)
        print("demo unchanged:", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:])
    a = sh(f"git -C {R} apply {V}/{i}/patch.diff")
    assert a.returncode == 0, a.stdout
    try:
        r = sh(demo, cwd=R)
        print("demo patched:", r.returncode, r.stdout[-300:])
        if "--notest" not in sys.argv:
            b = sh("bash /opt/vp/build.sh")
            print("build", b.returncode)
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            out = json.load(open("/tmp/seed_out.json"))
            want = base.get("passed") or base.get("stable") or base
            got = out.get("passed") or out
            want = set(want if isinstance(want, list) else want.keys())
            got = set(got if isinstance(got, list) else got.keys())
            print("tests missing:", sorted(want - got)[:5], len(want))
        if "--nochecks" not in sys.argv:
            for p in props:
                c = sh(f"python3 /verif/check.py {p}", cwd="/verif")
                print("check", p, "->", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "BROKEN" in l or "error" in l][:3])
                if c.returncode not in (0, 1):
                    print(c.stdout[-1500:])
    finally:
        sh(f"git -C {R} checkout -- .")
    clean()
