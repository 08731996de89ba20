"""plant.py FILE...: makes seeded/<id>/ from a description FILE.py defining
ID, PROP, EDITS=[(path, old, new)], NEEDS, BREAKS, DEMO (python source; asserts), LIBS,
confirms the demonstration in a scratch copy, and runs the property's check against it."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt_plant"
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(WT):
    print(sh("git -C /repo worktree add --detach %s HEAD" % WT).stdout)
    sh("cp -a /repo/src/*.egg-info %s/src/ 2>/dev/null" % WT)
else:
    sh("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD)" % WT)
nocheck = "--nocheck" in sys.argv
for f in [a for a in sys.argv[1:] if not a.startswith("--")]:
    b = runpy.run_path(f)
    d = os.path.join(V, "seeded", b["ID"])
    sh("git -C %s checkout -q -- ." % WT)
    for p, old, new in b["EDITS"]:
        for q in (p if isinstance(p, list) else [p]):
            q = os.path.join(WT, "src/ethereum", q) if not q.startswith("src/") else os.path.join(WT, q)
            s = open(q).read()
            if s.count(old) != 1:
                sys.exit("%s: %d occurrences of %r in %s" % (b["ID"], s.count(old), old, q))
            open(q, "w").write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C %s diff" % WT).stdout
    open(d + "/patch.diff", "w").write(diff)
    for lib in b.get("LIBS", ["rec", "asm"]):
        shutil.copy(os.path.join(V, "harness", lib + ".py"), os.path.join(d, lib + ".py"))
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                                    "os.environ['VERIF_REPO'] = os.getcwd()\nsys.path.insert(0, os.getcwd() + '/src')\nsys.dont_write_bytecode = True\n"
                                    + b["DEMO"].lstrip("\n") + "\nprint('ok')\n")
    open(d + "/demo.sh", "w").write("#!/bin/sh\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["PROP"], needs=b["NEEDS"], what_it_breaks=b["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    good = sh("sh %s/demo.sh" % d, cwd="/repo")
    bad = sh("sh %s/demo.sh" % d, cwd=WT)
    print(b["ID"], b["PROP"], "demo unchanged rc", good.returncode, "patched rc", bad.returncode)
    if good.returncode:
        print(good.stdout[-1500:])
    if not bad.returncode:
        print(bad.stdout[-800:])
    elif "AssertionError" not in bad.stdout:
        print("   patched:", bad.stdout[-400:])
    if not nocheck:
        for p in [b["PROP"]] + b.get("ALSO", []):
            c = sh("./check %s" % p, cwd=V, env=dict(os.environ, VERIF_REPO=WT, VERIF_SEED="1"))
            print("   check", p, "rc", c.returncode, c.stdout.strip().splitlines()[-1][:200] if c.stdout.strip() else "")
            if c.returncode == 1:
                print("     ", c.stdout.strip().splitlines()[0][:300])
sh("git -C %s checkout -q -- ." % WT)
