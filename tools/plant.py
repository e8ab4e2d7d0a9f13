#!/opt/venv/bin/python
"""plant.py BUGS.py [id ...] [--nocheck]: development aid.  BUGS.py defines BUGS = {id: dict(property, edits=[(file,
old, new)], needs, what_it_breaks, demo)}.  Each is applied to a scratch copy of /repo, tested (stable tests, demo on
both trees, only original lines changed), written to /verif/seeded/<id>, and the property's check is run against it."""
import json, os, re, runpy, shutil, subprocess, sys

BASE = "2b2cacb"
SEED = "/verif/seeded"
W = "/tmp/plant"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = runpy.run_path(args[0])["BUGS"]
    ids = args[1:] or list(bugs)
    stable = {s.split("::")[1] + "@" + s.split("::")[0] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    for i in ids:
        b = bugs[i]
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree("/repo", W, symlinks=True)
        blame_bad = False
        for f, old, new, *n in b["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            cnt = s.count(old)
            if cnt != (n[0] if n else 1):
                print(f"{i}: '{old[:50]}' occurs {cnt} times in {f}")
                blame_bad = True
                continue
            s = s.replace(old, new)
            open(p, "w").write(s)
        if blame_bad:
            continue
        diff = sh("git diff", cwd=W).stdout
        # original lines only
        cur, bad, removed = None, [], 0
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            m = re.match(r"@@ -(\d+)", line)
            if m:
                n = int(m.group(1))
                continue
            if cur and line.startswith("-") and not line.startswith("---"):
                bl = sh(f"git blame -s -L {n},{n} HEAD -- {cur}", cwd="/repo").stdout
                removed += 1
                if not bl.startswith("^"):
                    c = bl.split()[0]
                    anc = sh(f"git merge-base --is-ancestor {c} {BASE}", cwd="/repo").returncode
                    if anc:
                        bad.append(line)
                n += 1
            elif cur and line.startswith(" "):
                n += 1
        d = f"{SEED}/{i}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write("import os, sys\n\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nimport warnings\n\nwarnings.filterwarnings(\"ignore\")\nimport torch\n\ntorch.manual_seed(0)\n" + b["demo"].strip() + "\n")
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        d0 = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        d1 = sh(f"bash {d}/demo.sh", cwd=W, timeout=300)
        t = sh("PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --continue-on-collection-errors -rA gconv/tests" % W, cwd=W)
        passed = set(re.findall(r"^PASSED (\S+)", t.stdout, re.M))
        passed = {p.split("::")[1] + "@" + p.split("::")[0][:-3].replace("/", ".") for p in passed}
        missing = stable - passed
        ok = d0.returncode == 0 and d1.returncode != 0 and not missing and removed > len(bad)
        msg = f"{i}: demo {d0.returncode}/{d1.returncode} tests missing {len(missing)} removed {removed} of ours {len(bad)}"
        if not ok:
            print("BAD ", msg, d0.stderr[-300:] if d0.returncode else "", sorted(missing)[:3])
        else:
            print("ok  ", msg, "|", (d1.stderr.strip().splitlines() or [""])[-1][:100])
        sys.stdout.flush()
        if "--nocheck" not in sys.argv and ok:
            for prop in [b["property"]] + b.get("also", []):
                r = sh(f"GCONV_REPO={W} /opt/venv/bin/python /verif/mc/run.py {prop} --tier quick", cwd="/verif")
                last = r.stdout.strip().splitlines()
                v = [l for l in last if l.startswith("  case")]
                print("   ", prop, {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc={r.returncode}"), v[0][:160] if v else last[-1:][0][:160])
                sys.stdout.flush()
    shutil.rmtree(W, ignore_errors=True)


main()
