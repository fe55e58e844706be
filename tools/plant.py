#!/usr/bin/env python3
"""Makes and confirms planted bugs: plant.py DEFS.py [ID..]

DEFS.py defines PLANTS = {id: dict(property, needs, breaks, edits=[(file, old, new)], main=GO BODY | test=(pkg, GO FILE))}.
Writes /verif/seeded/ID and confirms in a scratch copy of /repo that the patch changes original
lines only, builds, passes the stable tests, and that the demonstration tells the two apart."""
import json, os, re, subprocess, sys, tempfile, shutil, runpy

ROOT = "3b69134"
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour shown by %s is right.
here="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
work="$(mktemp -d)"
trap 'find "$work" -delete' EXIT
printf '{"Replace":{"%%s/%s":"%%s/%s"}}' "$PWD" "$here" > "$work/overlay.json"
export SCRATCH="$work"
timeout 250 %s
'''

os.environ["GIT_LFS_SKIP_SMUDGE"] = "1"

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=600, **kw)

def stable(out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    return base, json.load(open(out))

def main():
    defs = runpy.run_path(sys.argv[1])["PLANTS"]
    ids = sys.argv[2:] or list(defs)
    env = "set -e; . /opt/vp/env.sh; "
    work = tempfile.mkdtemp(prefix="plant")
    try:
        repo = work + "/repo"
        sh(f"cp -a /repo {repo}", "/")
        for i in ids:
            d = defs[i]
            sh("git checkout -q -- . && git clean -fdq", repo)
            ok = True
            for f, old, new in d["edits"]:
                s = open(f"{repo}/{f}").read()
                if s.count(old) != 1:
                    print(f"{i}: {f}: {s.count(old)} matches of {old!r}"); ok = False; break
                open(f"{repo}/{f}", "w").write(s.replace(old, new))
            if not ok: continue
            sh("bash -c '. /opt/vp/env.sh; gofmt -l .'", repo)
            diff = sh("git diff -- '*.go' '*.py'", repo).stdout
            for line in changed(diff):
                b = sh(f"git blame -s -L{line[1]},{line[1]} HEAD -- {line[0]}", repo).stdout
                if not b.lstrip("^").startswith(ROOT): print(f"{i}: not an original line: {b.strip()}"); ok = False
            dest = f"/verif/seeded/{i}"
            os.makedirs(dest, exist_ok=True)
            open(dest + "/patch.diff", "w").write(diff)
            json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(dest + "/meta.json", "w"), indent=1)
            name, body = "main.go", None
            if "script" in d:
                open(dest + "/demo.py", "w").write(d["script"])
                shutil.copy("/verif/harness/pystub/requests.py", dest + "/requests.py")
                open(dest + "/demo.sh", "w").write("#!/bin/bash\n# Exits 0 when the behaviour shown by %s is right.\n"
                    'here="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 250 python3 "$here/demo.py" "$PWD/scripts/export_blocks.py"\n' % i)
            elif "main" in d:
                body = "package main\n" + d.get("decls", "") + '\nfunc check(ok bool, why string) {\n\tif !ok {\n\t\tfmt.Println(why)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n' + d["main"] + "\n}\n"
                place, run = "zz_demo/main.go", d.get("run", 'go run -overlay "$work/overlay.json" ./zz_demo')
            elif "test" in d:
                name, body = "demo_test.go", d["test"][1]
                place, run = d["test"][0] + "/zz_demo_test.go", d.get("run", 'go test -count=1 -overlay "$work/overlay.json" ./%s' % d["test"][0])
            if "script" not in d:
                os.makedirs(f"{repo}/zz_demo", exist_ok=True)
                tmp = f"{repo}/zz_demo/{name}"
                open(tmp, "w").write(body)
                r = sh(f"bash -c '. /opt/vp/env.sh; export PATH=$PATH:/opt/veriftools/go/bin:/opt/veriftools/bin:/root/go/bin; goimports -w {tmp}'", repo)
                if r.returncode: print(i, "goimports", r.stderr); continue
                shutil.copy(tmp, dest + "/" + name)
                shutil.rmtree(f"{repo}/zz_demo")
                open(dest + "/demo.sh", "w").write(DEMO % (i, place, name, run))
            os.chmod(dest + "/demo.sh", 0o755)
            patched = sh(f"bash {dest}/demo.sh", repo)
            t = sh(f"bash -c '. /opt/vp/env.sh; go build ./... && go test ./... 2>&1 | tail -20'", repo)
            tests = "FAIL" not in t.stdout and t.returncode == 0
            sh("git checkout -q -- .", repo)
            clean = sh(f"bash {dest}/demo.sh", repo)
            good = ok and tests and clean.returncode == 0 and patched.returncode != 0
            print(f"{'ok ' if good else 'BAD'} {i}: tests {'pass' if tests else 'FAIL'}, clean {clean.returncode}, patched {patched.returncode} {patched.stdout[-150:].strip()!r}")
            if not tests: print(t.stdout[-1500:], t.stderr[-500:])
            if clean.returncode: print(clean.stdout[-800:], clean.stderr[-1500:])
            if patched.returncode and "build failed" in patched.stderr + patched.stdout: print(patched.stderr[-800:])
    finally:
        shutil.rmtree(work)

def changed(diff):
    f, n, out = "", 0, []
    for l in diff.splitlines():
        if l.startswith("--- "): f = l[6:]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"): out.append((f, n)); n += 1
        elif l.startswith(" "): n += 1
    return out

main()
