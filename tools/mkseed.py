"""makes and confirms the planted changes of tools/seeds.py:  python3 tools/mkseed.py ID...
Works on a scratch copy /tmp/seedws of /repo, never in /repo."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seeds import SEEDS, PRELUDE
WS = os.environ.get("SEEDWS", "/tmp/seedws")
BASE = "624914b"


def sh(cmd, cwd=WS, t=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
    return p.returncode, p.stdout


def one(id):
    prop, feature, needs, breaks, edits, demo = SEEDS[id]
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .")
    for f, old, new in edits:
        p = os.path.join(WS, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "REJECT: anchor occurs", s.count(old), "times in", f)
            shutil.rmtree(d)
            return
        open(p, "w").write(s.replace(old, new))
    _, diff = sh("git diff")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(PRELUDE + demo.strip("\n") + "\n")
    t = open(os.path.join(ROOT, "tools", "demo_template.sh")).read()
    open(d + "/demo.sh", "w").write(t.replace("FEATURES", ', features = [\\"test_instruction_sets\\"]' if feature else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # removed lines have to be lines of the base
    for f in {e[0] for e in edits}:
        _, base = sh("git show %s:%s" % (BASE, f))
        base = set(base.split("\n"))
        _, fd = sh("git diff -- " + f)
        for l in fd.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:] not in base:
                print(id, "WARNING: not a line of the base:", l)
    r1, o1 = sh("bash %s/demo.sh" % d)
    tests = []
    for a in ("", " --features test_instruction_sets"):
        r, o = sh("cargo test --workspace --tests --offline%s -- --test-threads 8" % a)
        tests.append((r, [l for l in o.split("\n") if "FAILED" in l or "panicked" in l or l.startswith("error")][:6]))
    sh("git checkout -q -- .")
    r0, o0 = sh("bash %s/demo.sh" % d)
    good = r0 == 0 and r1 != 0 and all(t[0] == 0 for t in tests)
    print(id, prop, "KEEP" if good else "REJECT", "demo clean", r0, "patched", r1, "tests", tests, flush=True)
    if not good:
        print("clean:", o0[-800:], "\npatched:", o1[-800:])
        x = "/tmp/rejected-" + id
        if os.path.isdir(x):
            shutil.rmtree(x)
        shutil.move(d, x)
    else:
        print("   ", o1.strip()[-200:])


if not os.path.isdir(WS):
    subprocess.check_call(["cp", "-a", "/repo", WS])
for i in sys.argv[1:] or sorted(SEEDS):
    one(i)
