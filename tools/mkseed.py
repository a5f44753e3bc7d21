#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each change.

usage: mkseed.py [--no-check] [id...]
A seed module defines SEEDS = [dict(id, property, edits=[(file, old, new)],
needs, breaks, demo)].  demo is the body of a function that uses World."""
import glob, json, os, shutil, subprocess, sys, tempfile, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''"""Exits with 1 when the behaviour is broken."""
import sys, time, os, shutil, traceback
from zdemo import *


def demo():
%s

if __name__ == "__main__":
    try:
        demo()
    except BaseException:
        traceback.print_exc()
        sys.exit(1)
    print("ok")
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **k)


def original_lines(f, nums):
    root = sh("git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD").stdout.split()[0][:8]
    bl = sh("git", "-C", "/repo", "blame", "-s", "--root", "--abbrev=40", f).stdout.splitlines()
    bad = [n for n in nums if not bl[n - 1].lstrip("^").startswith(root[:8])]
    return bad


def build(s, check):
    d = os.path.join(OUT, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/dev/shm")
    try:
        os.chmod(tmp, 0o755)
        wt = os.path.join(tmp, "repo")
        shutil.copytree("/repo", wt, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        sh("git", "-C", wt, "init", "-q"); sh("git", "-C", wt, "add", "-A", "-f")
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git", "-C", wt, "diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(
            DEMO % textwrap.indent(textwrap.dedent(s["demo"]).strip(), "    "))
        shutil.copy(os.path.join(HERE, "zdemo.py"), d)
        shutil.copy(os.path.join(HERE, "run_demo.sh"), os.path.join(d, "demo.sh"))
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # Removed or replaced lines must be the original author's.
        cur, n, files = None, 0, {}
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("@@"):
                n = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                files.setdefault(cur, []).append(n); n += 1
            elif l.startswith(" "):
                n += 1
        for f, ns in files.items():
            bad = original_lines(f, ns)
            if bad:
                print("  !! %s: lines not original: %s %s" % (s["id"], f, bad))
        if not check:
            return
        demo = os.path.join(d, "demo.sh")
        a = sh("bash", demo, cwd="/repo")
        b = sh("bash", demo, cwd=wt)
        print("%s %-28s unchanged=%d patched=%d" % (s["property"], s["id"], a.returncode, b.returncode),
              end=" ", flush=True)
        if a.returncode or not b.returncode:
            print("\n", a.stdout[-1500:], "\n--\n", b.stdout[-600:])
        else:
            print("|", (b.stdout.strip().splitlines() or [""])[-1][:110], end=" ", flush=True)
        tdir = os.path.join(tmp, "t"); os.makedirs(tdir + "/home"); os.makedirs(tdir + "/tmp")
        sh("chown", "-R", "nobody:nogroup", tdir)
        r = sh("flock", "/run/zielen-test.lock", "timeout", "300", "setpriv", "--reuid", "nobody", "--regid", "nogroup",
               "--clear-groups", "--no-new-privs", "env", "-i", "HOME=" + tdir + "/home",
               "TMPDIR=" + tdir + "/tmp", "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "PATH=/usr/local/bin:/usr/bin:/bin",
               "PYTHONDONTWRITEBYTECODE=1", "PYTHONHASHSEED=0", "PYTHONPATH=" + wt,
               "/opt/pypyvenv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + wt,
               "--timeout=60", "-o", "junit_family=xunit2", "--junitxml=" + tdir + "/tmp/j.xml", "tests",
               cwd=wt, stdin=subprocess.DEVNULL)
        sh("python3", "/opt/vp/results.py", tmp + "/o.json", "junit:" + tdir + "/tmp/j.xml")
        o = set(json.load(open(tmp + "/o.json"))["passed"])
        print("tests:", "ok" if STABLE <= o else "BROKEN %s" % sorted(STABLE - o)[:3])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ids = [a for a in sys.argv[1:] if not a.startswith("-")]
for m in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
    g = {}
    exec(open(m).read(), g)
    for s in g["SEEDS"]:
        if not ids or s["id"] in ids:
            try:
                build(s, "--no-check" not in sys.argv)
            except AssertionError as e:
                print("FAILED", e)
