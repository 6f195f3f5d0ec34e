"""Self-test of the symbolic runtime: every function of snip.py is run symbolically on all texts of up to three
characters over a small alphabet; every value is compared with Python itself.  Not a check of Mau.

  python3 selftest/run.py [NAME ...]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
REPO = os.environ.get("MAU_REPO", "/repo")

HARNESS = '''
import re
NAMES = re.findall(r"^def (\\w+)\\(s\\)", open(%r).read(), re.M)


def exact(n):
    def fn(M, S):
        t = S.str("t", S.choice("len", [1, 2, 3]), "ab=* 1Ax\\\\t")
        try:
            r = getattr(M("mau.snip"), n)(t)
        except Exception as e:
            r = type(e).__name__
        S.obs(r)
        S.concretize(t)
    return (n + ":", fn, {})


def cases(tier):
    return [exact(n) for n in NAMES]
'''


def main():
    with tempfile.TemporaryDirectory() as d:
        shutil.copytree(os.path.join(REPO, "mau"), os.path.join(d, "r", "mau"))
        snip = os.path.join(d, "r", "mau", "snip.py")
        shutil.copy(os.path.join(HERE, "snip.py"), snip)
        v = os.path.join(d, "v")
        os.mkdir(v)
        shutil.copy(os.path.join(TOP, "run.py"), v)
        shutil.copy(os.path.join(TOP, "known_findings.json"), v)
        os.symlink(os.path.join(TOP, "symx"), os.path.join(v, "symx"))
        shutil.copytree(os.path.join(TOP, "harness"), os.path.join(v, "harness"))
        with open(os.path.join(v, "harness", "c99.py"), "w") as f:
            f.write(HARNESS % snip)
        names = [n + ":" for n in sys.argv[1:]] or [n + ":" for n in re.findall(r"^def (\w+)\(s\)", open(snip).read(), re.M)]
        r = subprocess.run([sys.executable, "run.py", "C99", "quick", "--case", *names], cwd=v, capture_output=True, text=True,
                           env=dict(os.environ, MAU_REPO=os.path.join(d, "r"), SYMX_BUDGET="400"))
        out = r.stdout + r.stderr
        print(out[-3000:])
        bad = "DIVERGED" in out or "NOT-REPRO" in out or "VIOLATION" in out or "complete=True" not in out
        return 1 if bad or r.returncode else 0


sys.exit(main())
