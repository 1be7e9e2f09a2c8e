"""Runs the checks on edited scratch copies of the sources: python3 tools/selftest/run.py [PROP...] [-k TEXT] [-v]
Each tools/selftest/<prop>.py defines CASES = [(name, expected rc, [(file, old, new), ...])]."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(os.path.dirname(HERE))
SRC = os.environ.get("FFSA_REPO", "/repo") + "/src"


def one(job):
    pid, name, exp, edits, verbose = job
    with tempfile.TemporaryDirectory() as d:
        shutil.copytree(SRC, d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for file, old, new in edits:
            p = f"{d}/src/fastforward/{file}"
            s = open(p).read()
            if old not in s:
                return False, f"{pid} {name}: edit of {file} does not apply"
            open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, FFSA_STRICT="1", FFSA_REPO=d, FFSA_EVIDENCE=d + "/ev")
        r = subprocess.run([sys.executable, "-m", "ffsa", pid.upper()], cwd=ROOT, env=env, capture_output=True, text=True)
        ok = r.returncode == exp
        out = f"{pid} {name}: {'ok' if ok else 'MISMATCH'} rc={r.returncode} expected={exp}"
        if verbose or not ok:
            out += "\n" + "\n".join(l for l in r.stdout.splitlines() if "rule " in l or "BROKEN" in l)[:3000] + r.stderr[-800:]
        return ok, out


def main():
    argv = sys.argv[1:]
    text = argv.pop(argv.index("-k") + 1) if "-k" in argv else ""
    want = [a.lower() for a in argv if not a.startswith("-")]
    jobs = []
    for fn in sorted(os.listdir(HERE)):
        pid = fn[:-3]
        if not fn.endswith(".py") or fn == "run.py" or (want and pid not in want):
            continue
        ns = {}
        exec(open(os.path.join(HERE, fn)).read(), ns)
        jobs += [(pid, name, exp, edits, "-v" in argv) for name, exp, edits in ns["CASES"] if text in name]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for ok, out in ex.map(one, jobs):
            bad += not ok
            print(out)
    print("bad:", bad)


main()
