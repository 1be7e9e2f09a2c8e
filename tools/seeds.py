"""Runs the checks on every planted change: python3 tools/seeds.py [-k text]; exit 1 if one is missed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _violations(x):
    return x if isinstance(x, list) else x["violations"]


def one(sid):
    d = os.path.join(HERE, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["cp", "-a", "/repo/src", w + "/src"], check=True)
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, os.path.join(d, "patch.diff")], cwd="/", capture_output=True, text=True)
        if r.returncode:
            return sid, prop, "patch does not apply: " + r.stderr.strip()
        env = dict(os.environ, FFSA_REPO=w, FFSA_EVIDENCE=w + "/ev")
        c = subprocess.run([sys.executable, "-m", "ffsa", prop], cwd=HERE, env=env, capture_output=True, text=True)
        rules = []
        if "--table" in sys.argv and os.path.exists(f"{w}/ev/{prop}.violations.json"):
            rules = sorted({v["rule"] for v in _violations(json.load(open(f"{w}/ev/{prop}.violations.json")))})
            needs = json.load(open(os.path.join(d, "meta.json")))["needs"].rstrip(".")
            return sid, prop, f"| {sid} | {needs} | {prop} {', '.join(rules[:3])} |"
        return sid, prop, "caught" if c.returncode == 1 and f"VIOLATION property={prop} " in c.stdout else f"MISSED rc={c.returncode}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    k = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
    ids = [s for s in sorted(os.listdir(os.path.join(HERE, "seeded"))) if k in s]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for sid, prop, msg in ex.map(one, ids):
            print(msg if msg.startswith("|") else f"{prop} {sid}: {msg}", flush=True)
            bad += msg != "caught" and not msg.startswith("|")
    print(f"{len(ids) - bad} of {len(ids)} caught")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
