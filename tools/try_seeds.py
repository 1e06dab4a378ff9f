"""Runs the quick check of every planted bug against a scratch copy of /repo that has it; prints caught or missed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(wanted):
    for folder in ("seeded", "seeded_own_lines"):
        for name in sorted(os.listdir(os.path.join(HERE, folder))):
            if wanted and name not in wanted:
                continue
            d = os.path.join(HERE, folder, name)
            prop = json.load(open(os.path.join(d, "meta.json")))["property"]
            tmp = tempfile.mkdtemp(prefix="seed-")
            try:
                shutil.copytree("/repo", tmp + "/repo", ignore=shutil.ignore_patterns("__pycache__"))
                a = subprocess.run(["git", "-C", tmp + "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
                if a.returncode:
                    print(folder, name, prop, "does not apply", flush=True)
                    continue
                r = subprocess.run([sys.executable, "run.py", prop, "--tier", "quick"], cwd=HERE, env=dict(os.environ, VERIF_REPO=tmp + "/repo"), capture_output=True, text=True)
                caught = r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
                print(folder, name, prop, "caught" if caught else "missed (exit %d)" % r.returncode, [l for l in r.stdout.splitlines() if " quick: " in l][-1:], flush=True)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
