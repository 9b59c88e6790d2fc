#!/usr/bin/env python3
"""detect.py [SLOTS] [ID...]: runs each planted bug's check (quick) in a private copy of /repo and the committed /verif; one line per bug."""
import concurrent.futures, glob, json, os, queue, shutil, subprocess, sys, time
slots = int(sys.argv[1]) if len(sys.argv) > 1 else 2
ids = sys.argv[2:] or sorted(os.listdir("/verif/seeded"))
tier = os.environ.get("TIER", "quick")
q = queue.Queue()
for s in range(slots):
    d = f"/tmp/det/{s}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["bash", "-c", f"rsync -a --delete /repo/ {d}/repo/ 2>/dev/null || (rm -rf {d}/repo; cp -a /repo {d}/repo); mkdir -p {d}/verif; git -C /verif archive HEAD --format=tar | tar -x -C {d}/verif; [ -d {d}/verif/target ] || cp -a /verif/target {d}/verif/target"], check=True)
    q.put(d)
def run(i):
    d = q.get()
    t = time.time()
    try:
        p = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
        sh = f"""mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /repo && git checkout -q -- . && git apply /tmp/det/{i}.diff && cd /verif && timeout 900 ./check.sh {p} {tier} > /tmp/det/{i}.out 2>&1; r=$?; git -C /repo checkout -q -- .; exit $r"""
        shutil.copy(f"/verif/seeded/{i}/patch.diff", f"/tmp/det/{i}.diff")
        r = subprocess.run(["unshare", "-m", "bash", "-c", sh])
        out = open(f"/tmp/det/{i}.out").read()
        v = [l for l in out.splitlines() if l.startswith(f"VIOLATION property={p}")]
        ok = r.returncode == 1 and v
        note = next((l for l in out.splitlines() if l.startswith("  ") or "what" in l), "")[:200]
        return f"{i}: {'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode} {time.time() - t:.0f}s {(v or [''])[0][:160]} {note}"
    except Exception as e:
        return f"{i}: ERROR {e!r}"
    finally:
        q.put(d)
with concurrent.futures.ThreadPoolExecutor(slots) as ex:
    for r in ex.map(run, ids):
        print(r, flush=True)
