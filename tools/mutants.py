#!/usr/bin/env python3
"""mutants.py FILE.py [-j N] [names]: FILE defines M = [(name, prop, expect, [(file, old, new)...])]; each is applied to a
copy of /repo that a worker sees in its place (a mount namespace of its own), with a copy of /verif.  expect is 1 (a bug the
check has to see) or 0 (behaviour kept: has to stay quiet).  Nothing is compiled into a program or run.
The copies stay below /tmp/mw (ir caches); remove it when done."""
import subprocess, sys, os, queue, threading
ns = {}
exec(open(sys.argv[1]).read(), ns)
args = sys.argv[2:]
jobs = 4
if args[:1] == ["-j"]: jobs, args = int(args[1]), args[2:]
W = "/tmp/mw"
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "/repo is not clean"
todo, bad, lock = queue.Queue(), [], threading.Lock()
for m in ns["M"]:
    if not args or m[0] in args: todo.put(m)
jobs = min(jobs, todo.qsize())
def say(*a):
    with lock: print(*a, flush=True)
def worker(k):
    w = f"{W}/{k}"
    os.makedirs(w + "/verif", exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "/repo/", w + "/repo/"] if os.path.exists("/usr/bin/rsync") else ["sh", "-c", f"rm -rf {W}/{k}/repo && cp -a /repo {W}/{k}/repo"], check=True)
    subprocess.run(["sh", "-c", f"cd /verif && [ -d {w}/verif/build ] || cp -a build {w}/verif/; rm -rf {w}/verif/engine {w}/verif/rules; cp -a check.py engine rules stubs known-findings.txt {w}/verif/; mkdir -p {w}/verif/evidence"], check=True)
    while True:
        try: name, prop, expect, edits = todo.get_nowait()
        except queue.Empty: return
        ok = True
        for f, a, b in edits:
            s = open(f"{w}/repo/src/{f}").read()
            if s.count(a) != 1:
                say(f"BAD  {name}: text found {s.count(a)} times in {f}")
                ok = False
                break
            open(f"{w}/repo/src/{f}", "w").write(s.replace(a, b))
        if ok:
            r = subprocess.run(["unshare", "-Urm", "sh", "-c", f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && exec {sys.executable} check.py {prop}"], capture_output=True, text=True)
            good = r.returncode == expect
            lines = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith("  ") or "NO ANSWER" in l or "error:" in l]
            if r.returncode not in (0, 1): lines = (r.stdout + r.stderr).splitlines()[-1:]
            say(f"{'ok  ' if good else 'BAD '} {name}: exit {r.returncode} {lines[0][:170] if lines else ''}")
            ok = good
        if not ok: bad.append(name)
        for f, a, b in edits:
            subprocess.run(["cp", "-a", f"/repo/src/{f}", f"{w}/repo/src/{f}"])
ts = [threading.Thread(target=worker, args=(k,)) for k in range(jobs)]
for t in ts: t.start()
for t in ts: t.join()
print("unexpected:", len(bad), *bad)
