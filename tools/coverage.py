#!/usr/bin/env python3
"""coverage.py P01 [P02 ...] [--secs S]: which lines of /repo's code the runs of these checks reach (development only).
Builds with basic-block tracing into a directory of its own."""
import os, re, subprocess, sys, tempfile, collections
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["VERIF_COV"] = "1"
os.environ.setdefault("VERIF_BUILD", "/tmp/covbuild")
sys.path.insert(0, os.path.join(V, "tools"))
import meta, simbuild
args = sys.argv[1:]
secs = "10"
if "--secs" in args:
    i = args.index("--secs"); secs = args[i + 1]; del args[i:i + 2]
props = args or sorted(meta.P)
total = collections.defaultdict(lambda: [set(), set()])   # file -> (lines with blocks, reached lines)
funcs = {}
for mod in sorted({meta.P[p][0] for p in props}):
    exe = simbuild.build(mod)
    cov = tempfile.mktemp(prefix="cov", dir=simbuild.BUILD)
    os.environ["VERIF_COV_FILE"] = cov
    for p in props:
        if meta.P[p][0] == mod:
            subprocess.run([exe, "--property", p, "--seed", "1", "--secs", secs, "--workers", "8", "--out", cov + ".json", "--replay-dir", simbuild.BUILD, "--known", "/dev/null"], cwd=V)
    bits = open(cov, "rb").read()
    os.unlink(cov)
    addrs, nxt = [], False
    for l in subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], capture_output=True, text=True).stdout.splitlines():
        m = re.match(r"\s+([0-9a-f]+):\s+(.*)", l)
        if not m: continue
        if nxt: addrs.append(int(m.group(1), 16))
        nxt = "<__sanitizer_cov_trace_pc>" in m.group(2) and "call" in m.group(2)
    inp = "\n".join(hex(a) for a in addrs)
    out = subprocess.run(["addr2line", "-a", "-f", "-C", "-i", "-e", exe], input=inp, capture_output=True, text=True).stdout.splitlines()
    cur, first = None, True
    i = 0
    while i < len(out):
        if out[i].startswith("0x"):
            cur = int(out[i], 16); i += 1; first = True; continue
        fn, loc = out[i], out[i + 1].split(" ")[0]; i += 2
        if not first: continue
        f, _, ln = loc.rpartition(":")
        f = os.path.normpath(f)
        if not f.startswith("/repo/") or not ln.isdigit(): continue
        first = False
        hit = bits[cur - 0x400000]
        total[f][0].add(int(ln))
        if hit: total[f][1].add(int(ln))
        funcs.setdefault((f, fn), [10**9, False])
        funcs[(f, fn)][0] = min(funcs[(f, fn)][0], int(ln)); funcs[(f, fn)][1] |= bool(hit)
for f in sorted(total):
    a, b = total[f]
    print(f"{f}: {len(b)}/{len(a)} lines with a block reached")
    src = open(f).read().splitlines()
    for l in sorted(a - b):
        print(f"   {l}: {src[l-1].strip()[:140] if l <= len(src) else '?'}")
