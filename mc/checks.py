"""Registry: which engines decide which property."""
import os, sys, json, subprocess, tempfile, time, glob
import build
V = build.VERIF
ASSUME = ["the operating system, TLS library, resolver and clock are replaced by the virtual OS in mc/vos.cc; everything else is the unmodified code of /repo",
          "small tables (16 users, 12 groups) unless stated; hash compaction of visited states (64-bit)"]

def chk_exe():
    return build.build_exe("chk", ["vos.cc", "chk.cc"] + sorted(os.path.basename(f) for f in glob.glob(os.path.join(V, "mc", "t_*.cc"))), libs=["-ldl"])

def chk_asan_exe():
    return build.build_exe("chk-asan", ["vos.cc", "chk.cc"] + sorted(os.path.basename(f) for f in glob.glob(os.path.join(V, "mc", "t_*.cc"))), flags=["-DVOS_ASAN"], libs=["-fsanitize=address,undefined", "-ldl"], cxx="clang++")

def shrink(cmd, trace, tmp):
    """greedy trace minimisation: drop steps while the replay still violates"""
    steps = [l for l in trace.split("\n") if l]
    def bad(s):
        open(tmp, "w").write("\n".join(s) + "\n")
        try: r = subprocess.run(cmd + [tmp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        except subprocess.TimeoutExpired: return None
        return r.stdout if r.returncode == 1 else None
    out = bad(steps)
    if out is None: return None, None
    t0 = time.time(); n = max(1, len(steps) // 2)
    while n >= 1 and time.time() - t0 < 20:
        i = 0; changed = False
        while i < len(steps) and time.time() - t0 < 20:
            s = steps[:i] + steps[i + n:]
            o = bad(s) if s else None
            if o: steps, out, changed = s, o, True
            else: i += n
        if n == 1 and not changed: break
        n = n // 2 if n > 1 else (1 if changed else 0)
    return "\n".join(steps) + "\n", out

def explore(check=None, server=dict(), workers=8, variant="mc"):
    def eng(pid, tier, deadline):
        c = check or pid
        d = build.build_server(variant, **server)
        exe = chk_exe() if variant == "mc" else chk_asan_exe(); so = os.path.join(d, "libicbd.so")
        n = int(subprocess.check_output([exe, "count", c, tier]))
        out = []
        for k in range(n):
            left = deadline - time.time()
            if left < 5:
                out.append(dict(scenario="(not run: time budget)", states=0, transitions=0, paths=0, complete=False, violated=False, secs=0)); break
            f = tempfile.NamedTemporaryFile(suffix=".json", delete=False); f.close()
            env = dict(os.environ, BUDGET=str(max(5, left)))
            p = subprocess.run([exe, "run", c, tier, so, str(k), str(workers), f.name], env=env, stderr=subprocess.PIPE, text=True)
            try: r = json.load(open(f.name))
            except Exception:
                sys.stderr.write("harness failed on %s scenario %d: rc=%s %s\n" % (c, k, p.returncode, p.stderr[-2000:])); sys.exit(3)
            os.unlink(f.name)
            if r["violated"]:
                cmd = [exe, "replay", c, tier, so, str(k)]
                t = tempfile.NamedTemporaryFile(suffix=".trace", delete=False); t.close()
                tr, o = shrink(cmd, r["trace"], t.name)
                if tr is None and r["trace"].strip() == "":
                    open(t.name, "w").write("")
                    q = subprocess.run(cmd + [t.name], stdout=subprocess.PIPE, text=True)
                    if q.returncode == 1: tr, o = "", q.stdout
                os.unlink(t.name)
                if tr is None:
                    sys.stderr.write("counterexample of %s scenario %d did not replay; not reported:\n%s\n%s\n" % (c, k, r["msg"], r["trace"]))
                    r["violated"] = False; r["complete"] = False
                else:
                    r["trace"] = tr; r["msg"] = o
                    r["replay_cmd"] = " ".join(cmd) + " <file with the trace lines>"
                out.append(r)
                if r["violated"]: return out
                continue
            out.append(r)
        return out
    return eng

CHECKS = {c: dict(engines=[explore()]) for c in
          "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C27 C28 C29 C30".split()}
CHECKS["C26"] = dict(engines=[explore(variant="asan")], assume=["memory errors and undefined behaviour are those the address and undefined-behaviour sanitizers of clang 18 detect (not misaligned access, not reads of uninitialised memory)"])

_BIG = dict(max_users=40)     # enough for the table of polled descriptors to grow twice
for _c in ("C01", "C03", "C06"): CHECKS[_c]["engines"].append(explore(check="many", server=_BIG))
for _c in "C03 C05 C06 C07 C08 C09 C10 C11 C12 C14 C15 C23".split(): CHECKS[_c]["engines"].append(explore(check="many2", server=dict(max_users=140)))
CHECKS["C26"]["engines"].append(explore(check="manysafe", server=_BIG, variant="asan"))

_T = {"C01": "explicit-state exploration of the real server under a virtual OS: all segmentations and interleavings of bounded streams, against an independent packet parser",
      "C02": "explicit-state exploration of the real server under a virtual OS: all reading paces of a client within bounds, against the stream of packets queued",
      "C17": "exhaustive exploration of operation sequences and of file damage on the real database code, against an ideal map",
      "C18": "exhaustive enumeration of crash points, torn writes and faults of bounded command histories on the real server with a disk model",
      "C19": "exhaustive enumeration of inputs up to a length over byte classes on the real filter, and of hostile texts through every command of the real server, against an independent definition",
      "C20": "exhaustive enumeration of patterns and texts up to a length on the real matcher, and of patterns in commands and rules files of the real server, against an automaton built from the definition",
      "C24": "explicit-state exploration of the real server with TLS connections under a virtual OS and TLS layer: all record segmentations and handshake outcomes within bounds",
      "C29": "explicit-state exploration of the real server; after every step its heap is traversed and every block accounted for",
      "C30": "explicit-state exploration of the real server through restarts (exec boots a fresh process image that inherits the sockets and files), checked step by step against a reference model",
      "C26": "explicit-state exploration of the real server, instrumented with the address and undefined-behaviour sanitizers whose shadow state is part of every explored state, over hostile inputs"}
for _c, _t in _T.items(): CHECKS[_c]["technique"] = _t
