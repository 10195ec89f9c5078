#!/usr/bin/env python3
"""Builds a property's harness against /repo's working tree and explores it with the model checker.

check.py C01 [quick|thorough]      run the check, write evidence/C01.json
check.py C01 --run [args...]       build, then run the harness binary with args (development)
check.py --build-runtime           build only the runtime (setup_cmd)
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from props import PROPS, ASSUMPTIONS  # noqa: E402

CXX = "g++"
INST = ["-std=c++20", "-O2", "-U_FORTIFY_SOURCE", "-g", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-w",
        "-DLIBCORO_FEATURE_NETWORKING", "-DLIBCORO_FEATURE_TLS",
        "-I" + REPO + "/include", "-I" + V + "/harness/gen", "-I" + V + "/harness"]
RT = ["-std=c++20", "-O2", "-g", "-Wall", "-Wno-unused-function", "-fno-threadsafe-statics"]

# minimal library sources, by group
SRC = {
    "core": ["mutex", "sync_wait", "event", "semaphore", "thread_pool", "condition_variable", "detail/task_self_deleting"],
    "sched": ["scheduler", "poll", "detail/pipe", "detail/timer_handle", "detail/io_notifier_epoll", "default_executor"],
    "net": ["net/connect", "net/io_status", "net/socket", "net/ip_address", "net/tcp/client", "net/tcp/server", "net/udp/peer"],
    "tls": ["net/tls/client", "net/tls/server", "net/tls/context", "net/tls/connection_status", "net/tls/recv_status", "net/tls/send_status"],
    "dns": ["net/dns/resolver"],
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def compile_one(src, flags, dephash):
    with open(src, "rb") as f:
        key = hashlib.sha256(("\0".join([CXX, src] + flags) + dephash).encode() + f.read()).hexdigest()[:24]
    name = re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(src, "/"))
    obj = os.path.join(B, name + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([CXX] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
        for old in os.listdir(B):  # keep only the newest object of a source
            if old.startswith(name + "-") and old.endswith(".o") and "/seeded" not in src:
                try:
                    os.unlink(os.path.join(B, old))
                except OSError:
                    pass
        os.rename(tmp, obj)
    return obj


def runtime_jobs():
    dh = tree_hash([V + "/mc"], (".h",))
    return [(V + "/mc/mc.cpp", RT, dh), (V + "/mc/vk.cpp", RT, dh)]


def build(prop, everything=False):
    os.makedirs(B, exist_ok=True)
    spec = PROPS[prop]
    dh = tree_hash([REPO + "/include", V + "/harness", V + "/mc"], (".hpp", ".h", ".ipp"))
    jobs = runtime_jobs()
    for hs in spec["harness"]:
        jobs.append((V + "/harness/" + hs, INST + spec.get("flags", []), dh))
    srcs = []
    if everything:
        for root, _, fs in os.walk(REPO + "/src"):
            for f in sorted(fs):
                if f.endswith(".cpp") and "kqueue" not in f:
                    srcs.append(os.path.join(root, f))
    else:
        for g in spec["src"]:
            for s in SRC.get(g, [g]):
                p = REPO + "/src/" + s + ".cpp"
                if os.path.exists(p):
                    srcs.append(p)
    ordered = jobs + [(s, INST, dh) for s in srcs]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), ordered))
    binary = os.path.join(B, prop)
    tmp = binary + ".%d" % os.getpid()
    # library objects go last; with `everything` they come as an archive so that only what is needed is linked
    nj = len(jobs)
    cmd = [CXX, "-no-pie", "-Wl,-z,now", "-o", tmp] + objs[:nj]
    if everything:
        ar = os.path.join(B, prop + ".a")
        if os.path.exists(ar):
            os.unlink(ar)
        sh(["ar", "rcs", ar] + objs[nj:])
        cmd += [ar]
    else:
        cmd += objs[nj:]
    r = sh(cmd)
    if r.returncode:
        if not everything:
            return build(prop, True)
        raise BuildError("linking failed:\n" + r.stdout[-6000:])
    os.rename(tmp, binary)
    return binary


def symbolize(binary, msg):
    pcs = list(dict.fromkeys(re.findall(r"@(0x[0-9a-f]+)", msg)))
    if not pcs:
        return msg
    r = sh(["addr2line", "-e", binary, "-Cfsi"] + pcs)
    # each pc may give several (inlined) pairs; ask one by one
    for pc in pcs:
        r = sh(["addr2line", "-e", binary, "-Cfi", pc])
        ls = r.stdout.strip().split("\n")
        locs = []
        for i in range(0, len(ls) - 1, 2):
            fn = re.sub(r"<.*", "", ls[i])[:60]
            loc = ls[i + 1].replace(REPO + "/", "").replace(V + "/", "")
            if "/include/c++" in loc and len(ls) > 2 and i + 2 < len(ls):
                continue
            locs.append("%s(%s)" % (fn, loc.split(" ")[0]))
        msg = msg.replace("@" + pc, "@" + pc + "[" + " < ".join(locs[:3]) + "]")
    return msg


def load_known(prop):
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) scenario=(\S+) match=\"(.*?)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-runtime":
        os.makedirs(B, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: compile_one(*j), runtime_jobs()))
        return 0
    prop = a[0]
    t0 = time.time()
    try:
        binary = build(prop)
    except BuildError as e:
        print("BUILD ERROR", e)
        return 2
    if len(a) > 1 and a[1] == "--run":
        os.execv(binary, [binary, "--replay-dir", B] + a[2:])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    tbuild = time.time() - t0
    limit = spec.get("quick_s", 120) if tier == "quick" else spec.get("thorough_s", 780)
    rdir = V + "/replays/" + prop
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    out = os.path.join(B, prop + ".json")
    if os.path.exists(out):
        os.unlink(out)
    known = load_known(prop)
    cmd = [binary, "--out", out, "--replay-dir", rdir, "--time", str(limit), "--workers", str(min(8, os.cpu_count() or 8))]
    if tier == "thorough":
        cmd.append("--thorough")
    # a second exploration, in which atomic loads may also read older values
    weak = spec.get("weak_s", 60 if tier == "quick" else limit // 3)
    if weak:
        cmd += ["--weak-time", str(weak)]
        if tier != "quick":
            cmd[cmd.index("--time") + 1] = str(limit - weak)
    for k in known:
        cmd += ["--known", k[0] + "|" + k[1]]
    hard = (limit + weak + 60) if tier == "quick" else 880 - tbuild
    try:
        r = subprocess.run(cmd, timeout=hard)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        print("the harness did not end in time")
        rc = 2
    try:
        res = json.load(open(out))
    except Exception:
        print("ERROR: no result from the harness (exit %s)" % rc)
        return 2
    viol = [s for s in res if s["verdict"] == "violation"]
    internal = [s for s in res if s["verdict"] == "internal"]
    hits = [0] * len(known)
    for s in res:
        for i, h in enumerate(s["known_hits"]):
            hits[i] += h
    for s in viol:
        s["message"] = symbolize(binary, s["message"])
    tot = lambda k: sum(s[k] for s in res)
    exhaustive = all(not s["capped"] and not s["truncated"] and not s["vis_full"] for s in res) and not viol and not internal
    for s in res:
        if s["weak"]:
            s["scenario"] += " (stale reads)"
    scen = [{k: s[k] for k in ("scenario", "verdict", "bound", "completed_bound", "capped", "truncated", "executions", "pruned",
                               "states", "transitions", "outcomes", "max_choice_points", "wall_s")} for s in res]
    samples = []
    for s in res:
        for o in s["samples"][:2]:
            samples.append(s["scenario"] + ": " + o)
    cov = {
        "states": tot("states"), "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("executions"),
        "samples": samples[:40],
        "evaluations": tot("executions") + tot("pruned"),
        "distinct_nontrivial": tot("outcomes"),
        "rule": "an execution is one complete run of the real, instrumented library code under one schedule / environment-answer sequence; "
                "distinct_nontrivial counts distinct observed outcome strings over all scenarios",
        "exhaustive": exhaustive,
        "explanation": "states = distinct happens-before signatures at choice points; transitions = scheduling points executed; "
                       "every explored execution runs the implementation itself, so every trace is validated against it. "
                       "A scenario is complete up to completed_bound deviations (preemptions, early clock advances, faults).",
        "scenarios": scen,
        "build_s": round(tbuild, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for i, k in enumerate(known):
        if hits[i]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        else:
            print("note: known finding not seen in this run: %s" % k[2])
    for s in viol:
        print("scenario %s: %s" % (s["scenario"], s["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, s["replay"]))
    for s in internal:
        print("INTERNAL scenario %s: %s" % (s["scenario"], s["message"]))
    if viol:
        return 1
    if internal or rc != 0:
        return 2
    print("%s ok: %d executions, %d states, %d scenarios (%d also with stale reads), %s, %.1fs" % (prop, tot("executions"), tot("states"),
          sum(not s["weak"] for s in res), sum(s["weak"] for s in res),
          "complete within bounds" if exhaustive else "capped", time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
