#!/usr/bin/env python3
"""run.py <property> [--thorough] [--only scenario] : decide one property.

Builds the harnesses of the property from the current tree of /repo, runs the enumeration, writes
evidence/<property>.json and reports violations. Exit 0: held on everything explored (known findings
are printed). Exit 1: VIOLATION line. Exit 2: the check could not be carried out.
"""
import ctypes, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "checks"))
import build
import specs

KNOWN_FILE = os.path.join(ROOT, "known-findings.txt")


def known_findings(prop):
    """lines: known: property=<id> key=<scenario>/<key> <what fails>"""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


_sym = {}


def symbol(binary, pc):
    """innermost named function of the code under test at this address"""
    k = (binary, pc)
    if k not in _sym:
        r = subprocess.run(["addr2line", "-f", "-i", "-e", binary, hex(pc)], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        _sym[k] = (r[0], r[1] if len(r) > 1 else "?")
    return _sym[k]


def nice_key(binary, key):
    m = re.match(r"(.*)@0x([0-9a-f]+)$", key)
    if not m:
        return key, ""
    fn, loc = symbol(binary, int(m.group(2), 16))
    return m.group(1) + "@" + fn, os.path.basename(loc)


def run_harness(binary, args, timeout, env):
    p = subprocess.Popen([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out
    return p.returncode, out


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    tier = "thorough" if thorough else "quick"
    t0 = time.time()
    spec = specs.SPECS[prop]
    known = known_findings(prop)
    scratch = "/tmp/verif-%s-%d" % (prop, os.getpid())
    env = dict(os.environ, SX_SCRATCH=scratch, LC_ALL="C", TZ="UTC")
    replay_dir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    evf = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(evf):
        os.unlink(evf)

    try:
        ctypes.CDLL(None).personality(0x0040000)  # same addresses in every run, where allowed
    except (OSError, AttributeError):
        pass
    bins = []
    try:
        for h in spec["harness"]:
            bins.append((h, build.program(h["name"], h["src"], h["flavor"], h.get("wrap", ()), h.get("cflags", ()))))
    except build.BuildError as e:
        print("build failed:\n" + str(e)[-4000:])
        return 2

    summaries, violations, errors, hits = [], [], [], {}
    per_budget = (spec.get("budget_thorough", 3000) if thorough else spec.get("budget", 240))
    try:
        for h, b in bins:
            names = subprocess.run([b, "--list"], stdout=subprocess.PIPE, text=True).stdout.split()
            for sc in names:
                if only and sc != only:
                    continue
                raw_known = []
                unsure = set()
                runs = 0
                while True:
                    args = ["--only", sc, "--budget", str(per_budget)] + (["--thorough"] if thorough else [])
                    for k in raw_known:
                        args += ["--known", k]
                    rc, out = run_harness(b, args, per_budget + 300, env)
                    vs, sm = [], None
                    for line in out.split("\n"):
                        if not line.startswith("{"):
                            continue
                        try:
                            d = json.loads(line)
                        except ValueError:
                            continue
                        if d["type"] == "violation":
                            vs.append(d)
                        elif d["type"] == "summary":
                            sm = d
                        elif d["type"] == "error":
                            errors.append("%s: %s" % (d["scenario"], d["msg"]))
                    if rc is None:
                        errors.append("%s: harness did not end" % sc)
                    elif sm is None and not errors:
                        errors.append("%s: harness ended with status %s and no summary" % (sc, rc))
                    new = []
                    again = False
                    for v in vs:
                        k, loc = nice_key(b, v["key"])
                        full = sc + "/" + k
                        v["nice"], v["loc"], v["bin"] = full, loc, b
                        if full in known:
                            hits.setdefault(full, v)
                            if v["key"] not in raw_known:
                                raw_known.append(v["key"])
                                again = True
                        elif not v["confirmed"] and full not in unsure:
                            # not reproduced alone: it may need the executions before it in the same process; seen in a second run it stands
                            unsure.add(full)
                            again = True
                        else:
                            new.append(v)
                    if new or errors or not again:
                        break
                    runs += 1
                    if runs > 6:
                        errors.append("%s: unconfirmed: %s" % (sc, ", ".join(sorted(unsure))))
                        break
                if sm:
                    sm["flavor"] = h["flavor"]
                    sm["binary"] = b
                    summaries.append(sm)
                violations += new
                if violations or errors:
                    break
            if violations or errors:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    # a stopped exploration may not be called exhaustive
    capped = [s["scenario"] for s in summaries if s.get("capped")]
    mc = [s for s in summaries if s["flavor"] == "mc"]
    sq = [s for s in summaries if s["flavor"] != "mc"]
    states = sum(s["nodes"] for s in mc) + sum(s["states"] for s in sq)
    trans = sum(s["points"] for s in mc) + sum(s["ops"] for s in sq)
    execs = sum(s["executions"] for s in summaries)
    samples = []
    for s in summaries:
        for x in (s.get("samples") or s.get("outcomes") or [])[:2]:
            samples.append("%s: %s" % (s["scenario"], x[:400]))
    if not samples:
        samples = ["%s: %d executions" % (s["scenario"], s["executions"]) for s in summaries]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=execs, samples=samples[:24],
                            meaning=("states: " + ("nodes of the schedule tree" if mc else "") + (" and " if mc and sq else "") + ("distinct reference-model or result states" if sq else "")
                                     + "; transitions: " + ("scheduling points executed" if mc else "") + (" and " if mc and sq else "") + ("operations of the code executed" if sq else "")
                                     + "; traces: executions of the real code, each checked by the oracle"),
                            scenarios=[{k: v for k, v in s.items() if k in ("scenario", "what", "bound_wanted", "bound_done", "executions", "nodes", "points", "ops", "states",
                                                                           "max_decisions", "racy_sites", "distinct_outcomes", "classes", "capped", "wall")} for s in summaries]),
              exhaustive=not capped and not violations and not errors,
              assumptions=spec.get("assumptions", []),
              violations=len(violations),
              wall_s=round(time.time() - t0, 2))
    if hits:
        ev["coverage"]["known_findings"] = sorted(hits)
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k, v in hits.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], k))
    for v in violations:
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s-%s" % (prop, v["nice"]))[:120]
        rf = os.path.join(replay_dir, name + ".replay")
        with open(rf, "w") as f:
            if "devs" in v:
                f.write("%s\n%d %s\n%d %s\n" % (v["scenario"], len(v["pcs"]), " ".join("%x" % p for p in v["pcs"]), len(v["devs"]), " ".join("%d %d %d" % tuple(d) for d in v["devs"])))
            else:
                f.write("%s %d\n%d %s\n" % (v["scenario"], int(thorough), len(v["vec"]), " ".join(map(str, v["vec"]))))
        # the replayed history, written out next to the replay file
        try:
            rc, out = run_harness(v["bin"], ["--replay", rf], 120, dict(env))
            out = re.sub(r"pc=0x([0-9a-f]+)", lambda m: "at %s (%s)" % ((lambda a: (a[0], os.path.basename(a[1])))(symbol(v["bin"], max(int(m.group(1), 16) - 1, 0)))), out[:400000])
            with open(rf + ".txt", "w") as f:
                f.write(v["nice"] + " " + v["loc"] + "\n" + v["msg"] + "\n" + v.get("note", "") + "\n\n" + out)
        except Exception:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
        print("%s: %s %s: %s" % (prop, v["nice"], v["loc"], v["msg"].strip().split("\n")[0][:300]))
        if v.get("note"):
            print("  history: " + v["note"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rf, ROOT)))
    for e in errors:
        print("ERROR " + e)
    if violations:
        return 1
    if errors:
        return 2
    for s in summaries:
        print("%s %s: %d executions%s%s, %.1f s" % (prop, s["scenario"], s["executions"], (", bound %d" % s["bound_done"]) if "bound_done" in s else "", " (capped)" if s.get("capped") else "", s["wall"]))
    return 0


sys.exit(main())
