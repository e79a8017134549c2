#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  -- decide one property on /repo's current tree."""
import argparse
import hashlib
import itertools
import json
import multiprocessing as mp
import multiprocessing.pool
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
CLANG = "/usr/bin/clang++"
OPT = "/usr/bin/opt"

import engine  # noqa: E402
import ir  # noqa: E402
import poly  # noqa: E402


class Broken(Exception):
    pass


# ------------------------------------------------------------------------------------------------
# literals of the analysed headers widen the set of instantiated sizes
# ------------------------------------------------------------------------------------------------
def strip_comments(src):
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', ' ', src, flags=re.S)


def literals(headers):
    out = set()
    for h in headers:
        p = os.path.join(REPO, "include/HyperHDG", h)
        if not os.path.exists(p):
            continue
        for m in re.finditer(r'(?<![\w.])(\d{1,3})(?:[uUlL]*)(?![\w.])', strip_comments(open(p, errors='replace').read())):
            out.add(int(m.group(1)))
    return out


def sizes(spec, lits):
    """'1,2,3' or '@1,2,3<=9': explicit sizes, widened by header literals up to the bound."""
    m = re.fullmatch(r'@([\d,]+)<=(\d+)', spec)
    if not m:
        return spec.split(',')
    base = {int(x) for x in m.group(1).split(',')}
    hi = int(m.group(2))
    lo, top = min(base), max(base)
    for k in lits:
        if k >= top:
            base |= {v for v in (k - 1, k, k + 1, 2 * k - 1) if lo <= v <= hi}
    return [str(x) for x in sorted(base)]


DIR = re.compile(r'^//@\s*(\w+)\s+(.*)$')


class Unit:
    def __init__(self, prop, call, fname, modes, tier, opts):
        self.prop, self.call, self.fname, self.modes, self.tier, self.opts = prop, call, fname, modes, tier, opts


def parse_harness(path, prop):
    """Directives:
       //@headers a.hxx b.hxx          headers whose literals widen '@' sizes
       //@unit P01 op<{r},{c}> r=1,2 c=@1,2,3<=6 [if=expr] [tier=thorough] [mode=debug|ndebug] [opt=x]
       //@incdir dir                   further include directory below harness/
    """
    units, headers, inc = [], [], []
    lines = open(path).read().split('\n')
    for l in lines:
        m = DIR.match(l)
        if m and m.group(1) == 'headers':
            headers += m.group(2).split()
        elif m and m.group(1) == 'incdir':
            inc += m.group(2).split()
    lits = literals(headers)
    n = 0
    for l in lines:
        m = DIR.match(l)
        if not m or m.group(1) != 'unit':
            continue
        toks = m.group(2).split()
        props = toks[0].split(',')
        # the call may contain blanks inside <> : join until parameters start
        k = 1
        call = []
        while k < len(toks) and not re.match(r'^\w+=', toks[k]):
            call.append(toks[k])
            k += 1
        call = " ".join(call)
        par = {}
        cond, tier, modes, opts = None, 'quick', ('debug', 'ndebug'), []
        for t in toks[k:]:
            a, b = t.split('=', 1)
            if a == 'if':
                cond = b
            elif a == 'tier':
                tier = b
            elif a == 'mode':
                modes = tuple(b.split(','))
            elif a == 'opt':
                opts += b.split(',')
            else:
                par[a] = sizes(b, lits)
        keys = list(par)
        for combo in itertools.product(*[par[x] for x in keys]):
            env = dict(zip(keys, combo))
            if cond is not None:
                num = {a: (int(b) if b.lstrip('-').isdigit() else b) for a, b in env.items()}
                if not eval(cond, {}, num):
                    continue
            c = call
            for a, b in env.items():
                c = c.replace('{%s}' % a, b)
            if prop in props:
                units.append(Unit(prop, c, "vpu_%d" % n, modes, tier, opts))
            n += 1
    return units, inc


def group(u):
    return re.match(r'[\w:]+', u.call).group(0)


def frontend(path, units, mode, inc, tmp):
    tag = hashlib.md5((path + mode + "|".join(u.call for u in units)).encode()).hexdigest()[:8]
    src = os.path.join(tmp, "tu_%s.cxx" % tag)
    with open(src, 'w') as f:
        f.write('#include "%s"\n' % path)
        for u in units:
            f.write('void %s() { %s(); }\n' % (u.fname, u.call))
    ll, l2 = os.path.join(tmp, tag + ".ll"), os.path.join(tmp, tag + ".2.ll")
    cmd = [CLANG, "-std=c++20", "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-idirafter", REPO]
    for d in inc:
        cmd.append("-I" + os.path.join(HARNESS, d))
    if mode == 'ndebug':
        cmd.append("-DNDEBUG")
    cmd += ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-S", "-emit-llvm", src, "-o", ll]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("harness %s does not compile against /repo (%s):\n%s" % (os.path.basename(path), mode, r.stderr[:3000]))
    r = subprocess.run([OPT, "-S", "-passes=mem2reg", ll, "-o", l2], capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("opt failed: %s" % r.stderr[:500])
    m = ir.Module(open(l2).read())
    engine.Engine.demangle_module(m)
    os.unlink(ll)
    os.unlink(l2)
    return m


_MOD = {}


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def _limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3600 << 20, 3600 << 20))   # beyond: MemoryError, the unit is undecided


def run_unit(job):
    key, u, post, limit = job
    import signal
    m = _MOD[key]
    t0 = time.time()
    out = {"unit": u.call, "mode": key[1], "findings": [], "obligations": 0, "functions": {}, "undecided": None,
           "key": key}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    e = None
    try:
        poly.reset()
        e = engine.Engine(m, {o: True for o in u.opts})
        e.run_unit(u.fname)
        if 'leak' not in e.opts:
            e.check_leaks()
        if post is not None:
            import post as postmod
            getattr(postmod, post)(e, u)
    except engine.Undecided as x:
        out["undecided"] = "%s (at %s)" % (x, e.where() if e else '?')
    except poly.TooBig:
        out["undecided"] = "normal form exceeds the size cap (at %s)" % (e.where() if e else '?')
    except Timeout:
        out["undecided"] = "time limit of %d s (at %s)" % (limit, e.where() if e else '?')
    except RecursionError:
        out["undecided"] = "recursion depth"
    except Exception as x:
        out["undecided"] = "analyser error %s: %s" % (type(x).__name__, traceback.format_exc()[-600:].splitlines()[-1] + " | " + traceback.format_exc()[-500:])
    finally:
        signal.alarm(0)
    if e is not None:
        # findings made before an undecided construct are real: they do not depend on what follows
        out["findings"] = [f.as_dict() for f in e.findings]
        out["obligations"] = len(e.obligations)
        out["tags"] = sorted({t for _, t in e.obligations})[:40]
        out["functions"] = dict(e.repo_funcs)
        out["steps"] = e.steps
    out["s"] = round(time.time() - t0, 3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit", help="only units whose call contains this text")
    ap.add_argument("--harness", help="only harness files whose name contains this text")
    ap.add_argument("--first", action="store_true", help="stop at the first finding")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    t0 = time.time()
    import props
    spec = props.PROPS[args.property]
    tmp = tempfile.mkdtemp(prefix="vf_")
    try:
        rc = decide(args, spec, tmp, t0)
    except Broken as x:
        print("ERROR: %s" % x)
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(args, spec, tmp, t0):
    pid = args.property
    jobs = []
    results = []
    limit = spec.get("unit_limit", 120) * (3 if args.tier == 'thorough' else 1)
    broken = []
    fe = []
    for hname in spec.get("harness", []):
        if args.harness and args.harness not in hname:
            continue
        path = os.path.join(HARNESS, hname)
        units, inc = parse_harness(path, pid)
        if args.tier != 'thorough':
            units = [u for u in units if u.tier == 'quick']
        if args.unit:
            units = [u for u in units if args.unit in u.call]
        for mode in ('debug', 'ndebug'):
            us = [u for u in units if mode in u.modes]
            if us:
                fe.append((path, mode, us, inc))
    def one(x):
        path, mode, us, inc = x
        try:
            return [(x, frontend(path, us, mode, inc, tmp))]
        except Broken as b:
            if len(us) == 1:
                return [(x, b)]
        # isolate the specification units that no longer compile
        gs = sorted({group(u) for u in us})
        if len(gs) > 1:
            parts = [[u for u in us if group(u) in gs[:len(gs) // 2]], [u for u in us if group(u) in gs[len(gs) // 2:]]]
        else:
            parts = [us[:len(us) // 2], us[len(us) // 2:]]
        return [z for p in parts for z in one((path, mode, p, inc))]
    with mp.pool.ThreadPool(JOBS) as tp:
        mods = [z for zs in tp.map(one, fe) for z in zs]
    for n, ((path, mode, us, inc), m) in enumerate(mods):
        if isinstance(m, Broken):
            broken.append("%s [%s]: %s" % (us[0].call, mode, str(m)[:1500]))
            continue
        _MOD[(path, mode, n)] = m
        for u in us:
            post = next((o[5:] for o in u.opts if o.startswith('post:')), None)
            jobs.append(((path, mode, n), u, post, limit))
    if jobs:
        # the whole check has to answer in time whatever the tree makes of single units: units that are not through
        # when the budget ends (or whose worker was lost) are undecided, and what was found until then is reported
        budget = 780 * (4 if args.tier == 'thorough' else 1)
        pending = {(j[0], j[1].call): j for j in jobs}
        with mp.Pool(JOBS, initializer=_limit_memory, maxtasksperchild=16) as pool:
            it = pool.imap_unordered(run_unit, jobs, chunksize=1)
            while True:
                left = budget - (time.time() - t0)
                if any(r["findings"] for r in results):
                    left = min(left, max(1, 400 - (time.time() - t0)))
                try:
                    r = it.next(timeout=max(0.01, left))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    done = {(r["key"], r["unit"]) for r in results}
                    for (key, call) in pending:
                        if (key, call) not in done:
                            results.append({"unit": call, "mode": key[1], "key": key, "findings": [], "obligations": 0,
                                            "functions": {}, "undecided": "not reached within the check's time budget",
                                            "s": 0, "tags": []})
                    break
                results.append(r)
                if args.first and r["findings"]:
                    break
                if args.v:
                    print("%-70s %-6s %4d obl %6.2fs %s%s" % (r["unit"][:70], r["mode"], r["obligations"], r["s"],
                          "FINDINGS %d " % len(r["findings"]) if r["findings"] else "",
                          ("UNDECIDED " + r["undecided"]) if r["undecided"] else ""))
    extra = []
    for fn in spec.get("python", []):
        import importlib
        modname, func = fn.split(":")
        mod = importlib.import_module(modname)
        extra.append(getattr(mod, func)(REPO, args.tier))
    # python checks return {"name","obligations","findings":[...],"undecided":[...],"analysed":{...}}
    for x in extra:
        results.append({"unit": x["name"], "mode": "source", "findings": x["findings"], "obligations": x["obligations"],
                        "functions": x.get("analysed", {}), "undecided": "; ".join(x.get("undecided", [])) or None, "s": 0,
                        "tags": x.get("tags", [])})
    if broken:
        for b in broken:
            print("NOT COMPILABLE (not decided): %s" % b)
    results.sort(key=lambda r: (r["unit"], r["mode"]))
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    findings, knownhits = [], []
    for r in results:
        for f in r["findings"]:
            f = dict(f)
            f["unit"] = r["unit"]
            f["mode"] = r["mode"]
            k = match_known(known, pid, f)
            if k is not None:
                if k not in knownhits:
                    knownhits.append(k)
            else:
                findings.append(f)
    undecided = [r for r in results if r["undecided"]]
    decided = [r for r in results if not r["undecided"]]
    nobl = sum(r["obligations"] for r in results)
    funcs = {}
    for r in results:
        funcs.update(r["functions"])
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": args.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": spec["level"],
        "coverage": {
            "rule": spec["rule"],
            "units_analysed": len(results), "units_decided": len(decided), "units_undecided": len(undecided),
            "obligations": nobl, "repo_functions_analysed": len(funcs),
            "functions": sorted("%s @ %s" % (a[:140], b) for a, b in funcs.items())[:400],
            "units": ["%s [%s]: %d obligation(s)%s" % (r["unit"], r["mode"], r["obligations"],
                      " UNDECIDED: " + r["undecided"] if r["undecided"] else "") for r in results][:1500],
            "broken_translation_units": broken,
        },
        "assumptions": spec.get("assumptions", []) + ["real arithmetic for floating point; no integer overflow; "
                                                      "LAPACK and C++ standard library meet their specifications"],
        "wall_s": round(wall, 2),
        "violations": [{"obligation": f["obligation"], "unit": f["unit"], "where": f.get("where"), "what": f["what"]}
                       for f in findings][:50],
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d unit(s), %d decided, %d obligation(s), %d function(s) of /repo analysed, %.1f s"
          % (pid, len(results), len(decided), nobl, len(funcs), wall))
    for r in undecided[:30]:
        print("UNDECIDED: %s [%s]: %s" % (r["unit"], r["mode"], r["undecided"][:300]))
    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if findings:
        rp = os.path.join(EVID, "replay_%s.json" % pid)
        with open(rp, "w") as fh:
            json.dump({"property": pid, "rule": spec["rule"], "findings": findings,
                       "rerun": "python3 /verif/vf/check.py %s -v --unit '%s'" % (pid, findings[0]["unit"])}, fh, indent=1, default=str)
        for f in findings[:12]:
            print("  %s [%s] %s at %s: %s" % (f["unit"], f["mode"], f["obligation"], f.get("where"), f["what"]))
            if f.get("got") is not None:
                print("     computed:  %s\n     specified: %s" % (str(f["got"])[:300], str(f.get("expected"))[:300]))
            if f.get("witness"):
                print("     witness:   %s" % str(f["witness"])[:300])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if nobl == 0 or not decided:
        print("ERROR: nothing was decided (no obligation) - the check gives no answer")
        return 2
    return 0


def match_known(known, pid, f):
    for k in known.get("findings", []):
        if k["property"] == pid and re.fullmatch(k["unit"], f["unit"]) and re.fullmatch(k["obligation"], f["obligation"]) \
                and re.search(k.get("where", ""), str(f.get("where"))):
            return k
    return None


if __name__ == "__main__":
    main()
