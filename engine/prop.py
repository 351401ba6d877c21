"""Decides a property: generates the obligations of its contracts from the current sources, discharges them,
replays and searches on the compiled library what was not discharged, and writes the evidence."""
import importlib, json, multiprocessing, os, re, signal, sys, time, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

MEM = ("bounds", "live", "leak", "leak-in-loop", "double-free", "free-of-non-heap", "free-interior", "null", "pre-extent")
DEFINITE = ("leak", "leak-in-loop", "double-free", "free-of-non-heap", "free-interior", "race")

class Contract(object):
    """drv(D, **case) for every case; `alarm`: kinds of side obligations this property answers for"""
    def __init__(self, drv, cases=({},), cuts=None, opts=None, n=(40, 300), alarm=("pre-table",), real_alarm=("ensures",), eq=True,
                 real_cases=None, tlimit=(60, 400), deadline=None, name=None, ensures=True, lim=24):
        self.drv, self.cases, self.cuts, self.opts, self.n = drv, list(cases), cuts, opts, n
        self.alarm, self.real_alarm, self.real_cases, self.tlimit, self.deadline = tuple(alarm), tuple(real_alarm), real_cases, tlimit, deadline
        self.name, self.eq, self.ensures, self.lim = name or drv.__name__, eq, ensures, lim

class Lemma(object):
    """f(ctx) -> list of (label, status, backend, note[, replay]) : an obligation over the mathematics, or over values
    extracted from the code"""
    def __init__(self, f, args=(), name=None, tlimit=300):
        self.f, self.args, self.name, self.tlimit = f, args, name or f.__name__, tlimit

class Ctx(object):
    def __init__(self, tier, seed): self.tier, self.seed, self.quick = tier, seed, tier == "quick"

def cname(c, case): return c.name + ("(" + ",".join("%s=%s" % (k, getattr(v, "__name__", v)) for k, v in sorted(case.items())) + ")" if case else "")

LIMITS = ("time", "too many cases", "nesting", "expression too large")     # the prover gave up
# ------------------------------------------------------------------ one contract instance
def z3_scalars(facts, ranges={}, free=True):
    """a model of the facts restricted to declared scalars, within their sampling ranges when possible"""
    import solve, z3
    import terms as tm
    from fractions import Fraction
    rg, rb = [], []
    for v, lo, hi in ranges.values():
        if lo is not None: rb.append(tm.le(tm.lift(lo, v.s), v))
        if hi is not None: (rb if v.s == "R" else rg).append(tm.le(v, tm.lift(hi, v.s)))
    # within the sampling ranges when possible, else sizes beyond them
    ints = [v for v, lo, hi in ranges.values() if v.s == "I"]
    r = m = None
    for extra in ([rb + rg] + [rb + [tm.le(v, tm.num(B, "I")) for v in ints] for B in (60, 600, 6000, 60000)[:4 if ints else 0]] + ([[]] if free else []) if rg or rb else [[]]):
        try: r, m = solve.check(list(facts) + extra, None, 3000, want_model=True)
        except Exception: r = None
        if r == "sat" and m is not None: break
    if r != "sat" or m is None: return None
    env = {}
    model, Z = m
    for d in model.decls():
        if d.arity() != 0: continue
        v = model[d]
        n = d.name()
        n = n[2:] if n[:2] in ("R!", "I!") else n
        if any(ch in n for ch in "~#@!"): continue
        if z3.is_int_value(v): env[n] = v.as_long()
        elif z3.is_rational_value(v): env[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        elif z3.is_algebraic_value(v): env[n] = float(v.approx(20).as_fraction())
    return env

def run_contract(c, case, ctx, deadline):
    import cfront, driver, solve, realc, refute, symexec as sx, terms as tm
    from specs import base
    out = dict(name=cname(c, case), obl=[], real=None, inlined=[], cuts=[], notes=[], sym_error=None, viol=[])
    t0 = time.time()
    P = cfront.load()
    guides = []
    def left(x): return max(2., min(x, deadline - time.time()))
    # --- generation and discharge
    try:
        broken = []
        def make(script):
            D = driver.SymD(P, c.cuts if c.cuts is not None else base.BASE, script, opts=c.opts)
            try: c.drv(D, **case)
            except (Timeout, sx.ExitSig): raise
            except Exception as x:
                # this path is not followed to its end: inputs that take it
                if not isinstance(x, sx.Unsupported): x = sx.Unsupported("%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-1500:]))
                D.E.pos = min(D.E.pos, len(D.E.script))
                broken.append((x, list(D.st.facts) + list(D.st.guards), D.ranges))
                return D.E, None
            return D.E, D
        tl = left(150 if ctx.quick else 900)
        with Alarm(tl):
            paths = [(E, D) for E, D in sx.run_paths(make, limit=c.lim) if D is not None]
        for x, fs, rg in broken:
            out["sym_error"] = "not translated: %s" % x
            if len(guides) > 3: continue
            try:
                with Alarm(left(10)): g = z3_scalars(fs, rg, False)
            except Exception: g = None
            used = {v.a[0] for f in fs for v in f.fv if v.op == "var"}
            g = {k: v for k, v in (g or {}).items() if k in used and k in rg}
            if g: guides.append(dict(g, anywhere=True))
        inl, cuts, notes = set(), set(), set()
        for E, D in paths:
            inl |= E.inlined; cuts |= E.usedcuts; notes |= set(E.notes)
        out["inlined"], out["cuts"], out["notes"], out["npaths"] = sorted(inl), sorted(cuts), sorted(notes), len(paths)
        out["exec_s"] = time.time() - t0
        nund = nref = nmem = ntry = nsize = 0
        for ip, (E, D) in enumerate(paths):
            sfx = "" if len(paths) == 1 else "#path%d" % ip
            # vacuity: the assumptions of this path are consistent
            if solve.check(list(D.st.facts) + list(D.st.guards), None, 1500)[0] == "unsat":
                out["notes"].append("infeasible path"); continue
            if c.ensures:
                for e in D.ens:
                    t1 = time.time()
                    rest = None
                    r = dict(name=e.label + sfx, kind="ensures", backend="normal form + z3", status="undecided", why="")
                    try:
                        dl = left(c.deadline or (100 if ctx.quick else 600))
                        if nund: dl = min(dl, 15 if ctx.quick else 120)     # replay decides more cheaply than further search
                        if nund > 6: dl = min(dl, 3 if ctx.quick else 30)
                        with Alarm(dl + 5):
                            if e.by:
                                import algebra
                                r["backend"] = "exact algebra of expansions"
                                r["status"], r["why"] = algebra.decide(e.a, e.b, e.by, e.facts, ctx.seed)
                            elif e.b is tm.TRUE:
                                if solve.entails(e.facts, e.a, int(min(30, dl) * 1000)): r["status"], r["backend"] = "proved", "z3"
                            else:
                                pr = solve.EqProver(e.facts, pos=e.pos, deadline=time.time() + dl, lemmas=e.lemmas)
                                pr.prove(e.a, e.b)
                                r["status"], r["leaves"] = "proved", pr.leaves
                    except solve.Undecided as x:
                        r["why"] = str(x)[:600]
                        rest = x
                        g = z3_scalars(list(x.facts), D.ranges)
                        if g: guides.append(g)
                    except Timeout: r["why"] = "time limit"
                    except RecursionError: r["why"] = "recursion limit"
                    except Exception as x: r["why"] = "%s: %s" % (type(x).__name__, x)
                    if e.b is tm.TRUE and r["status"] != "proved" and not r["why"]:
                        rest = solve.Undecided("the solver does not derive it", list(e.facts)); r["why"] = str(rest)
                    if r["status"] != "proved" and rest is not None and nref < 2 and ntry < 4 and not e.by and left(100) > 20:
                        try:
                            with Alarm(left(25 if ctx.quick else 120)):
                                w = refute.find(e.a, e.b, list(e.facts if str(rest) in LIMITS else rest.facts) + D.order, D.ranges, E.tmpl, ctx.seed, time.time() + (20 if ctx.quick else 100), e.rtol, e.atol, e.true)
                        except Exception: w = None
                        ntry += 1
                        if w is not None:
                            nref += 1
                            r["status"], r["why"] = "refuted", w.text + "; " + r["why"]
                            v, arrs = w.env
                            v = {k: x for k, x in v.items() if k in D.ranges}
                            guides[:0] = [dict(v, anywhere=True, arrays=arrs), dict(v, anywhere=True)]
                    r["s"] = time.time() - t1
                    if r["status"] != "proved": nund += 1
                    out["obl"].append(r)
            seen = {}
            for o in E.obls:
                key = (o.kind, o.where, o.goal, tuple(sorted(f.id for f in o.facts)))
                if key in seen: continue
                seen[key] = 1
                t1 = time.time()
                r = dict(name="%s@%s%s" % (o.kind, o.where, sfx), kind=o.kind, backend="z3", status="undecided", why="")
                try:
                    with Alarm(left(20)):
                        ok = solve.entails(o.facts, o.goal, 4000)
                    if ok: r["status"] = "proved"
                    else:
                        r["why"] = tm.show(o.goal)[:400]
                        if o.kind in c.alarm and o.kind not in DEFINITE and nmem < 3 and left(100) > 20:
                            try:
                                with Alarm(left(15)): w = refute.find(o.goal, tm.TRUE, list(o.facts) + D.order, D.ranges, E.tmpl, ctx.seed, time.time() + 12)
                            except Exception: w = None
                            if w is not None:
                                nmem += 1
                                r["status"], r["why"] = "refuted", w.text + "; " + r["why"]
                                v, arrs = w.env
                                guides[:0] = [dict({k: x for k, x in v.items() if k in D.ranges}, anywhere=True, arrays=arrs)]
                            elif nsize < 2:          # sizes at which it fails, however large
                                with Alarm(left(10)): g = z3_scalars(list(o.facts) + [tm.not_(o.goal)], D.ranges, False)
                                g = {k: v for k, v in (g or {}).items() if k in D.ranges}
                                if g: nsize += 1; guides.append(dict(g, anywhere=True))
                        if o.kind in DEFINITE and o.goal is tm.FALSE:
                            f = solve.check(o.facts, None, 4000)[0]
                            if f == "sat": r["status"] = "refuted"
                        elif o.kind in DEFINITE:
                            f = solve.check(list(o.facts) + [tm.not_(o.goal)], None, 4000)[0]
                            if f == "sat" and not any(v.a[0].startswith("left~") for x in list(o.facts) + [o.goal] for v in x.fv if v.op == "var"): r["status"] = "refuted"
                except Timeout: r["why"] = "time limit"
                except Exception as x: r["why"] = "%s: %s" % (type(x).__name__, x)
                r["s"] = time.time() - t1
                out["obl"].append(r)
    except sx.Unsupported as x: out["sym_error"] = "not translated: %s" % x
    except Timeout: out["sym_error"] = "time limit"
    except Exception as x: out["sym_error"] = "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-1500:])
    out["sym_s"] = time.time() - t0
    # --- the compiled library on sampled inputs: all of the budget when something is undecided
    und = [o for o in out["obl"] if o["status"] != "proved" and (o["kind"] == "ensures" or o["kind"] in c.alarm)]
    full = bool(und) or out["sym_error"] or (c.ensures and not any(o["kind"] == "ensures" for o in out["obl"]))
    n = c.n[0 if ctx.quick else 1]
    if full: n = n * 3
    t1 = time.time()
    try:
        so = realc.build()
        tl = left(c.tlimit[0 if ctx.quick else 1] * (2 if full else 1))
        res = dict(fails=[], done=0, rejected=0, errors=[], nens=0)
        for gi, g in enumerate(guides[:6]):
            for v in (g,):
                r = driver.run_real(so, P, c.drv, case, [ctx.seed * 1000003 + j for j in range(4)], lambda R, v=v: dict(v), tl)
                for k in ("done", "rejected", "nens"): res[k] += r[k]
                for f in r["fails"]: res["fails"].append(f + (v,))
        seeds = [ctx.seed * 1000003 + 100 + j for j in range(n)]
        nw = 1 if not full else 2
        r = driver.run_real(so, P, c.drv, case, seeds, {}, tl)
        for k in ("done", "rejected", "nens"): res[k] += r[k]
        res["errors"] += r["errors"]
        for f in r["fails"]: res["fails"].append(f + ({},))
        out["real"] = dict(done=res["done"], rejected=res["rejected"], errors=res["errors"][:3], checked=res["nens"])
        for sd, bad, log, env, fixed in res["fails"]:
            kinds = set(b[0] for b in bad)
            out["viol"].append(dict(kind=sorted(kinds), seed=sd, bad=bad[:6], log=log[-12:], env=env, fixed=fixed, seeds_from=seeds[0]))
    except Exception as x:
        out["real"] = dict(done=0, rejected=0, errors=["%s: %s" % (type(x).__name__, x)], checked=0, trace=traceback.format_exc()[-1200:])
    out["real_s"] = time.time() - t1
    return out

class Timeout(Exception): pass
class Alarm(object):
    def __init__(self, s): self.s = s
    def __enter__(self):
        def h(*a): raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, max(0.5, self.s))
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False

# ------------------------------------------------------------------ driver of a whole property
def job(conn, mod, idx, ci, tier, seed, deadline):
    try:
        sys.setrecursionlimit(200000)
        m = importlib.import_module("specs." + mod)
        it = m.PROP["items"][idx]
        ctx = Ctx(tier, seed)
        if isinstance(it, Contract): r = run_contract(it, it.cases[ci], ctx, deadline)
        else:
            t = time.time()
            try:
                with Alarm(min(it.tlimit if ctx.quick else 3 * it.tlimit, max(5, deadline - time.time()))): obl = it.f(ctx, *it.args)
            except Timeout: obl = [(it.name, "undecided", "", "time limit")]
            r = dict(name=it.name, lemma=True, obl=[dict(name=o[0], status=o[1], backend=o[2], why=o[3], replay=o[4] if len(o) > 4 else None, kind="lemma", s=(time.time() - t) / max(1, len(obl))) for o in obl])
        conn.send(r)
    except BaseException as e:
        try: conn.send(dict(name="%s/%d" % (mod, idx), error="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-3000:], obl=[]))
        except Exception: pass
    finally:
        conn.close()
        os._exit(0)

def run_jobs(mod, jobs, tier, seed, deadline, nproc=8, stop=None):
    ctx = multiprocessing.get_context("fork")
    t0, nbad = time.time(), 0
    todo, run, res = list(jobs), [], {}
    while todo or run:
        while todo and len(run) < nproc:
            j = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=job, args=(b, mod) + j + (tier, seed, deadline))
            p.start(); b.close()
            run.append((j, p, a))
        time.sleep(0.01)
        for x in list(run):
            j, p, a = x
            if a.poll(0):
                try: res[j] = a.recv()
                except EOFError: res[j] = dict(name="%s" % (j,), error="worker ended (%s)" % p.exitcode, obl=[])
                p.join(5)
                if p.is_alive(): p.kill()
                a.close(); run.remove(x)
                if stop is not None and stop(j, res[j]): nbad += 1
            elif nbad >= 2 and time.time() - t0 > 60:
                # failing inputs are known already: no further search
                p.kill(); p.join()
                res[j] = dict(name="%s" % (j,), error=STOPPED, obl=[])
                a.close(); run.remove(x)
            elif time.time() > deadline + 40:
                p.kill(); p.join()
                res[j] = dict(name="%s" % (j,), error="time limit", obl=[])
                a.close(); run.remove(x)
        if nbad >= 2 and time.time() - t0 > 60:
            for j in todo: res[j] = dict(name="%s" % (j,), error=STOPPED, obl=[])
            todo = []
    return [res[j] for j in jobs]
STOPPED = "not decided: the check stopped at the failing inputs found elsewhere"

def load_known():
    f = os.path.join(ROOT, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("-v", action="store_true"); ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--nproc", type=int, default=8)
    a = ap.parse_args(argv)
    if a.replay: return replay(a.prop, a.replay)
    t0 = time.time()
    pid = a.prop
    m = importlib.import_module("specs." + pid.lower())
    items = m.PROP["items"]
    deadline = t0 + (540 if a.tier == "quick" else 7200)
    import realc
    build_error = None
    try:
        realc.build()
    except Exception as e: build_error = str(e)
    import cfront
    try: cfront.load()
    except Exception as e: print("note: the C front end cannot read the sources: %s" % e)
    jobs = []
    for i, it in enumerate(items):
        if a.only and a.only not in it.name: continue
        for ci in range(len(it.cases) if isinstance(it, Contract) else 1): jobs.append((i, ci))
    known = [k for k in load_known() if k.get("property") == pid and k.get("status", "known") == "known"]
    def found(j, r):
        it = items[j[0]]
        return isinstance(it, Contract) and any(set(v["kind"]) & set(it.real_alarm + ("crash",)) for v in r.get("viol", []))
    res = run_jobs(pid.lower(), jobs, a.tier, a.seed, deadline, a.nproc, None if known else found)
    rdir = os.path.join(ROOT, "replay")
    os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    nob = npr = nbd = 0
    viol, knownhit, funcs, cuts, errors, undecided, samples, refs_, notes = [], {}, set(), set(), [], [], [], [], set()
    per, solver_s, evals, backends = [], 0., 0, {}
    for (idx, ci), r in zip(jobs, res):
        it = items[idx]
        if r.get("error"): errors.append("%s: %s" % (r["name"], r["error"])); 
        if a.v and r.get("error"): print(r.get("trace"))
        isC = isinstance(it, Contract)
        funcs |= set(r.get("inlined", [])); cuts |= set(r.get("cuts", [])); notes |= set(r.get("notes", []))
        p = u = 0
        realok = isC and r.get("real") and r["real"]["done"] > 0 and not r["viol"]
        for o in r["obl"]:
            solver_s += o.get("s", 0)
            if isC and o["kind"] != "ensures" and o["kind"] not in it.alarm: continue
            nob += 1
            if o["status"] == "proved": npr += 1; p += 1; backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            elif o["status"] == "bounded": nbd += 1; backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            elif o["status"] == "violated": viol.append((r, o, None))
            elif o["status"] == "refuted" and isC and (o["kind"] in it.alarm or o["kind"] == "ensures"): refs_.append((r, o)); u += 1
            else:
                u += 1
                if realok: nbd += 1
                undecided.append("%s %s: %s" % (r["name"], o["name"], str(o.get("why", ""))[:200]))
        if isC:
            if it.ensures and not r.get("error") and not r.get("sym_error") and not any(o["kind"] == "ensures" for o in r["obl"]):
                # every path contradicts the assumptions, or the driver asserts nothing: nothing has been shown
                nob += 1; u += 1
                if realok: nbd += 1
                undecided.append("%s: no obligation was generated (every path contradicts the assumptions, or a bounded stand-in): the real runs decide" % r["name"])
            if r.get("sym_error"): undecided.append("%s: %s" % (r["name"], r["sym_error"][:300]))
            if r.get("real"):
                evals += r["real"]["done"]
                if r["real"]["errors"]: notes.add("%s: %s" % (r["name"], r["real"]["errors"][0]))
            for v in r.get("viol", []):
                if any(k in it.real_alarm or k == "crash" for k in v["kind"]): viol.append((r, None, v))
        per.append(dict(contract=r["name"], proved=p, not_proved=u, error=r.get("error") or r.get("sym_error"), real_runs=(r.get("real") or {}).get("done", 0),
                        seconds=round(r.get("sym_s", 0) + r.get("real_s", 0), 2)))
        if a.v:
            print(per[-1])
            if r.get("real") and (r["real"]["errors"] or r["real"]["rejected"]): print("    real", r["real"])
            for o in r["obl"]:
                if o["status"] != "proved": print("    ", o["status"], o["name"], str(o.get("why"))[:700])
            for v in r.get("viol", []): print("    real failure", v["kind"], v["bad"][:3], v["log"][-6:], {k: x for k, x in v["env"].items() if not isinstance(x, list)})
    # a refuted structural obligation without a failing input
    done_names = set(r["name"] for r, o, v in viol)
    failing = set(r["name"] for r, o, v in viol if v is not None)
    for r, o in refs_:
        if o["kind"] == "ensures" and r["name"] in failing: continue
        viol.append((r, o, None))
    nv = 0
    lines = []
    for r, o, v in viol:
        if o is not None:
            label, info, nofail = o["name"], o.get("replay") or dict(verifier_output=o.get("why")), o.get("replay") is None
        else:
            label, info, nofail = v["bad"][0][1], v, False
        hit = None
        for k in known:
            if re.search(k["contract"], r["name"]) and re.search(k["obligation"], label): hit = k
        if hit:
            knownhit[hit["id"]] = hit; continue
        nv += 1
        if nv > 5: continue
        name = re.sub(r"[^A-Za-z0-9_]+", "_", "%s_%s" % (r["name"], label))[:80]
        path = os.path.join(rdir, "%s_%s.json" % (pid, name))
        json.dump(dict(property=pid, contract=r["name"], obligation=label, seed=a.seed, tier=a.tier, detail=info,
                       how="python3-vt /verif/check %s --replay %s" % (pid, path)), open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, " no-failing-input-found" if nofail else ""))
        print("%s: %s: %s" % (r["name"], label, json.dumps((info.get("bad") or info) if isinstance(info, dict) else info, default=str)[:500]))
    for k in knownhit.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if build_error and not any(it for it in items if not isinstance(it, Contract)): print("note: the library does not build here: " + build_error[:500])
    wall = time.time() - t0
    level = m.PROP.get("level", "proof")
    samples = [dict(contract=x["contract"], proved=x["proved"], real_runs=x["real_runs"]) for x in per[:8]]
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=level, wall_s=round(wall, 2), violations=nv,
              coverage=dict(obligations=nob, discharged=npr, checker_cmd="python3-vt check %s --tier %s" % (pid, a.tier),
                            trusted_base=TRUSTED + m.PROP.get("trusted", []) + ["contract assumed at call sites here: " + c for c in sorted(cuts)],
                            bounded_not_proved=nbd, undecided=undecided[:40], functions_under_contract=sorted(funcs), backends=backends,
                            solver_seconds=round(solver_s, 2), evaluations=evals, contracts=per, samples=samples,
                            rule="evaluations counts runs of the compiled library on sampled inputs (replay and bounded stand-in), never counted as discharged",
                            notes=sorted(notes)[:20], errors=errors[:10]),
              assumptions=ASSUME + m.PROP.get("assumptions", []))
    if not a.only: json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d obligations, %d proved, %d bounded only, %d real runs, %d errors, %.1f s" % (pid, a.tier, nob, npr, nbd, evals, len(errors), wall))
    for l in lines: print(l)
    sys.stdout.flush()
    return 1 if nv else 0

TRUSTED = ["engine/cfront.py, symexec.py (verification-condition generation from clang's AST of /repo/src)", "engine/nf.py, solve.py (normal-form equality prover)", "z3",
           "clang-18 (parser)"]
ASSUME = ["floating-point arithmetic is treated as exact real arithmetic (rounding, overflow and underflow are not modelled)",
          "allocation succeeds", "the integer types do not overflow for the sizes used", "log, exp, pow, sqrt, fabs behave as the real functions"]

def replay(pid, path):
    import cfront, driver, realc
    d = json.load(open(path))
    det = d["detail"]
    m = importlib.import_module("specs." + pid.lower())
    for it in m.PROP["items"]:
        if not isinstance(it, Contract): continue
        for case in it.cases:
            if cname(it, case) == d["contract"] and "seed" in det:
                r = driver.run_real(realc.build(), cfront.load(), it.drv, case, [det["seed"]] if det["fixed"] else range(det["seeds_from"], det["seed"] + 1),
                                    (lambda R: dict(det["fixed"])) if det["fixed"] else {}, 300)
                for f in r["fails"]: print(f)
                return 1 if r["fails"] else 0
    print(json.dumps(d, indent=1))
    return 1
