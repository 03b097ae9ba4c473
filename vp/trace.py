"""Programs out of specifications, executions out of drivers, and the verdict of TLC on them."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import *


def generate(c, module, cfg=None, num=100, depth=None, seed=None, workers=1, timeout=300, shards=1, env=None):
    """Behaviours of a generator module, one list of operations each (TLC simulation, one successor a step)."""
    cfg = cfg or module + ".cfg"
    seed = c.seed if seed is None else seed
    per = max(1, num // shards)

    def one(k):
        r = tlc(module, cfg, c.path("gen%d-%s" % (k, module), "x")[:-2], workers=1, heap="1g", simulate=per, depth=depth,
                seed=seed * 1000 + k, timeout=timeout, env=env)
        progs = []
        for l in r.output.splitlines():
            l = l.strip()
            if l.startswith('"VPGEN '):
                try:
                    progs.append(json.loads(json.loads(l)[6:]))
                except ValueError:
                    raise CheckError("unreadable generator output: " + l[:300])
        if r.error or r.violation or not progs:
            raise CheckError("generator %s failed:\n%s" % (module, r.output[-4000:]))
        return progs, r.states
    with ThreadPoolExecutor(min(shards, JOBS)) as ex:
        res = list(ex.map(one, range(shards)))
    out = [p for ps, _ in res for p in ps]
    c.cov.setdefault("generators", []).append({"module": module, "behaviours": len(out),
                                               "steps": sum(len(p) for p in out)})
    return out


def _split(events):
    """driver output -> one list of events per history (each begins with a reset event)"""
    out = []
    for e in events:
        if e.get("e") == "reset":
            out.append([])
        elif out:
            out[-1].append(e)
        else:
            out.append([e])
    return out


def _run_chunk(exe, hs, args, timeout, env):
    """Execute histories in one process; a history during which the process dies gets a 'died' event, and
    the rest is run by a new process."""
    res = []
    i = 0
    while i < len(hs):
        text = "".join("reset\n" + "\n".join(h) + "\n" for h in hs[i:])
        rc, ev, err = run_driver(exe, text, timeout=timeout, args=args, env=env)
        parts = _split(ev)
        if rc == 0 and len(parts) == len(hs) - i:
            res += parts
            break
        if rc == 0:
            # left early on its own: an event said why (e.g. threw_)
            if not parts:
                raise CheckError("driver %s printed nothing: %s" % (exe, err[-500:]))
            res += parts
            i += len(parts)
            continue
        if not parts:
            parts = [[]]
        parts[-1].append({"e": "died", "rc": str(rc), "why": summary(err)})
        res += parts
        i += len(parts)
    return res


def summary(err):
    i = err.find("HANGS AT")
    if i >= 0:
        fr = re.findall(r"#\d+ .*? in ([\w:~<>]+) ", err[i:])
        return ("hangs: " + " ".join(fr))[:3500]
    m = re.search(r"(SUMMARY: [^\n]*|ERROR: [^\n]*|terminate called[^\n]*\n[^\n]*)", err)
    return re.sub(r"0x[0-9a-f]+|==\d+==", "", (m.group(1) if m else err[-200:]))[:300]


def execute(c, exe, histories, timeout=120, chunk=None, env=None, mkargs=None, tag="x"):
    """Run all histories (lists of driver lines), in parallel processes, each with its own scratch directory."""
    chunk = chunk or max(1, (len(histories) + JOBS - 1) // JOBS)
    groups = [histories[k:k + chunk] for k in range(0, len(histories), chunk)]

    def one(k):
        d = c.path("run-%s-%d" % (tag, k), "x")[:-2]
        r = _run_chunk(exe, groups[k], (mkargs(d) if mkargs else [d]), timeout, env)
        shutil.rmtree(d, ignore_errors=True)
        return r
    with ThreadPoolExecutor(JOBS) as ex:
        res = [h for g in ex.map(one, range(len(groups))) for h in g]
    if len(res) != len(histories):
        raise CheckError("driver returned %d histories for %d programs" % (len(res), len(histories)))
    return res


def validate(c, module, hist, cfg=None, name=None, timeout=600, heap="6g", deterministic=True, extra_env=None, ids=None):
    """TLC decides whether each recorded history is a behaviour of the specification.
    Returns None or (history id, text)."""
    cfg = cfg or module + ".cfg"
    p = c.path("trace-%s-%d.ndjson" % (module, c.rng.randrange(1 << 30)))
    with open(p, "w") as f:
        for k, ev in enumerate(hist):
            f.write(json.dumps({"id": ids[k] if ids else k + 1, "ev": ev}) + "\n")
    env = {"VP_TRACE": p}
    env.update(extra_env or {})
    r = tlc(module, cfg, c.path("tv", "x")[:-2], heap=heap, timeout=timeout, env=env)
    c.add_states(r)
    if r.violation:
        ce = tlc_counterexample(r.output)
        m = re.search(r"history \|-> (\d+)", ce)
        if not m:
            raise CheckError("trace checker %s: no history in the counterexample\n%s" % (module, r.output[-3000:]))
        return int(m.group(1)), ce
    if not r.ok:
        raise CheckError("trace checker %s failed:\n%s" % (module, r.output[-5000:]))
    want = sum(len(ev) + 1 for ev in hist)
    if deterministic and r.distinct != want:
        raise CheckError("trace checker %s stopped early: %d states for %d expected\n%s" % (module, r.distinct, want, r.output[-1500:]))
    return None


def bad_of(ce):
    i = ce.find("bad = ")
    return re.sub(r"\s+", " ", ce[i:])[:2500] if i >= 0 else ce[:2500]


def conform(c, module, exe, programs, what, cfg=None, kind="", runs=1, signature=None, deterministic=True, env=None,
            mkargs=None, timeout=120, chunk=None, tlc_timeout=600, retries=3, post=None, max_reports=3, extra_env=None, certain=()):
    """Execute programs on the implementation and have TLC judge the recordings; report confirmed rejections."""
    hist = execute(c, exe, programs, timeout=timeout, chunk=chunk, env=env, mkargs=mkargs)
    if post:
        hist = [post(h) for h in hist]
    left = list(range(len(hist)))
    reports = 0
    while left:
        v = validate(c, module, [hist[i] for i in left], cfg=cfg, ids=[i + 1 for i in left], timeout=tlc_timeout,
                     deterministic=deterministic, extra_env=extra_env)
        if v is None:
            break
        i = v[0] - 1
        # a second run must say the same
        again = None
        for _ in range(retries):
            h2 = execute(c, exe, [programs[i]], timeout=timeout, env=env, mkargs=mkargs, tag="again")
            if post:
                h2 = [post(h) for h in h2]
            again = validate(c, module, h2, cfg=cfg, ids=[i + 1], timeout=tlc_timeout, deterministic=deterministic, extra_env=extra_env)
            if again is not None:
                break
        if again is None:
            # a race that was recorded is a race: what such an event shows does not depend on when things happened
            m = re.search(r"\bline \|-> (\d+)", bad_of(v[1]))
            if m and 0 < int(m.group(1)) <= len(hist[i]) and hist[i][int(m.group(1)) - 1].get("e") in certain:
                again, h2 = v, [hist[i]]
        if again is None:
            c.log("history %d was rejected once and could not be reproduced: %s" % (i + 1, bad_of(v[1])[:600]))
            d = os.path.join(VERIF, "out", c.prop)
            os.makedirs(d, exist_ok=True)
            json.dump({"program": programs[i], "recorded": hist[i], "tlc": v[1]}, open(os.path.join(d, "unreproduced-%d.json" % (i + 1)), "w"), indent=1)
            c.cov["unreproduced"] = c.cov.get("unreproduced", 0) + 1
        else:
            sig = signature(programs[i], h2[0]) if signature else " | ".join(programs[i])
            new = c.violation("%s: recorded execution is not a behaviour of %s\n%s" % (what, module, bad_of(again[1])),
                              {"driver": exe, "program": programs[i], "recorded": h2[0], "tlc": again[1]}, sig)
            if new:
                reports += 1
                if reports >= max_reports:
                    break
        left.remove(i)
    c.cov["traces_validated_against_impl"] += len(hist)
    c.cov["events_validated"] = c.cov.get("events_validated", 0) + sum(len(h) for h in hist)
    kinds = c.cov.setdefault("events_by_kind", {})
    for h in hist:
        for e in h:
            kinds[e.get("e", "?")] = kinds.get(e.get("e", "?"), 0) + 1
    if programs:
        c.cov["samples"].append({"kind": kind or what, "program": programs[0][:25]})
    c.log("%s: %d executions (%d events) judged by %s" % (what, len(hist), sum(len(h) for h in hist), module))
    return hist
