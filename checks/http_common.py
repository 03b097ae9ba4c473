import json, random
from vp.trace import *


def hx(s):
    return s.encode("latin1").hex()


def req_json(q):
    return hx(json.dumps(q))


def url_quote(s):
    return "".join(ch if ch.isalnum() or ch in "-_./*" else "%%%02x" % ord(ch) for ch in s)


def param(out, name, t):
    if t["v"] != -3:
        out.append("%s=%s" % (name, url_quote(t["t"])))


HEADERS = (("Host", "Accept-Encoding", "Content-Length"), ("host", "accept-encoding", "content-length"), ("HOST", "ACCEPT-ENCODING", "CONTENT-LENGTH"))


def body_of(q):
    if q["doc"] == "garbage": return "{\"start\":"
    if q["doc"] == "array": return "[]"
    if q["doc"] == "empty": return ""
    if q["doc"] == "text": return "\"start\""
    f = []
    for name, t in (("start", q["start"]), ("stop", q["end"]), ("maxSamples", q["samples"])):
        if t["v"] != -3: f.append("\"%s\":%s" % (name, t["t"]))
    if q["keys"] == "array":
        f.append("\"keys\":[%s]" % ",".join(json.dumps(n["n"]) if n["ok"] else "[1]" for n in q["names"]))
    if q["trailing"]: f.append("\"trailing\":" + q["trailing"])
    if q["compact"]: f.append("\"compact\":" + q["compact"])
    return "{%s}" % ",".join(f)


def text_of(q):
    """The bytes of a request: one meaning, as the specification wrote it down."""
    H = HEADERS[q["hc"]]
    head = "%s: there\r\n" % H[0]
    if q["enc"]: head += "%s: %s\r\n" % (H[1], q["enc"])
    k = q["k"]
    if k == "get":
        ps = []
        param(ps, "start", q["start"]); param(ps, "end", q["end"]); param(ps, "samples", q["samples"]); param(ps, "trailing", q["trailing"])
        if q["format"]: ps.append("format=" + q["format"])
        if q["swap"]: ps.reverse()
        # counter names are not decoded
        return "GET /%s%s HTTP/1.1\r\n%s\r\n" % (q["name"], "?" + "&".join(ps) if ps else "", head)
    if k == "multi":
        b = body_of(q)
        cl = {"ok": str(len(b)), "none": None, "bad": "ten", "neg": "-1", "huge": "9999999999999", "more": str(len(b) + 20)}[q["cl"]]
        if cl is not None: head += "%s: %s\r\n" % (H[2], cl)
        return "POST %s HTTP/1.1\r\n%s\r\n%s" % (q["url"], head, b)
    if k == "list": return "GET /?q=%s HTTP/1.1\r\n%s\r\n" % (url_quote(q["pat"]), head)
    if k == "agents": return "GET /?a=* HTTP/1.1\r\n%s\r\n" % head
    if k == "file": return "GET %s HTTP/1.1\r\n%s\r\n" % (q["url"], head)
    if k in ("status", "scrape"): return "%s %s HTTP/1.1\r\n%s\r\n" % (q["method"], q["url"], head)
    if k == "raw": return q["text"]
    raise ValueError(k)


def item(q, rnd):
    port = "p" if q["k"] == "scrape" else "h"
    if q["k"] == "raw" and q["text"] == "big":
        pieces = [hx("GET /"), "*300000", hx(" HTTP/1.1\r\nHost: x\r\n\r\n")]
    elif q["k"] == "raw" and q["text"] == "unended":
        pieces = [hx("GET / HTTP/1.1\r\nHos"), "F"]
    else:
        t = text_of(q)
        cuts = sorted(rnd.sample(range(1, len(t)), min(q["cut"], len(t) - 1))) if q["cut"] < 5 else list(range(1, len(t)))
        pieces = [hx(t[a:b]) for a, b in zip([0] + cuts, cuts + [len(t)])]
        if q["fin"] or (q["k"] == "multi" and q["cl"] == "more"): pieces.append("F")
    return "%s;%s;%s" % (port, req_json(q), ",".join(pieces))


def lines(prog):
    rnd = random.Random(len(prog) * 7919 + sum(len(json.dumps(o)) for o in prog))
    out = []
    for o in prog:
        k = o["o"]
        if k == "new": out.append("new %d %d" % (o["prom"], o["store"]))
        elif k == "ctr":
            out.append("ctr %d %s %s" % (o["broken"], ",".join(hx(n) for n in o["names"]), " ".join(":".join(map(str, b)) for b in o["held"])))
        elif k == "agent":
            out.append("agent %s %s" % (hx("".join("#%s %s\n" % tuple(a) for a in o["attrs"])), hx(json.dumps(o["attrs"]))))
        elif k == "tick": out.append("tick %d" % o["by"])
        elif k == "feed": out.append("feed %s %s" % (hx(feed_text(o["x"])), hx(json.dumps(o["x"]))))
        elif k == "ask":
            out.append("ask %d %s" % (o["th"], " ".join([item(q, rnd) for q in o["rs"]] + ["feed;%s;%s" % (hx(feed_text(x)), hx(json.dumps(x))) for x in o.get("feeds", [])])))
        elif k == "end": pass
        else: raise ValueError(k)
    return out


def feed_text(x):
    return "".join("%s%s\n" % (f["raw"], (" %d %d" % (f["t"], f["v"])) if f["t"] else " %d" % f["v"]) for f in x)
