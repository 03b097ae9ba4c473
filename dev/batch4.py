import sys; sys.path.insert(0,'/verif/dev')
from mk import *
C = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c.sh")).read()
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch3.py")).read()
a = src.index("H = r'''") + 8
H = src[a:src.index("'''", a)]
which = sys.argv[1:]
def M(id, *a, **k):
    if not which or id in which: make(id, *a, **k)
S = r'''
#include <istat/StatFile.h>
#include <istat/istattime.h>
#include <istat/Mmap.h>
#include <iostream>
#include <string>
#include <cstdlib>
using namespace istat;
#define CHECK(x) do { if (!(x)) { std::cerr << "FAILED line " << __LINE__ << ": " #x << std::endl; exit(1); } } while (0)
static double sum(StatFile &f, time_t t) { for (int64_t i = f.firstBucket(); i <= f.lastBucket(); ++i) { Bucket const &b = f.bucket(i); if (b.time() == t) return b.sum(); } return -1; }
static Stats stats; static Mmap *mm = NewMmap();
static StatFile::Settings sets(int season) { StatFile::Settings s; s.zeroTime = 1000000000; s.intervalTime = 10; s.lambda = 0.5; s.season = season; s.numSamples = 100; s.flags = FILE_FLAG_IS_TRAILING; strcpy(s.unit, "u"); return s; }
'''
M("c06-oldest-pending", "C06", "a sample for the oldest of the intervals still pending, after samples for the two later ones",
  "the oldest pending interval is not found again, so the later sample starts a second one that replaces what was written of it",
  [("lib/StatFile.cpp", "        for (size_t i = 0; i != n; ++i)\n        {\n            if (expBucket[i].time() == time)", "        //  the oldest one is about to be written\n        for (size_t i = 1; i != n; ++i)\n        {\n            if (expBucket[i].time() == time)")],
  C, {"demo.cpp": S + r'''
int main(int, char **v) {
  std::string p = std::string(v[1]) + "/f";
  time_t t = 1000000000;
  { StatFile f(p, stats, sets(1000), mm);
    f.rawUpdateBucket(Bucket(1, 1, 1, 1, 1, t), RAWUP_AGGREGATE);
    f.rawUpdateBucket(Bucket(2, 4, 2, 2, 1, t + 10), RAWUP_AGGREGATE);
    f.rawUpdateBucket(Bucket(4, 16, 4, 4, 1, t + 20), RAWUP_AGGREGATE);
    f.rawUpdateBucket(Bucket(8, 64, 8, 8, 1, t), RAWUP_AGGREGATE); 
    for (int i = 3; i < 8; ++i) f.rawUpdateBucket(Bucket(1, 1, 1, 1, 1, t + 10 * i), RAWUP_AGGREGATE);
    f.flush();
    CHECK(sum(f, t) == 9); CHECK(sum(f, t + 10) == 2); CHECK(sum(f, t + 20) == 4);
  }
  return 0;
}
'''})
M("c06-file-too-short", "C06", "a season whose length is no whole number of pages, in a file made for few samples",
  "the file is made a page too short for its season, so nothing is ever averaged with the season before",
  [("lib/StatFile.cpp", "np = hdr.season / bpp / hdr.cfg_interval + 1;", "np = std::max(np, hdr.season / (bpp * hdr.cfg_interval));")],
  C, {"demo.cpp": S + r'''
int main(int, char **v) {
  std::string p = std::string(v[1]) + "/f";
  time_t t = 1000000000; int season = 10 * 700;
  StatFile f(p, stats, sets(season), mm);
  for (int i = 0; i < 700; ++i) f.rawUpdateBucket(Bucket(8, 64, 8, 8, 1, t + 10 * i), RAWUP_AGGREGATE);
  for (int i = 700; i < 710; ++i) f.rawUpdateBucket(Bucket(16, 256, 16, 16, 1, t + 10 * i), RAWUP_AGGREGATE);
  f.flush();
  CHECK(sum(f, t + season) == 12); CHECK(sum(f, t + season + 10) == 12);
  return 0;
}
'''})
M("c12-resent-from-the-middle", "C12", "a connection that breaks while a large write is under way, and is made again",
  "what was left of the broken write is sent on the next connection, which so starts in the middle of a line",
  [("daemon/EagerConnection.cpp", '        LogWarning << "Short write on socket to " << resolveHost_ << ":" << resolvePort_ << ": " << err;\n', '        LogWarning << "Short write on socket to " << resolveHost_ << ":" << resolvePort_ << ": " << err << "; will send the rest again";\n        outgoing_.insert(outgoing_.begin(), writeBuf_.begin() + xfer, writeBuf_.end());\n')],
  C, {"demo.cpp": H + r'''
#include "daemon/EagerConnection.h"
int main() {
  up = bound(SOCK_STREAM, 0); int small = 4096; setsockopt(up, SOL_SOCKET, SO_RCVBUF, &small, sizeof small); CHECK(!listen(up, 8)); upPort = portOf(up);
  boost::shared_ptr<ConnectionInfo> c = EagerConnection::create(svc);
  char b[64]; snprintf(b, sizeof b, "127.0.0.1:%d", upPort);
  c->open(b, "#hello\n"); settle(); upc = accept(up, 0, 0);
  std::string big; for (int i = 0; i < 200000; ++i) big += "this.is.a.line 1 2 3 4 5 6 7\n";
  c->writeOut(big); settle(200);
  struct linger lg; lg.l_onoff = 1; lg.l_linger = 0; setsockopt(upc, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); close(upc);
  fcntl(up, F_SETFL, O_NONBLOCK); upc = -1;
  for (int i = 0; i < 400 && upc < 0; ++i) { settle(30); upc = accept(up, 0, 0); }
  CHECK(upc >= 0); 
  c->writeOut("last 1\n");
  fcntl(upc, F_SETFL, O_NONBLOCK);
  for (int i = 0; i < 20; ++i) { char t[65536]; ssize_t r; while ((r = recv(upc, t, sizeof t, 0)) > 0) upGot.append(t, r); settle(20); }
  CHECK(upGot.substr(0, 7) == "#hello\n");
  size_t p = 7;
  while (p < upGot.size()) { size_t e = upGot.find('\n', p); if (e == std::string::npos) break; std::string l = upGot.substr(p, e - p); CHECK(l == "last 1" || l == "this.is.a.line 1 2 3 4 5 6 7"); p = e + 1; }
  _exit(0);
}
'''})
M("c13-control-character", "C13", "a setting whose value has the character 26 in it, read again from the file",
  "the escape for the character 26 is not undone when a file is loaded",
  [("lib/strfunc.cpp", "                case 'Z':\n                    tmp[0] = 26;\n                    break;\n", "")],
  C, {"demo.cpp": H + r'''
#include "daemon/Settings.h"
int main(int, char **v) {
  std::string d = v[1]; Done d1; boost::shared_ptr<ISettings> s; bool was; std::string val;
  ISettingsFactory *f = NewSettingsFactory(svc, d);
  f->open("a", true, s, &d1); settle(); CHECK(s);
  s->set("key", std::string("x\x1ay")); 
  Done d2; f->flush(&d2); settle();
  ISettingsFactory *g = NewSettingsFactory(svc, d); boost::shared_ptr<ISettings> t; Done d3;
  g->open("a", false, t, &d3); settle(); CHECK(t);
  t->get("key", val, was, ""); CHECK(was); CHECK(val == "x\x1ay");
  _exit(0);
}
'''})
M("c14-tag-in-every-group", "C14", "a metric with two values of one label and, later in its names, another label",
  "a label is added to each group that does not have it yet, not to the first",
  [("daemon/PromExporter.cpp", "                                tag_added = true;\n                                break;\n", "                                tag_added = true;\n")],
  C, {"demo.cpp": H + r'''
int main() {
  PromExporter p(svc); std::vector<std::string> n; 
  n.push_back("m.host.a"); n.push_back("m.host.b"); n.push_back("m.role.x");
  p.storeMetrics("m^host.a^host.b^role.x", "m", n, 1000000200, 3);
  std::vector<PromMetric> r, nm; p.dumpMetrics(r, nm);
  std::string all; for (size_t i = 0; i < r.size(); ++i) all += r[i].toString();  for (size_t i = 0; i < nm.size(); ++i) all += nm[i].toString();
  size_t c = 0, q = 0; while ((q = all.find("role=", q)) != std::string::npos) { ++c; ++q; }
  std::cerr << all; CHECK(c == 1);
  _exit(0);
}
'''})
PY = r'''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'kill $(cat "$tmp/pids" 2>/dev/null) 2>/dev/null || true; rm -rf "$tmp"' EXIT
timeout 120 python3 "$here/demo.py" "$tmp"
'''
D = r'''
import sys, os, subprocess, socket, time, json, urllib.request
tmp = sys.argv[1]
def free():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
def spawn(*a):
    p = subprocess.Popen(a, stdout=open(tmp + "/log", "a"), stderr=subprocess.STDOUT, cwd=tmp)
    open(tmp + "/pids", "a").write("%d\n" % p.pid)
    return p
def dial(port, n=100):
    for i in range(n):
        try: return socket.create_connection(("127.0.0.1", port), 2)
        except OSError: time.sleep(0.1)
    sys.exit("cannot connect")
def must(x, what):
    if not x: print("FAILED:", what); sys.exit(1)
'''
M("c18-only-start-given", "C18", "a query for a counter that gives a start and no end",
  "the range of a query with only a start is counted back from it",
  [("daemon/RequestInFlight.cpp", "                endTime = startTime + 900;", "                endTime = startTime;\n                startTime = endTime - 900;")],
  PY, {"demo.py": D + r'''
h, s, a = free(), free(), free()
bin = os.path.join(os.getcwd(), "bin", "istatd")
os.mkdir(tmp + "/store")
spawn(bin, "--store", tmp + "/store", "--http-port", str(h), "--stat-port", str(s), "--admin-port", str(a), "--listen-address", "127.0.0.1", "--settings", tmp + "/settings", "--user", "root")
c = dial(s); c.sendall(b"some.ctr 5\n"); now = int(time.time()); time.sleep(1.5)
dial(h).close()
start = now - 60
r = json.loads(urllib.request.urlopen("http://127.0.0.1:%d/some.ctr?start=%d" % (h, start), timeout=20).read())
print(r)
must(abs(r["start"] - start) <= 60 and r["end"] - r["start"] >= 600, "range")
must(sum(b["data"]["sum"] if "data" in b else b.get("sum", 0) for b in r["buckets"]) == 5, "data")
'''})
M("c20-plain-addition", "C20", "two threads adding to the same statistic at the same time",
  "additions are not atomic any more, so some are lost",
  [("daemon/LoopbackCounter.cpp", "istat::atomic_add(&me_->aggregate_, (int64_t)value);", "me_->aggregate_ = me_->aggregate_ + (int64_t)value;")],
  C, {"demo.cpp": H + r'''
#include "daemon/LoopbackCounter.h"
LoopbackCounter ctr("demo.count", TypeEvent);
static volatile int go = 0;
static void adder() { __sync_fetch_and_add(&go, 1); while (go < 4) ; for (int i = 0; i < 3000000; ++i) ++ctr; }
int main() {
  RecStore rs; LoopbackCounter::setup(&rs, svc);
  boost::thread_group g; for (int i = 0; i < 4; ++i) g.create_thread(adder); g.join_all();
  LoopbackCounter::forceUpdates();
  double sum = 0; for (size_t i = 0; i < recs.size(); ++i) if (recs[i].name == "*istatd.demo.count") sum += recs[i].v;
  CHECK(sum == 12000000);
  _exit(0);
}
'''})
M("c23-missing-target-left-out", "C23", "a target that does not answer when a client connects",
  "a session goes on without a target that could not be reached, so that one never gets the data, and if it is the first, another one's answers are returned",
  [("splitter/main.cpp", '                ntohs(((sockaddr_in const *)&targets[i])->sin_port));\n            closeall(sock);\n            exit(3);', '                ntohs(((sockaddr_in const *)&targets[i])->sin_port));\n            ::close(ns);\n            continue;')],
  PY, {"demo.py": D + r'''
a, b, p = socket.socket(), free(), free()
a.bind(("127.0.0.1", 0)); a.listen(5)
spawn(os.path.join(os.getcwd(), "bin", "splitd"), str(p), "127.0.0.1:%d" % b, "127.0.0.1:%d" % a.getsockname()[1])
c = dial(p); c.settimeout(10)
try: r = c.recv(10)
except socket.timeout: r = b"open"
except OSError: r = b""
must(r == b"", "the session is still there")
'''})
M("c15-missing-file-unblocks", "C15", "the blacklist file goes missing for a moment, as when an editor replaces it",
  "a file that is missing empties the list",
  [("daemon/Blacklist.cpp", "        if (::stat(blacklistPath_.c_str(), &st) < 0)\n        {\n", "        bool there = ::stat(blacklistPath_.c_str(), &st) == 0;\n        if (!there)\n        {\n            blacklistSet_.clear();\n")],
  C, {"demo.cpp": H + r'''
int main(int, char **v) {
  std::string f = std::string(v[1]) + "/bl"; { std::ofstream o(f.c_str()); o << "badhost\n"; }
  start("", f, 1); settle(100);
  int a = dial(); say(a, "#hostname badhost\n"); say(a, "x 1\n"); CHECK(closed(a));
  unlink(f.c_str()); settle(1500);
  a = dial(); say(a, "#hostname badhost\n"); say(a, "y 1\n"); CHECK(closed(a)); CHECK(!has("y", 1));
  _exit(0);
}
'''})
