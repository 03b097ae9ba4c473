import sys; sys.path.insert(0,'/verif/dev')
from mk import *
C = open("/verif/dev/c.sh").read()
H = r'''
#include "daemon/StatServer.h"
#include "daemon/StatStore.h"
#include "daemon/IComplete.h"
#include "daemon/PromExporter.h"
#include <istat/istattime.h>
#include <iostream>
#include <fstream>
#include <cstdlib>
#include <boost/make_shared.hpp>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
using namespace istat;
#define CHECK(x) do { if (!(x)) { std::cerr << "FAILED line " << __LINE__ << ": " #x << std::endl; _exit(1); } } while (0)
static boost::mutex mx;
struct Rec { std::string name; time_t t; double v; };
static std::vector<Rec> recs;
struct RecStore : public NullStatStore
{
    void put(std::string const &c, time_t t, double v) { boost::mutex::scoped_lock l(mx); Rec r; r.name = c; r.t = t; r.v = v; recs.push_back(r); }
    void record(std::string const &c, double v) { put(c, 0, v); }
    void record(std::string const &c, time_t t, double v) { put(c, t, v); }
    void record(std::string const &c, time_t t, double v, double, double, double, size_t) { put(c, t, v); }
};
struct Done : public IComplete { volatile bool done; Done() : done(false) {} void on_complete() { done = true; } };
static sockaddr_in at(int port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr("127.0.0.1"); return a; }
static int portOf(int fd) { sockaddr_in a; socklen_t l = sizeof a; getsockname(fd, (sockaddr *)&a, &l); return ntohs(a.sin_port); }
static int bound(int type, int port) { int fd = socket(AF_INET, type, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a = at(port); if (bind(fd, (sockaddr *)&a, sizeof a)) { close(fd); return -1; } return fd; }
static int freePort() { for (;;) { int a = bound(SOCK_STREAM, 0); int p = portOf(a); int b = bound(SOCK_DGRAM, p); close(a); if (b < 0) continue; close(b); return p; } }
static boost::asio::io_service svc;
static boost::shared_ptr<IStatStore> st(new RecStore());
static boost::shared_ptr<IPromExporter> prom(new NullPromExporter());
static int port;
static StatServer *start(std::string const &fw, std::string const &bl = "", int period = 1)
{
    Blacklist::Configuration c; c.path = bl; c.period = period;
    port = freePort();
    return new StatServer(port, "127.0.0.1", fw, fw.empty() ? 0 : 1, 1000, c, svc, st, prom, 256, 64);
}
static void settle(int ms = 60)
{
    for (int i = 0; i < ms; ++i) { svc.reset(); while (svc.poll()) {} usleep(1000); }
}
static int dial() { int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = at(port); CHECK(!connect(fd, (sockaddr *)&a, sizeof a)); settle(); return fd; }
static void say(int fd, std::string const &s) { CHECK(send(fd, s.data(), s.size(), MSG_NOSIGNAL) == (ssize_t)s.size()); settle(); }
static bool closed(int fd) { settle(); char b; struct pollfd p; p.fd = fd; p.events = POLLIN; p.revents = 0; return poll(&p, 1, 0) > 0 && recv(fd, &b, 1, MSG_DONTWAIT) <= 0; }
static int up = -1, upPort, upc = -1;
static std::string upGot;
static std::string upAddr() { up = bound(SOCK_STREAM, 0); CHECK(!listen(up, 8)); upPort = portOf(up); std::stringstream s; s << "127.0.0.1:" << upPort; return s.str(); }
static void upRead()
{
    settle();
    if (upc < 0) upc = accept(up, 0, 0);
    fcntl(upc, F_SETFL, O_NONBLOCK);
    for (int i = 0; i < 3; ++i) { char b[65536]; ssize_t r; while ((r = recv(upc, b, sizeof b, 0)) > 0) upGot.append(b, r); settle(30); }
}
static bool has(std::string const &n, double v) { for (size_t i = 0; i != recs.size(); ++i) if (recs[i].name == n && recs[i].v == v) return true; return false; }
static std::string attr(StatServer *s, std::string const &k, std::string const &who)
{
    std::vector<MetaInfo> v; s->getConnected(v);
    for (size_t i = 0; i != v.size(); ++i) if (v[i].info_["me"] == who) return v[i].info_[k];
    return "?";
}
'''
which = sys.argv[1:]
def M(id, *a, **k):
    if not which or id in which: make(id, *a, **k)
M("c10-tab-between-fields", "C10", "a line whose fields are separated by tabs (or other white space than blanks)",
  "only blanks and carriage returns separate fields, so a line with tabs is refused",
  [("daemon/StatServer.cpp", "bool spc = !!isspace(cmd[pos]);", "bool spc = cmd[pos] == ' ' || cmd[pos] == '\\r' || cmd[pos] == '\\n';")],
  C, {"demo.cpp": H + r'''
int main() {
  FakeTime ft(1000000200);
  start("");
  int a = dial();
  say(a, "one.x 1\r\n");
  say(a, "two.x\t2\r\n");
  CHECK(has("one.x", 1)); CHECK(has("two.x", 2));
  _exit(0);
}
'''})
M("c10-partial-line-consumed", "C10", "a line cut in two pieces, the first of which arrives together with a whole line",
  "what was read after the last line end is thrown away, so a line that arrives in two pieces loses its first",
  [("daemon/StatServer.cpp", "            std::string cmd(s.substr(start, pos-start));\n            start = pos + 1;\n            c(cmd.size()+1);", "            std::string cmd(s.substr(start, pos-start));\n            start = pos + 1;\n            //  the last line takes any padding after it along\n            bool last = s.find('\\n', start) == std::string::npos && s.size() > start && s.size() - start < 3;\n            c(last ? s.size() - start + cmd.size() + 1 : cmd.size()+1);")],
  C, {"demo.cpp": H + r'''
int main() {
  FakeTime ft(1000000200);
  start("");
  int a = dial();
  say(a, "one.x 1\r\ntw");
  say(a, "o.x 2\r\n");
  say(a, "three.x 3\r\n");
  CHECK(has("one.x", 1)); CHECK(has("two.x", 2)); CHECK(has("three.x", 3));
  _exit(0);
}
'''})
M("c11-event-ahead", "C11", "an event whose time is up to ten seconds ahead of the agent's clock",
  "the interval after the current one is not forwarded for event counters",
  [("daemon/StatServer.cpp", "                for (unsigned int i = 0 ; i < bizer.BUCKET_COUNT; i++) {\n                    istat::Bucket b = bizer.get(i);\n                    if (b.count() > 0) {\n                        ss[forwardIndex] << (*ptr).first << \" \" << b.time() << \" \" << b.sum() << \"\\r\\n\";", "                for (unsigned int i = 0 ; i < bizer.BUCKET_COUNT - 1; i++) {\n                    istat::Bucket b = bizer.get(i);\n                    if (b.count() > 0) {\n                        ss[forwardIndex] << (*ptr).first << \" \" << b.time() << \" \" << b.sum() << \"\\r\\n\";")],
  C, {"demo.cpp": H + r'''
int main() {
  FakeTime ft(1000000209);
  StatServer *s = start(upAddr());
  int a = dial();
  say(a, "*hits 1000000205 3\r\n*hits 1000000211 5\r\ngauge 1000000211 7\r\n");
  Done d; s->syncAgent(&d);
  upRead();
  CHECK(upGot.find("*hits 1000000205 3") != std::string::npos || upGot.find("*hits 1000000200 3") != std::string::npos);
  CHECK(upGot.find("gauge") != std::string::npos);
  CHECK(upGot.find(" 5\r\n") != std::string::npos);
  _exit(0);
}
'''})
M("c11-cleared-after-sending", "C11", "a sample arrives on another thread while a round of forwarding is being put together",
  "samples taken in while a round is written are cleared with it",
  [("daemon/StatServer.cpp", "        buckets.swap(forwardBuckets_);", "        buckets = forwardBuckets_;"),
   ("daemon/StatServer.cpp", "    else if (count == 0 && buckets.size()) {\n        LogError << \"StatServer: agent forward server is down and data dropped\";\n    }\n", "    else if (count == 0 && buckets.size()) {\n        LogError << \"StatServer: agent forward server is down and data dropped\";\n    }\n    if (buckets.size())\n    {\n        grab aholdof(forwardMutex_);\n        forwardBuckets_.clear();\n    }\n")],
  C, {"demo.cpp": H + r'''
static volatile bool stop = false, going = false;
static void feed(StatServer *s, int n)
{
    boost::shared_ptr<ConnectionInfo> ec(EagerConnection::create(svc));
    for (int i = 0; i < n; ++i) { std::stringstream o; o << "*ctr." << i % 50 << " 1000000205 1"; s->handleCmd(o.str(), ec); going = true; }
    stop = true;
}
int main() {
  FakeTime ft(1000000209);
  StatServer *s = start(upAddr());
  settle();
  int N = 40000;
  boost::thread t(boost::bind(feed, s, N));
  while (!going) {}
  std::vector<Done *> ds;
  while (!stop) { Done *d = new Done(); s->syncAgent(d); ds.push_back(d); usleep(500); }
  t.join();
  Done d; s->syncAgent(&d);
  upRead(); settle(300); upRead();
  double total = 0; size_t p = 0;
  while ((p = upGot.find("*ctr.", p)) != std::string::npos)
  {
      size_t e = upGot.find('\r', p); std::string l(upGot.substr(p, e - p));
      total += atof(l.substr(l.rfind(' ')).c_str()); p = e;
  }
  std::cerr << total << " of " << N << " in " << ds.size() << " rounds" << std::endl;
  CHECK(total == N);
  _exit(0);
}
'''})
M("c15-last-line-without-end", "C15", "the list's last line does not end with a newline",
  "the last line of the blacklist is ignored when it has no newline",
  [("daemon/Blacklist.cpp", "for (char *cur = base; cur <= end; ++cur)", "for (char *cur = base; cur < end; ++cur)")],
  C, {"demo.cpp": H + r'''
int main(int, char **argv) {
  FakeTime ft(1000000200);
  std::string bl(std::string(argv[1]) + "/bl");
  { std::ofstream o(bl.c_str()); o << "first\nLast"; }
  start("", bl);
  int a = dial(), b = dial(), c = dial();
  say(a, "#hostname last\r\na 1\r\n"); say(b, "#hostname first\r\nb 1\r\n"); say(c, "#hostname other\r\nc 1\r\n");
  CHECK(closed(a)); CHECK(closed(b)); CHECK(!closed(c));
  CHECK(!has("a", 1)); CHECK(!has("b", 1)); CHECK(has("c", 1));
  _exit(0);
}
'''})
M("c15-removed-host-stays", "C15", "a host is taken off the list while the server runs",
  "a host taken off the blacklist is still turned away until the server is restarted",
  [("daemon/Blacklist.cpp", "        blacklistSet_.clear();\n", "")],
  C, {"demo.cpp": H + r'''
int main(int, char **argv) {
  FakeTime ft(1000000200);
  std::string bl(std::string(argv[1]) + "/bl");
  { std::ofstream o(bl.c_str()); o << "first\nsecond\n"; }
  start("", bl, 1);
  int a = dial(), b = dial();
  say(a, "#hostname first\r\na 1\r\n");
  CHECK(closed(a));
  sleep(1);
  { std::ofstream o(bl.c_str()); o << "second\nthird thing\n"; }
  settle(2500);
  a = dial();
  say(a, "#hostname first\r\na 1\r\n"); say(b, "#hostname second\r\nb 1\r\n");
  CHECK(!closed(a)); CHECK(has("a", 1)); CHECK(closed(b)); CHECK(!has("b", 1));
  _exit(0);
}
'''})
M("c21-first-value-sticks", "C21", "an agent sends the same attribute again with another value",
  "an attribute given a second time keeps its first value",
  [("daemon/StatServer.cpp", "metaInfo(ec)->info_[left.substr(1)] = right;", "metaInfo(ec)->info_.insert(std::make_pair(left.substr(1), right));")],
  C, {"demo.cpp": H + r'''
int main() {
  FakeTime ft(1000000200);
  StatServer *s = start("");
  int a = dial(), b = dial();
  say(a, "#me a\r\n#class one\r\n"); say(b, "#me b\r\n#class one\r\n");
  CHECK(attr(s, "class", "a") == "one");
  say(a, "#class two\r\n");
  CHECK(attr(s, "class", "a") == "two"); CHECK(attr(s, "class", "b") == "one");
  _exit(0);
}
'''})
M("c21-newest-purged", "C21", "more offline agents than are kept, with different times of last activity",
  "when there are too many offline records the most recent ones are purged instead of the oldest",
  [("daemon/StatServer.cpp", "    std::sort(toPurge.begin(), toPurge.end());", "    std::sort(toPurge.rbegin(), toPurge.rend());")],
  C, {"demo.cpp": H + r'''
static volatile long long fsec = 1000000200;
extern "C" time_t time(time_t *t) throw() { if (t) *t = fsec; return fsec; }
int main() {
  FakeTime ft(1000000200);
  StatServer *s = start("");
  int f[4];
  for (int i = 0; i < 4; ++i) { f[i] = dial(); std::string m("#me "); m += char('a' + i); say(f[i], m + "\r\n#here yes\r\n"); fsec += 10; ft.set(fsec); }
  for (int i = 0; i < 4; ++i) { close(f[i]); settle(); }
  s->purgeOldMetaRecords(2, 100000);
  CHECK(attr(s, "here", "d") == "yes"); CHECK(attr(s, "here", "c") == "yes");
  CHECK(attr(s, "here", "a") == "?"); CHECK(attr(s, "here", "b") == "?");
  _exit(0);
}
'''})
