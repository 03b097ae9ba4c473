import sys; sys.path.insert(0,'/verif/dev')
from mk import *
C = open("/verif/dev/c.sh").read()
H = r'''
#include <istat/StatFile.h>
#include <istat/Mmap.h>
#include <istat/istattime.h>
#include <istat/Bucket.h>
#include <istat/IRecorder.h>
#include "daemon/StatCounter.h"
#include "daemon/StatStore.h"
#include "daemon/StatCounterFactory.h"
#include "daemon/IComplete.h"
#include "daemon/AllKeys.h"
#include "daemon/Retention.h"
#include <iostream>
#include <cstdlib>
#include <boost/make_shared.hpp>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
using namespace istat;
#define CHECK(x) do { if (!(x)) { std::cerr << "FAILED line " << __LINE__ << ": " #x << std::endl; _exit(1); } } while (0)
struct Done : public IComplete { volatile bool done; Done() : done(false) {} void on_complete() { done = true; } };
static boost::shared_ptr<IStatStore> openStore(std::string const &p, boost::asio::io_service &svc, bool rec = true)
{
  Mmap *mm = NewMmap();
  RetentionPolicy *rp = new RetentionPolicy("10s:1h,5m:4h");
  boost::shared_ptr<IStatCounterFactory> f(new StatCounterFactory(p, mm, *rp));
  return boost::make_shared<StatStore>(p, -1, boost::ref(svc), f, mm, 100000000L, 0L, 100000000, rec);
}
static boost::shared_ptr<IStatCounter> look(boost::shared_ptr<IStatStore> s, std::string const &n)
{
  boost::shared_ptr<IStatCounter> c; boost::asio::strand<boost::asio::io_service::executor_type> *st = 0;
  s->find(n, c, st); return c;
}
static double total(boost::shared_ptr<IStatCounter> c, time_t t)
{
  std::vector<Bucket> b; time_t s, e, i; double r = 0;
  c->select(t - 600, t + 20, false, b, s, e, i, 1000);
  for (size_t k = 0; k != b.size(); ++k) r += b[k].sum();
  return r;
}
static void settle(boost::asio::io_service &svc) { do svc.reset(); while (svc.poll()); }
'''
which = sys.argv[1:]
def M(id, *a, **k):
    if not which or id in which: make(id, *a, **k)
M("c03-negative-values", "C03", "samples with negative values",
  "a gauge sample below zero is rejected as if its minimum were above its maximum",
  [("daemon/StatCounter.cpp", "min > (max + fabs(max) * 0.0001) || (avg + fabs(avg) * 0.0001) < min || avg > (max + fabs(max) * 0.0001)", "min > max * 1.0001 || avg * 1.0001 < min || avg > max * 1.0001")],
  C, {"demo.cpp": H + r'''
int main(int, char **argv) {
  FakeTime ft(1000000200);
  Mmap *mm = NewMmap();
  RetentionPolicy rp("10s:1h,5m:10d");
  boost::shared_ptr<IStatCounter> c(new StatCounter(std::string(argv[1]) + "/c", false, 1000000200, mm, rp));
  c->record(1000000200, 3, 9, 3, 3, 1);
  c->record(1000000200, -8, 64, -8, -8, 1);
  CHECK(total(c, 1000000200) == -5);
  return 0;
}
'''})
M("c07-parent-kind", "C07", "an event is the first thing recorded below a name, with aggregation off or shallower than the name",
  "the enclosing names of an event counter become gauges",
  [("daemon/StatStore.cpp", "        std::string sex(name);\n        stripext(sex);\n        if (sex != name)", "        std::string sex(xform);\n        stripext(sex);\n        if (sex != xform)")],
  C, {"demo.cpp": H + r'''
int main(int, char **argv) {
  FakeTime ft(1000000200);
  boost::asio::io_service svc;
  boost::shared_ptr<IStatStore> s(openStore(std::string(argv[1]) + "/s", svc));
  s->record("*hits.web.one", 1000000200, 10);
  settle(svc);
  CHECK(!!look(s, "hits.web"));
  CHECK(look(s, "hits.web.one")->isCollated());
  CHECK(look(s, "hits.web")->isCollated());
  CHECK(look(s, "hits")->isCollated());
  _exit(0);
}
'''})
M("c08-delete-takes-nested", "C08", "a counter is deleted while counters exist below its name",
  "deleting a counter also destroys the files of the counters nested below it, without backup",
  [("daemon/StatCounter.cpp", "    std::pair<bool, std::string> op_status = wrap_remove(parentPath);\n\n    if(", "    std::pair<bool, std::string> op_status(true, \"\");\n    //  something else may be left in there\n    boost::system::error_code rmec;\n    boost::filesystem::remove_all(parentPath, rmec);\n\n    if(")],
  C, {"demo.cpp": H + r'''
int main(int, char **argv) {
  FakeTime ft(1000000200);
  boost::asio::io_service svc;
  std::string p(std::string(argv[1]) + "/s");
  boost::shared_ptr<IStatStore> s(openStore(p, svc));
  s->record("a.b.c", 1000000200, 10);
  settle(svc);
  Done d; s->deleteCounter("a.b", &d);
  settle(svc);
  CHECK(d.done);
  CHECK(!boost::filesystem::exists(p + "/a/b/10s"));
  CHECK(boost::filesystem::exists(p + "/a/b/c/10s"));
  _exit(0);
}
'''})
M("c09-flush-batch", "C09", "several service threads; a sample for the second or a later counter is still queued on its strand when the flush gets to it",
  "a flush writes all counters from the first counter's strand, so a sample still queued for another is missed and the flush reports completion",
  [("daemon/StatStore.cpp", "        boost::shared_ptr<StatStore::AsyncCounter> ptr(ptrs.front());\n        ptrs.pop_front();\n        // Force, so collations are fully shifted.\n        ptr->counter()->forceFlush(ss_);\n        go();",
    "        // A few at a time, as most have little to write.\n        for (int i = 0; i != 16 && ptrs.size(); ++i)\n        {\n            boost::shared_ptr<StatStore::AsyncCounter> ptr(ptrs.front());\n            ptrs.pop_front();\n            // Force, so collations are fully shifted.\n            ptr->counter()->forceFlush(ss_);\n        }\n        go();")],
  C, {"demo.cpp": H + r'''
static volatile int recorded = 0, early = 0;
class Slow : public IStatCounter
{
public:
    bool isCollated() const { return false; }
    void record(time_t, double, double, double, double, size_t) { usleep(300000); recorded = 1; }
    void flush(boost::shared_ptr<IStatStore> const &s) {}
    void forceFlush(boost::shared_ptr<IStatStore> const &s) { if (!recorded) early = 1; }
    void maybeShiftCollated(time_t t) {}
    void select(time_t, time_t, bool, std::vector<Bucket> &, time_t &, time_t &, time_t &, size_t) {}
    void purge(std::string) {}
};
class Quick : public Slow { public: void record(time_t, double, double, double, double, size_t) {} void forceFlush(boost::shared_ptr<IStatStore> const &s) {} };
class Fac : public IStatCounterFactory
{
public:
    std::string root;
    boost::shared_ptr<IStatCounter> create(std::string const &n, bool, time_t, bool) { if (n == "slow") return boost::make_shared<Slow>(); return boost::make_shared<Quick>(); }
    bool statCounterFilesExist(std::string const &) { return false; }
    std::string &rootPath() { return root; }
};
static void serve(boost::asio::io_service *s) { s->run(); }
int main(int, char **argv) {
  boost::asio::io_service svc;
  Fac *f = new Fac(); f->root = std::string(argv[1]) + "/s";
  boost::shared_ptr<IStatStore> s(boost::make_shared<StatStore>(f->root, -1, boost::ref(svc), boost::shared_ptr<IStatCounterFactory>(f), NewMmap(), 100000000L, 0L, 100000000, true));
  for (char c = 'a'; c <= 'z'; ++c) s->record(std::string(1, c), 1000000200, 1);
  s->record("slow", 1000000200, 1);
  boost::thread_group g;
  for (int i = 0; i != 3; ++i) g.create_thread(boost::bind(serve, &svc));
  usleep(50000);
  Done d; s->flushAll(&d);
  for (int i = 0; i != 4000 && !d.done; ++i) usleep(1000);
  CHECK(d.done);
  CHECK(recorded && !early);
  _exit(0);
}
'''})
M("c17-key-lost", "C17", "a counter is created while a listing takes in the keys added before it",
  "the new counter stays out of all listings until another counter is created",
  [("daemon/AllKeys.cpp", "        dirty_ = false;\n        foreach(toMatch_);\n", "        foreach(toMatch_);\n        dirty_ = false;\n")],
  C, {"demo.cpp": H + r'''
static AllKeys *keys;
static volatile bool go;
static void lister() { std::list<std::pair<std::string, CounterResponse> > l; while (!go) {} keys->match("zzz", l); }
int main(int, char **argv) {
  int lost = 0;
  for (int round = 0; round != 30; ++round)
  {
    keys = new AllKeys(); go = false;
    for (int i = 0; i != 20000; ++i) keys->add("k" + boost::lexical_cast<std::string>(i), false);
    boost::thread th(lister);
    go = true;
    usleep(500 + 200 * (round % 10));
    keys->add("new", false);
    th.join();
    std::list<std::pair<std::string, CounterResponse> > l;
    keys->match("new", l);
    if (l.size() != 1) ++lost;
  }
  CHECK(lost == 0);
  _exit(0);
}
'''})
