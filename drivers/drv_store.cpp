// Executes programs on the real StatStore (with real counters and files) and prints what happened.
#include "../daemon/StatStore.h"
#include "../daemon/StatCounter.h"
#include "../daemon/StatCounterFactory.h"
#include "../daemon/Retention.h"
#include "../daemon/IComplete.h"
#include "../daemon/Logs.h"
#include <istat/strfunc.h>
#include <istat/StatFile.h>
#include <istat/Mmap.h>
#include <istat/istattime.h>
#include <istat/Log.h>
#include "drv_util.h"
#include <boost/make_shared.hpp>
#include <boost/filesystem.hpp>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <unistd.h>
#include <set>
#include <algorithm>

using namespace istat;
namespace fs = boost::filesystem;

static std::string base;
static int rootNo = 0;
static std::string root;
static Mmap *mm = NewMmap();
static FakeTime *ft = new FakeTime(1000000200);
static boost::mutex outMutex;

static std::string codes(std::string const &s)
{
    std::string o("[");
    for (size_t i = 0; i != s.size(); ++i) { if (i) o += ","; o += jnum((unsigned char)s[i]); }
    return o + "]";
}

//  Calls back when the kinds of counters are looked at (a key refresh does).
struct Hook { virtual void looked() = 0; virtual ~Hook() {} };
static Hook *hook = 0;
static unsigned perturb = 0;
class WatchedCounter : public IStatCounter
{
public:
    WatchedCounter(boost::shared_ptr<IStatCounter> const &c) : c_(c) {}
    bool isCollated() const { Hook *h = hook; if (h) h->looked(); return c_->isCollated(); }
    void record(time_t t, double v, double q, double mn, double mx, size_t n)
    {
        //  other schedules than usual: take a while
        if (perturb) { unsigned r = __sync_add_and_fetch(&perturb, 7); if (r % 3 == 0) usleep(r * 37 % 2500); }
        c_->record(t, v, q, mn, mx, n);
    }
    void flush(boost::shared_ptr<IStatStore> const &s) { c_->flush(s); }
    void forceFlush(boost::shared_ptr<IStatStore> const &s) { c_->forceFlush(s); }
    void maybeShiftCollated(time_t t) { c_->maybeShiftCollated(t); }
    void select(time_t s, time_t e, bool tr, std::vector<Bucket> &o, time_t &ns, time_t &ne, time_t &iv, size_t m) { c_->select(s, e, tr, o, ns, ne, iv, m); }
    void purge(std::string r) { c_->purge(r); }
private:
    boost::shared_ptr<IStatCounter> c_;
};
class WatchedFactory : public IStatCounterFactory
{
public:
    WatchedFactory(boost::shared_ptr<IStatCounterFactory> const &f) : f_(f) {}
    boost::shared_ptr<IStatCounter> create(std::string const &n, bool c, time_t z, bool o)
    {
        boost::shared_ptr<IStatCounter> r(f_->create(n, c, z, o));
        if (!r) return r;
        return boost::make_shared<WatchedCounter>(r);
    }
    bool statCounterFilesExist(std::string const &p) { return f_->statCounterFilesExist(p); }
    std::string &rootPath() { return f_->rootPath(); }
private:
    boost::shared_ptr<IStatCounterFactory> f_;
};

static RetentionPolicy *rp = 0;
static boost::asio::io_service *svc = 0;
static boost::shared_ptr<IStatStore> store;
static std::string mode; static int agg; static bool watched;
static std::set<std::string> seen;                 // raw names used so far
static std::map<std::string, boost::shared_ptr<IStatCounter> > held;

static void open_()
{
    svc = new boost::asio::io_service();
    boost::shared_ptr<IStatCounterFactory> f(new StatCounterFactory(root, mm, *rp));
    if (watched) f = boost::make_shared<WatchedFactory>(f);
    store = boost::make_shared<StatStore>(root, -1, boost::ref(*svc), f, mm, 100000000L, 0L, 100000000, mode == "rec");
    store->setAggregateCount(agg);
}
static void shut()
{
    held.clear();
    store.reset();
    delete svc; svc = 0;
}

// ---- what is on disk
static std::string bucketJson(Bucket const &b)
{
    return Obj().n("t", (double)b.time()).n("s", b.sum()).n("q", b.sumSq()).n("mn", b.min()).n("mx", b.max()).n("c", b.count()).done();
}
static std::string bucketsJson(std::string const &file, std::string &kind)
{
    StatFile sf(file, Stats(), mm, false);
    kind = sf.settings().flags & FILE_FLAG_IS_COLLATED ? "event" : "gauge";
    int64_t n = sf.settings().numSamples;
    std::vector<Bucket> v(n, Bucket(true));
    int64_t lo = sf.lastBucket() - n + 1;
    int64_t r = sf.readBuckets(&v[0], n, lo);
    std::string b("[");
    for (int64_t i = 0; i < r; ++i)
    {
        if (v[i].time() != sf.mapBucketIndexToTime(lo + i) || v[i].sum() == 0) continue;
        if (b.size() > 1) b += ",";
        b += bucketJson(v[i]);
    }
    return b + "]";
}
static void walk(std::string const &top, std::string const &rel, std::vector<std::string> &dirs)
{
    std::vector<std::string> sub;
    for (fs::directory_iterator i(top + (rel.empty() ? "" : "/" + rel)), e; i != e; ++i)
        if (fs::is_directory(i->path())) sub.push_back(i->path().filename().string());
    std::sort(sub.begin(), sub.end());
    for (size_t k = 0; k != sub.size(); ++k)
    {
        std::string r(rel.empty() ? sub[k] : rel + "/" + sub[k]);
        dirs.push_back(r);
        walk(top, r, dirs);
    }
}
static std::string dotted(std::string s) { std::replace(s.begin(), s.end(), '/', '.'); return s; }
static std::string diskJson(std::string const &top, std::vector<std::string> *extra, std::vector<std::string> *names)
{
    std::vector<std::string> dirs;
    if (fs::exists(top)) walk(top, "", dirs);
    std::string o("[");
    for (size_t k = 0; k != dirs.size(); ++k)
    {
        int have = 0;
        for (fs::directory_iterator i(top + "/" + dirs[k]), e; i != e; ++i)
        {
            std::string f(i->path().filename().string());
            if (fs::is_directory(i->path())) continue;
            if (f == "10s" || f == "5m") ++have;
            else if (extra) extra->push_back(dirs[k] + "/" + f);
        }
        if (have == 1 && extra) extra->push_back(dirs[k] + "/only-one-file");
        if (have == 2)
        {
            std::string kind, b(bucketsJson(top + "/" + dirs[k] + "/10s", kind));
            if (o.size() > 1) o += ",";
            o += Obj().raw("n", codes(dotted(dirs[k]))).str("k", kind).raw("b", b).done();
            if (names) names->push_back(dotted(dirs[k]));
        }
    }
    return o + "]";
}
static std::string bakJson()
{
    std::vector<std::string> dirs;
    if (fs::exists(root + ".bak")) walk(root + ".bak", "", dirs);
    std::string o("[");
    for (size_t k = 0; k != dirs.size(); ++k)
        for (fs::directory_iterator i(root + ".bak/" + dirs[k]), e; i != e; ++i)
        {
            std::string f(i->path().filename().string());
            if (fs::is_directory(i->path()) || f.substr(0, 3) != "10s") continue;
            std::string kind, b(bucketsJson(i->path().string(), kind));
            if (o.size() > 1) o += ",";
            o += Obj().raw("n", codes(dotted(dirs[k]))).str("f", f).str("k", kind).raw("b", b).done();
        }
    return o + "]";
}
static std::string listJson(std::string const &pat, bool namesOnly)
{
    std::list<std::pair<std::string, CounterResponse> > l;
    store->listMatchingCounters(pat, l);
    std::string o("[");
    for (std::list<std::pair<std::string, CounterResponse> >::iterator p(l.begin()); p != l.end(); ++p)
    {
        if (o.size() > 1) o += ",";
        if (namesOnly) { o += codes(p->first); continue; }
        CounterResponse const &r(p->second);
        o += Obj().raw("n", codes(p->first)).b("leaf", r.isLeaf)
            .str("type", r.counterType == CounterResponse::DisplayTypeGauge ? "gauge" : r.counterType == CounterResponse::DisplayTypeEvent ? "event" : "aggregate").done();
    }
    return o + "]";
}
static boost::shared_ptr<IStatCounter> find(std::string const &n)
{
    boost::shared_ptr<IStatCounter> c;
    boost::asio::strand<boost::asio::io_service::executor_type> *s = 0;
    store->find(n, c, s);
    return c;
}
static void lookAt(Obj &o)
{
    std::vector<std::string> extra, names;
    std::string disk(diskJson(root, &extra, &names));
    std::set<std::string> probe(seen);
    probe.insert(names.begin(), names.end());
    std::string f("[");
    time_t now; istattime(&now);
    for (std::set<std::string>::iterator p(probe.begin()); p != probe.end(); ++p)
    {
        boost::shared_ptr<IStatCounter> c(find(*p));
        Obj x; x.raw("n", codes(*p)).b("ok", !!c);
        if (!!c)
        {
            std::vector<Bucket> v; time_t ns, ne, iv;
            c->select(now - 3600, now + 60, false, v, ns, ne, iv, 100000);
            std::string b("[");
            for (size_t i = 0; i != v.size() && !c->isCollated(); ++i) if (v[i].sum() != 0) b += (b.size() > 1 ? "," : "") + bucketJson(v[i]);
            x.str("k", c->isCollated() ? "event" : "gauge").raw("b", b + "]");
        }
        if (f.size() > 1) f += ",";
        f += x.done();
    }
    std::string ex("[");
    for (size_t i = 0; i != extra.size(); ++i) ex += (i ? "," : "") + jstr(extra[i]);
    o.raw("list", listJson("*", false)).raw("disk", disk).raw("found", f + "]").raw("bak", bakJson()).raw("extra", ex + "]");
}

struct Done : public IComplete
{
    Done(std::string const &w, int id) : what(w), id(id) {}
    std::string what; int id;
    void on_complete()
    {
        Obj o; o.str("e", what).n("id", id);
        if (what == "flushed") o.raw("disk", diskJson(root, 0, 0));
        emit(o);
    }
};
static volatile int answers = 0;
struct Count : public IComplete { void on_complete() { __sync_fetch_and_add(&answers, 1); } };

static void settle()
{
    for (int quiet = 0; quiet < 2;)
    {
        svc->reset();
        if (svc->poll() == 0) ++quiet; else quiet = 0;
    }
}
static void quietly(boost::asio::io_service *s)
{
    while (true) { try { s->run(); return; } catch (std::exception const &x) { std::cerr << "handler threw " << x.what() << std::endl; } }
}

//  A flush asked for by one of several threads: what the files hold of the counters it recorded to, when it is answered.
static boost::mutex snapMutex;
static std::string snaps;
static double stored(std::string const &name, time_t t)
{
    std::string p(name);
    std::replace(p.begin(), p.end(), '.', '/');
    p = root + "/" + p + "/10s";
    for (int tries = 0; tries != 3; ++tries)
    {
        if (!fs::exists(p)) return 0;
        try
        {
            StatFile sf(p, Stats(), mm, false);
            int64_t ix = sf.mapTimeToBucketIndex(t);
            Bucket b(true);
            if (sf.readBuckets(&b, 1, ix) < 1) return 0;
            return b.time() == sf.mapBucketIndexToTime(ix) ? b.sum() : 0;
        }
        catch (std::exception const &) {}
    }
    return -1;
}
struct Snap : public IComplete
{
    struct One { std::string n; long t; double v; One() : t(0), v(0) {} };
    std::vector<One> own;
    void on_complete()
    {
        std::string o;
        for (size_t i = 0; i != own.size(); ++i)
        {
            if (own[i].n.find_first_not_of("abcdefghijklmnopqrstuvwxyz.") != std::string::npos) continue;
            double got = stored(own[i].n, own[i].t);
            if (got < 0) continue;
            o += (o.empty() ? "" : ",") + Obj().raw("n", codes(own[i].n)).n("t", own[i].t).n("own", own[i].v).n("got", got).done();
        }
        {
            boost::mutex::scoped_lock lock(snapMutex);
            if (o.size()) snaps += (snaps.empty() ? "" : ",") + o;
        }
        __sync_fetch_and_add(&answers, 1);
        delete this;
    }
};

// ---- several threads: each executes its own list of operations
struct Script { std::vector<Words> ops; std::string lists; std::vector<std::string> own; std::map<std::string, Snap::One> sum; };
static Count counted;
static boost::barrier *gate;
static void act(Script *s)
{
    gate->wait();
    for (size_t i = 0; i != s->ops.size(); ++i)
    {
        Words &w(s->ops[i]);
        if (w[0] == "r")
        {
            std::string n(unhex(w[1])); double v = num(w[3]);
            store->record(n, num(w[2]), v, v * v, v, v, 1);
            s->own.push_back(n);
            Snap::One &x(s->sum[n]); x.n = n; x.t = num(w[2]); x.v += v;
        }
        else if (w[0] == "l")
        {
            std::string own("[");
            for (size_t k = 0; k != s->own.size(); ++k) own += (k ? "," : "") + codes(s->own[k]);
            if (s->lists.size()) s->lists += ",";
            std::string got(listJson("*", true));
            s->lists += Obj().raw("own", own + "]").raw("got", got).done();
        }
        else if (w[0] == "f")
        {
            Snap *p = new Snap();
            for (std::map<std::string, Snap::One>::iterator k(s->sum.begin()); k != s->sum.end(); ++k) p->own.push_back(k->second);
            store->flushAll(p);
        }
        else if (w[0] == "d") store->deleteCounter(unhex(w[1]), &counted);
        else if (w[0] == "k") store->refreshKeys();
        else if (w[0] == "p") store->pruneEmptyDirsNow(root);
        else if (w[0] == "y") boost::this_thread::yield();
    }
}

// ---- another thread creates a counter in the middle of a key refresh
struct CreateDuring : public Hook
{
    CreateDuring(std::string const &n, long t, double v) : n(n), t(t), v(v), started(0), done(0) {}
    std::string n; long t; double v; volatile int started, done; boost::thread th;
    void looked()
    {
        if (boost::this_thread::get_id() != me || !__sync_bool_compare_and_swap(&started, 0, 1)) return;
        th = boost::thread(boost::bind(&CreateDuring::go, this));
        for (int i = 0; i != 20 && !done; ++i) usleep(1000);
    }
    void go() { store->record(n, t, v, v * v, v, v, 1); done = 1; }
    boost::thread::id me;
};

int main(int argc, char const *argv[])
{
    base = argv[1];
    LogConfig::setLogLevel(LL_Error);
    std::string line;
    while (std::getline(std::cin, line))
    {
        Words w = words(line);
        if (w.empty()) continue;
        std::string c(w[0]);
        Obj o; o.str("e", c);
        try
        {
            if (c == "reset")
            {
                shut();
                fs::remove_all(root); fs::remove_all(root + ".bak");
                seen.clear();
                hook = 0;
            }
            else if (c == "new")
            {
                // new rec|flat agg [watched]
                mode = w[1]; agg = num(w[2]); watched = w.size() > 3;
                root = base + "/s" + jnum(++rootNo);
                if (!rp) rp = new RetentionPolicy("10s:1h,5m:4h");
                open_();
                o.str("mode", mode).n("agg", agg);
            }
            else if (c == "now") { ft->set(num(w[1])); o.n("t", num(w[1])); }
            else if (c == "rec" || c == "use")
            {
                // rec hexname t v q mn mx c
                std::string n(unhex(w[1]));
                seen.insert(n);
                if (c == "rec") store->record(n, num(w[2]), num(w[3]), num(w[4]), num(w[5]), num(w[6]), num(w[7]));
                else if (held.count(n))
                {
                    held[n]->record(num(w[2]), num(w[3]), num(w[4]), num(w[5]), num(w[6]), num(w[7]));
                    std::vector<Bucket> v; time_t ns, ne, iv;
                    held[n]->select(num(w[2]) - 600, num(w[2]) + 10, false, v, ns, ne, iv, 100);
                    held[n]->flush(store);
                }
                o.raw("n", codes(n)).n("t", num(w[2])).raw("d", Obj().n("v", num(w[3])).n("q", num(w[4])).n("mn", num(w[5])).n("mx", num(w[6])).n("c", num(w[7])).done());
            }
            else if (c == "hold") { std::string n(unhex(w[1])); seen.insert(n); held.erase(n); boost::shared_ptr<IStatCounter> p(find(n)); if (!!p) held[n] = p; o.raw("n", codes(n)).b("ok", !!p); }
            else if (c == "poll") { svc->reset(); for (int k = num(w[1]); k > 0; --k) svc->poll_one(); o.n("k", num(w[1])); }
            else if (c == "flush")
            {
                // ids are the position in the program
                o.n("id", num(w[1])); emit(o);
                store->flushAll(new Done("flushed", num(w[1])));
                continue;
            }
            else if (c == "del") { std::string n(unhex(w[2])); seen.insert(n); o.n("id", num(w[1])).raw("n", codes(n)); emit(o); store->deleteCounter(n, new Done("deleted", num(w[1]))); continue; }
            else if (c == "delpat") { o.n("id", num(w[1])).raw("p", codes(unhex(w[2]))); emit(o); store->deletePattern(unhex(w[2]), new Done("deleted", num(w[1]))); continue; }
            else if (c == "list") { std::string p(w.size() > 1 ? unhex(w[1]) : ""); o.raw("p", codes(p)).raw("got", listJson(p, false)); }
            else if (c == "prune") store->pruneEmptyDirsNow(root);
            else if (c == "settle") { settle(); lookAt(o); }
            else if (c == "restart")
            {
                settle(); emit(o);
                shut(); open_(); settle();
                Obj x; x.str("e", "closed"); lookAt(x); emit(x);
                continue;
            }
            else if (c == "crash")
            {
                std::string was(root);
                std::string next(base + "/s" + jnum(++rootNo));
                std::string cmd("cp -r " + was + " " + next + "; [ ! -d " + was + ".bak ] || cp -r " + was + ".bak " + next + ".bak");
                if (system(cmd.c_str())) throw std::runtime_error("cp failed");
                emit(o);
                held.clear();
                store.reset(); delete svc; svc = 0;       // goes on in the old place
                fs::remove_all(was); fs::remove_all(was + ".bak");
                root = next;
                open_(); settle();
                Obj x; x.str("e", "crashed"); lookAt(x); emit(x);
                continue;
            }
            else if (c == "burst")
            {
                // burst nservers op,op,.. op,op,.. ; op = r/hex/t/v l f d/hex k p y
                int n = num(w[1]); int asked = 0;
                std::vector<Script> sc(w.size() - 2);
                std::string recs("["), dels("[");
                for (size_t i = 2; i != w.size(); ++i)
                {
                    std::string s(w[i]);
                    for (size_t k = 0; k != s.size(); ++k) if (s[k] == ',') s[k] = '\n';
                    std::stringstream ss(s); std::string one;
                    while (std::getline(ss, one))
                    {
                        for (size_t k = 0; k != one.size(); ++k) if (one[k] == '/') one[k] = ' ';
                        Words x(words(one));
                        sc[i - 2].ops.push_back(x);
                        if (x[0] == "r")
                        {
                            seen.insert(unhex(x[1]));
                            double v = num(x[3]);
                            recs += (recs.size() > 1 ? "," : "") + Obj().raw("n", codes(unhex(x[1]))).n("t", num(x[2])).raw("d", Obj().n("v", v).n("q", v * v).n("mn", v).n("mx", v).n("c", 1).done()).done();
                        }
                        else if (x[0] == "d") { ++asked; dels += (dels.size() > 1 ? "," : "") + codes(unhex(x[1])); seen.insert(unhex(x[1])); }
                        else if (x[0] == "f") ++asked;
                    }
                }
                settle();
                answers = 0;
                snaps.clear();
                perturb = rootNo * 7919 + 1;
                gate = new boost::barrier(sc.size() + 1);
                svc->reset();
                boost::thread_group acts, serve;
                for (size_t i = 0; i != sc.size(); ++i) acts.create_thread(boost::bind(act, &sc[i]));
                for (int i = 0; i != n; ++i) serve.create_thread(boost::bind(quietly, svc));
                gate->wait();
                acts.join_all();
                for (int i = 0; i < 20000 && answers < asked; ++i) usleep(500);
                svc->stop(); serve.join_all();
                settle();
                perturb = 0;
                delete gate;
                std::string lists;
                for (size_t i = 0; i != sc.size(); ++i) if (sc[i].lists.size()) lists += (lists.size() ? "," : "") + sc[i].lists;
                o.raw("recs", recs + "]").raw("dels", dels + "]").raw("lists", "[" + lists + "]").n("asked", asked).n("answers", answers).raw("snaps", "[" + snaps + "]");
            }
            else if (c == "race")
            {
                // race hexname t v : create it while a key refresh looks at the counters
                CreateDuring h(unhex(w[1]), num(w[2]), num(w[3]));
                seen.insert(h.n);
                settle();
                h.me = boost::this_thread::get_id();
                store->refreshKeys();
                hook = &h; settle(); hook = 0;
                if (h.started) h.th.join(); else h.go();
                double v = h.v;
                o = Obj(); o.str("e", "rec").raw("n", codes(h.n)).n("t", h.t).raw("d", Obj().n("v", v).n("q", v * v).n("mn", v).n("mx", v).n("c", 1).done());
            }
            else if (c == "match")
            {
                // match hexpat hexstr,hexstr.. ("-": empty)
                std::string p(w[1] == "-" ? "" : unhex(w[1])), strs("["), got("[");
                for (size_t i = 2; i != w.size(); ++i)
                {
                    std::string s(w[i] == "-" ? "" : unhex(w[i]));
                    strs += (strs.size() > 1 ? "," : "") + codes(s);
                    if (str_pat_match(s, p)) got += (got.size() > 1 ? "," : "") + codes(s);
                }
                o.raw("p", codes(p)).raw("strs", strs + "]").raw("got", got + "]");
            }
            else if (c == "munge") { std::string s(unhex(w[1])), t(s); munge(t); o.raw("n", codes(s)).raw("out", codes(t)); }
            else { std::cerr << "bad command " << line << std::endl; return 2; }
        }
        catch (std::exception const &x)
        {
            o.str("threw_", x.what());
            emit(o);
            _exit(0);
        }
        emit(o);
    }
    _exit(0);
}
