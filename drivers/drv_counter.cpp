// Executes programs on the real StatCounter and prints what happened.
#include "../daemon/StatCounter.h"
#include "../daemon/Retention.h"
#include "../daemon/FakeStatStore.h"
#include "../daemon/LoopbackCounter.h"
#include <istat/StatFile.h>
#include <istat/Mmap.h>
#include <istat/istattime.h>
#include <istat/test.h>
#include <istat/Log.h>
#include "drv_util.h"
#include <boost/make_shared.hpp>
#include <boost/filesystem.hpp>
#include <unistd.h>

using namespace istat;

static std::string dir, path;
static Mmap *mm = NewMmap();
static FakeTime *ft = new FakeTime(1);
static boost::asio::io_service svc;
static boost::shared_ptr<IStatStore> store(new FakeStatStore(svc));
static boost::shared_ptr<StatCounter> ctr;
static std::vector<RetentionInterval> ivals;
static RetentionPolicy *rp = 0;
static bool event_;
static long zero_;
static int64_t fut0, past0, rej0;

static std::string bucketJson(Bucket const &b)
{
    return Obj().n("t", (double)b.time()).n("s", b.sum()).n("q", b.sumSq()).n("mn", b.min()).n("mx", b.max()).n("c", b.count()).done();
}
static std::string evBucketJson(Bucket const &b)
{
    return Obj().n("t", (double)b.time()).n("s", b.sum()).n("c", b.count()).done();
}
static void counts(Obj &o)
{
    o.n("fut", IStatCounter::recordsFromTheFuture_.getAggregate() - fut0)
     .n("past", IStatCounter::recordsFromThePast_.getAggregate() - past0)
     .n("rej", IStatCounter::recordsRejected_.getAggregate() - rej0);
}
static std::string fileJson(size_t k)
{
    StatFile sf(path + "/" + ivals[k].name, Stats(), mm, false);
    int64_t n = sf.settings().numSamples;
    std::vector<Bucket> v(n, Bucket(true));
    int64_t lo = sf.lastBucket() - n + 1;
    int64_t r = sf.readBuckets(&v[0], n, lo);
    std::string b("[");
    for (int64_t i = 0; i < r; ++i)
    {
        if (v[i].time() != sf.mapBucketIndexToTime(lo + i) || (v[i].count() == 0 && v[i].sum() == 0)) continue;
        if (event_ && v[i].sum() == 0) continue;        // idle
        if (b.size() > 1) b += ",";
        b += bucketJson(v[i]);
    }
    b += "]";
    int64_t fl = sf.settings().flags;
    return Obj().n("iv", sf.settings().intervalTime).n("n", n).n("last", sf.lastBucket())
        .str("kind", fl & FILE_FLAG_IS_COLLATED ? "collated" : fl & FILE_FLAG_IS_COUNTER_AGGREGATE ? "agg" : "gauge")
        .n("fixed", sf.settings().fixed_count).raw("b", b).done();
}
static std::string filesJson()
{
    std::string o("[");
    for (size_t k = 0; k != ivals.size(); ++k) { if (k) o += ","; o += fileJson(k); }
    return o + "]";
}
static void open_(bool collated)
{
    ctr = boost::make_shared<StatCounter>(path, collated, zero_, mm, boost::ref(*rp));
}

int main(int argc, char const *argv[])
{
    dir = argv[1];
    path = dir + "/ctr";
    LogConfig::setLogLevel(LL_Error);
    std::string line;
    while (std::getline(std::cin, line))
    {
        Words w = words(line);
        if (w.empty()) continue;
        std::string c(w[0]);
        Obj o; o.str("e", c);
        try
        {
            if (c == "reset")
            {
                ctr.reset();
                boost::filesystem::remove_all(path);
                delete rp; rp = 0; ivals.clear();
            }
            else if (c == "now") { ft->set(num(w[1])); o.n("t", num(w[1])); }
            else if (c == "new")
            {
                // new event|gauge zero iv:samples,iv:samples...
                event_ = w[1] == "event"; zero_ = num(w[2]);
                std::string s(w[3]);
                size_t p = 0; int k = 0;
                while (p < s.size())
                {
                    size_t q = s.find(',', p); if (q == std::string::npos) q = s.size();
                    std::string one(s.substr(p, q - p));
                    RetentionInterval ri; char nm[16];
                    snprintf(nm, sizeof nm, "r%d", k++);
                    ri.interval = num(one); ri.samples = num(one.substr(one.find(':') + 1)); ri.name = nm; ri.lambda = 0;
                    ivals.push_back(ri);
                    p = q + 1;
                }
                rp = new RetentionPolicy(&ivals[0], ivals.size());
                fut0 = IStatCounter::recordsFromTheFuture_.getAggregate();
                past0 = IStatCounter::recordsFromThePast_.getAggregate();
                rej0 = IStatCounter::recordsRejected_.getAggregate();
                open_(event_);
                std::string want("[");
                for (size_t i = 0; i != ivals.size(); ++i) want += std::string(i ? "," : "") + Obj().n("iv", ivals[i].interval).n("n", ivals[i].samples).done();
                o.str("kind", w[1]).n("zero", zero_).raw("want", want + "]").b("coll", ctr->isCollated()).raw("files", filesJson());
            }
            else if (c == "rec")
            {
                // rec t s q mn mx c
                ctr->record(num(w[1]), num(w[2]), num(w[3]), num(w[4]), num(w[5]), num(w[6]));
                o.raw("d", Obj().n("t", num(w[1])).n("s", num(w[2])).n("q", num(w[3])).n("mn", num(w[4])).n("mx", num(w[5])).n("c", num(w[6])).done());
                counts(o);
            }
            else if (c == "evt")
            {
                // evt t v : v per second
                double v = num(w[2]) * (double)ivals[0].interval;
                ctr->record(num(w[1]), v, v * v, v, v, 1);
                o.n("t", num(w[1])).n("v", num(w[2]));
                counts(o);
            }
            else if (c == "flush") { ctr->flush(store); o.raw("files", filesJson()); }
            else if (c == "force") { ctr->forceFlush(store); o.raw("files", filesJson()); }
            else if (c == "reopen")
            {
                // a different kind may be asked for: the counter's own is kept
                ctr.reset();
                o.raw("files", filesJson());
                open_(w.size() > 1 && w[1] == "swap" ? !event_ : event_);
                o.b("coll", ctr->isCollated());
            }
            else if (c == "sel")
            {
                // sel start end max
                std::vector<Bucket> v;
                time_t ns = -1, ne = -1, iv = -1;
                ctr->select(num(w[1]), num(w[2]), false, v, ns, ne, iv, num(w[3]));
                std::string b("[");
                for (size_t i = 0; i != v.size(); ++i) { if (i) b += ","; b += event_ ? evBucketJson(v[i]) : bucketJson(v[i]); }
                o.n("s", num(w[1])).n("en", num(w[2])).n("max", num(w[3])).b("refused", num(w[2]) && num(w[1]) && num(w[2]) < num(w[1])).n("ns", ns).n("ne", ne).n("iv", iv).raw("b", b + "]");
            }
            else { std::cerr << "bad command " << line << std::endl; return 2; }
        }
        catch (std::exception const &x)
        {
            o.str("threw_", x.what());
            emit(o);
            return 0;
        }
        emit(o);
    }
    return 0;
}
