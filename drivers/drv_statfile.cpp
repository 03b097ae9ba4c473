// Executes programs of counter-file operations on the real istat::StatFile
// and prints what happened. The process "dies" at a chosen write: the bytes
// of the file at that moment are what a new process would find.
#include <istat/StatFile.h>
#include <istat/Mmap.h>
#include <istat/Header.h>
#include <istat/Bucket.h>
#include <istat/istattime.h>
#include <istat/test.h>
#include <istat/Log.h>
#include "drv_util.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <stdexcept>
#include <string.h>
#include <math.h>

using namespace istat;

static std::string dir, path;

class DyingMmap : public Mmap
{
public:
    Mmap *m_; long left_; bool fired_; bool dead_; std::string snap_;
    DyingMmap() : m_(NewMmap()), left_(-1), fired_(false), dead_(false) { m_->setAllocationStrategy(allocateSparse); }
    void arm(long n) { left_ = n; fired_ = false; }
    void tick()
    {
        if (fired_ || left_ < 0) return;
        if (left_-- == 0) { snap_ = slurp(path); fired_ = true; }
    }
    // called before each mutating call: the moment between two writes
    int open(char const *n, int f) { return m_->open(n, f); }
    int close(int fd) { return m_->close(fd); }
    ssize_t read(int fd, void *p, ssize_t a) { return m_->read(fd, p, a); }
    ssize_t write(int fd, void *p, ssize_t a) { tick(); return dead_ ? a : m_->write(fd, p, a); }
    ptrdiff_t seek(int fd, ptrdiff_t o, int w) { return m_->seek(fd, o, w); }
    ssize_t tell(int fd) { return m_->tell(fd); }
    int truncate(int fd, ssize_t s) { tick(); return dead_ ? 0 : m_->truncate(fd, s); }
    void *map(int fd, int64_t o, size_t s, bool w) { return m_->map(fd, o, s, w); }
    bool unmap(void const *p, size_t s) { if (dead_) return true; tick(); return m_->unmap(p, s); }
    bool flush(void const *p, size_t s, bool i) { tick(); return m_->flush(p, s, i); }
    int64_t availableSpace(char const *p) { return m_->availableSpace(p); }
    void dispose() {}
    void counters(int64_t *a, int64_t *b, int64_t *c, int64_t *d) { m_->counters(a, b, c, d); }
    void setAllocationStrategy(AllocationStrategy as) { m_->setAllocationStrategy(as); }
};

static DyingMmap *mm = new DyingMmap();
static StatFile *sf = 0;
static StatFile::Settings initial;
static FakeTime *ft = new FakeTime(1);
static long arm_ = -1;

static double scale = 1;    // (averages are given in parts of one)
static double scaled(double d) { return scale == 1 ? d : floor(d * scale + 0.5); }
static std::string bucketJson(Bucket const &b)
{
    if (scale != 1) return Obj().n("t", (double)b.time()).n("s", scaled(b.sum())).n("q", scaled(b.sumSq())).n("mn", scaled(b.min())).n("mx", scaled(b.max())).n("c", b.count()).done();
    return Obj().n("t", (double)b.time()).n("s", b.sum()).n("q", b.sumSq()).n("mn", b.min()).n("mx", b.max()).n("c", b.count()).done();
}
static std::string hdrJson()
{
    double cs, cq; int64_t cc, ct;
    sf->cumulative(cs, cq, cc, ct);
    return Obj().n("last", sf->lastBucket()).n("ltime", sf->lastBucketTime()).n("first", sf->firstBucket())
        .n("cs", cs).n("cq", cq).n("cc", cc).n("ct", ct).done();
}
// every slot that holds something
static std::string slotsJson()
{
    int64_t n = sf->settings().numSamples;
    std::vector<Bucket> v(n, Bucket(true));
    int64_t lo = sf->lastBucket() - n + 1;
    int64_t r = sf->readBuckets(&v[0], n, lo);
    std::string o("[");
    for (int64_t i = 0; i < r; ++i)
    {
        if (v[i].time() == 0 && v[i].count() == 0) continue;
        int64_t slot = (((lo + i) % n) + n) % n;
        if (o.size() > 1) o += ",";
        o += "[" + jnum((double)slot) + "," + bucketJson(v[i]) + "]";
    }
    return o + "]";
}
static std::string readJson(int64_t from, int64_t cnt, int64_t &r)
{
    std::vector<Bucket> v(std::max<int64_t>(cnt, 1), Bucket(true));
    r = sf->readBuckets(&v[0], (int)cnt, from);
    int64_t n = sf->settings().numSamples;
    int64_t lo = std::max(from, (int64_t)(sf->lastBucket() - n + 1));
    std::string o("[");
    for (int64_t i = 0; i < r; ++i)
    {
        // data is what carries the time of the interval asked for
        if (v[i].time() != sf->mapBucketIndexToTime(lo + i) || (v[i].time() == 0)) continue;
        if (o.size() > 1) o += ",";
        o += "[" + jnum((double)(lo + i)) + "," + bucketJson(v[i]) + "]";
    }
    return o + "]";
}

static void die(bool mid)
{
    // what a new process finds
    std::string bytes = mid ? mm->snap_ : slurp(path);
    // forget the old object without letting it write
    mm->dead_ = true;
    delete sf; sf = 0;
    mm = new DyingMmap();
    spew(path, bytes);
    Obj o; o.str("e", "crash").b("mid", mid);
    try
    {
        StatFile::Settings s(initial);
        sf = new StatFile(path, Stats(), s, mm);
        o.b("ok", true).raw("hdr", hdrJson()).raw("slots", slotsJson());
    }
    catch (std::exception const &x)
    {
        o.b("ok", false).str("what", x.what());
    }
    emit(o);
    if (!sf)
    {
        exit(0);
    }
}

static RawUpdateMode mode(std::string const &m)
{
    return m == "overwrite" ? RAWUP_OVERWRITE : m == "fill" ? RAWUP_FILL_EMPTY : m == "onlyempty" ? RAWUP_ONLY_IF_EMPTY : RAWUP_AGGREGATE;
}

int main(int argc, char const *argv[])
{
    dir = argv[1];
    path = dir + "/the.file";
    LogConfig::setLogLevel(LL_Error);
    std::string line;
    while (std::getline(std::cin, line))
    {
        Words w = words(line);
        if (w.empty()) continue;
        std::string c(w[0]);
        if (c == "reset")
        {
            delete sf; sf = 0; unlink(path.c_str()); arm_ = -1; scale = 1;
            mm->arm(-1);
            emit(Obj().str("e", "reset"));
            continue;
        }
        if (c == "now") { ft->set(num(w[1])); emit(Obj().str("e", "now").n("t", num(w[1]))); continue; }
        if (c == "arm") { mm->arm(num(w[1])); continue; }
        bool was = mm->fired_;
        (void)was;
        Obj o; o.str("e", c);
        try
        {
            if (c == "open")
            {
                // open zero iv samples kind fixed
                StatFile::Settings s;
                s.zeroTime = num(w[1]); s.intervalTime = num(w[2]); s.numSamples = num(w[3]);
                if (w[4] == "collated") s.flags |= FILE_FLAG_IS_COLLATED;
                if (w[4] == "agg") { s.flags |= FILE_FLAG_IS_COUNTER_AGGREGATE; s.fixed_count = num(w[5]); }
                initial = s;
                sf = new StatFile(path, Stats(), s, mm);
                o.n("zero", num(w[1])).n("iv", sf->settings().intervalTime).n("want", num(w[3])).n("n", sf->settings().numSamples)
                 .str("kind", w[4]).n("fixed", num(w[5])).raw("hdr", hdrJson()).raw("slots", slotsJson());
                o.b("done", !mm->fired_);
            }
            else if (c == "topen")
            {
                // topen zero iv samples kind fixed season lambda/4
                StatFile::Settings s;
                s.zeroTime = num(w[1]); s.intervalTime = num(w[2]); s.numSamples = num(w[3]);
                s.flags |= FILE_FLAG_IS_TRAILING; s.season = num(w[6]); s.lambda = num(w[7]) / 4.0;
                if (w[4] == "collated") s.flags |= FILE_FLAG_IS_COLLATED;
                if (w[4] == "agg") { s.flags |= FILE_FLAG_IS_COUNTER_AGGREGATE; s.fixed_count = num(w[5]); }
                initial = s; scale = 4096;
                sf = new StatFile(path, Stats(), s, mm);
                o.n("zero", num(w[1])).n("iv", sf->settings().intervalTime).n("want", num(w[3])).n("n", sf->settings().numSamples)
                 .str("kind", w[4]).n("fixed", num(w[5])).n("season", sf->settings().season).n("lam", sf->settings().lambda * 4).raw("slots", slotsJson());
            }
            else if (c == "tupd")
            {
                Bucket b(num(w[2]), num(w[3]), num(w[4]), num(w[5]), num(w[6]), num(w[1]));
                bool ok = sf->updateBucket(b);
                o.raw("d", bucketJson(b)).b("ok", ok).raw("hdr", hdrJson()).raw("slots", slotsJson());
            }
            else if (c == "tflush") { sf->flush(); o.raw("slots", slotsJson()); }
            else if (c == "upd")
            {
                Bucket b(num(w[2]), num(w[3]), num(w[4]), num(w[5]), num(w[6]), num(w[1]));
                bool ok = w[7] == "agg" && (num(w[1]) & 1) ? sf->updateBucket(b) : sf->rawUpdateBucket(b, mode(w[7]));
                o.raw("d", bucketJson(b)).str("mode", w[7]).b("ok", ok).raw("hdr", hdrJson());
            }
            else if (c == "read")
            {
                int64_t r; std::string b = readJson(num(w[1]), num(w[2]), r);
                o.n("from", num(w[1])).n("cnt", num(w[2])).n("n", r).raw("b", b);
            }
            else if (c == "bucket")
            {
                if (!sf->isBucketIndexInFile(num(w[1]))) continue;  // the caller's duty
                Bucket const &b = sf->bucket(num(w[1]));
                bool mine = b.time() == sf->mapBucketIndexToTime(num(w[1]));
                o.n("i", num(w[1])).raw("b", bucketJson(mine ? b : Bucket(true)));
            }
            else if (c == "map")
            {
                o.n("t", num(w[1])).n("i", sf->mapTimeToBucketIndex(num(w[1]), false)).n("up", sf->mapTimeToBucketIndex(num(w[1]), true))
                 .n("back", sf->mapBucketIndexToTime(sf->mapTimeToBucketIndex(num(w[1]), false)))
                 .b("in", sf->isBucketIndexInFile(sf->mapTimeToBucketIndex(num(w[1]), false)));
            }
            else if (c == "flush") { sf->flush(); o.b("done", !mm->fired_).raw("hdr", hdrJson()); }
            else if (c == "rcum") { sf->resetCumulative(num(w[1])); o.n("t", num(w[1])).raw("hdr", hdrJson()); }
            else if (c == "reopen")
            {
                delete sf; sf = 0;
                if (!mm->fired_)
                {
                    if (w[1] == "init")
                    {
                        // other settings than those of the file: the file's own win
                        StatFile::Settings s(initial);
                        s.intervalTime = initial.intervalTime * 3; s.numSamples = 100000; s.zeroTime = 77;
                        sf = new StatFile(path, Stats(), s, mm);
                    }
                    else sf = new StatFile(path, Stats(), mm, true);
                    o.n("iv", sf->settings().intervalTime).n("n", sf->settings().numSamples);
                    o.b("done", true).raw("hdr", hdrJson()).raw("slots", slotsJson());
                }
                else o.b("done", false);
            }
            else if (c == "ro")
            {
                delete sf; sf = 0;
                std::string before = slurp(path);
                bool threw = false;
                sf = new StatFile(path, Stats(), mm, false);
                try { sf->updateBucket(Bucket(1, 1, 1, 1, 1, num(w[1]))); } catch (std::logic_error const &) { threw = true; }
                o.b("threw", threw).raw("hdr", hdrJson()).raw("slots", slotsJson());
                delete sf; sf = 0;
                o.b("same", before == slurp(path));
                sf = new StatFile(path, Stats(), mm, true);
            }
            else if (c == "trunc")
            {
                // the file lost its tail: keep only the first k ring slots
                delete sf; sf = 0;
                Header h; std::string bytes = slurp(path);
                memcpy(&h, bytes.data(), sizeof h);
                int64_t keep = h.page_size + num(w[1]) * (int64_t)sizeof(Bucket);
                if (keep < (int64_t)bytes.size()) spew(path, bytes.substr(0, keep));
                sf = new StatFile(path, Stats(), mm, true);
                o.n("k", num(w[1])).raw("hdr", hdrJson()).raw("slots", slotsJson());
            }
            else if (c == "damage")
            {
                delete sf; sf = 0;
                std::string bytes = slurp(path), bad(bytes);
                Header *h = (Header *)&bad[0];
                if (w[1] == "magic") h->magic[3] ^= 1;
                else h->rd_version = CUR_HDR_VERSION + 1;
                spew(path, bad);
                bool threw = false;
                try { StatFile *q = new StatFile(path, Stats(), initial, mm); (void)q; } catch (std::runtime_error const &) { threw = true; }
                o.str("how", w[1]).b("threw", threw).b("same", bad == slurp(path));
                spew(path, bytes);
                sf = new StatFile(path, Stats(), mm, true);
            }
            else if (c == "crash") { die(false); continue; }
            else { std::cerr << "bad command " << line << std::endl; return 2; }
        }
        catch (std::exception const &x)
        {
            o.str("threw_", x.what());
            emit(o);
            return 0;
        }
        emit(o);
        if (mm->fired_) die(true);
    }
    return 0;
}
