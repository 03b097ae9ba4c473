// gives texts to the parsers of configurations: one line of input, one line of output
#include "drv_util.h"
#include <istat/strfunc.h>
#include "daemon/Retention.h"
#include "daemon/Argument.h"
#include <unistd.h>
#include <sys/wait.h>
static Argument<int> argNum("num", 1, ""), argOther("other", 2, "");
static Argument<std::string> argStr("str", "s", "");
static Argument<bool> argFlag("flag", false, "");
static std::string codes(std::string const &s)
{
    std::string o("[");
    for (size_t i = 0; i != s.size(); ++i) { if (i) o += ","; o += jnum((unsigned char)s[i]); }
    return o + "]";
}
static void values(Obj &o) { o.n("num", argNum.get()).n("other", argOther.get()).raw("str", codes(argStr.get())).b("flag", argFlag.get()); }
int main()
{
    std::string l;
    while (std::getline(std::cin, l))
    {
        Words w = words(l);
        if (w.empty()) continue;
        Obj o; o.str("e", w[0]);
        std::string s(w.size() > 1 ? unhex(w[1].substr(1)) : "");
        if (w[0] == "reset")
        {
            argNum.set("1"); argOther.set("2"); argStr.set("s"); argFlag.set("0");
        }
        else if (w[0] == "time")
        {
            bool ok = true; long long v = 0;
            try { v = istat::interval_to_seconds(s); } catch (std::exception const &) { ok = false; }
            o.raw("s", codes(s)).b("ok", ok).n("v", v);
        }
        else if (w[0] == "write") { o.n("n", num(w[1])).raw("s", codes(istat::seconds_to_interval(num(w[1])))); }
        else if (w[0] == "ret")
        {
            bool ok = true; std::string iv;
            try
            {
                RetentionPolicy p(s.c_str());
                for (size_t i = 0; i != p.countIntervals(); ++i)
                {
                    RetentionInterval const &r = p.getInterval(i);
                    iv += (i ? "," : "") + Obj().n("iv", r.interval).n("n", r.samples).raw("name", codes(r.name)).n("lam", floor(r.lambda * 1000000 + 0.5)).done();
                }
            }
            catch (std::exception const &) { ok = false; iv = ""; }
            o.raw("s", codes(s)).b("ok", ok).raw("iv", "[" + iv + "]");
        }
        else if (w[0] == "args")
        {
            std::vector<std::string> a; std::vector<char const *> v; std::string as;
            for (size_t i = 1; i < w.size(); ++i) { a.push_back(unhex(w[i].substr(1))); as += (i > 1 ? "," : "") + codes(a.back()); }
            v.push_back("istatd"); for (size_t i = 0; i != a.size(); ++i) v.push_back(a[i].c_str()); v.push_back(0);
            int ix = 1; int n = v.size() - 1;
            try { while (ArgumentBase::parseArg(n, &v[0], ix)) {} } catch (std::exception const &x) { o.str("threw_", x.what()); }
            o.raw("a", "[" + as + "]").n("at", ix); values(o);
        }
        else if (w[0] == "file")
        {
            std::string err; bool ok = true; int line = 0;
            try { ok = ArgumentBase::parseData(s, err); } catch (std::exception const &x) { o.str("threw_", x.what()); }
            if (!ok && sscanf(err.c_str(), "Error on line %d:", &line) != 1) line = -1;
            o.raw("s", codes(s)).b("ok", ok).n("line", line); values(o);
        }
        emit(o);
    }
    _exit(0);
}
