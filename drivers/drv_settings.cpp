// Executes programs on the real settings, through the real query interface and directly, in virtual time; calls to
// the operating system that change files can be made to fail, or to be the last thing the process does.
#include "../daemon/StatServer.h"
#include "../daemon/HttpServer.h"
#include "../daemon/RequestInFlight.h"
#include "../daemon/PromExporter.h"
#include "../daemon/IStatStore.h"
#include "../daemon/Settings.h"
#include "../daemon/IComplete.h"
#include "../daemon/Logs.h"
#include <istat/istattime.h>
#include <istat/Log.h>
#include <istat/Env.h>
#include <istat/strfunc.h>
#include "drv_util.h"
#include <boost/make_shared.hpp>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <sys/time.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <signal.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <map>
#include <set>

using namespace istat;

static volatile long long vsec = 1000000000;
static volatile long long fsec = 1000000200;
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { tv->tv_sec = vsec; tv->tv_usec = 0; return 0; }
extern "C" time_t time(time_t *t) throw() { if (t) *t = fsec; return fsec; }
static FakeTime *ft = new FakeTime(1000000200);
static std::string dir, setDir, addr;

// ---- what changes files
static int armed = 0, failWith = 0; static bool firedIt = false;
// whether this is the call that is to fail; or nothing is to happen any more
static bool strikes()
{
    if (!armed || --armed) return false;
    firedIt = true;
    if (!failWith) _exit(7);
    errno = failWith; return true;
}
static bool ours(char const *p) { return armed && p && !strncmp(p, setDir.c_str(), setDir.size()); }
static bool ours(int fd)
{
    if (!armed) return false;
    char l[64], b[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1); if (n <= 0) return false;
    b[n] = 0; return ours(b);
}
template<typename F> static F nextOf(char const *n) { return (F)dlsym(RTLD_NEXT, n); }
#define NEXT(f) static __typeof__(&f) real = nextOf<__typeof__(&f)>(#f)
extern "C" ssize_t write(int fd, void const *b, size_t n)
{
    NEXT(write);
    if (ours(fd) && n > 1 && armed == 1) { ssize_t r = real(fd, b, n / 2); strikes(); return failWith == ENOSPC ? -1 : r; }
    if (ours(fd) && strikes()) return -1;
    return real(fd, b, n);
}
extern "C" ssize_t writev(int fd, struct iovec const *v, int n) { NEXT(writev); if (ours(fd) && strikes()) return -1; return real(fd, v, n); }
extern "C" int rename(char const *a, char const *b) throw() { NEXT(rename); if (ours(b) && strikes()) return -1; return real(a, b); }
extern "C" int remove(char const *a) throw() { NEXT(remove); if (ours(a) && strikes()) return -1; return real(a); }
extern "C" int unlink(char const *a) throw() { NEXT(unlink); if (ours(a) && strikes()) return -1; return real(a); }
extern "C" int link(char const *a, char const *b) throw() { NEXT(link); if (ours(b) && strikes()) return -1; return real(a, b); }
extern "C" int truncate(char const *a, off_t n) throw() { NEXT(truncate); if (ours(a) && strikes()) return -1; return real(a, n); }
extern "C" int ftruncate(int fd, off_t n) throw() { NEXT(ftruncate); if (ours(fd) && strikes()) return -1; return real(fd, n); }
extern "C" FILE *fopen(char const *p, char const *m) { NEXT(fopen); if (*m != 'r' && ours(p) && strikes()) return 0; return real(p, m); }
extern "C" FILE *fopen64(char const *p, char const *m) { NEXT(fopen64); if (*m != 'r' && ours(p) && strikes()) return 0; return real(p, m); }
extern "C" int open(char const *p, int f, ...)
{
    NEXT(open); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    if ((f & (O_WRONLY | O_RDWR)) && ours(p) && strikes()) return -1; return real(p, f, m);
}
extern "C" int open64(char const *p, int f, ...)
{
    NEXT(open64); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    if ((f & (O_WRONLY | O_RDWR)) && ours(p) && strikes()) return -1; return real(p, f, m);
}

static boost::asio::io_service *svc = 0;
static boost::asio::deadline_timer *dummy = 0;
static boost::shared_ptr<IStatStore> *store = 0;
static boost::shared_ptr<IPromExporter> *prom = 0;
static StatServer *srv = 0;
static HttpServer *http = 0;
static ISettingsFactory *fac = 0;
static boost::shared_ptr<ISettings> held;
static int httpPort;

static sockaddr_in at(int port)
{
    sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr(addr.c_str());
    return a;
}
static int freePort()
{
    static std::set<int> given;
    for (;;)
    {
        int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a = at(0); socklen_t l = sizeof a;
        if (bind(fd, (sockaddr *)&a, sizeof a)) { perror("bind"); _exit(3); }
        getsockname(fd, (sockaddr *)&a, &l);
        int u = socket(AF_INET, SOCK_DGRAM, 0); bool ok = !bind(u, (sockaddr *)&a, sizeof a);
        close(fd); close(u);
        if (ok && given.insert(ntohs(a.sin_port)).second) return ntohs(a.sin_port);
    }
}
static void startRequest(HttpRequestHolder const &req)
{
    boost::shared_ptr<RequestInFlight> rif = boost::make_shared<RequestInFlight>(req.p_, srv, dir);
    srv->service().post(boost::bind(&RequestInFlight::go, rif));
}
static void onHttp(HttpRequestHolder const &req)
{
    req->onHeader_.connect(boost::bind(startRequest, req));
    req->onError_.connect(boost::bind(startRequest, req));
}
static bool poll1()
{
    svc->reset();
    try { return svc->poll() > 0; } catch (std::exception const &x) { std::cerr << "caught " << x.what() << std::endl; return true; }
}
static void settle() { while (poll1()) ; }
static bool dummyFired;
static void fired(boost::system::error_code const &) { dummyFired = true; }
static void advance(long long v)
{
    vsec += v; fsec += v; ft->set(fsec);
    dummy->expires_from_now(boost::posix_time::seconds(-100000000));
    dummyFired = false;
    dummy->async_wait(boost::bind(fired, boost::asio::placeholders::error));
    for (int i = 0; i < 20000 && !dummyFired; ++i) { usleep(100); poll1(); }
    settle();
}
struct Nothing : public IComplete { void on_complete() { delete this; } };
struct Told : public IComplete { bool *b; Told(bool *x) : b(x) {} void on_complete() { *b = true; delete this; } };

static std::string codes(std::string const &s)
{
    if (s.size() > 80)
    {
        unsigned h = 0; for (size_t i = 0; i != s.size(); ++i) h = h * 31 + (unsigned char)s[i];
        char b[64]; snprintf(b, sizeof b, "[-1,%d,%d]", (int)s.size(), h % 1000000000); return b;
    }
    std::string o("["); char b[8];
    for (size_t i = 0; i != s.size(); ++i) { snprintf(b, sizeof b, "%s%d", i ? "," : "", (unsigned char)s[i]); o += b; }
    return o + "]";
}
static std::string escaped(std::string const &s)
{
    std::string o("\""); char b[8];
    for (size_t i = 0; i != s.size(); ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string value(std::string const &h) { return h[0] == '*' ? std::string(atoi(h.c_str() + 1), 'x') : unhex(h.substr(1)); }
typedef std::vector<std::pair<std::string, std::string> > KV;
static KV pairs(Words const &w, size_t from)
{
    KV kv;
    for (size_t i = from; i < w.size(); ++i) { size_t c = w[i].find(':'); kv.push_back(std::make_pair(unhex(w[i].substr(0, c)), value(w[i].substr(c + 1)))); }
    return kv;
}
static std::string shown(KV const &kv)
{
    std::string o("[");
    for (size_t i = 0; i != kv.size(); ++i) o += (i ? ",[" : "[") + codes(kv[i].first) + "," + codes(kv[i].second) + "]";
    return o + "]";
}
static KV contents(ISettings &s, char const *pattern = "*")
{
    KV kv; std::vector<std::string> ks; s.match(pattern, ks);
    for (size_t i = 0; i != ks.size(); ++i) { std::string v; bool set = false; s.get(ks[i], v, set, "?"); if (set) kv.push_back(std::make_pair(ks[i], v)); }
    return kv;
}
// one request, and what is answered; no answer has code 0
static int ask(std::string const &req, std::string &body)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    sockaddr_in a = at(httpPort);
    if (connect(fd, (sockaddr *)&a, sizeof a)) { perror("connect"); _exit(3); }
    std::string got; size_t sent = 0; static char buf[65536]; bool ended = false;
    for (int idle = 0; idle < 5000 && !ended;)
    {
        bool did = false;
        if (sent < req.size()) { ssize_t r = send(fd, req.data() + sent, std::min(req.size() - sent, size_t(30000)), MSG_NOSIGNAL | MSG_DONTWAIT); if (r > 0) { sent += r; did = true; } }
        did |= poll1();
        ssize_t r;
        while ((r = recv(fd, buf, sizeof buf, MSG_DONTWAIT)) > 0) { got.append(buf, r); did = true; }
        if (r == 0 || (r < 0 && errno != EAGAIN)) ended = true;
        size_t h = got.find("\r\n\r\n"), c = got.find("Content-Length: ");
        if (h != std::string::npos && c < h && got.size() - h - 4 >= (size_t)atoi(got.c_str() + c + 16)) ended = true;
        if (did) idle = 0; else { ++idle; usleep(idle > 20 ? 200 : 20); }
    }
    close(fd); settle();
    int code = 0; size_t h = got.find("\r\n\r\n");
    if (h == std::string::npos || sscanf(got.c_str(), "HTTP/1.1 %d ", &code) != 1) return 0;
    body = got.substr(h + 4); return code;
}
static std::string pct(std::string const &s) { std::string h(hex(s)), o; for (size_t i = 0; i < h.size(); i += 2) o += "%" + h.substr(i, 2); return o; }
// an object of strings
static bool parse(std::string const &s, KV &kv)
{
    size_t p = 0; std::string part[2];
    while (p < s.size() && s[p] != '{') ++p;
    if (p == s.size()) return s.compare(0, 4, "null") == 0;
    ++p;
    for (;;)
    {
        while (p < s.size() && isspace((unsigned char)s[p])) ++p;
        if (p < s.size() && s[p] == '}') return true;
        for (int k = 0; k != 2; ++k)
        {
            while (p < s.size() && (isspace((unsigned char)s[p]) || (k && s[p] == ':'))) ++p;
            if (p >= s.size() || s[p] != '"') return false;
            std::string &o = part[k]; o.clear();
            for (++p; p < s.size() && s[p] != '"'; ++p)
            {
                if (s[p] != '\\') { o += s[p]; continue; }
                char c = s[++p];
                if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == 'r') o += '\r'; else if (c == 'b') o += '\b'; else if (c == 'f') o += '\f';
                else if (c == 'u')
                {
                    int u = strtol(s.substr(p + 1, 4).c_str(), 0, 16); p += 4;
                    if (u < 128) o += (char)u; else if (u < 0x800) { o += (char)(0xc0 | (u >> 6)); o += (char)(0x80 | (u & 63)); } else { o += (char)(0xe0 | (u >> 12)); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); }
                }
                else o += c;
            }
            if (p >= s.size()) return false;
            ++p;
        }
        kv.push_back(std::make_pair(part[0], part[1]));
        while (p < s.size() && (isspace((unsigned char)s[p]) || s[p] == ',')) ++p;
    }
}
// what a daemon starting now would find
static void lookAt(Obj &o)
{
    std::string d("["); int outside = 0;
    ISettingsFactory *other = NewSettingsFactory(*svc, setDir);
    std::set<std::string> names;
    if (DIR *q = opendir(setDir.c_str()))
    {
        while (struct dirent *e = readdir(q)) { std::string n(e->d_name); if (n.size() >= 4 && n.compare(n.size() - 4, 4, ".set") == 0) names.insert(n.substr(0, n.size() - 4)); }
        closedir(q);
    }
    for (std::set<std::string>::iterator i = names.begin(); i != names.end(); ++i)
    {
        boost::shared_ptr<ISettings> s; other->open(*i, false, s, new Nothing());
        d += (d.size() > 1 ? "," : "") + std::string("{\"s\":") + codes(*i) + ",\"kv\":" + (s ? shown(contents(*s)) : std::string("[]")) + "}";
    }
    settle(); other->dispose();
    if (DIR *q = opendir(dir.c_str()))
    {
        while (struct dirent *e = readdir(q)) { std::string n(e->d_name); if (n != "." && n != ".." && n != "settings" && n != "log" && n != "out.set") ++outside; }
        closedir(q);
    }
    o.raw("disk", d + "]").n("outside", outside).b("out", slurp(dir + "/out.set") == "secret=1\n");
}
// ---- several at once
struct Setter
{
    std::string sec; std::string key; int n; std::string seen; int last; unsigned r;
    void go(boost::barrier *gate)
    {
        gate->wait(); seen = "["; last = 0;
        for (int i = 1; i <= n; ++i)
        {
            boost::shared_ptr<ISettings> s; fac->open(sec, true, s, new Nothing());
            if (!s) { seen += (i > 1 ? ",[" : "[") + jnum(i) + ",-1]"; continue; }
            r = r * 1103515245 + 12345; if (r / 65536 % 3 == 0) usleep(r / 65536 % 50);
            s->set(key, jnum(i)); last = i;
            boost::shared_ptr<ISettings> t; fac->open(sec, false, t, new Nothing());
            std::string v("-2"); bool set = false; if (t) t->get(key, v, set, "-3");
            seen += (i > 1 ? ",[" : "[") + jnum(i) + "," + v + "]";
        }
        seen += "]";
    }
};
static volatile bool stopping;
static void flusher(boost::barrier *gate, std::string sec, unsigned r)
{
    gate->wait();
    while (!stopping)
    {
        if (sec.size()) fac->flush_one(sec, new Nothing()); else fac->flush(new Nothing());
        r = r * 1103515245 + 12345; usleep(r / 65536 % 300);
    }
}
static void serve() { for (;;) { try { svc->run(); return; } catch (std::exception const &x) { std::cerr << "caught " << x.what() << std::endl; } } }

// a new process, as it were: nothing of the old one will happen
static void boot()
{
    held.reset();
    svc = new boost::asio::io_service(); dummy = new boost::asio::deadline_timer(*svc);
    int statPort = freePort(); httpPort = freePort();
    Blacklist::Configuration bc; bc.path = ""; bc.period = 30000;
    store = new boost::shared_ptr<IStatStore>(new NullStatStore());
    prom = new boost::shared_ptr<IPromExporter>(new NullPromExporter());
    srv = new StatServer(statPort, addr, "", 0, 10000000, bc, *svc, *store, *prom, 256, 64);
    http = new HttpServer(httpPort, *svc, addr, 64); http->onRequest_.connect(boost::bind(onHttp, boost::placeholders::_1));
    fac = NewSettingsFactory(*svc, setDir); Env::set<ISettingsFactory>(*fac);
    settle();
}
static void run(std::vector<std::string> const &todo)
{
    for (size_t at_ = 0; at_ != todo.size(); ++at_)
    {
        Words w = words(todo[at_]);
        if (w.empty()) continue;
        std::string const &c = w[0];
        Obj o; o.str("e", c);
        try
        {
            if (c == "reset") { emit(o); continue; }
            else if (c == "new")
            {
                spew(dir + "/out.set", "secret=1\n"); boot();
            }
            else if (c == "post")
            {
                std::string s(unhex(w[1].substr(1))), b("{"), body; KV kv(pairs(w, 2));
                for (size_t i = 0; i != kv.size(); ++i) b += (i ? "," : "") + escaped(kv[i].first) + ":" + escaped(kv[i].second);
                b += "}";
                char l[64]; snprintf(l, sizeof l, "%d", (int)b.size());
                int code = ask("POST /?s=" + pct(s) + " HTTP/1.1\r\nHost: h\r\nContent-Length: " + l + "\r\n\r\n" + b, body);
                o.raw("s", codes(s)).raw("kv", shown(kv)).n("code", code);
            }
            else if (c == "get")
            {
                std::string s(unhex(w[1].substr(1))), body, p(w[2] == "-" ? std::string() : unhex(w[2])); KV kv;
                int code = ask("GET /?s=" + pct(s) + "&sk=" + pct(p) + " HTTP/1.1\r\nHost: h\r\n\r\n", body);
                bool wf = code != 200 || parse(body, kv);
                o.raw("s", codes(s)).raw("p", codes(p)).n("code", code).raw("kv", shown(kv)).b("wf", wf);
            }
            else if (c == "flush" || c == "flush1")
            {
                bool told = false;
                if (c == "flush") fac->flush(new Told(&told));
                else { std::string s(unhex(w[1].substr(1))); o.raw("s", codes(s)); fac->flush_one(s, new Told(&told)); }
                settle(); o.b("told", told);
            }
            else if (c == "load")
            {
                bool told = false; std::string s(unhex(w[1].substr(1))); o.raw("s", codes(s));
                fac->reloadSettings(s, new Told(&told)); settle(); o.b("told", told);
            }
            else if (c == "hold")
            {
                std::string s(unhex(w[1].substr(1))); o.raw("s", codes(s));
                fac->open(s, true, held, new Nothing()); settle(); o.b("got", !!held);
            }
            else if (c == "hset")
            {
                KV kv(pairs(w, 1)); o.raw("kv", shown(kv));
                if (held) held->set(kv[0].first, kv[0].second);
                settle();
            }
            else if (c == "tick") { o.n("by", num(w[1])); advance(num(w[1])); }
            else if (c == "restart") boot();
            else if (c == "crash")
            {
                std::cout.flush();
                pid_t p = fork();
                if (!p) { failWith = 0; armed = num(w[1]); fac->flush(new Nothing()); _exit(0); }
                int st; waitpid(p, &st, 0);
                o.b("died", WIFEXITED(st) && WEXITSTATUS(st) == 7).b("clean", WIFEXITED(st) && (WEXITSTATUS(st) == 7 || WEXITSTATUS(st) == 0));
                boot();
            }
            else if (c == "fail")
            {
                // fail <k> <errno> <flush | seconds>
                failWith = num(w[2]); firedIt = false; armed = num(w[1]); bool told = false;
                if (w[3] == "flush") { try { fac->flush(new Told(&told)); settle(); } catch (std::exception const &x) { o.str("x", x.what()); } }
                else { o.n("by", num(w[3])); advance(num(w[3])); }
                armed = 0; failWith = 0;
                o.str("what", w[3] == "flush" ? "flush" : "tick").b("fired", firedIt);
            }
            else if (c == "edit")
            {
                // by hand: name, style, pairs
                std::string s(unhex(w[1].substr(1))), t; KV kv(pairs(w, 3));
                t = w[2] == "1" ? "# edited\n\n" : "";
                for (size_t i = 0; i != kv.size(); ++i)
                    t += w[2] == "1" ? " " + kv[i].first + " =\t" + sql_quote(kv[i].second) + " \r\n" : kv[i].first + "=" + sql_quote(kv[i].second) + (i + 1 == kv.size() ? "" : "\n");
                spew(setDir + "/" + s + ".set", t);
                o.raw("s", codes(s)).raw("kv", shown(kv));
            }
            else if (c == "burst")
            {
                // burst <flusher of which> <section:key:n> ...
                std::vector<Setter> ss; std::string sh("[");
                for (size_t i = 2; i < w.size(); ++i)
                {
                    Setter x; size_t a = w[i].find(':'), b = w[i].find(':', a + 1);
                    x.sec = unhex(w[i].substr(0, a)); x.key = unhex(w[i].substr(a + 1, b - a - 1)); x.n = atoi(w[i].c_str() + b + 1); x.r = i * 7919 + at_;
                    ss.push_back(x);
                }
                boost::barrier gate(ss.size() + 1);
                boost::asio::io_service::work *work = new boost::asio::io_service::work(*svc);
                svc->reset(); stopping = false;
                boost::thread_group servers, setters;
                servers.create_thread(serve); servers.create_thread(serve);
                boost::thread f(boost::bind(flusher, &gate, unhex(w[1].substr(1)), unsigned(at_)));
                for (size_t i = 0; i != ss.size(); ++i) setters.create_thread(boost::bind(&Setter::go, &ss[i], &gate));
                setters.join_all(); stopping = true; f.join();
                delete work; svc->stop(); servers.join_all(); svc->reset();
                fac->flush(new Nothing()); settle();
                for (size_t i = 0; i != ss.size(); ++i)
                    sh += (i ? "," : "") + Obj().raw("s", codes(ss[i].sec)).raw("k", codes(ss[i].key)).raw("v", codes(jnum(ss[i].last))).raw("seen", ss[i].seen).done();
                o.raw("setters", sh + "]");
            }
            else { o.str("unknown", c); }
        }
        catch (std::exception const &x) { o.str("threw_", x.what()); }
        lookAt(o);
        o.n("now", fsec);
        emit(o);
    }
}
int main()
{
    char t[] = "/tmp/vpsettXXXXXX"; std::string top(mkdtemp(t));
    signal(SIGPIPE, SIG_IGN);
    char ab[32]; int pid = getpid(); snprintf(ab, sizeof ab, "127.%d.%d.%d", 96 + pid % 31, (pid >> 8) % 250, pid % 250 + 1); addr = ab;
    std::vector<std::vector<std::string> > hs; std::string l;
    while (std::getline(std::cin, l)) { if (l == "reset") hs.push_back(std::vector<std::string>()); if (hs.size()) hs.back().push_back(l); }
    int rc = 0;
    for (size_t i = 0; i != hs.size() && !rc; ++i)
    {
        char n[32]; snprintf(n, sizeof n, "/%d", (int)i);
        dir = top + n; setDir = dir + "/settings"; mkdir(dir.c_str(), 0755);
        std::cout.flush();
        pid_t p = fork();
        if (!p)
        {
            LogConfig::setOutputFile((dir + "/log").c_str()); LogConfig::setLogLevel(LL_Error);
            prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(120);
            run(hs[i]); std::cout.flush(); _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 1;
    }
    std::string rm("rm -rf " + top);
    if (top.compare(0, 11, "/tmp/vpsett") == 0 && system(rm.c_str())) {}
    _exit(rc);
}
