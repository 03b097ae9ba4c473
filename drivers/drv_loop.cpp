// Executes programs on the real statistics of the server about itself, alone and as the real HttpServer and
// AdminServer use them, in virtual time.
#include "../daemon/LoopbackCounter.h"
#include "../daemon/HttpServer.h"
#include "../daemon/AdminServer.h"
#include "../daemon/IStatStore.h"
#include "../daemon/Logs.h"
#include <istat/istattime.h>
#include <istat/Log.h>
#include "drv_util.h"
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <sys/time.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <unistd.h>
#include <map>
#include <set>

using namespace istat;

static volatile long long vms = 1000000000000LL;
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { tv->tv_sec = vms / 1000; tv->tv_usec = vms % 1000 * 1000; return 0; }
static FakeTime *ft = new FakeTime(1000000200);
static std::string addr, dir;
static boost::asio::io_service *svc = 0;
static boost::asio::deadline_timer *dummy = 0;
static HttpServer *http = 0; static AdminServer *admin = 0;
static int httpPort, adminPort, adminFd = -1, statsSeen;

static boost::mutex mx; static std::string heard;
struct Store : public NullStatStore
{
    void put(std::string const &c, double v)
    {
        if (c.find("istatd.t.") == c.npos && c.find("istatd.http.") == c.npos && c.find("istatd.admin.") == c.npos) return;
        boost::mutex::scoped_lock l(mx);
        heard += (heard.empty() ? "[" : ",[") + jstr(c) + "," + jnum(v) + "]";
    }
    void record(std::string const &c, double v) { put(c, v); }
    void record(std::string const &c, time_t, double v) { put(c, v); }
    void record(std::string const &c, time_t, double v, double, double, double, size_t) { put(c, v); }
};
static Store *store = new Store();
static sockaddr_in at(int port)
{
    sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr(addr.c_str());
    return a;
}
static int freePort()
{
    static std::set<int> given;
    for (;;)
    {
        int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a = at(0); socklen_t l = sizeof a;
        if (bind(fd, (sockaddr *)&a, sizeof a)) { perror("bind"); _exit(3); }
        getsockname(fd, (sockaddr *)&a, &l); close(fd);
        if (given.insert(ntohs(a.sin_port)).second) return ntohs(a.sin_port);
    }
}
static int dial(int port)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = at(port);
    if (connect(fd, (sockaddr *)&a, sizeof a)) { perror("connect"); _exit(3); }
    return fd;
}
static bool poll1()
{
    svc->reset();
    try { return svc->poll() > 0; } catch (std::exception const &x) { std::cerr << "caught " << x.what() << std::endl; return true; }
}
static void settle() { int quiet = 0; while (quiet < 3) { if (poll1()) quiet = 0; else { ++quiet; usleep(100); } } }
static bool dummyFired;
static void fired(boost::system::error_code const &) { dummyFired = true; }
static void advance(long long ms)
{
    vms += ms;
    dummy->expires_from_now(boost::posix_time::seconds(-100000000));
    dummyFired = false;
    dummy->async_wait(boost::bind(fired, boost::asio::placeholders::error));
    for (int i = 0; i < 20000 && !dummyFired; ++i) { usleep(100); poll1(); }
    settle();
}
static void answer(HttpRequestHolder const &req, bool bad)
{
    std::string none, b("x");
    int code = bad ? 400 : atoi(req.p_->url().c_str() + 1);
    req.p_->reply(code, "text/plain", none.begin(), none.end(), b.begin(), b.end());
}
static void onHttp(HttpRequestHolder const &req)
{
    req->onHeader_.connect(boost::bind(answer, req, false));
    req->onError_.connect(boost::bind(answer, req, true));
}
// an answer: all of it, or up to its last line
static std::string talk(int fd, std::string const &s, bool tillEnd)
{
    std::string got; char b[4096]; send(fd, s.data(), s.size(), MSG_NOSIGNAL);
    for (int idle = 0; idle < 10000;)
    {
        // (the system may keep the end of an answer back for a while)
        if (!tillEnd && got.size() > 3 && got.compare(got.size() - 4, 4, "ok\r\n") == 0) break;
        bool did = poll1(); ssize_t r = recv(fd, b, sizeof b, MSG_DONTWAIT);
        if (r > 0) { got.append(b, r); did = true; }
        if (r == 0 || (r < 0 && errno != EAGAIN)) break;
        if (did) idle = 0; else { ++idle; usleep(200); }
    }
    return got;
}
struct Adder
{
    LoopbackCounter *c; int n, d; unsigned r;
    void go(boost::barrier *g) { g->wait(); for (int i = 0; i < n; ++i) { c->value(d); r = r * 1103515245 + 12345; if (r / 65536 % 8 == 0) usleep(r / 65536 % 20); } }
};
static volatile bool stopping;
static void sampler(boost::barrier *g, unsigned r) { g->wait(); while (!stopping) { LoopbackCounter::forceUpdates(); r = r * 1103515245 + 12345; if (r / 65536 % 4) usleep(r / 65536 % 30); } }

static void run(std::vector<std::string> const &todo)
{
    std::map<int, LoopbackCounter *> cs;
    for (size_t at_ = 0; at_ != todo.size(); ++at_)
    {
        Words w = words(todo[at_]);
        if (w.empty()) continue;
        std::string const &c = w[0];
        Obj o; o.str("e", c); heard.clear();
        try
        {
            if (c == "reset") { emit(o); continue; }
            else if (c == "new") { svc = new boost::asio::io_service(); dummy = new boost::asio::deadline_timer(*svc); }
            else if (c == "setup")
            {
                LoopbackCounter::setup(store, *svc);
                httpPort = freePort(); adminPort = freePort();
                http = new HttpServer(httpPort, *svc, addr, 16); http->onRequest_.connect(boost::bind(onHttp, boost::placeholders::_1));
                admin = new AdminServer(adminPort, addr, *svc, http, 0, 0, 0, 16);
                settle();
            }
            else if (c == "mk")
            {
                int id = num(w[1]); delete cs[id];
                char *n = strdup(("t." + w[3]).c_str());
                cs[id] = new LoopbackCounter(n, w[2] == "event" ? TypeEvent : w[2] == "gauge" ? TypeGauge : TypeCounted);
                memset(n, '!', strlen(n)); free(n);
                o.n("id", id).str("k", w[2]).str("n", w[3]);
            }
            else if (c == "add") { int n = num(w[2]); LoopbackCounter &x = *cs[num(w[1])]; if (n == 1) { if (at_ % 2) ++x; else x++; } else if (n == -1) { if (at_ % 2) --x; else x--; } else x.value(n); o.n("id", num(w[1])).n("v", n); }
            else if (c == "val") { cs[num(w[1])]->value(num(w[2])); o.n("id", num(w[1])).n("v", num(w[2])); }
            else if (c == "copy") { int i = num(w[1]), j = num(w[2]); LoopbackCounter *x = new LoopbackCounter(*cs[i]); delete cs[j]; cs[j] = x; o.n("id", i).n("to", j); }
            else if (c == "assign") { *cs[num(w[2])] = *cs[num(w[1])]; o.n("id", num(w[1])).n("to", num(w[2])); }
            else if (c == "del") { delete cs[num(w[1])]; cs.erase(num(w[1])); o.n("id", num(w[1])); }
            else if (c == "agg") { o.n("id", num(w[1])).n("v", cs[num(w[1])]->getAggregate()); }
            else if (c == "sample") LoopbackCounter::forceUpdates();
            else if (c == "tick") { o.n("by", num(w[1])); advance(num(w[1])); }
            else if (c == "req")
            {
                // req <code>: one request; 0: one that is none
                int fd = dial(httpPort), code = 0;
                std::string r = talk(fd, w[1] == "0" ? "nonsense\r\n\r\n" : "GET /" + w[1] + " HTTP/1.1\r\nHost: x\r\n\r\n", true);
                sscanf(r.c_str(), "HTTP/1.1 %d", &code); close(fd); settle();
                o.n("code", code).n("asked", num(w[1]));
            }
            else if (c == "stats")
            {
                if (adminFd < 0) { adminFd = dial(adminPort); settle(); }
                std::string r = talk(adminFd, "stats\r\n", false); int p = -1, cur = -1;
                size_t x = r.find("http.port="); if (x != r.npos) p = atoi(r.c_str() + x + 10);
                x = r.find("http.current="); if (x != r.npos) cur = atoi(r.c_str() + x + 13);
                o.b("port", p == httpPort).n("cur", cur);
            }
            else if (c == "held")
            {
                // held <n>: the status while n requests are under way
                std::vector<int> fs;
                for (int i = 0; i < num(w[1]); ++i) { fs.push_back(dial(httpPort)); size_t n = heard.size(); for (int k = 0; k < 10000 && heard.size() == n; ++k) { if (!poll1()) usleep(200); } }
                if (adminFd < 0) { adminFd = dial(adminPort); settle(); }
                std::string r = talk(adminFd, "stats\r\n", false); int cur = -1;
                size_t x = r.find("http.current="); if (x != r.npos) cur = atoi(r.c_str() + x + 13);
                for (size_t i = 0; i != fs.size(); ++i) { talk(fs[i], "GET /200 HTTP/1.1\r\nHost: x\r\n\r\n", true); close(fs[i]); settle(); }
                o.n("n", num(w[1])).n("cur", cur);
            }
            else if (c == "burst")
            {
                // burst <samplers> <id:n:d> ...
                std::vector<Adder> as; std::string s("[");
                for (size_t i = 2; i < w.size(); ++i)
                {
                    Adder a; int id; sscanf(w[i].c_str(), "%d:%d:%d", &id, &a.n, &a.d); a.c = cs[id]; a.r = i * 7919 + at_; as.push_back(a);
                    char b[64]; snprintf(b, sizeof b, "%s[%d,%d,%d]", i > 2 ? "," : "", id, a.n, a.d); s += b;
                }
                int ns = num(w[1]); boost::barrier g(as.size() + ns); boost::thread_group add, sam; stopping = false;
                for (int i = 0; i < ns; ++i) sam.create_thread(boost::bind(sampler, &g, i * 31 + at_));
                for (size_t i = 0; i != as.size(); ++i) add.create_thread(boost::bind(&Adder::go, &as[i], &g));
                add.join_all(); stopping = true; sam.join_all();
                LoopbackCounter::forceUpdates();
                o.raw("adds", s + "]");
            }
            else { o.str("unknown", c); }
        }
        catch (std::exception const &x) { o.str("threw_", x.what()); }
        o.raw("heard", "[" + heard + "]");
        emit(o);
    }
}
int main()
{
    char t[] = "/tmp/vploopXXXXXX"; dir = mkdtemp(t);
    LogConfig::setOutputFile((dir + "/log").c_str()); LogConfig::setLogLevel(LL_Error);
    signal(SIGPIPE, SIG_IGN);
    char ab[32]; int pid = getpid(); snprintf(ab, sizeof ab, "127.%d.%d.%d", 96 + pid % 31, (pid >> 8) % 250, pid % 250 + 1); addr = ab;
    std::vector<std::vector<std::string> > hs; std::string l;
    while (std::getline(std::cin, l)) { if (l == "reset") hs.push_back(std::vector<std::string>()); if (hs.size()) hs.back().push_back(l); }
    int rc = 0;
    for (size_t i = 0; i != hs.size() && !rc; ++i)
    {
        std::cout.flush();
        pid_t p = fork();
        if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(120); run(hs[i]); std::cout.flush(); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 1;
    }
    std::string rm("rm -rf " + dir);
    if (dir.compare(0, 11, "/tmp/vploop") == 0 && system(rm.c_str())) {}
    _exit(rc);
}
