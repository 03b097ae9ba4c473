// Executes programs on the real HttpServer, RequestInFlight, StatServer and PromExporter, with a store whose
// contents the program states, in virtual time.
#include "../daemon/StatServer.h"
#include "../daemon/HttpServer.h"
#include "../daemon/RequestInFlight.h"
#include "../daemon/PromExporter.h"
#include "../daemon/IComplete.h"
#include "../daemon/Settings.h"
#include "../daemon/Logs.h"
#include <istat/istattime.h>
#include <istat/strfunc.h>
#include <istat/Log.h>
#include <istat/Env.h>
#include "drv_util.h"
#include <boost/make_shared.hpp>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <boost/iostreams/filtering_stream.hpp>
#include <boost/iostreams/filter/gzip.hpp>
#include <boost/iostreams/filter/zlib.hpp>
#include <boost/iostreams/copy.hpp>
#include <sys/time.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <set>
#include <map>

using namespace istat;

static volatile long long vsec = 1000000000;
static volatile long long fsec = 1000000200;
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { tv->tv_sec = vsec; tv->tv_usec = 0; return 0; }
extern "C" time_t time(time_t *t) throw() { if (t) *t = fsec; return fsec; }
static FakeTime *ft = new FakeTime(1000000200);

// ---- the store
typedef boost::asio::strand<boost::asio::io_service::executor_type> Strand;
struct Counter : public IStatCounter
{
    std::vector<Bucket> held; bool broken; Counter() : broken(false) {}
    bool isCollated() const { return false; }
    void record(time_t, double, double, double, double, size_t) {}
    void flush(boost::shared_ptr<IStatStore> const &) {}
    void forceFlush(boost::shared_ptr<IStatStore> const &) {}
    void maybeShiftCollated(time_t) {}
    void purge(std::string) {}
    //  buckets of ten seconds if that many fit, else of a minute; a trailing one holds a thousand more
    void select(time_t start, time_t end, bool trailing, std::vector<Bucket> &out, time_t &ns, time_t &ne, time_t &interval, size_t most)
    {
        if (broken) throw std::runtime_error("cannot be read");
        interval = size_t((end - start) / 10) <= most ? 10 : 60;
        ns = start - start % interval; ne = end - end % interval;
        for (size_t i = 0; i != held.size(); ++i)
            if (held[i].time() >= ns && held[i].time() < ne)
            {
                Bucket const &b = held[i];
                out.push_back(trailing ? Bucket(b.sum() + 1000, b.sumSq(), b.min(), b.max(), b.count(), b.time()) : b);
            }
        usleep(50);
    }
};
static boost::asio::io_service *svc = 0;
struct Store : public NullStatStore
{
    std::map<std::string, boost::shared_ptr<Counter> > named;
    std::vector<std::string> listed;
    std::map<Counter *, Strand *> strands;
    void find(std::string const &n, boost::shared_ptr<IStatCounter> &c, Strand *&s)
    {
        std::map<std::string, boost::shared_ptr<Counter> >::iterator i = named.find(n);
        s = 0; c.reset();
        if (i != named.end()) { c = i->second; s = strands[i->second.get()]; }
    }
    void listMatchingCounters(std::string const &p, std::list<std::pair<std::string, CounterResponse> > &o)
    {
        for (size_t i = 0; i != listed.size(); ++i)
            if (p == "*" || p == listed[i])
                o.push_back(std::make_pair(listed[i], CounterResponse(i % 2 == 0, i % 3 == 0 ? CounterResponse::DisplayTypeGauge : CounterResponse::DisplayTypeEvent)));
    }
};
static Store *theStore;
static boost::shared_ptr<IStatStore> *store = 0;
static boost::shared_ptr<IPromExporter> *prom = 0;
static StatServer *srv = 0;
static HttpServer *http = 0, *promd = 0;
static boost::asio::deadline_timer *dummy = 0;
static std::string dir, filesDir, addr;
static int hist = 0, statPort, httpPort, promPort, agentFd = -1;

static sockaddr_in at(int port)
{
    sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr(addr.c_str());
    return a;
}
static int freePort()
{
    static std::set<int> given;
    for (;;)
    {
        int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a = at(0); socklen_t l = sizeof a;
        if (bind(fd, (sockaddr *)&a, sizeof a)) { perror("bind"); _exit(3); }
        getsockname(fd, (sockaddr *)&a, &l);
        int u = socket(AF_INET, SOCK_DGRAM, 0); bool ok = !bind(u, (sockaddr *)&a, sizeof a);
        close(fd); close(u);
        if (ok && given.insert(ntohs(a.sin_port)).second) return ntohs(a.sin_port);
    }
}
static int dial(int port)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    sockaddr_in a = at(port);
    if (connect(fd, (sockaddr *)&a, sizeof a)) { perror("connect"); _exit(3); }
    return fd;
}
// as the daemon wires them
static void startRequest(HttpRequestHolder const &req)
{
    boost::shared_ptr<RequestInFlight> rif = boost::make_shared<RequestInFlight>(req.p_, srv, filesDir);
    srv->service().post(boost::bind(&RequestInFlight::go, rif));
}
static void onHttp(HttpRequestHolder const &req)
{
    req->onHeader_.connect(boost::bind(startRequest, req));
    req->onError_.connect(boost::bind(startRequest, req));
}
static void startProm(HttpRequestHolder const &req)
{
    boost::shared_ptr<RequestInFlight> rif = boost::make_shared<RequestInFlight>(req.p_, srv);
    srv->service().post(boost::bind(&RequestInFlight::goProm, rif));
}
static void onProm(HttpRequestHolder const &req)
{
    req->onHeader_.connect(boost::bind(startProm, req));
    req->onError_.connect(boost::bind(startProm, req));
}
static std::set<int> mine;
static bool unread()
{
    for (int fd = 3; fd < 128; ++fd)
    {
        if (mine.count(fd)) continue;
        int t, acc; socklen_t l = sizeof t;
        if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) || t != SOCK_STREAM) continue;
        l = sizeof acc; getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &acc, &l);
        int n = 0;
        if (!acc && ioctl(fd, FIONREAD, &n) == 0 && n > 0) return true;
    }
    return false;
}
static void poll1() { svc->reset(); for (;;) { try { while (svc->poll()) ; return; } catch (std::exception const &x) { std::cerr << "caught " << x.what() << std::endl; } } }
struct Ask { int port; std::string req; std::vector<std::string> pieces; int fd; size_t next; std::string got; bool ended; };
static bool pump(std::vector<Ask> &as)
{
    bool did = false; static char buf[65536];
    for (size_t i = 0; i != as.size(); ++i)
    {
        if (as[i].ended || as[i].fd < 0) continue;
        ssize_t r;
        while ((r = recv(as[i].fd, buf, sizeof buf, MSG_DONTWAIT)) > 0) { as[i].got.append(buf, r); did = true; }
        if (r == 0 || (errno != EAGAIN && errno != EINTR)) { as[i].ended = true; did = true; }
    }
    return did;
}
static std::vector<Ask> none;
static void settle(std::vector<Ask> &as = none)
{
    int quiet = 0, rounds = 0;
    while (quiet < 2)
    {
        svc->reset(); bool did = false;
        try { did = svc->poll() > 0; } catch (std::exception const &x) { std::cerr << "caught " << x.what() << std::endl; did = true; }
        did |= pump(as);
        if (!did && unread()) { usleep(200); did = ++rounds < 200; }
        quiet = did ? 0 : quiet + 1;
    }
}
static bool dummyFired;
static void fired(boost::system::error_code const &) { dummyFired = true; }
static void advance(long long v)
{
    vsec += v; fsec += v; ft->set(fsec);
    dummy->expires_from_now(boost::posix_time::seconds(-100000000));
    dummyFired = false;
    dummy->async_wait(boost::bind(fired, boost::asio::placeholders::error));
    for (int i = 0; i < 20000 && !dummyFired; ++i) { usleep(100); poll1(); }
    settle();
}
static bool sendPiece(int fd, std::string const &p)
{
    if (p == "F") { shutdown(fd, SHUT_WR); return true; }
    std::string d = p[0] == '*' ? std::string(atoi(p.c_str() + 1), 'a') : unhex(p);
    size_t o = 0; int stuck = 0;
    while (o < d.size())
    {
        ssize_t r = send(fd, d.data() + o, d.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (r > 0) { o += r; continue; }
        if (errno != EAGAIN || ++stuck > 5000) return false;
        usleep(200);
        return false;
    }
    return true;
}

// ---- replies, taken apart
static std::string value(double d) { return jnum(d); }
struct Parser
{
    std::string const &s; size_t p; bool ok;
    Parser(std::string const &x) : s(x), p(0), ok(true) {}
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) ++p; }
    char c() { return p < s.size() ? s[p] : 0; }
    std::string str()
    {
        std::string o; ++p;
        for (; p < s.size() && s[p] != '"'; ++p)
        {
            if ((unsigned char)s[p] < 32) ok = false;
            if (s[p] != '\\') { o += s[p]; continue; }
            ++p; char x = c();
            if (x == 'n') o += '\n'; else if (x == 't') o += '\t'; else if (x == 'r') o += '\r'; else if (x == 'b') o += '\b'; else if (x == 'f') o += '\f';
            else if (x == '"' || x == '\\' || x == '/') o += x;
            else if (x == 'u' && p + 4 < s.size()) { o += (char)strtol(s.substr(p + 1, 4).c_str(), 0, 16); p += 4; }
            else ok = false;
        }
        if (c() != '"') ok = false;
        ++p; return o;
    }
    //  objects become sequences of a key and a value each, so that every key shows
    std::string val()
    {
        ws();
        if (c() == '{' || c() == '[')
        {
            bool obj = c() == '{'; char e = obj ? '}' : ']'; ++p; std::string o("["); bool first = true;
            for (;;)
            {
                ws();
                if (c() == e && first) { ++p; break; }
                if (!first) { if (c() == e) { ++p; break; } if (c() != ',') { ok = false; break; } ++p; ws(); o += ","; }
                first = false;
                if (obj)
                {
                    if (c() != '"') { ok = false; break; }
                    std::string k = str(); ws(); if (c() != ':') { ok = false; break; } ++p;
                    o += "{\"k\":" + jstr(k) + ",\"v\":" + val() + "}";
                }
                else o += val();
                if (!ok) break;
            }
            return o + "]";
        }
        if (c() == '"') return jstr(str());
        if (!s.compare(p, 4, "true")) { p += 4; return "true"; }
        if (!s.compare(p, 5, "false")) { p += 5; return "false"; }
        if (!s.compare(p, 4, "null")) { p += 4; return "\"null\""; }
        char *e; double d = strtod(s.c_str() + p, &e);
        if (e == s.c_str() + p || isalpha(c())) { ok = false; return "0"; }
        p = e - s.c_str(); return value(d);
    }
};
static std::string metricLine(std::string const &l)
{
    Obj o;
    if (l.compare(0, 7, "# TYPE ") == 0)
    {
        Words w = words(l);
        if (w.size() == 4) return o.str("t", "type").str("n", w[2]).str("k", w[3]).done();
        return o.str("t", "bad").str("l", l).done();
    }
    size_t p = 0;
    while (p < l.size() && (isalnum((unsigned char)l[p]) || l[p] == '_' || l[p] == ':')) ++p;
    std::string name(l.substr(0, p)); bool ok = p > 0 && !isdigit((unsigned char)l[0]);
    std::map<std::string, std::string> labels;
    if (p < l.size() && l[p] == '{')
    {
        ++p;
        while (ok && p < l.size() && l[p] != '}')
        {
            size_t b = p; while (p < l.size() && (isalnum((unsigned char)l[p]) || l[p] == '_')) ++p;
            std::string k(l.substr(b, p - b)), v;
            if (k.empty() || p + 1 >= l.size() || l[p] != '=' || l[p + 1] != '"') { ok = false; break; }
            for (p += 2; p < l.size() && l[p] != '"'; ++p)
            {
                if (l[p] == '\\') { ++p; if (p >= l.size() || (l[p] != '\\' && l[p] != '"' && l[p] != 'n')) { ok = false; break; } }
                v += l[p];
            }
            if (p >= l.size()) { ok = false; break; }
            ++p;
            if (labels.count(k)) ok = false;
            labels[k] = v;
            if (p < l.size() && l[p] == ',') ++p;
        }
        if (p >= l.size()) ok = false; else ++p;
    }
    Words w = words(p < l.size() ? l.substr(p) : std::string());
    char *e;
    if (!ok || w.size() != 2) return Obj().str("t", "bad").str("l", l).done();
    double v = strtod(w[0].c_str(), &e); if (*e) ok = false;
    long long ts = strtoll(w[1].c_str(), &e, 10); if (*e) ok = false;
    if (!ok) return Obj().str("t", "bad").str("l", l).done();
    std::string ls("[");
    for (std::map<std::string, std::string>::iterator i = labels.begin(); i != labels.end(); ++i) ls += (ls.size() > 1 ? "," : "") + std::string("[") + jstr(i->first) + "," + jstr(i->second) + "]";
    return o.str("t", "metric").str("n", name).raw("l", ls + "]").raw("v", value(v)).raw("s", ts % 1000 ? jstr(w[1]) : jnum(ts / 1000)).done();
}
static bool inflated(std::string const &enc, std::string &body)
{
    try
    {
        boost::iostreams::filtering_istream in; std::stringstream src(body), dst;
        if (enc == "gzip") in.push(boost::iostreams::gzip_decompressor()); else in.push(boost::iostreams::zlib_decompressor());
        in.push(src); boost::iostreams::copy(in, dst); body = dst.str(); return true;
    }
    catch (std::exception const &) { return false; }
}
static std::string reply(Ask &a)
{
    Obj o; o.b("ended", a.ended).n("bytes", a.got.size());
    size_t h = a.got.find("\r\n\r\n");
    if (h == std::string::npos) return o.n("code", 0).b("wf", a.got.empty()).done();
    std::string head(a.got.substr(0, h + 2)), body(a.got.substr(h + 4)), enc("none"), type; long long len = -1; int code = 0; bool wf = true; std::map<std::string, int> seen;
    if (sscanf(head.c_str(), "HTTP/1.1 %d ", &code) != 1) wf = false;
    for (size_t b = head.find("\r\n") + 2; b < head.size();)
    {
        size_t e = head.find("\r\n", b), c = head.find(": ", b);
        if (c == std::string::npos || c > e) { wf = false; break; }
        std::string k(head.substr(b, c - b)), v(head.substr(c + 2, e - c - 2));
        for (size_t i = 0; i != k.size(); ++i) k[i] = tolower(k[i]);
        if (seen[k]++) wf = false;
        if (k == "content-length") len = atoll(v.c_str());
        if (k == "content-type") type = v;
        if (k == "content-encoding") enc = v;
        b = e + 2;
    }
    if (len != (long long)body.size() && !(len < 0 && body.empty())) wf = false;
    if (enc != "none" && body.size() && !inflated(enc, body)) wf = false;
    o.n("code", code).str("enc", enc).str("type", type);
    if (a.port == promPort && code == 200)
    {
        std::string ls("["); size_t b = 0, e;
        while ((e = body.find('\n', b)) != std::string::npos) { ls += (ls.size() > 1 ? "," : "") + metricLine(body.substr(b, e - b)); b = e + 1; }
        if (b != body.size()) wf = false;
        o.raw("m", ls + "]");
    }
    else if (type == "text/csv")
    {
        std::string rows("["); size_t b = 0, e; int n = 0;
        while ((e = body.find("\r\n", b)) != std::string::npos)
        {
            std::string l(body.substr(b, e - b)); b = e + 2;
            if (n++ == 0) { o.str("head", l); continue; }
            std::vector<std::string> f; size_t x = 0, y; while ((y = l.find(',', x)) != std::string::npos) { f.push_back(l.substr(x, y - x)); x = y + 1; } f.push_back(l.substr(x));
            rows += n > 2 ? ",[" : "[";
            for (size_t i = 1; i < f.size(); ++i) { char *q; double d = strtod(f[i].c_str(), &q); rows += (i > 1 ? "," : "") + (*q || f[i].empty() ? jstr(f[i]) : value(d)); }
            rows += "]";
        }
        if (b != body.size()) wf = false;
        o.raw("rows", rows + "]");
    }
    else if (type == "application/json" && body.size())
    {
        Parser p(body); std::string v = p.val(); p.ws();
        if (!p.ok || p.p != body.size()) { wf = false; o.str("text", body.substr(0, 300)); }
        else o.raw("body", v);
    }
    else o.str("text", body.size() > 400 ? body.substr(0, 400) : body);
    return o.b("wf", wf).done();
}
static void client(Ask *a, boost::barrier *gate, unsigned r)
{
    gate->wait();
    a->fd = dial(a->port);
    for (size_t i = 0; i != a->pieces.size(); ++i)
    {
        if (a->pieces[i][0] == '*') { std::string d(atoi(a->pieces[i].c_str() + 1), 'a'); if (send(a->fd, d.data(), d.size(), MSG_NOSIGNAL) < 0) break; }
        else if (!sendPiece(a->fd, a->pieces[i])) break;
        r = r * 1103515245 + 12345; if (r / 65536 % 3 == 0) usleep(r / 65536 % 200);
    }
    struct pollfd p; char buf[65536]; p.fd = a->fd; p.events = POLLIN;
    while (poll(&p, 1, 3000) > 0)
    {
        ssize_t n = recv(a->fd, buf, sizeof buf, 0);
        if (n <= 0) { a->ended = true; break; }
        a->got.append(buf, n);
    }
}
static void serve() { for (;;) { try { svc->run(); return; } catch (std::exception const &x) { std::cerr << "caught " << x.what() << std::endl; } } }
static std::string feedText; 
static void feeder(std::string text, boost::barrier *gate, unsigned r)
{
    int fd = dial(statPort); gate->wait();
    size_t b = 0, e;
    while ((e = text.find('\n', b)) != std::string::npos)
    {
        send(fd, text.data() + b, e + 1 - b, MSG_NOSIGNAL); b = e + 1;
        r = r * 1103515245 + 12345; if (r / 65536 % 4 == 0) usleep(r / 65536 % 100);
    }
    shutdown(fd, SHUT_WR);
    char c; struct pollfd p; p.fd = fd; p.events = POLLIN; if (poll(&p, 1, 5000) > 0) recv(fd, &c, 1, 0);
    close(fd);
}
static void ask(Obj &o, Words const &w)
{
    std::vector<Ask> as; std::vector<std::string> feeds; std::string fed("[");
    for (size_t i = 2; i < w.size(); ++i)
    {
        std::vector<std::string> f; size_t x = 0, y; while ((y = w[i].find(';', x)) != std::string::npos) { f.push_back(w[i].substr(x, y - x)); x = y + 1; } f.push_back(w[i].substr(x));
        if (f[0] == "feed") { feeds.push_back(unhex(f[1])); fed += (fed.size() > 1 ? "," : "") + unhex(f[2]); continue; }
        Ask a; a.port = f[0] == "p" ? promPort : httpPort; a.req = unhex(f[1]); a.fd = -1; a.next = 0; a.ended = false;
        for (x = 0; (y = f[2].find(',', x)) != std::string::npos; x = y + 1) a.pieces.push_back(f[2].substr(x, y - x));
        a.pieces.push_back(f[2].substr(x));
        as.push_back(a);
    }
    int threads = num(w[1]);
    if (!threads)
    {
        for (size_t i = 0; i != as.size(); ++i) { as[i].fd = dial(as[i].port); mine.insert(as[i].fd); }
        bool more = true;
        while (more)
        {
            more = false;
            for (size_t i = 0; i != as.size(); ++i)
                if (as[i].next < as[i].pieces.size() && !as[i].ended)
                {
                    std::string const &p = as[i].pieces[as[i].next++]; more = true;
                    if (p[0] == '*')
                    {
                        //  as long as it is read, in parts
                        size_t left = atoi(p.c_str() + 1); int stuck = 0;
                        std::string part(32768, 'a');
                        while (left && stuck < 50 && !as[i].ended)
                        {
                            ssize_t r = send(as[i].fd, part.data(), std::min(left, part.size()), MSG_NOSIGNAL | MSG_DONTWAIT);
                            if (r > 0) { left -= r; stuck = 0; } else if (errno == EAGAIN) { ++stuck; usleep(200); } else break;
                            poll1(); pump(as);
                        }
                    }
                    else sendPiece(as[i].fd, p);
                    settle(as);
                }
        }
        settle(as);
    }
    else
    {
        boost::barrier gate(as.size() + feeds.size());
        boost::asio::io_service::work *work = new boost::asio::io_service::work(*svc);
        svc->reset();
        boost::thread_group servers, clients;
        for (int i = 0; i < threads; ++i) servers.create_thread(serve);
        for (size_t i = 0; i != as.size(); ++i) clients.create_thread(boost::bind(client, &as[i], &gate, hist * 31 + i));
        for (size_t i = 0; i != feeds.size(); ++i) clients.create_thread(boost::bind(feeder, feeds[i], &gate, hist * 17 + i));
        clients.join_all();
        delete work; svc->stop(); servers.join_all(); svc->reset();
        for (size_t i = 0; i != as.size(); ++i) if (as[i].fd >= 0) mine.insert(as[i].fd);
        settle(as);
    }
    std::string rs("[");
    for (size_t i = 0; i != as.size(); ++i) { rs += (i ? ",{\"q\":" : "{\"q\":") + as[i].req + ",\"a\":" + reply(as[i]) + "}"; if (as[i].fd >= 0) { close(as[i].fd); mine.erase(as[i].fd); } }
    settle();
    o.n("th", threads).raw("rs", rs + "]").raw("fed", fed + "]");
}
static void run(std::vector<std::string> const &todo)
{
    for (size_t at_ = 0; at_ != todo.size(); ++at_)
    {
        Words w = words(todo[at_]);
        if (w.empty()) continue;
        std::string const &c = w[0];
        Obj o; o.str("e", c);
        try
        {
            if (c == "reset") { emit(o); continue; }
            else if (c == "new")
            {
                // new <prom 0/1> <store 0/1>
                svc = new boost::asio::io_service(); dummy = new boost::asio::deadline_timer(*svc);
                statPort = freePort(); httpPort = freePort(); promPort = freePort();
                mkdir(filesDir.c_str(), 0755); mkdir((dir + "/settings").c_str(), 0755);
                spew(filesDir + "/index.html", "the index"); spew(filesDir + "/a.txt", "file a"); spew(filesDir + "/sub.b.txt", "file b"); spew(filesDir + "/empty.js", "");
                mkdir((filesDir + "/sub").c_str(), 0755); spew(filesDir + "/sub/b.txt", "not for you"); spew(dir + "/secret", "secret"); spew(filesDir + "/favicon.ico", "icon");
                Blacklist::Configuration bc; bc.path = ""; bc.period = 30000;
                store = new boost::shared_ptr<IStatStore>();
                theStore = new Store(); if (w[2] == "1") store->reset(theStore);
                prom = new boost::shared_ptr<IPromExporter>(w[1] == "1" ? (IPromExporter *)new PromExporter(*svc) : (IPromExporter *)new NullPromExporter());
                //  a server without a store is for forwarding: somebody who listens
                std::string agent;
                if (w[2] != "1")
                {
                    int up = freePort(), ls = socket(AF_INET, SOCK_STREAM, 0), one = 1; sockaddr_in la = at(up);
                    setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
                    if (bind(ls, (sockaddr *)&la, sizeof la) || listen(ls, 16)) { perror("listen"); _exit(3); }
                    char b[96]; snprintf(b, sizeof b, "%s:%d", addr.c_str(), up); agent = b;
                }
                srv = new StatServer(statPort, addr, agent, agent.size() ? 1 : 0, 10000000, bc, *svc, *store, *prom, 256, 64);
                http = new HttpServer(httpPort, *svc, addr, 64); http->onRequest_.connect(boost::bind(onHttp, boost::placeholders::_1));
                promd = new HttpServer(promPort, *svc, addr, 64); promd->onRequest_.connect(boost::bind(onProm, boost::placeholders::_1));
                settle();
                o.b("prom", w[1] == "1").b("store", w[2] == "1");
            }
            else if (c == "ctr")
            {
                // ctr <broken 0/1> <name hex,...> <t:count:sum:sq:min:max> ...
                boost::shared_ptr<Counter> k(new Counter()); k->broken = w[1] == "1";
                std::string ns("["), bs("[");
                for (size_t i = 3; i < w.size(); ++i)
                {
                    long long t, n, s, q, mn, mx; sscanf(w[i].c_str(), "%lld:%lld:%lld:%lld:%lld:%lld", &t, &n, &s, &q, &mn, &mx);
                    k->held.push_back(Bucket(s, q, mn, mx, n, t));
                    char b[200]; snprintf(b, sizeof b, "%s[%lld,%lld,%lld,%lld,%lld,%lld]", i > 3 ? "," : "", t, n, s, q, mn, mx); bs += b;
                }
                size_t x = 0; std::string l(w[2] + ",");
                for (size_t y; (y = l.find(',', x)) != std::string::npos; x = y + 1)
                {
                    std::string n(unhex(l.substr(x, y - x)));
                    theStore->named[n] = k; theStore->listed.push_back(n); ns += (x ? "," : "") + jstr(n);
                }
                theStore->strands[k.get()] = new Strand(svc->get_executor());
                o.b("broken", k->broken).raw("names", ns + "]").raw("held", bs + "]");
            }
            else if (c == "agent" || c == "feed")
            {
                // lines of a client that stays (agent), or leaves (feed)
                int fd = dial(statPort); mine.insert(fd);
                std::string d(unhex(w[1])); sendPiece(fd, w[1]); settle();
                if (c == "feed") { close(fd); mine.erase(fd); settle(); o.raw("x", unhex(w[2])); }
                else o.raw("x", unhex(w[2]));
            }
            else if (c == "tick") { advance(num(w[1])); o.n("by", num(w[1])); }
            else if (c == "ask") { if (w.size() > 2) ask(o, w); else o.raw("rs", "[]").n("th", 0); }
            else { o.str("unknown", c); }
        }
        catch (std::exception const &x) { o.str("threw_", x.what()); }
        o.n("now", fsec);
        emit(o);
    }
}
int main()
{
    char t[] = "/tmp/vphttpXXXXXX"; dir = mkdtemp(t); filesDir = dir + "/files";
    LogConfig::setOutputFile((dir + "/log").c_str()); LogConfig::setLogLevel(LL_Error);
    signal(SIGPIPE, SIG_IGN);
    char ab[32]; int pid = getpid(); snprintf(ab, sizeof ab, "127.%d.%d.%d", 96 + pid % 31, (pid >> 8) % 250, pid % 250 + 1); addr = ab;
    std::vector<std::vector<std::string> > hs; std::string l;
    while (std::getline(std::cin, l)) { if (l == "reset") hs.push_back(std::vector<std::string>()); if (hs.size()) hs.back().push_back(l); }
    int rc = 0;
    for (size_t i = 0; i != hs.size() && !rc; ++i)
    {
        hist = i; std::cout.flush();
        pid_t p = fork();
        if (!p)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(120);
            run(hs[i]); std::cout.flush(); _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 1;
    }
    std::string rm("rm -rf " + dir);
    if (dir.compare(0, 11, "/tmp/vphttp") == 0 && system(rm.c_str())) {}
    _exit(rc);
}
