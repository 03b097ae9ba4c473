// Executes programs on the real StatServer (with its connections, datagram socket, blacklist, agent registry
// and forwarding) in virtual time, and prints what happened.
#include "../daemon/StatServer.h"
#include "../daemon/IComplete.h"
#include "../daemon/Logs.h"
#include <istat/istattime.h>
#include <istat/Log.h>
#include "drv_util.h"
#include <boost/make_shared.hpp>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <sys/time.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <linux/sockios.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <set>
#include <map>

using namespace istat;

// ---- virtual time: what timers see, and what time() sees
static volatile long long vsec = 1000000000;
static volatile long long fsec = 1000000200;
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { tv->tv_sec = vsec; tv->tv_usec = 0; return 0; }
extern "C" time_t time(time_t *t) throw() { if (t) *t = fsec; return fsec; }
static FakeTime *ft = new FakeTime(1000000200);
static void setNow(long long t) { fsec = t; ft->set(t); }

static std::string codes(std::string const &s)
{
    std::string o("[");
    for (size_t i = 0; i != s.size(); ++i) { if (i) o += ","; o += jnum((unsigned char)s[i]); }
    return o + "]";
}
static std::string val(double d) { return jnum(d * 16); }
static std::string tim(long long t) { return (t > 2000000000LL || t < -2000000000LL) ? "2147483647" : jnum(t); }
// squares of large values do not fit TLC's integers
static std::string sq(double d) { return d * 16 < 16000000 ? val(d) : std::string("2147483647"); }

// ---- a store that only writes down what it is told
static boost::mutex recMutex;
static std::string recs;
struct RecStore : public NullStatStore
{
    void put(std::string const &s) { boost::mutex::scoped_lock l(recMutex); recs += (recs.size() ? "," : "") + s; }
    void record(std::string const &c, double v) { put(Obj().n("a", 2).raw("n", codes(c)).raw("v", val(v)).done()); }
    void record(std::string const &c, time_t t, double v) { put(Obj().n("a", 3).raw("n", codes(c)).raw("t", tim(t)).raw("v", val(v)).done()); }
    void record(std::string const &c, time_t t, double v, double q, double mn, double mx, size_t n)
    {
        put(Obj().n("a", 7).raw("n", codes(c)).raw("t", tim(t)).raw("v", val(v)).raw("q", sq(q)).raw("mn", val(mn)).raw("mx", val(mx)).raw("c", tim(n)).done());
    }
};

static std::string dir;
static int hist = 0;
static std::string addr;
static int statPort = 0, upPort = 0;
static boost::asio::io_service *svc = 0;
static boost::asio::deadline_timer *dummy = 0;
static StatServer *srv = 0;
static boost::shared_ptr<IStatStore> *store = 0;
static boost::shared_ptr<IPromExporter> *prom = 0;
static boost::shared_ptr<IStatStore> nostore;
static int upListen = -1;
static int udpSock = -1;
struct Up { int fd; std::string buf; };
static std::map<int, Up> ups; static int upNo = 0;
static std::map<int, int> clients;      // number -> fd
static std::map<int, int> ports;        // local port -> number
static std::string upOut;               // what arrived upstream since the last event
static std::string answered;            // flush requests answered since
static std::string closedOut;
static std::string upGone;
static bool hasUp = false;

static sockaddr_in at(int port)
{
    sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr(addr.c_str());
    return a;
}
static int portOf(int fd)
{
    sockaddr_in a; socklen_t l = sizeof a; getsockname(fd, (sockaddr *)&a, &l); return ntohs(a.sin_port);
}
static int bound(int type, int port)
{
    int fd = socket(AF_INET, type, 0);
    int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a = at(port);
    if (bind(fd, (sockaddr *)&a, sizeof a)) { close(fd); return -1; }
    return fd;
}
static int freePort()
{
    for (;;)
    {
        int a = bound(SOCK_STREAM, 0); if (a < 0) { perror("bind"); _exit(3); }
        int p = portOf(a);
        int b = bound(SOCK_DGRAM, p);
        close(a); if (b < 0) continue;
        close(b); return p;
    }
}
static void listenUp()
{
    upListen = bound(SOCK_STREAM, upPort);
    if (upListen < 0 || listen(upListen, 64)) { perror("listen"); _exit(3); }
    fcntl(upListen, F_SETFL, O_NONBLOCK);
}
struct Done : public IComplete
{
    int id; Done(int i) : id(i) {}
    void on_complete() { boost::mutex::scoped_lock l(recMutex); if (id >= 0) answered += (answered.size() ? "," : "") + jnum(id); delete this; }
};

// a line as it came in, taken apart
static bool dbl(std::string const &s, double &d)
{
    if (s.empty() || isspace(s[0])) return false;
    char *e; d = strtod(s.c_str(), &e); return *e == 0;
}
static std::string upLine(std::string l, bool whole)
{
    Obj o;
    o.b("whole", whole);
    std::string body(l);
    if (body.size() && body[body.size() - 1] == '\r') body.erase(body.size() - 1);
    Words w = words(body);
    std::string back; for (size_t i = 0; i != w.size(); ++i) back += (i ? " " : "") + w[i];
    double d[6]; bool ok = back == body && (w.size() == 3 || w.size() == 7) && body != l;
    for (size_t i = 1; ok && i != w.size(); ++i) ok = dbl(w[i], d[i - 1]);
    if (ok && w[0][0] != '#')
    {
        o.str("k", w.size() == 3 ? "e" : "g").raw("n", codes(w[0])).raw("t", tim(atoll(w[1].c_str()))).raw("v", val(d[1]));
        if (w.size() == 7) o.raw("q", sq(d[2])).raw("mn", val(d[3])).raw("mx", val(d[4])).raw("c", tim((long long)d[5]));
    }
    else o.str("k", "m").raw("l", codes(l));
    return o.done();
}
static bool pumpUp()
{
    bool did = false;
    if (upListen >= 0)
    {
        int fd;
        while ((fd = accept4(upListen, 0, 0, SOCK_NONBLOCK)) >= 0) { Up u; u.fd = fd; ups[upNo++] = u; did = true; }
    }
    for (std::map<int, Up>::iterator i = ups.begin(); i != ups.end(); ++i)
    {
        if (i->second.fd < 0) continue;
        static char buf[65536];
        ssize_t r;
        while ((r = recv(i->second.fd, buf, sizeof buf, 0)) > 0) { i->second.buf.append(buf, r); did = true; }
        size_t p;
        while ((p = i->second.buf.find('\n')) != std::string::npos)
        {
            std::string l(i->second.buf.substr(0, p)); i->second.buf.erase(0, p + 1);
            upOut += (upOut.size() ? "," : "") + Obj().n("c", i->first).raw("x", upLine(l, true)).done();
        }
        if (r == 0 || (r < 0 && errno != EAGAIN))
        {
            close(i->second.fd); i->second.fd = -1; did = true;
            upGone += (upGone.size() ? "," : "") + jnum(i->first);
            if (i->second.buf.size()) upOut += (upOut.size() ? "," : "") + Obj().n("c", i->first).raw("x", upLine(i->second.buf, false)).done();
        }
    }
    return did;
}
static bool unread()
{
    for (int fd = 3; fd < 64; ++fd)
    {
        int t; socklen_t l = sizeof t;
        if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l)) continue;
        int acc; l = sizeof acc;
        getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &acc, &l);
        if (acc) continue;
        bool mine = fd == udpSock;
        for (std::map<int, int>::iterator i = clients.begin(); i != clients.end(); ++i) mine |= i->second == fd;
        for (std::map<int, Up>::iterator i = ups.begin(); i != ups.end(); ++i) mine |= i->second.fd == fd;
        if (mine) continue;
        int n = 0;
        if (t == SOCK_DGRAM) continue;
        if (ioctl(fd, FIONREAD, &n) == 0 && n > 0) return true;
    }
    return false;
}
static bool closedByServer(int fd)
{
    struct pollfd p; p.fd = fd; p.events = POLLIN | POLLRDHUP; p.revents = 0;
    if (poll(&p, 1, 0) > 0)
    {
        char b[256];
        for (;;)
        {
            ssize_t r = recv(fd, b, sizeof b, MSG_DONTWAIT);
            if (r > 0) continue;
            return r == 0 || errno != EAGAIN;
        }
    }
    return false;
}
static void settle()
{
    int quiet = 0, rounds = 0;
    while (quiet < 2)
    {
        svc->reset();
        bool did = svc->poll() > 0;
        did |= pumpUp();
        if (!did && unread()) { usleep(200); did = ++rounds < 5000; }
        quiet = did ? 0 : quiet + 1;
    }
    for (std::map<int, int>::iterator i = clients.begin(); i != clients.end(); ++i)
        if (i->second >= 0 && closedByServer(i->second))
        {
            close(i->second); i->second = -1;
            closedOut += (closedOut.size() ? "," : "") + jnum(i->first);
        }
}
static bool dummyFired;
static void fired(boost::system::error_code const &) { dummyFired = true; }
static void advance(long long v, long long f)
{
    vsec += v; setNow(fsec + f);
    //  a timer due before all others makes the reactor look at the clock
    dummy->expires_from_now(boost::posix_time::seconds(-100000000));
    dummyFired = false;
    dummy->async_wait(boost::bind(fired, boost::asio::placeholders::error));
    for (int i = 0; i < 20000 && !dummyFired; ++i) { usleep(100); svc->reset(); svc->poll(); }
    settle();
}
static bool udpWaiting()
{
    // the server's datagram socket: is a datagram waiting in it?
    for (int fd = 3; fd < 64; ++fd)
    {
        if (fd == udpSock) continue;
        int t; socklen_t l = sizeof t;
        if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) || t != SOCK_DGRAM) continue;
        struct pollfd p; p.fd = fd; p.events = POLLIN; p.revents = 0;
        if (poll(&p, 1, 0) > 0) return true;
    }
    return false;
}
static void drainUdp()
{
    settle();
    for (int i = 0; i < 50 && udpWaiting(); ++i) advance(3, 3);
}
// the server waits a while after a bad datagram; let that pass
static std::string bytesOf(std::string const &arg)
{
    std::string out; size_t i = 0;
    if (arg == "-") return out;
    while (i < arg.size())
    {
        size_t j = arg.find('+', i); if (j == std::string::npos) j = arg.size();
        std::string part(arg.substr(i, j - i));
        if (part.size() && part[0] == 'p') out += std::string(atoi(part.c_str() + 1), ' ');
        else out += unhex(part);
        i = j + 1;
    }
    return out;
}
static bool sendAll(int fd, std::string const &d)
{
    size_t o = 0; int stuck = 0;
    while (o < d.size())
    {
        ssize_t r = send(fd, d.data() + o, d.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (r > 0) { o += r; stuck = 0; continue; }
        if (errno != EAGAIN) return false;
        svc->reset(); svc->poll(); pumpUp();
        if (++stuck > 20000) return false;
        usleep(100);
    }
    return true;
}
static int dial()
{
    //  from a port nothing else in this history has
    int fd = bound(SOCK_STREAM, 0);
    while (ports.count(portOf(fd)) || portOf(fd) == portOf(udpSock)) fd = bound(SOCK_STREAM, 0);
    sockaddr_in a = at(statPort);
    int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    if (connect(fd, (sockaddr *)&a, sizeof a)) { perror("connect"); _exit(3); }
    return fd;
}
static std::string agentsJson()
{
    std::vector<MetaInfo> v;
    srv->getConnected(v);
    std::string o("[");
    for (size_t i = 0; i != v.size(); ++i)
    {
        if (i) o += ",";
        Obj a; a.b("online", v[i].online_).raw("connected", tim(v[i].connected_)).raw("activity", tim(v[i].activity_));
        int who = -1; std::string attrs("[");
        std::map<std::string, std::string> sorted(v[i].info_.begin(), v[i].info_.end());
        for (std::map<std::string, std::string>::iterator k = sorted.begin(); k != sorted.end(); ++k)
        {
            if (k->first == "_peer")
            {
                size_t c = k->second.rfind(':');
                int p = atoi(k->second.c_str() + c + 1);
                if (ports.count(p)) who = ports[p];
                else if (udpSock >= 0 && p == portOf(udpSock)) who = 1000;
                continue;
            }
            if (attrs.size() > 1) attrs += ",";
            attrs += "[" + codes(k->first) + "," + codes(k->second) + "]";
        }
        a.n("who", who).raw("attrs", attrs + "]");
        o += a.done();
    }
    return o + "]";
}
static void fin(Obj &o)
{
    o.raw("recs", "[" + recs + "]").raw("up", "[" + upOut + "]").raw("gone", "[" + upGone + "]").raw("ans", "[" + answered + "]")
     .raw("closed", "[" + closedOut + "]").n("now", fsec);
    int live = 0; for (std::map<int, Up>::iterator i = ups.begin(); i != ups.end(); ++i) live += i->second.fd >= 0;
    o.n("live", live);
    recs.clear(); upOut.clear(); upGone.clear(); answered.clear(); closedOut.clear();
    emit(o);
}
// ---- several clients at once
struct Script { int who; std::vector<std::string> chunks; int fd; };
static boost::barrier *gate;
static volatile int clientsDone;
static std::string burstAgents;
static void act(Script *s)
{
    gate->wait();
    unsigned r = s->who * 7919 + hist * 13;
    for (size_t i = 0; i != s->chunks.size(); ++i)
    {
        std::string const &c = s->chunks[i];
        if (s->who == 1000)
        {
            sockaddr_in a = at(statPort);
            sendto(s->fd, c.data(), c.size(), 0, (sockaddr *)&a, sizeof a);
        }
        else
        {
            size_t o = 0;
            while (o < c.size())
            {
                ssize_t x = send(s->fd, c.data() + o, c.size() - o, MSG_NOSIGNAL);
                if (x <= 0) break;
                o += x;
            }
        }
        r = r * 1103515245 + 12345;
        if (r % 4 == 0) usleep(r / 65536 % 300);
    }
    __sync_add_and_fetch(&clientsDone, 1);
}
static void quietly(boost::asio::io_service *s) { for (;;) { try { s->run(); return; } catch (std::exception const &x) { std::cerr << "caught " << x.what() << std::endl; } } }
static void asker(int n, std::vector<int> ids)
{
    gate->wait();
    size_t k = 1;
    while (clientsDone < n || k + 1 < ids.size())
    {
        std::vector<MetaInfo> v; srv->getConnected(v); usleep(60);
        if (k + 1 < ids.size()) srv->syncAgent(new Done(ids[k++]));
    }
}
//  rounds that are not asked for
static void rounds(int n)
{
    gate->wait();
    do { srv->syncAgent(new Done(-1)); usleep(40); } while (clientsDone < n);
}

static void run(std::vector<std::string> const &todo)
{
    for (size_t at_ = 0; at_ != todo.size(); ++at_)
    {
        Words w = words(todo[at_]);
        if (w.empty()) continue;
        std::string const &c = w[0];
        Obj o; o.str("e", c);
        try
        {
            if (c == "reset") { emit(o); continue; }
            else if (c == "new")
            {
                // new <forward connections> <blacklist 0/1> <store 0/1>
                int fw = num(w[1]); bool bl = w[2] == "1";
                svc = new boost::asio::io_service();
                dummy = new boost::asio::deadline_timer(*svc);
                statPort = freePort(); do upPort = freePort(); while (upPort == statPort);
                std::string agent;
                if (fw) { char b[96]; snprintf(b, sizeof b, "%s:%d", addr.c_str(), upPort); agent = b; listenUp(); hasUp = true; }
                Blacklist::Configuration bc; bc.path = bl ? dir + "/bl" : ""; bc.period = 30000;
                unlink((dir + "/bl").c_str());
                store = new boost::shared_ptr<IStatStore>(w[3] == "1" ? boost::shared_ptr<IStatStore>(new RecStore()) : boost::shared_ptr<IStatStore>());
                prom = new boost::shared_ptr<IPromExporter>(new NullPromExporter());
                srv = new StatServer(statPort, addr, agent, fw, 10000000, bc, *svc, *store, *prom, 256, 64);
                udpSock = bound(SOCK_DGRAM, 0);
                settle();
                o.n("fw", fw).b("bl", bl).b("store", w[3] == "1");
            }
            else if (c == "now") { setNow(num(w[1])); }
            else if (c == "conn")
            {
                int i = num(w[1]);
                int fd = dial(); clients[i] = fd; ports[portOf(fd)] = i;
                settle(); o.n("i", i);
            }
            else if (c == "send" || c == "sendclose")
            {
                int i = num(w[1]); std::string d(bytesOf(w[2]));
                o.n("i", i).n("len", d.size());
                if (w[2].find('p') != std::string::npos)
                {
                    //  a long run of spaces is written down as one
                    std::string s; size_t run = 0;
                    for (size_t k = 0; k != d.size(); ++k) { run = d[k] == ' ' ? run + 1 : 0; if (run < 3) s += d[k]; }
                    o.raw("b", codes(s));
                }
                else o.raw("b", codes(d));
                if (clients[i] >= 0) sendAll(clients[i], d);
                if (c == "sendclose") { close(clients[i]); clients[i] = -1; }
                settle();
            }
            else if (c == "close") { int i = num(w[1]); o.n("i", i); close(clients[i]); clients[i] = -1; settle(); }
            else if (c == "rst")
            {
                int i = num(w[1]); o.n("i", i);
                struct linger l; l.l_onoff = 1; l.l_linger = 0; setsockopt(clients[i], SOL_SOCKET, SO_LINGER, &l, sizeof l);
                close(clients[i]); clients[i] = -1; settle();
            }
            else if (c == "udp")
            {
                std::string ds("["); sockaddr_in a = at(statPort);
                for (size_t k = 1; k != w.size(); ++k)
                {
                    std::string d(bytesOf(w[k]));
                    sendto(udpSock, d.data(), d.size(), 0, (sockaddr *)&a, sizeof a);
                    ds += (k > 1 ? "," : "") + codes(d);
                }
                drainUdp();
                o.raw("ds", ds + "]");
            }
            else if (c == "round") { advance(10000001, 400); }
            else if (c == "check") { advance(30001, 400); }
            else if (c == "wait") { advance(200, 400); }
            else if (c == "sync") { int id = num(w[1]); o.n("id", id); srv->syncAgent(new Done(id)); settle(); }
            else if (c == "agents") { o.raw("list", agentsJson()); }
            else if (c == "purge") { srv->purgeOldMetaRecords(num(w[1]), num(w[2])); o.n("max", num(w[1])).n("age", num(w[2])).raw("list", agentsJson()); }
            else if (c == "bl")
            {
                //  bl hexcontent seconds nanoseconds
                std::string d(w[1] == "-" ? "" : unhex(w[1]));
                spew(dir + "/bl", d);
                struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = num(w[2]); ts[0].tv_nsec = ts[1].tv_nsec = num(w[3]);
                utimensat(AT_FDCWD, (dir + "/bl").c_str(), ts, 0);
                o.raw("d", codes(d));
            }
            else if (c == "blrm") { unlink((dir + "/bl").c_str()); }
            else if (c == "down")
            {
                close(upListen); upListen = -1;
                for (std::map<int, Up>::iterator i = ups.begin(); i != ups.end(); ++i) if (i->second.fd >= 0) { close(i->second.fd); i->second.fd = -1; }
                settle();
            }
            else if (c == "drop")
            {
                //  end one connection from the other side
                for (std::map<int, Up>::iterator i = ups.begin(); i != ups.end(); ++i)
                    if (i->second.fd >= 0) { close(i->second.fd); i->second.fd = -1; o.n("id", i->first); break; }
                settle();
            }
            else if (c == "up") { listenUp(); settle(); }
            else if (c == "burst")
            {
                // burst servers who:hex,hex.. ...
                // (sync:id,id,..: flushes, the first before, the last after, the others at the same time)
                int n = num(w[1]); std::vector<Script> sc; std::vector<int> ids;
                std::string acts("[");
                for (size_t i = 2; i != w.size(); ++i)
                {
                    Script s; size_t p = w[i].find(':');
                    if (w[i].substr(0, p) == "sync") { std::stringstream ss(w[i].substr(p + 1)); std::string h; while (std::getline(ss, h, ',')) ids.push_back(atoi(h.c_str())); continue; }
                    s.who = atoi(w[i].substr(0, p).c_str());
                    std::stringstream ss(w[i].substr(p + 1)); std::string h, all; std::string ds("[");
                    while (std::getline(ss, h, ',')) { std::string d(bytesOf(h)); s.chunks.push_back(d); all += d; ds += (ds.size() > 1 ? "," : "") + codes(d); }
                    s.fd = s.who == 1000 ? udpSock : clients[s.who];
                    acts += (acts.size() > 1 ? "," : "") + Obj().n("i", s.who).raw("b", codes(s.who == 1000 ? "" : all)).raw("ds", s.who == 1000 ? ds + "]" : "[]").done();
                    sc.push_back(s);
                }
                acts += "]";
                settle();
                if (ids.size()) { srv->syncAgent(new Done(ids[0])); settle(); }
                clientsDone = 0;
                gate = new boost::barrier(sc.size() + 2 + (ids.size() ? 1 : 0));
                svc->reset();
                boost::asio::io_service::work *wk = new boost::asio::io_service::work(*svc);
                boost::thread_group a, serve;
                for (size_t i = 0; i != sc.size(); ++i) a.create_thread(boost::bind(act, &sc[i]));
                a.create_thread(boost::bind(asker, (int)sc.size(), ids));
                if (ids.size()) a.create_thread(boost::bind(rounds, (int)sc.size()));
                for (int i = 0; i != n; ++i) serve.create_thread(boost::bind(quietly, svc));
                gate->wait();
                a.join_all();
                for (int i = 0; i < 20000 && unread(); ++i) usleep(200);
                for (int i = 0; i < 50 && udpWaiting(); ++i) usleep(200);
                delete wk; svc->stop(); serve.join_all();
                drainUdp();
                if (ids.size()) { srv->syncAgent(new Done(ids.back())); settle(); }
                delete gate;
                std::string sy("["); for (size_t i = 0; i != ids.size(); ++i) sy += (i ? "," : "") + jnum(ids[i]);
                o.n("servers", n).raw("acts", acts).raw("ids", sy + "]");
            }
            else { std::cout << "{\"e\":\"bad command\"}" << std::endl; _exit(2); }
        }
        catch (std::exception const &x)
        {
            o.str("threw_", x.what());
            emit(o);
            std::cout.flush(); _exit(0);
        }
        fin(o);
    }
}

int main(int argc, char **argv)
{
    dir = argv[1];
    LogConfig::setLogLevel(LL_Error); LogConfig::setStderrLogLevel(LL_Error);
    freopen("/dev/null", "w", stderr);
    signal(SIGPIPE, SIG_IGN);
    int pid = getpid();
    char ab[64]; snprintf(ab, sizeof ab, "127.%d.%d.%d", 1 + (pid >> 16 & 63), pid >> 8 & 255, 1 + (pid & 255) % 254);
    addr = ab;
    //  every history runs in a process of its own
    std::string line;
    std::vector<std::string> todo;
    bool more = bool(std::getline(std::cin, line));
    while (more)
    {
        todo.clear(); todo.push_back(line);
        while ((more = bool(std::getline(std::cin, line))) && line != "reset") todo.push_back(line);
        ++hist;
        std::cout.flush();
        pid_t child = fork();
        if (child == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            run(todo);
            std::cout.flush();
            _exit(0);
        }
        int st = 0; waitpid(child, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
    }
    _exit(0);
}
