// Executes programs on a real EagerConnection that dials a peer the driver plays, in virtual time.
#include "../daemon/EagerConnection.h"
#include "../daemon/Logs.h"
#include <istat/istattime.h>
#include <istat/Log.h>
#include "drv_util.h"
#include <boost/make_shared.hpp>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <sys/time.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <linux/sockios.h>
#include <signal.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <map>

using namespace istat;
extern size_t maxBufferSize __attribute__((weak));

static volatile long long vsec = 1000000000;
static volatile long long fsec = 1000000200;
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { tv->tv_sec = vsec; tv->tv_usec = 0; return 0; }
extern "C" time_t time(time_t *t) throw() { if (t) *t = fsec; return fsec; }
static FakeTime *ft = new FakeTime(1000000200);

static std::string addr;
static int port = 0, listener = -1, rcvbuf = 0;
static boost::asio::io_service *svc = 0;
static boost::asio::deadline_timer *dummy = 0;
static boost::shared_ptr<ConnectionInfo> conn;
static bool stalled = false;
struct Peer { int fd; std::string buf; };
static std::map<int, Peer> peers; static int peerNo = 0;
static std::string got, gone;

static sockaddr_in at(int p)
{
    sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = inet_addr(addr.c_str());
    return a;
}
static void listenNow()
{
    int one = 1;
    listener = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
    setsockopt(listener, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (rcvbuf) setsockopt(listener, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    sockaddr_in a = at(port);
    if (bind(listener, (sockaddr *)&a, sizeof a) || listen(listener, 16)) { perror("listen"); _exit(3); }
    socklen_t l = sizeof a; getsockname(listener, (sockaddr *)&a, &l); port = ntohs(a.sin_port);
}
// a line of a number and as many letters as it says
static std::string line(int id, size_t len)
{
    char b[64]; int n = snprintf(b, sizeof b, "L%d %d ", id, (int)len);
    std::string s(b, n);
    while (s.size() + 2 < len) s += char('a' + (s.size() + id) % 26);
    return s + "\r\n";
}
static int lineId(std::string const &l)
{
    if (l == "#id of the agent\r\n") return 0;
    int id, len;
    if (sscanf(l.c_str(), "L%d %d ", &id, &len) != 2) return -1;
    return line(id, len) == l ? id : -1;
}
static void have(int c, std::string const &l, bool whole)
{
    got += (got.size() ? "," : "") + Obj().n("c", c).n("x", lineId(l)).b("whole", whole).done();
}
static bool pump()
{
    bool did = false;
    if (listener >= 0)
    {
        int fd;
        while ((fd = accept4(listener, 0, 0, SOCK_NONBLOCK)) >= 0) 
        {
            Peer p; p.fd = fd; peers[peerNo++] = p; did = true;
            //  a system that takes little at a time, so that writing can be under way when a connection ends
            for (int k = 3; rcvbuf && k < 64; ++k)
            {
                sockaddr_in a; socklen_t n = sizeof a; int few = 4096;
                if (!getpeername(k, (sockaddr *)&a, &n) && ntohs(a.sin_port) == port) setsockopt(k, SOL_SOCKET, SO_SNDBUF, &few, sizeof few);
            }
        }
    }
    if (stalled) return did;
    for (std::map<int, Peer>::iterator i = peers.begin(); i != peers.end(); ++i)
    {
        if (i->second.fd < 0) continue;
        static char buf[65536];
        ssize_t r;
        while ((r = recv(i->second.fd, buf, sizeof buf, 0)) > 0) { i->second.buf.append(buf, r); did = true; }
        int err = errno;
        size_t p;
        while ((p = i->second.buf.find('\n')) != std::string::npos)
        {
            have(i->first, i->second.buf.substr(0, p + 1), true);
            i->second.buf.erase(0, p + 1);
        }
        if (r == 0 || err != EAGAIN)
        {
            close(i->second.fd); i->second.fd = -1; did = true;
            gone += (gone.size() ? "," : "") + jnum(i->first);
            if (i->second.buf.size()) have(i->first, i->second.buf, false);
        }
    }
    return did;
}
static int outq()
{
    int t = 0;
    for (int fd = 3; fd < 64; ++fd)
    {
        int n = 0; int type; socklen_t l = sizeof type;
        if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &l)) continue;
        if (ioctl(fd, SIOCOUTQ, &n) == 0) t += n;
    }
    return t;
}
static void settle()
{
    int quiet = 0, rounds = 0;
    while (quiet < 3)
    {
        svc->reset();
        bool did = svc->poll() > 0;
        did |= pump();
        if (!did && !stalled && (outq() > 0 || conn->pendingOut() > 0) && peers.size() && peers.rbegin()->second.fd >= 0) { usleep(200); did = ++rounds < 3000; }
        quiet = did ? 0 : quiet + 1;
        if (stalled && quiet) usleep(500);
    }
}
static bool dummyFired;
static void fired(boost::system::error_code const &) { dummyFired = true; }
static void advance(long long d)
{
    vsec += d; fsec += d; ft->set(fsec);
    dummy->expires_from_now(boost::posix_time::seconds(-100000000));
    dummyFired = false;
    dummy->async_wait(boost::bind(fired, boost::asio::placeholders::error));
    for (int i = 0; i < 20000 && !dummyFired; ++i) { usleep(100); svc->reset(); svc->poll(); }
    settle();
}
static void drop(bool rst)
{
    for (std::map<int, Peer>::iterator i = peers.begin(); i != peers.end(); ++i)
        if (i->second.fd >= 0)
        {
            if (rst) { struct linger l; l.l_onoff = 1; l.l_linger = 0; setsockopt(i->second.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
            close(i->second.fd); i->second.fd = -1;
            gone += (gone.size() ? "," : "") + jnum(i->first);
            if (i->second.buf.size()) have(i->first, i->second.buf, false);
        }
    stalled = false;
    settle();
}
static void fin(Obj &o)
{
    o.raw("got", "[" + got + "]").raw("gone", "[" + gone + "]").n("p", conn->pendingOut());
    int live = 0; for (std::map<int, Peer>::iterator i = peers.begin(); i != peers.end(); ++i) live += i->second.fd >= 0;
    o.n("live", live);
    got.clear(); gone.clear();
    emit(o);
}
// ---- several writers at once
static boost::barrier *gate; static volatile int writing;
static void writer(int w, int first, int n, size_t len)
{
    gate->wait();
    unsigned r = w * 7919 + first;
    for (int i = 0; i != n; ++i)
    {
        conn->writeOut(line(first + i, len + i % 7));
        r = r * 1103515245 + 12345;
        if (r / 65536 % 5 == 0) usleep(r / 65536 % 200);
    }
    __sync_sub_and_fetch(&writing, 1);
}
static void serve() { svc->run(); }

static void run(std::vector<std::string> const &todo)
{
    for (size_t k = 0; k != todo.size(); ++k)
    {
        Words w = words(todo[k]);
        if (w.empty()) continue;
        std::string const &c = w[0];
        Obj o; o.str("e", c);
        try
        {
            if (c == "reset") { emit(o); continue; }
            else if (c == "new")
            {
                // new <limit> <listening 0/1> <receive buffer, 0: as it is>
                svc = new boost::asio::io_service();
                dummy = new boost::asio::deadline_timer(*svc);
                size_t mx = 512 * 1024;
                if (&maxBufferSize) { maxBufferSize = num(w[1]); mx = num(w[1]); }
                rcvbuf = num(w[3]);
                listenNow();
                if (w[2] == "0") { close(listener); listener = -1; }
                conn = EagerConnection::create(*svc);
                char b[96]; snprintf(b, sizeof b, "%s:%d", addr.c_str(), port);
                conn->open(b, "#id of the agent\r\n");
                conn->asEagerConnection()->startRead();
                settle();
                o.n("max", mx).b("listening", w[2] == "1");
            }
            else if (c == "write")
            {
                // write id:len,id:len ...: one call each
                size_t longest = 0;
                std::string ls("[");
                for (size_t i = 1; i != w.size(); ++i)
                {
                    std::stringstream ss(w[i]); std::string h, text; ls += (i > 1 ? ",[" : "["); size_t n = 0;
                    while (std::getline(ss, h, ','))
                    {
                        int id, len; sscanf(h.c_str(), "%d:%d", &id, &len);
                        std::string l(line(id, len)); text += l;
                        ls += (n++ ? "," : "") + Obj().n("id", id).n("len", l.size()).done();
                    }
                    ls += "]";
                    conn->writeOut(text);
                    if (text.size() > longest) longest = text.size();
                }
                o.raw("calls", ls + "]").n("most", conn->pendingOut());
                settle();
            }
            else if (c == "listen") { if (listener < 0) listenNow(); settle(); }
            else if (c == "unlisten") { if (listener >= 0) close(listener); listener = -1; settle(); }
            else if (c == "drop" || c == "rst") { o.n("pb", conn->pendingOut()); drop(c == "rst"); }
            else if (c == "down") { o.n("pb", conn->pendingOut()); close(listener); listener = -1; drop(false); }
            else if (c == "stall") { stalled = true; }
            else if (c == "unstall") { stalled = false; settle(); }
            else if (c == "wait") { advance(200); }
            else if (c == "burst")
            {
                // burst <threads serving> <drops> first:n:len ...  (one writer each)
                int nt = num(w[1]), drops = num(w[2]); std::string ws("[");
                boost::thread_group a, s;
                gate = new boost::barrier(w.size() - 3 + 1);
                svc->reset();
                boost::asio::io_service::work *wk = new boost::asio::io_service::work(*svc);
                writing = w.size() - 3;
                for (size_t i = 3; i != w.size(); ++i)
                {
                    int f, n, l; sscanf(w[i].c_str(), "%d:%d:%d", &f, &n, &l);
                    ws += (i > 3 ? "," : "") + Obj().n("first", f).n("n", n).n("len", l).done();
                    a.create_thread(boost::bind(writer, (int)i, f, n, (size_t)l));
                }
                for (int i = 0; i != nt; ++i) s.create_thread(serve);
                gate->wait();
                int done = 0; unsigned spins = 0;
                while (writing)
                {
                    pump(); usleep(100);
                    if (done < drops && ++spins % 7 == 0)
                    {
                        ++done;
                        for (std::map<int, Peer>::iterator i = peers.begin(); i != peers.end(); ++i)
                            if (i->second.fd >= 0)
                            {
                                close(i->second.fd); i->second.fd = -1;
                                gone += (gone.size() ? "," : "") + jnum(i->first);
                                if (i->second.buf.size()) have(i->first, i->second.buf, false);
                            }
                    }
                }
                a.join_all();
                delete wk; svc->stop(); s.join_all();
                settle();
                advance(200); advance(200);
                o.n("servers", nt).n("drops", done).raw("writers", ws + "]");
            }
            else { std::cout << "{\"e\":\"bad command\"}" << std::endl; _exit(2); }
        }
        catch (std::exception const &x)
        {
            o.str("threw_", x.what());
            emit(o); std::cout.flush(); _exit(0);
        }
        fin(o);
    }
}

int main(int argc, char **argv)
{
    LogConfig::setLogLevel(LL_Error); LogConfig::setStderrLogLevel(LL_Error);
    freopen("/dev/null", "w", stderr);
    signal(SIGPIPE, SIG_IGN);
    int pid = getpid();
    char ab[64]; snprintf(ab, sizeof ab, "127.%d.%d.%d", 1 + (pid >> 16 & 63), pid >> 8 & 255, 1 + (pid & 255) % 254);
    addr = ab;
    std::string l; std::vector<std::string> todo;
    bool more = bool(std::getline(std::cin, l));
    while (more)
    {
        todo.clear(); todo.push_back(l);
        while ((more = bool(std::getline(std::cin, l))) && l != "reset") todo.push_back(l);
        std::cout.flush();
        pid_t child = fork();
        if (child == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run(todo); std::cout.flush(); _exit(0); }
        int st = 0; waitpid(child, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
    }
    _exit(0);
}
