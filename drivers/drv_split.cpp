// Runs the real splitter between real sockets: clients and targets that send at the same time, stop reading, and go
// away; every byte received is compared with what was sent.
#define main splitter_main
#include "../splitter/main.cpp"
#undef main
#include "drv_util.h"
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <dirent.h>
#include <signal.h>
#include <errno.h>
#include <map>

static int ports[8], lis[8], nt, port; static pid_t splitter;
static double nowd() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }
struct End
{
    int fd, id, from; long sent, got, due; bool ok, ended, stalled; std::string out;
    End() : fd(-1), id(0), from(0), sent(0), got(0), due(0), ok(true), ended(false), stalled(false) {}
    static char byte(int id, long at) { unsigned x = (unsigned)(id * 2654435761u + at * 40503u + (at >> 8) * 69069u); return (char)(x >> 13); }
    void queue(long n) { for (long i = 0; i < n; ++i) out += byte(id, sent + i); sent += n; }
    bool step()
    {
        bool did = false;
        if (fd < 0) return false;
        if (!out.empty())
        {
            ssize_t w = ::send(fd, out.data(), out.size(), MSG_NOSIGNAL | MSG_DONTWAIT);
            if (w > 0) { out.erase(0, w); did = true; } else if (w < 0 && errno != EAGAIN) out.clear();
        }
        if (stalled || ended) return did;
        static char b[65536]; ssize_t r = ::recv(fd, b, sizeof b, MSG_DONTWAIT);
        if (r > 0) { for (ssize_t i = 0; i < r; ++i) if (b[i] != byte(from, got + i)) ok = false; got += r; return true; }
        if (r == 0 || (r < 0 && errno != EAGAIN)) { ended = true; return true; }
        return did;
    }
    std::string json() { return Obj().n("got", got).b("ok", ok).b("ended", ended).done(); }
};
struct Session { std::vector<End> e; bool closing; Session() : closing(false) {} };
static std::map<int, Session> ss;
static int listenOn(int &p)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = inet_addr("127.0.0.1");
    if (bind(fd, (sockaddr *)&a, sizeof a)) { ::close(fd); return -1; }
    socklen_t l = sizeof a; getsockname(fd, (sockaddr *)&a, &l); p = ntohs(a.sin_port);
    if (listen(fd, 16)) { ::close(fd); return -1; }
    fcntl(fd, F_SETFL, O_NONBLOCK); fcntl(fd, F_SETFD, FD_CLOEXEC); return fd;
}
static int dial(int p)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = inet_addr("127.0.0.1");
    if (connect(fd, (sockaddr *)&a, sizeof a)) { ::close(fd); return -1; }
    return fd;
}
static int accept_(int l, double wait)
{
    for (double end = nowd() + wait; ;) { int fd = accept(l, 0, 0); if (fd >= 0) return fd; if (nowd() > end) return -1; usleep(100); }
}
static int kids()
{
    int n = 0; DIR *d = opendir("/proc");
    while (dirent *e = readdir(d))
    {
        if (e->d_name[0] < '0' || e->d_name[0] > '9') continue;
        std::ifstream f((std::string("/proc/") + e->d_name + "/stat").c_str()); std::string s; std::getline(f, s);
        size_t x = s.rfind(')'); int pp; char st;
        if (x != s.npos && sscanf(s.c_str() + x + 2, "%c %d", &st, &pp) == 2 && pp == splitter) ++n;
    }
    closedir(d); return n;
}
static bool step() { bool did = false; for (std::map<int, Session>::iterator i = ss.begin(); i != ss.end(); ++i) for (size_t k = 0; k != i->second.e.size(); ++k) if (i->second.e[k].step()) did = true; return did; }
// what is to come, if all is well
static bool due()
{
    for (std::map<int, Session>::iterator i = ss.begin(); i != ss.end(); ++i)
    {
        Session &s = i->second; bool st = false;
        for (size_t k = 0; k != s.e.size(); ++k) if (s.e[k].stalled) st = true;
        if (st) continue;
        for (size_t k = 0; k != s.e.size(); ++k)
        {
            if (s.e[k].fd < 0) continue;
            long want = s.e[k ? 0 : 1].sent;
            if (s.closing && !s.e[k].ended) return true;
            if (!s.closing && (s.e[k].got < want || !s.e[k].out.empty())) return true;
        }
    }
    return false;
}
static void settle()
{
    double end = nowd() + 4, quiet = nowd();
    while (nowd() < end) { if (step()) quiet = nowd(); else { usleep(100); if (!due() && nowd() - quiet > 0.004) return; } if (due()) { if (nowd() - quiet > 3) return; } }
}
static std::string state()
{
    std::string o("[");
    for (std::map<int, Session>::iterator i = ss.begin(); i != ss.end(); ++i)
    {
        if (o.size() > 1) o += ",";
        o += "{\"s\":" + jnum(i->first) + ",\"e\":[";
        for (size_t k = 0; k != i->second.e.size(); ++k) o += (k ? "," : "") + i->second.e[k].json();
        o += "]}";
    }
    return o + "]";
}
static void shut(End &e) { if (e.fd >= 0) { ::close(e.fd); e.fd = -1; } e.ended = true; }
static void run(std::vector<std::string> const &todo)
{
    for (size_t at = 0; at != todo.size(); ++at)
    {
        Words w = words(todo[at]);
        if (w.empty()) continue;
        std::string const &c = w[0]; Obj o; o.str("e", c);
        if (c == "reset") { emit(o); continue; }
        if (c == "new")
        {
            nt = num(w[1]); std::vector<std::string> args; args.push_back("splitd"); args.push_back("");
            for (int i = 0; i < nt; ++i) { ports[i] = 0; lis[i] = listenOn(ports[i]); char b[64]; snprintf(b, sizeof b, "%s:%d", i % 2 ? "127.0.0.1" : "localhost", ports[i]); args.push_back(b); }
            for (int tries = 0; tries < 20; ++tries)
            {
                int p = 0, l = listenOn(p); ::close(l); port = p; char b[16]; snprintf(b, sizeof b, "%d", p); args[1] = b;
                std::cout.flush();
                splitter = fork();
                if (!splitter)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    // (nothing of this process stays open in the splitter)
                    for (int i = 3; i < 64; ++i) ::close(i);
                    freopen("/dev/null", "w", stderr);
                    std::vector<char const *> av; for (size_t i = 0; i != args.size(); ++i) av.push_back(args[i].c_str());
                    splitter_main(av.size(), &av[0]); _exit(1);
                }
                bool up = false;
                for (int k = 0; k < 20000 && !up; ++k)
                {
                    // is it listening? (a client that only looked is not to disturb)
                    std::ifstream f("/proc/net/tcp"); std::string line; char want[16]; snprintf(want, sizeof want, ":%04X ", p);
                    while (std::getline(f, line)) if (line.find(want) < 25 && line.find(" 0A ") != line.npos) up = true;
                    if (!up && waitpid(splitter, 0, WNOHANG) == splitter) { splitter = 0; break; }
                    if (!up) usleep(500);
                }
                if (up) break;
            }
            o.n("nt", nt);
        }
        else if (c == "open")
        {
            int id = num(w[1]); bool all = true; Session s; s.e.resize(nt + 1);
            for (int i = 0; i < nt; ++i) if (lis[i] < 0) all = false;
            s.e[0].fd = dial(port); s.e[0].id = id * 16; s.e[0].from = id * 16 + 1;
            if (all)
            {
                for (int i = 0; i < nt; ++i) { s.e[i + 1].fd = accept_(lis[i], 4); s.e[i + 1].id = id * 16 + i + 1; s.e[i + 1].from = id * 16; if (s.e[i + 1].fd < 0) s.e[i + 1].ended = true; }
                ss[id] = s; settle();
            }
            else
            {
                // a target that is not there
                for (double end = nowd() + 4; !s.e[0].ended && nowd() < end; usleep(200)) s.e[0].step();
                for (int i = 0; i < nt; ++i) if (lis[i] >= 0) for (int fd; (fd = accept(lis[i], 0, 0)) >= 0;) ::close(fd);
                ::close(s.e[0].fd); settle();
            }
            o.n("id", id).b("ended", s.e[0].ended);
        }
        else if (c == "send")
        {
            // send <session>:<end>:<length> ...: all at the same time
            std::string x("[");
            for (size_t i = 1; i < w.size(); ++i)
            {
                int s, k; long n; sscanf(w[i].c_str(), "%d:%d:%ld", &s, &k, &n);
                ss[s].e[k].queue(n); char b[64]; snprintf(b, sizeof b, "%s[%d,%d,%ld]", i > 1 ? "," : "", s, k, n); x += b;
            }
            settle(); o.raw("sent", x + "]");
        }
        else if (c == "stall" || c == "unstall") { ss[num(w[1])].e[num(w[2])].stalled = c == "stall"; settle(); o.n("id", num(w[1])).n("k", num(w[2])); }
        else if (c == "close")
        {
            // close <session> <end> <length>: that end sends so much and is gone
            Session &s = ss[num(w[1])]; End &e = s.e[num(w[2])];
            e.queue(num(w[3]));
            for (double end = nowd() + 4; !e.out.empty() && nowd() < end;) if (!step()) usleep(50);
            while (e.step()) {}
            shut(e); s.closing = true; settle();
            o.n("id", num(w[1])).n("k", num(w[2])).n("n", num(w[3])).raw("is", state());
            for (size_t k = 0; k != s.e.size(); ++k) shut(s.e[k]);
            ss.erase(num(w[1]));
            int n = 0; for (double end = nowd() + 2; (n = kids()) != (int)ss.size() && nowd() < end;) usleep(1000);
            o.n("kids", n);
            emit(o); continue;
        }
        else if (c == "deaf") { int k = num(w[1]) - 1; ::close(lis[k]); lis[k] = -1; o.n("k", k + 1); }
        else if (c == "hear") { int k = num(w[1]) - 1; for (int i = 0; i < 100 && lis[k] < 0; ++i) { lis[k] = listenOn(ports[k]); if (lis[k] < 0) usleep(1000); } o.n("k", k + 1); }
        else o.str("unknown", c);
        o.raw("is", state());
        emit(o);
    }
    if (splitter > 0) { kill(splitter, SIGKILL); waitpid(splitter, 0, 0); }
}
int main()
{
    signal(SIGPIPE, SIG_IGN);
    std::vector<std::vector<std::string> > hs; std::string l;
    while (std::getline(std::cin, l)) { if (l == "reset") hs.push_back(std::vector<std::string>()); if (hs.size()) hs.back().push_back(l); }
    int rc = 0;
    for (size_t i = 0; i != hs.size() && !rc; ++i)
    {
        std::cout.flush();
        pid_t p = fork();
        if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(120); run(hs[i]); std::cout.flush(); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 1;
    }
    _exit(rc);
}
