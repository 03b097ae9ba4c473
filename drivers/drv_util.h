// helpers shared by the drivers: line tokenizer and a tiny JSON writer
#if !defined(drv_util_h)
#define drv_util_h
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <stdint.h>
#include <math.h>

typedef std::vector<std::string> Words;
inline Words words(std::string const &l)
{
    Words w; std::stringstream ss(l); std::string s;
    while (ss >> s) w.push_back(s);
    return w;
}
inline long long num(std::string const &s) { return atoll(s.c_str()); }

// integers are emitted as integers; anything else as a string, so that a
// value TLC cannot represent never compares equal to one it can
inline std::string jnum(double d)
{
    char buf[64];
    if (d == floor(d) && fabs(d) < 2e9) snprintf(buf, sizeof buf, "%lld", (long long)d);
    else snprintf(buf, sizeof buf, "\"%.17g\"", d);
    return buf;
}
inline std::string jstr(std::string const &s)
{
    std::string o("\"");
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
// strings with arbitrary bytes: hex
inline std::string unhex(std::string const &h)
{
    std::string o;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        o += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    return o;
}
inline std::string hex(std::string const &s)
{
    std::string o; char b[4];
    for (size_t i = 0; i < s.size(); ++i) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
    return o;
}
struct Obj
{
    std::string s;
    Obj() : s("{") {}
    Obj &raw(char const *k, std::string const &v)
    {
        if (s.size() > 1) s += ",";
        s += std::string("\"") + k + "\":" + v;
        return *this;
    }
    Obj &n(char const *k, double v) { return raw(k, jnum(v)); }
    Obj &str(char const *k, std::string const &v) { return raw(k, jstr(v)); }
    Obj &b(char const *k, bool v) { return raw(k, v ? "true" : "false"); }
    std::string done() const { return s + "}"; }
};
inline void emit(Obj const &o) { std::cout << o.done() << std::endl; }
inline std::string slurp(std::string const &p)
{
    std::ifstream f(p.c_str(), std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str();
}
inline void spew(std::string const &p, std::string const &d)
{
    std::ofstream f(p.c_str(), std::ios::binary | std::ios::trunc); f.write(d.data(), d.size());
}
#endif
