exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "batch4.py")).read().split('\nM("')[0])
PURE = r'''set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -I. -Iinclude "$D/demo.cpp" daemon/Retention.cpp daemon/Argument.cpp $(ls lib/*.cpp | grep -v /main.cpp) -o "$T/demo" -lboost_date_time -lboost_system -lboost_filesystem -lpthread
"$T/demo"
'''
P = r'''
#include <cstdlib>
#include <cstdio>
#include <iostream>
#include "daemon/Retention.h"
#include "daemon/Argument.h"
#define CHECK(x) do { if (!(x)) { printf("failed: %s\n", #x); return 1; } } while (0)
static bool good(char const *s) { try { RetentionPolicy p(s); return true; } catch (std::exception const &) { return false; } }
'''
M("c19-season-then-regular", "C19", "a retention policy with an interval without decay after one with decay, with another one before them",
  "the policy is accepted although an interval without decay follows a season's",
  [("daemon/Retention.cpp", "(intervals.back().lambda > 0)", "(intervals.front().lambda > 0)")],
  PURE, {"demo.cpp": P + r'''
int main() { CHECK(good("10s:1h,1m:1d")); CHECK(good("10s:1h,1m:1d,1m:1d:s:0.5")); CHECK(!good("10s:1h,1m:1d:s:0.5,1h:1y")); return 0; }
'''})
M("c19-line-number", "C19", "a settings file with blank lines or remarks before the line that is refused",
  "the message names another line than the one refused",
  [("daemon/Argument.cpp", "                return false;\n            }\n        }\n        ++lineNo;", "                return false;\n            }\n            ++lineNo;\n        }")],
  PURE, {"demo.cpp": P + r'''
static Argument<int> n("num", 1, "");
int main() { std::string e;
  CHECK(ArgumentBase::parseData("# x\n\n--num 2\n", e) && n.get() == 2);
  CHECK(!ArgumentBase::parseData("# x\n\n--num 2\n--num z\n", e)); std::cout << e << std::endl; CHECK(e.find("line 4") != std::string::npos); return 0; }
'''})
