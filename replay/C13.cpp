#include "common.h"
#include <iostream>
#include <fstream>
#include <cstring>
#include <ctime>
#include <limits>
#include "aslam/calibration/base/Timestamp.h"
#include "aslam/calibration/exceptions/Exception.h"
#include "aslam/calibration/exceptions/InvalidOperationException.h"
#include "aslam/calibration/exceptions/NullPointerException.h"
#include "aslam/calibration/exceptions/OutOfBoundException.h"
#include "aslam/calibration/exceptions/BadArgumentException.h"
using namespace aslam::calibration;
typedef long double LD;
static std::string rs() { auto& c = hx::C(); std::string s; static const char* p[] = {"", " ", "f", "foo.cpp", "a message", "  ", "[x]", ": "}; if (c.coin()) return p[c.i(0, 7)]; for (int i = c.i(0, 12); i > 0; --i) s += char(c.i(32, 126)); return s; }
template <class X> static std::string txt(const X& x) { std::ostringstream o; o << x; return o.str(); }
static std::string message(const std::string& m, const std::string& f, size_t l, const std::string& fn) { std::string s; if (fn != " ") s += fn + ": "; s += m; if (f != " ") s += " [file = " + f + "]"; if (l) s += "[line = " + std::to_string(l) + "]"; return s; }
#define MSG(key, e, want) do { std::string _g = (e).what(), _w = (want); HX(key, _g == _w, "'" << _g << "' expected '" << _w << "'"); } while (0)
static double val() { auto& c = hx::C(); switch (c.i(0, 5)) { case 0: return c.i(-5, 5); case 1: return c.u(0, 2e9); case 2: return c.i(0, 2000000000); case 3: return c.i(0, 2000000000) + 1 - 1e-6 * c.i(1, 9); case 4: return c.u(-3, 3); default: return 1e9 + c.i(0, 1000) / 8.0; } }
static void stamp() {
  auto& c = hx::C(); double a = val(), b = c.i(0, 3) ? val() : a; std::ostringstream o; o.precision(20); o << "timestamps " << a << " " << b; hx::at(o.str());
  Timestamp s(a), t(b); const Timestamp &S = s, &T = t;
  if (c.coin()) { Timestamp w(val()); w = s; Timestamp v(w); w = t; s = w; s = v; Timestamp& r = s; s = r; }
  HX("seconds", S.getSeconds() == a && double(S) == a, o.str());
  HX("compare", (S == T) == (a == b) && (S != T) == (a != b) && (S < T) == (a < b) && (S > T) == (a > b) && (S <= T) == (a <= b) && (S >= T) == (a >= b), o.str());
  HX("compare-seconds", S.operator==(b) == (a == b) && S.operator!=(b) == (a != b) && S.operator<(b) == (a < b) && S.operator>(b) == (a > b) && S.operator<=(b) == (a <= b) && S.operator>=(b) == (a >= b), o.str());
  HX("sum", S + T == a + b && S.operator+(b) == a + b, o.str()); HX("difference", S - T == a - b && S.operator-(b) == a - b, o.str());
  Timestamp u(s); Timestamp& ur = (u += b); HX("add", &ur == &u && u.getSeconds() == a + b, o.str()); Timestamp w(s); Timestamp& wr = (w -= b); HX("subtract", &wr == &w && w.getSeconds() == a - b && S.getSeconds() == a, o.str());
  if (a >= 0) {
    timespec ts = S; LD d = (LD)ts.tv_sec + ts.tv_nsec * 1e-9L;
    HX("timespec", ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000 && ts.tv_sec == std::floor(a) && std::fabs(d - (LD)a) <= 2e-9L, o.str() << " -> " << ts.tv_sec << " s " << ts.tv_nsec << " ns");
    std::string g = Timestamp::getDate(a); struct tm m; memset(&m, 0, sizeof m); int Y, M, D, h, mi, se, n = 0;
    bool ok = sscanf(g.c_str(), "%4d-%2d-%2d-%2d-%2d-%2d%n", &Y, &M, &D, &h, &mi, &se, &n) == 6 && n == (int)g.size() && n == 19; time_t q = (time_t)a; struct tm* l = localtime(&q);
    HX("date", ok && Y == l->tm_year + 1900 && M == l->tm_mon + 1 && D == l->tm_mday && h == l->tm_hour && mi == l->tm_min && se == l->tm_sec, o.str() << " -> " << g);
  }
  std::ostringstream st; st << S; HX("text", st.str() == "seconds: " + txt(a), o.str() << " -> " << st.str());
}
static LD wall() { timespec x; clock_gettime(CLOCK_REALTIME, &x); return x.tv_sec + x.tv_nsec * 1e-9L; }
static void clk() { // retried: the system clock may be stepped in between
  bool a = false, b = false; double n = 0; std::string g;
  for (int k = 0; k < 5 && !a; ++k) { LD lo = wall() - 1e-5L; n = Timestamp::now(); Timestamp d; LD hi = wall() + 1e-5L; a = n >= lo && n <= hi && d.getSeconds() >= n && d.getSeconds() <= hi; }
  HX("now", a, "now " << n);
  for (int k = 0; k < 5 && !b; ++k) { time_t q0 = (time_t)wall(); g = Timestamp::getDate(); time_t q1 = (time_t)wall(); char b0[64], b1[64]; strftime(b0, 64, "%Y-%m-%d %H:%M:%S", localtime(&q0)); strftime(b1, 64, "%Y-%m-%d %H:%M:%S", localtime(&q1)); b = g == b0 || g == b1; }
  HX("date-now", b, g);
}
template <class E> static E thrown(const E& e) { try { throw e; } catch (const E& x) { return x; } }
static void exc() {
  auto& c = hx::C(); std::string m = rs(), f = rs(), fn = rs(); size_t l = c.coin() ? 0 : c.i(1, 100000); if (!c.i(0, 3)) f = " "; if (!c.i(0, 3)) fn = " "; hx::at("message '" + m + "' file '" + f + "' function '" + fn + "' line " + std::to_string(l));
  std::string w = message(m, f, l, fn), other = "other";
  Exception e(m, f, l, fn); MSG("exception", thrown(e), w); Exception d(other, "g", 3, "h"); d = e; e = Exception("x"); MSG("exception-assign", d, w); Exception k(d); Exception& dr = d; d = dr; MSG("exception-copy", k, w); MSG("exception-copy", d, w); MSG("exception-defaults", Exception(m), message(m, " ", 0, " ")); MSG("exception-defaults", Exception(), ""); MSG("exception-defaults", Exception(m, f), message(m, f, 0, " ")); MSG("exception-defaults", Exception(m, f, l), message(m, f, l, " "));
  InvalidOperationException i(m, f, l, fn); MSG("invalid-operation", thrown(i), w); InvalidOperationException i2(other); i2 = i; i = InvalidOperationException("x"); MSG("invalid-operation-assign", i2, w); MSG("invalid-operation-copy", InvalidOperationException(i2), w); MSG("invalid-operation-defaults", InvalidOperationException(m), message(m, " ", 0, " "));
  std::string wn = message(m + " is a null pointer", f, l, fn); NullPointerException n(m, f, l, fn); MSG("null-pointer", thrown(n), wn); NullPointerException n2(other); n2 = n; n = NullPointerException("x"); MSG("null-pointer-assign", n2, wn); MSG("null-pointer-copy", NullPointerException(n2), wn); MSG("null-pointer-defaults", NullPointerException(m), message(m + " is a null pointer", " ", 0, " "));
  double x = c.u(-1e3, 1e3), y = c.i(-10, 10); size_t p = c.i(0, 1000), q = c.i(0, 10); int z = c.i(-50, 50);
  MSG("out-of-bound", OutOfBoundException<double>(x, m, f, l, fn), w + "[argument = " + txt(x) + "]"); MSG("out-of-bound-bound", OutOfBoundException<double>(x, y, m, f, l, fn), w + "[argument = " + txt(x) + "][bound = " + txt(y) + "]"); MSG("out-of-bound-bound", thrown(OutOfBoundException<size_t>(p, q, m, f, l, fn)), w + "[argument = " + txt(p) + "][bound = " + txt(q) + "]"); MSG("out-of-bound", OutOfBoundException<int>(z, m, f, l, fn), w + "[argument = " + txt(z) + "]");
  MSG("out-of-bound-defaults", OutOfBoundException<int>(z, m), message(m, " ", 0, " ") + "[argument = " + txt(z) + "]");
  OutOfBoundException<int> ob(z, m, f, l, fn), ob2(0, "x"); ob2 = ob; MSG("out-of-bound-assign", ob2, w + "[argument = " + txt(z) + "]"); MSG("out-of-bound-copy", OutOfBoundException<int>(ob2), w + "[argument = " + txt(z) + "]");
  MSG("bad-argument", BadArgumentException<double>(x, m, f, l, fn), w + "[argument = " + txt(x) + "]"); MSG("bad-argument", thrown(BadArgumentException<std::string>(other, m, f, l, fn)), w + "[argument = other]"); MSG("bad-argument-defaults", BadArgumentException<size_t>(p, m), message(m, " ", 0, " ") + "[argument = " + txt(p) + "]");
}
struct Obj : Serializable { int v = 0; mutable int calls[4] = {0, 0, 0, 0};
  void read(std::istream& s) { ++calls[0]; s >> v; } void write(std::ostream& s) const { ++calls[1]; s << "v " << v; } void read(std::ifstream& s) { ++calls[2]; static_cast<std::istream&>(s) >> v; } void write(std::ofstream& s) const { ++calls[3]; static_cast<std::ostream&>(s) << "f " << v; } };
static void ser() {
  auto& c = hx::C(); Obj a, b; a.v = c.i(-1000, 1000); b.v = 7777; std::ostringstream o; hx::at("object " + txt(a.v)); std::ostream& r = (o << a); o << " end"; HX("write", &r == &o && o.str() == "v " + txt(a.v) + " end" && a.calls[1] == 1 && a.calls[3] == 0, o.str());
  std::istringstream is(txt(a.v) + " 5"); std::istream& ri = (is >> b); int rest = 0; is >> rest; HX("read", &ri == &is && b.v == a.v && rest == 5 && b.calls[0] == 1 && b.calls[2] == 0, b.v);
  if (c.i(0, 9)) return;
  char tmp[] = "/tmp/verif_c13_XXXXXX"; int fd = mkstemp(tmp); if (fd < 0) return; close(fd);
  { std::ofstream f(tmp); std::ofstream& rf = (f << a); HX("write-file", &rf == &f && a.calls[3] == 1 && a.calls[1] == 1, a.v); } { std::ifstream f(tmp); std::string s; std::getline(f, s); HX("write-file", s == "f " + txt(a.v), s); } { std::ofstream f(tmp); f << 42; } { std::ifstream f(tmp); std::ifstream& rf = (f >> b); HX("read-file", &rf == &f && b.v == 42 && b.calls[2] == 1 && b.calls[0] == 1, b.v); } unlink(tmp);
}
int main() {
  hx::guard(); const char* tz[] = {"UTC0", "XXX-5:30", "YYY8"}; auto& c = hx::C();
  do { setenv("TZ", tz[c.i(0, 2)], 1); tzset(); clk(); for (int k = 0; k < 50; ++k) { stamp(); exc(); ser(); } } while (c.left());
  return hx::done();
}
