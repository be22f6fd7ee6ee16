// Stand-in for glog: a failed CHECK ends the program; here it throws, so that a harness can observe it.
#ifndef VSTUB_GLOG
#define VSTUB_GLOG
#include <iostream>
#include <sstream>
namespace google {
struct CheckFailed {};
class Fatal { public: Fatal() {} ~Fatal() noexcept(false) { throw CheckFailed(); } std::ostream& stream() { return s; } std::ostringstream s; };
struct Voidify { void operator&(std::ostream&) {} };
}
#define CHECK(c) (c) ? (void)0 : ::google::Voidify() & ::google::Fatal().stream()
#endif
