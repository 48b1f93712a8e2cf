//! entry h_io reach=end
#include "sym.h"
#include <sstream>
#include <iomanip>
HARNESS(h_io) {
  sym_leak_scope L;
  {
  std::ostringstream o; int q = sym::range(0,300,"q"); o << "Index " << q << " s " << std::setw(5) << std::setfill('0') << (unsigned long)q << std::hex << q << true;
  std::string s = o.str();
  sym::observe("n", s.size());
  for (char c: s) sym::observe("c", (unsigned char)c);
  sym::check(s.size() > 3, "x");
  }
  L.done();
  sym::reach("end");
}
