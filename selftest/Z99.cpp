//! entry h_map reach=found,thrown
//! entry h_vs reach=end
#include "sym.h"
#include <map>
#include <string>
#include <vector>
#include <stdexcept>
#include "Awl/VectorSet.h"
HARNESS(h_map) {
  std::map<int,int> m;
  int k[4];
  for (int i=0;i<4;i++) { k[i]=sym::any<int>("k"); m[k[i]]=i; }
  int q = sym::any<int>("q");
  bool in=false; for (int i=0;i<4;i++) in |= k[i]==q;
  sym::check((m.find(q)!=m.end())==in, "map find");
  try { m.at(q); sym::check(in,"at"); sym::reach("found"); } catch (const std::out_of_range&) { sym::check(!in,"at2"); sym::reach("thrown"); }
}
HARNESS(h_vs) {
  sym_leak_scope L;
  {
  awl::vector_set<int> m;
  int k[4];
  for (int i=0;i<4;i++) { k[i]=sym::any<int>("k"); m.insert(k[i]);}
  int q = sym::any<int>("q");
  bool in=false; for (int i=0;i<4;i++) in |= k[i]==q;
  sym::check((m.find(q)!=m.end())==in, "find");
  size_t n=0; int prev=0; for (int x: m) { if(n) sym::check(prev<x,"sorted"); prev=x; n++; }
  sym::check(n==m.size(),"size");
  sym::observe("n",n);
  }
  L.done();
  sym::reach("end");
}
