// NDDL model with unguarded, guarded, nested, negated and looping rules, shared by K01 and R01
#ifndef RULES_HH
#define RULES_HH
#include "plan.hh"
static const char* MODEL=R"(
class Trk extends Timeline { predicate E { } }
class Obj extends Timeline {
  predicate P { int a; bool b; int c; }
  predicate Q { int q; }
  predicate S1 { } predicate S2 { } predicate S3 { } predicate S4 { }
}
Obj::P {
  starts(Q u); eq(u.q, c);
  if (a == 3) { meets(S1 s1); } else { met_by(S2 s2); }
  if (a != 1) { if (a != 2) { any(S4 s5); } }
  if (b == true) { int loc; lt(loc, c); if (c == 2) { ends_after(S3 s3); } }
}
Obj::Q { if (q != 1) { any(S4 s4); Trk r; foreach (t in r) { starts(t.E e); } } }
Obj o1 = new Obj();
Obj o2 = new Obj();
Trk t1 = new Trk();
Trk t2 = new Trk();
close();
)";
#endif
