//@ {"mods":"ConstraintEngine","quick":60,"thorough":850,"pathcpu":10,
//@  "tags":["consistent","inconsistent","split","merged","specified","reset","cycle"],
//@  "what":"a history of adding and removing equalities (between each pair of variables), specifying and resetting variables, with propagation after any step, under the equality constraint run by the ordinary propagator and by the equivalence-class propagator: variables still connected have the intersection of their own domains, unconnected ones are untouched, and the verdict is inconsistent exactly when some class has no common value",
//@  "bounds":"4 variables (integer intervals |n|<=4, one optionally unbounded, one optionally an enumeration of 3 integers), 6 possible equality edges, every history of 3 (thorough 5) operations after a chain of 2 edges"}
#include "ce.hh"
#include "Propagators.hh"
#include "Constraints.hh"
#include <cstring>
static CEEngine* e;
extern "C" void sym_setup(){ quiet(); e=new CEEngine(); new EqualityConstraintPropagator("EquivalenceClass",e->ce()); }
static char* k(const char* p,int i){ char b[30]; sprintf(b,"%s%d",p,i); return strdup(b); }
static const int N=4; static const long R=4;
static ConstrainedVariableId v[N]; static double lo[N],hi[N]; static bool inf3,en; static double ev[3];
static ConstraintId c[6]; static bool spec[N]; static double val[N]; static bool klass;
static const int P[6][2]={{0,1},{1,2},{2,3},{0,2},{1,3},{0,3}};
static void post(int i){ Scope s=sym_choice(k("flip",i),0,1)?scope(v[P[i][1]],v[P[i][0]]):scope(v[P[i][0]],v[P[i][1]]);
  c[i]=(klass?(Constraint*)new EqualConstraint("eq","EquivalenceClass",e->ce(),s):(Constraint*)e->ce()->createConstraint("eq",s))->getId(); }
static bool own(int i,double x){ if(spec[i]) return val[i]==x; if(i==3&&inf3) return true; if(i==1&&en) return (ev[0]==x)|(ev[1]==x)|(ev[2]==x); return (lo[i]<=x)&(x<=hi[i]); }
static void check(){
  bool ok=e->ce()->propagate();
  int g[N]; for(int i=0;i<N;i++) g[i]=i;
  for(int r=0;r<N;r++) for(int i=0;i<6;i++) if(!c[i].isNoId()){ int a=g[P[i][0]],b=g[P[i][1]]; int m=a<b?a:b; g[P[i][0]]=g[P[i][1]]=m; }
  bool possible=true;
  for(int q=0;q<N;q++){ bool some=false; for(long x=-R;x<=R;x++){ bool all=true; for(int i=0;i<N;i++) if(g[i]==q) all=all&own(i,(double)x); some=some|all; } bool any=false; for(int i=0;i<N;i++) any=any||g[i]==q; if(any&&!(q==3&&inf3)) possible=possible&some; }
  sym_assert(ok==possible,ok?"equalities without a common value not detected":"equalities with a common value reported inconsistent");
  if(!ok){ sym_reach("inconsistent"); return; } sym_reach("consistent");
  for(int i=0;i<N;i++){
    if(inf3&&g[i]==3&&i==3&&!spec[3]){ bool alone=true; for(int j=0;j<3;j++) alone=alone&&g[j]!=3; if(alone){ sym_assert(!v[3]->lastDomain().isFinite(),"an unconnected variable was restricted"); continue; } }
    double l=1e9,u=-1e9;
    for(long x=-R;x<=R;x++){ bool all=true; for(int j=0;j<N;j++) if(g[j]==g[i]) all=all&own(j,(double)x); l=(all&(l==1e9))?(double)x:l; u=all?(double)x:u; 
      bool h=v[i]->lastDomain().isMember(edouble((double)x));
      if(en&&g[i]==g[1]){ sym_assert(h|!all,"a variable lost a value all its equals allow"); if(i==1) sym_assert(all|!h,"an enumerated variable kept a value one of its equals excludes"); }
      else sym_assert(h==all,"a variable's domain is not the intersection of its equality class"); }
    if(en&&klass&&g[i]==g[1]&&i!=1) continue; // the class propagator does not shrink an interval to the hull of an enumeration
    sym_assert((cast_double(v[i]->lastDomain().getLowerBound())==l)&(cast_double(v[i]->lastDomain().getUpperBound())==u),"bounds differ within an equality class"); }
}
static void harness(){
  int L=symx_thorough()?5:3; klass=sym_choice("class",0,1); int kind=sym_choice("kind",0,2); inf3=kind==1; en=kind==2;
  if(inf3) v[3]=(new Variable<IntervalIntDomain>(e->ce(),IntervalIntDomain()))->getId();
  for(int i=0;i<N;i++){ if(i==3&&inf3) continue; if(i==1&&en){ std::list<edouble> l; for(int j=0;j<3;j++){ ev[j]=(double)sym_int(k("ev",j),-R,R); if(j) sym_assume(ev[j-1]<ev[j]); l.push_back(edouble(ev[j])); } lo[1]=ev[0]; hi[1]=ev[2]; v[1]=(new Variable<NumericDomain>(e->ce(),NumericDomain(l,IntDT::instance())))->getId(); continue; }
    lo[i]=(double)sym_int(k("lo",i),-R,R); hi[i]=(double)sym_int(k("hi",i),-R,R); sym_assume(lo[i]<=hi[i]); v[i]=ivar(e->ce(),(long)lo[i],(long)hi[i]); }
  post(0); int second=sym_choice("second",1,2); post(second); if(sym_choice("look",0,1)) check();
  for(int s=0;s<L;s++){
    int op=sym_choice(k("op",s),0,9);
    if(op<6){ if(c[op].isNoId()){ post(op); sym_reach("merged"); int n=0; for(int i=0;i<6;i++) n+=!c[i].isNoId(); if(n>=3) sym_reach("cycle"); } else { delete (Constraint*)c[op]; c[op]=ConstraintId::noId(); sym_reach("split"); } }
    else { int i=op-6; if(spec[i]){ v[i]->reset(); spec[i]=false; sym_reach("reset"); } else { double x=(double)sym_int(k("val",s),-R,R); spec[i]=false; sym_assume(own(i,x)); v[i]->specify(edouble(x)); spec[i]=true; val[i]=x; sym_reach("specified"); } }
    if(s==L-1||sym_choice(k("look",s),0,1)) check();
  }
}
