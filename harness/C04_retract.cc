//@ {"mods":"ConstraintEngine","quick":60,"thorough":850,"pathcpu":10,
//@  "tags":["consistent","inconsistent","after-inconsistent"],
//@  "what":"a history of removing, re-posting, deactivating and reactivating constraints and of specifying, re-specifying and resetting variables, with propagation after any of the steps, against a fresh engine holding only what is in force at the end: same verdict and same derived domains",
//@  "bounds":"3 integer-interval variables with symbolic bounds |n|<=3 and symbolic specified values, two constraints of 5 (thorough 16) type pairs, every history of 3 (thorough 4) operations out of 7 kinds, every choice of intermediate propagation"}
#include "ce.hh"
#include <cstring>
static CEEngine *e1,*e2;
extern "C" void sym_setup(){ quiet(); e1=new CEEngine(); e2=new CEEngine(); }
struct CT { const char* n; int ar; int sc[3]; };
static const CT T[][2]={ {{"eq",2,{0,1,2}},{"leq",2,{1,2,0}}}, {{"addEq",3,{0,1,2}},{"lt",2,{1,0,2}}}, {{"eq",2,{0,1,2}},{"eq",2,{1,2,0}}}, {{"lt",2,{0,1,2}},{"lt",2,{1,2,0}}}, {{"eq",2,{0,1,0}},{"addEq",3,{1,2,0}}},
 {{"eq",2,{0,1,0}},{"addEq",3,{2,1,0}}}, {{"eq",3,{0,1,2}},{"lt",2,{0,2,0}}}, {{"allDiff",3,{0,1,2}},{"leq",2,{0,1,0}}}, {{"leq",2,{0,1,0}},{"leq",2,{1,0,0}}}, {{"neg",2,{0,1,0}},{"neg",2,{1,2,0}}}, {{"eqSum",3,{0,1,2}},{"eq",2,{1,2,0}}}, {{"withinBounds",3,{0,1,2}},{"eq",2,{0,2,0}}},
 {{"eq",2,{0,1,0}},{"lt",2,{0,1,0}}}, {{"eqSum",3,{0,1,2}},{"eqSum",3,{1,0,2}}}, {{"eq",2,{0,2,0}},{"neg",2,{0,1,0}}}, {{"subsetOf",2,{0,1,0}},{"eq",2,{1,2,0}}} };
static ConstraintId post(ConstraintEngineId ce,const CT& c,ConstrainedVariableId* v){ Scope s; for(int i=0;i<c.ar;i++) s.push_back(v[c.sc[i]]); return ce->createConstraint(c.n,s); }
static char* k(const char* p,int i){ char b[30]; sprintf(b,"%s%d",p,i); return strdup(b); }
static void harness(){
  const long R=3; int L=symx_thorough()?4:3; int t=sym_choice("types",0,symx_thorough()?15:4);
  double lo[3],hi[3]; for(int i=0;i<3;i++){ lo[i]=(double)sym_int(k("lo",i),-R,R); hi[i]=(double)sym_int(k("hi",i),-R,R); sym_assume(lo[i]<=hi[i]); }
  ConstraintEngineId a=e1->ce(),b=e2->ce(); ConstrainedVariableId v[3],u[3]; for(int i=0;i<3;i++){ v[i]=ivar(a,(long)lo[i],(long)hi[i]); u[i]=ivar(b,(long)lo[i],(long)hi[i]); }
  ConstraintId c[2]; bool posted[2]={true,true},active[2]={true,true}; bool spec[3]={0,0,0}; double val[3];
  for(int i=0;i<2;i++) c[i]=post(a,T[t][i],v);
  bool ok=a->propagate(); if(!ok) sym_reach("after-inconsistent");
  for(int s=0;s<L;s++){
    int op=sym_choice(k("op",s),0,6);
    // deactivation only stops further propagation (what it already removed comes back with later relaxations): it has to be balanced, with nothing retracted in between
    bool off=!active[0]||!active[1]; if(off&&op<=1&&posted[op]) symx_prune(); if(off&&op>=4&&spec[op-4]) symx_prune(); if(s==L-1&&!off&&(op==2||op==3)) symx_prune();
    if(!ok&&(op==2||op==3)) symx_prune();   // nor may an inconsistency, which the engine relaxes by itself, be met meanwhile
    if(op<=1){ if(posted[op]){ if(!active[op]) symx_prune(); delete (Constraint*)c[op]; posted[op]=false; active[op]=true; } else { c[op]=post(a,T[t][op],v); posted[op]=true; } }
    else if(op<=3){ int i=op-2; if(!posted[i]) symx_prune(); if(active[i]) c[i]->deactivate(); else c[i]->undoDeactivation(); active[i]=!active[i]; }
    else { int i=op-4; if(spec[i]&&!sym_choice(k("again",s),0,1)){ v[i]->reset(); spec[i]=false; } else { double x=(double)sym_int(k("val",s),-R,R); sym_assume((lo[i]<=x)&(x<=hi[i])); v[i]->specify(edouble(x)); spec[i]=true; val[i]=x; } }
    if(s==L-1||sym_choice(k("prop",s),0,1)) { ok=a->propagate(); if(!ok&&(!active[0]||!active[1])) symx_prune(); if(!ok&&s<L-1) sym_reach("after-inconsistent"); }
  }
  if(!active[0]||!active[1]) symx_prune();
  for(int i=0;i<2;i++) if(posted[i]&&active[i]) post(b,T[t][i],u);
  for(int i=0;i<3;i++) if(spec[i]) u[i]->specify(edouble(val[i]));
  bool okb=b->propagate(); std::string w=std::string(T[t][0].n)+"+"+T[t][1].n;
  sym_assert(ok==okb,(w+": verdict after the history differs from a fresh engine").c_str());
  for(int i=0;i<3;i++){ sym_assert(v[i]->isSpecified()==u[i]->isSpecified()||!spec[i],"specified flag"); 
    sym_assert((cast_double(v[i]->baseDomain().getLowerBound())==lo[i])&(cast_double(v[i]->baseDomain().getUpperBound())==hi[i]),"base domain changed by a retractable operation"); }
  if(!ok){ sym_reach("inconsistent"); return; } sym_reach("consistent");
  for(int i=0;i<3;i++){ const Domain&x=v[i]->lastDomain(),&y=u[i]->lastDomain();
    sym_assert(cast_double(x.getLowerBound())==cast_double(y.getLowerBound()),(w+": lower bound after the history differs from a fresh engine").c_str());
    sym_assert(cast_double(x.getUpperBound())==cast_double(y.getUpperBound()),(w+": upper bound after the history differs from a fresh engine").c_str()); }
}
