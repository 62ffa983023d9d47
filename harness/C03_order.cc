//@ {"mods":"ConstraintEngine","quick":60,"thorough":800,"pathcpu":10,
//@  "tags":["consistent","inconsistent"],
//@  "what":"two constraints and a base-domain restriction applied in any order with propagation after each step, against all applied first and propagated once: same verdict and, when consistent, same derived domains",
//@  "bounds":"3 integer-interval (or, for eq/neq/allDiff, symbol) variables with bounds |n|<=2 (thorough 5), all pairs of 8 constraint types with monotone filtering (eq, leq, lt, neg or symbolic neq, addEq, allDiff, eqSum, withinBounds; interval neq, absVal, eqMaximum and eqMinimum skip some prunings depending on what they last saw, are sound (C01) but not monotone, and are not judged here) in 2 (thorough 3) scope arrangements, 4 orders (thorough all 6); thorough adds a third constraint and partial propagation"}
#include "ce.hh"
#include <cstring>
static CEEngine *e1,*e2;
extern "C" void sym_setup(){ quiet(); e1=new CEEngine(); e2=new CEEngine(); }
struct CT { const char* n; int ar; };
static const CT T[]={{"eq",2},{"leq",2},{"lt",2},{"neg",2},{"addEq",3},{"allDiff",3},{"eqSum",3},{"withinBounds",3}};
static const int ARR[3][3]={{1,2,0},{1,0,2},{2,0,1}};
struct Op { int kind; int con; int sc[3]; int var; double lo,hi; };
static ConstrainedVariableId mkv(ConstraintEngineId ce,bool sym,const double* lo,const double* hi,int i){
  if(!sym) return ivar(ce,(long)lo[i],(long)hi[i]);
  std::list<edouble> l; l.push_back(edouble(lo[i])); if(hi[i]!=lo[i]) l.push_back(edouble(hi[i])); return (new Variable<SymbolDomain>(ce,SymbolDomain(l,SymbolDT::instance())))->getId(); }
static void apply(ConstraintEngineId ce,const Op& o,ConstrainedVariableId* v,bool sym){
  if(o.kind==0){ Scope s; for(int i=0;i<T[o.con].ar;i++) s.push_back(v[o.sc[i]]); ce->createConstraint(sym&&o.con==3?"neq":T[o.con].n,s); }
  else if(sym){ v[o.var]->restrictBaseDomain(SymbolDomain(edouble(o.lo),SymbolDT::instance())); }
  else v[o.var]->restrictBaseDomain(IntervalIntDomain((eint)edouble(o.lo),(eint)edouble(o.hi)));
}
static void harness(){
  long R=symx_thorough()?5:2; int nc=symx_thorough()?3:2;
  int t1=sym_choice("type1",0,7),t2=sym_choice("type2",0,7); if(t2<t1) symx_prune(); // symmetric pairs
  bool ok3[8]={1,0,0,1,0,1,0,0}; bool sym=ok3[t1]&&ok3[t2]&&sym_choice("symbols",0,1);
  Op ops[4]; int n=0;
  { Op o; o.kind=0; o.con=t1; for(int i=0;i<3;i++) o.sc[i]=i; ops[n++]=o; }
  for(int k=1;k<nc;k++){ Op o; o.kind=0; o.con=k==1?t2:(int)sym_choice("type3",0,7); if(sym&&!ok3[o.con]) symx_prune(); int a=sym_choice(k==1?"scope2":"scope3",0,symx_thorough()?2:1); for(int i=0;i<3;i++) o.sc[i]=ARR[a][i]; ops[n++]=o; }
  double lo[3],hi[3]; const char* LN[]={"lo0","lo1","lo2"}; const char* HN[]={"hi0","hi1","hi2"};
  for(int i=0;i<3;i++){ lo[i]=(double)sym_int(LN[i],-R,R); hi[i]=(double)sym_int(HN[i],-R,R); sym_assume(lo[i]<=hi[i]); if(sym){ lo[i]+=R+1; hi[i]+=R+1; } }
  { Op o; o.kind=1; o.var=sym_choice("rvar",0,symx_thorough()?1:0); if(sym){ o.lo=sym_choice("rpick",0,1)?hi[o.var]:lo[o.var]; o.hi=o.lo; } else { o.lo=(double)sym_int("rlo",-R,R); o.hi=(double)sym_int("rhi",-R,R); sym_assume((lo[o.var]<=o.lo)&(o.lo<=o.hi)&(o.hi<=hi[o.var])); } ops[n++]=o; }
  ConstraintEngineId a=e1->ce(),b=e2->ce(); ConstrainedVariableId va[3],vb[3];
  for(int i=0;i<3;i++){ va[i]=mkv(a,sym,lo,hi,i); vb[i]=mkv(b,sym,lo,hi,i); }
  for(int i=0;i<n;i++) apply(a,ops[i],va,sym);
  bool ra=a->propagate();
  bool used[4]={0,0,0,0}; bool rb=true; for(int i=0;i<n;i++){ char nb[20]; sprintf(nb,"ord%d",i); int left=n-i; int k=sym_choice(strdup(nb),0,left-1); int j=0; for(;;j++) if(!used[j]&&k--==0) break; used[j]=true; if(i==0&&j==0&&!symx_thorough()) symx_prune();
    if(ops[j].kind==1&&!sym){ // a restriction must meet the base domain: it does
    }
    apply(b,ops[j],vb,sym); if(!symx_thorough()||i==n-1||sym_choice(strdup((std::string("prop")+nb).c_str()),0,1)) rb=b->propagate(); if(!rb) break; }
  std::string w=std::string(T[t1].n)+"+"+T[t2].n;
  sym_assert(ra==rb,(w+": the consistency verdict depends on the order of operations").c_str());
  if(!ra){ sym_reach("inconsistent"); return; } sym_reach("consistent");
  for(int i=0;i<3;i++){ const Domain&x=va[i]->lastDomain(),&y=vb[i]->lastDomain();
    sym_assert(cast_double(x.getLowerBound())==cast_double(y.getLowerBound()),(w+": lower bound depends on the order of operations").c_str());
    sym_assert(cast_double(x.getUpperBound())==cast_double(y.getUpperBound()),(w+": upper bound depends on the order of operations").c_str());
    if(sym) sym_assert(x.getSize()==y.getSize(),(w+": domain depends on the order of operations").c_str()); }
}
