//@ {"mods":"ConstraintEngine","quick":60,"thorough":850,"pathcpu":10,
//@  "tags":["consistent","violated","recovered","two-violated"],
//@  "what":"a history of specifying, resetting, removing and re-posting with violations allowed, with propagation after any step: a positive violation is reported exactly when a fresh strict engine finds what is in force inconsistent, the listed constraints are in force, non-empty, add up to the total and each variable's share, no domain stays empty, and without a violation the domains equal the fresh engine's",
//@  "bounds":"3 integer-interval variables with symbolic bounds |n|<=3 and symbolic specified values, two constraints of 5 (thorough 12) type pairs, every history of 3 (thorough 4) operations out of 5 kinds, every choice of intermediate propagation"}
#include "ce.hh"
#include <cstring>
static CEEngine *e1,*e2;
extern "C" void sym_setup(){ quiet(); e1=new CEEngine(); e2=new CEEngine(); e1->ce()->setAllowViolations(true); }
struct CT { const char* n; int ar; int sc[3]; };
static const CT T[][2]={ {{"eq",2,{0,1,2}},{"leq",2,{1,2,0}}}, {{"addEq",3,{0,1,2}},{"lt",2,{1,0,2}}}, {{"eq",3,{0,1,2}},{"lt",2,{0,2,0}}}, {{"eq",2,{0,1,0}},{"lt",2,{0,1,0}}}, {{"lt",2,{0,1,2}},{"lt",2,{1,2,0}}},
 {{"eq",2,{0,1,2}},{"eq",2,{1,2,0}}}, {{"leq",2,{0,1,0}},{"leq",2,{1,0,0}}}, {{"eq",2,{0,1,0}},{"addEq",3,{1,2,0}}}, {{"eq",2,{0,1,0}},{"addEq",3,{2,1,0}}}, {{"neg",2,{0,1,0}},{"neg",2,{1,2,0}}}, {{"addEq",3,{0,1,2}},{"eq",2,{1,2,0}}}, {{"subsetOf",2,{0,1,0}},{"eq",2,{1,2,0}}} };
static ConstraintId post(ConstraintEngineId ce,const CT& c,ConstrainedVariableId* v){ Scope s; for(int i=0;i<c.ar;i++) s.push_back(v[c.sc[i]]); return ce->createConstraint(c.n,s); }
static char* k(const char* p,int i){ char b[30]; sprintf(b,"%s%d",p,i); return strdup(b); }
static ConstrainedVariableId v[3]; static double lo[3],hi[3]; static bool spec[3]; static double val[3]; static ConstraintId c[2]; static bool posted[2]; static int t; static bool was;
static void check(){
  ConstraintEngineId a=e1->ce(),b=e2->ce(); ConstrainedVariableId u[3]; for(int i=0;i<3;i++) u[i]=ivar(b,(long)lo[i],(long)hi[i]); ConstraintId d[2];
  a->propagate();
  for(int i=0;i<2;i++) if(posted[i]) d[i]=post(b,T[t][i],u);
  for(int i=0;i<3;i++) if(spec[i]) u[i]->specify(edouble(val[i]));
  bool ok=b->propagate(); double viol=a->getViolation(); std::string w=std::string(T[t][0].n)+"+"+T[t][1].n;
  if(ok) sym_assert(viol==0,(w+": a violation is reported though nothing conflicts").c_str());
  else sym_assert(viol>0,(w+": a conflict is not reported as a violation").c_str());
  PSList<PSConstraint*> l=a->getAllViolations(); sym_assert((l.size()>0)==(viol>0),"the list of violated constraints does not match the total violation");
  double sum=0; for(int i=0;i<2;i++) if(posted[i]) sum+=c[i]->getViolation(); sym_assert(sum==viol,"constraint violations do not add up to the total");
  for(int i=0;i<l.size();i++){ bool in=false; for(int j=0;j<2;j++) in=in||(posted[j]&&(PSConstraint*)(Constraint*)c[j]==l.get(i)); sym_assert(in,"a constraint no longer in force is listed as violated"); }
  sym_assert((int)a->getViolationExpl().size()==l.size(),"one explanation per violated constraint"); sym_assert(a->constraintConsistent(),"a violation-tolerant engine has to remain consistent");
  for(int i=0;i<3;i++){ double s=0; for(int j=0;j<2;j++) if(posted[j]&&c[j]->isVariableOf(v[i])) s+=c[j]->getViolation(); sym_assert(v[i]->getViolation()==s,"a variable's violation is not that of its constraints"); sym_assert(!v[i]->lastDomain().isEmpty(),"a domain is left empty");
    if(spec[i]) sym_assert(v[i]->isSpecified(),"specified flag lost"); if(spec[i]) sym_assert(v[i]->getSpecifiedValue()==edouble(val[i]),"specified value lost"); }
  if(ok){ sym_reach("consistent"); if(was) sym_reach("recovered"); for(int i=0;i<3;i++){ const Domain&x=v[i]->lastDomain(),&y=u[i]->lastDomain();
    sym_assert((cast_double(x.getLowerBound())==cast_double(y.getLowerBound()))&(cast_double(x.getUpperBound())==cast_double(y.getUpperBound())),(w+": domains after recovery differ from those without the conflict").c_str()); } }
  else { sym_reach("violated"); was=true; if(l.size()>1) sym_reach("two-violated"); }
  for(int i=0;i<2;i++) if(posted[i]) delete (Constraint*)d[i]; for(int i=0;i<3;i++) delete (ConstrainedVariable*)u[i]; b->propagate();
}
static void harness(){
  const long R=3; int L=symx_thorough()?4:3; t=sym_choice("types",0,symx_thorough()?11:4);
  for(int i=0;i<3;i++){ lo[i]=(double)sym_int(k("lo",i),-R,R); hi[i]=(double)sym_int(k("hi",i),-R,R); sym_assume(lo[i]<=hi[i]); }
  ConstraintEngineId a=e1->ce(); for(int i=0;i<3;i++) v[i]=ivar(a,(long)lo[i],(long)hi[i]);
  for(int i=0;i<2;i++){ c[i]=post(a,T[t][i],v); posted[i]=true; }
  check();
  for(int s=0;s<L;s++){
    int op=sym_choice(k("op",s),0,4);
    if(op<=1){ if(posted[op]){ delete (Constraint*)c[op]; posted[op]=false; } else { c[op]=post(a,T[t][op],v); posted[op]=true; } }
    else { int i=op-2; if(spec[i]&&!sym_choice(k("again",s),0,1)){ v[i]->reset(); spec[i]=false; } else { double x=(double)sym_int(k("val",s),-R,R); sym_assume((lo[i]<=x)&(x<=hi[i])); v[i]->specify(edouble(x)); spec[i]=true; val[i]=x; } }
    if(s==L-1||sym_choice(k("prop",s),0,1)) check();
  }
}
