//@ {"mods":"ConstraintEngine","quick":60,"thorough":800,"pathcpu":10,
//@  "tags":["post"],
//@  "what":"a symbolic solution of each constraint's documented relation stays in every derived domain",
//@  "bounds":"every built-in numeric/boolean/symbolic constraint type except sin and rand, arity 1 to 5 (thorough 7), integer bounds |n|<=6, real bounds in halves |x|<=3, optionally one infinite bound, enumerations of up to 3 members, one constraint at a time"}
#include "rel.hh"
static CEEngine* eng;
extern "C" void sym_setup(){ quiet(); eng=new CEEngine(); }
static void harness(){
  int ci=sym_choice("con",0,NCONS-1); const Con& c=CONS[ci]; int n=strlen(c.sig);
  if(n>5&&!symx_thorough()) symx_prune();
  std::string nm=std::string(c.name)+"("+c.sig+")"; ConstraintEngineId ce=eng->ce();
  int inf=0; bool caninf=c.R>=3&&n<=3; for(int i=0;i<n;i++) caninf&=c.sig[i]=='I'||c.sig[i]=='R'||c.sig[i]=='B'; if(caninf) inf=sym_choice("inf",0,2*n);
  double w[8]; for(int i=0;i<n;i++) w[i]=sval(c.sig[i],keepn("w",i),c.R);
  if(c.pre){ sym_assume(c.pre(w,n)); }
  sym_assume(c.rel(w,n));
  Scope s; for(int i=0;i<n;i++) s.push_back(svar(ce,c.sig[i],i,c.R,&w[i],inf&&(inf-1)/2==i?1+((inf-1)&1):0));
  sym_reach("post"); sym_reach(strdup(nm.c_str())); ce->createConstraint(c.name,s);
  bool ok=ce->propagate(); sym_assert(ok,(nm+": a satisfiable constraint is not reported inconsistent").c_str());
  for(int i=0;i<n;i++) sym_assert(has(s[i],w[i]),(nm+": propagation removed a value of a solution").c_str());
}
