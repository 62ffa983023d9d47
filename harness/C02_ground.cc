//@ {"mods":"ConstraintEngine","quick":50,"thorough":500,"pathcpu":10,
//@  "tags":["ground","result"],
//@  "what":"on variables bound to symbolic values, propagation succeeds exactly when the values satisfy the documented relation, whether they were bound before or after the constraint was posted; a result variable left free is narrowed to the value the bound arguments determine",
//@  "bounds":"every built-in numeric/boolean/symbolic constraint type except sin and rand, arity 1 to 7 (quick: 6), integers |n|<=6, reals in halves |x|<=3, one constraint at a time"}
#include "rel.hh"
static CEEngine* eng;
extern "C" void sym_setup(){ quiet(); eng=new CEEngine(); }
static void harness(){
  int ci=sym_choice("con",0,NCONS-1); const Con& c=CONS[ci]; int n=strlen(c.sig);
  if(n>6&&!symx_thorough()) symx_prune();
  std::string nm=std::string(c.name)+"("+c.sig+")"; ConstraintEngineId ce=eng->ce();
  bool isfn=c.fn>=0;
  symx_note("constraint %s\n",nm.c_str()); int mode=sym_choice("mode",0,isfn?2:1);  // 0 bound at posting, 1 bound one by one after posting, 2 result free
  double w[8]; for(int i=0;i<n;i++){ int R=c.R; if(mode==1) R=R>3?3:R; w[i]=mode==2&&i==c.fn?0:sval(c.sig[i],keepn("w",i),R); }
  if(c.pre){ sym_assume(c.pre(w,n)); }  // outside the domain of definition (division by zero, square root of a negative number): not judged
  Scope s;
  if(mode==2){
    // big enough for the value of every function of arguments in range
    for(int i=0;i<n;i++) s.push_back(i==c.fn?freevar(ce,c.sig[i],c.sig[i]=='M'?12:300):gvar(ce,c.sig[i],w[i]));
    sym_reach("result");
    ce->createConstraint(c.name,s); bool ok=ce->propagate();
    const Domain& d=s[c.fn]->lastDomain();
    if(!ok){ // no value of the result satisfies the relation (e.g. sqrt of a non-square)
      for(int k=-40;k<=40;k++){ w[c.fn]=k; sym_assert(!c.rel(w,n),(nm+": inconsistency reported although a result value exists").c_str()); }
      return; }
    if(d.isSingleton()){ w[c.fn]=cast_double(d.getSingletonValue()); sym_assert(c.rel(w,n),(nm+": result narrowed to a value that does not satisfy the relation").c_str()); }
    else sym_assert(false,(nm+": result variable determined by bound arguments is not narrowed to one value").c_str());
    return;
  }
  if(mode==0){ for(int i=0;i<n;i++) s.push_back(gvar(ce,c.sig[i],w[i])); ce->createConstraint(c.name,s); }
  else {
    for(int i=0;i<n;i++) s.push_back(freevar(ce,c.sig[i]=='S'?'M':c.sig[i],6)); ce->createConstraint(c.name,s);
    bool ok=ce->propagate(); if(!ok) return; // judged by C01
    for(int i=0;i<n;i++){ // bind in order; a value already excluded makes the assignment infeasible, which must be right
      if(!has(s[i],w[i])){ sym_assert(!c.rel(w,n),(nm+": binding order: value of a satisfying assignment excluded").c_str()); return; }
      s[i]->restrictBaseDomain(*(gvar(ce,c.sig[i]=='S'?'M':c.sig[i],w[i])->lastDomain().copy())); ce->propagate(); if(ce->provenInconsistent()) break; }
  }
  sym_reach("ground");
  bool ok=ce->propagate(); bool r=c.rel(w,n);
  if(r) sym_assert(ok,(nm+": satisfied assignment reported inconsistent").c_str());
  else sym_assert(!ok,(nm+": violated assignment accepted").c_str());
}
