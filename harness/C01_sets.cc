//@ {"mods":"ConstraintEngine","quick":40,"thorough":300,"pathcpu":10,
//@  "tags":["unary","subset","lock","single","specified","imply","union","removed"],
//@  "what":"the constraints over whole domains (UNARY, subsetOf, lockCT, testSingleton, testSpecified, memberImply, eqUnion) restrict derived domains to exactly what their definitions allow, and removing them restores the base domains",
//@  "bounds":"integer bounds |n|<=4, real bounds in halves |x|<=2, infinite bounds for UNARY and subsetOf, enumerations of up to 2 (thorough 3) members, one constraint with up to 4 variables"}
#include "ce.hh"
#include "dom.hh"
#include "Constraints.hh"
static CEEngine* eng;
extern "C" void sym_setup(){ quiet(); eng=new CEEngine(); }
static ConstrainedVariableId var(const Spec& s){
  ConstraintEngineId ce=eng->ce(); Domain* d=build(s);
  switch(s.kind){ case INT: return (new Variable<IntervalIntDomain>(ce,*(IntervalIntDomain*)d))->getId(); case REAL: return (new Variable<IntervalDomain>(ce,*(IntervalDomain*)d))->getId();
    case BOOLK: return (new Variable<BoolDomain>(ce,*(BoolDomain*)d))->getId(); case ENUMS: return (new Variable<SymbolDomain>(ce,*(SymbolDomain*)d))->getId();
    default: return (new Variable<NumericDomain>(ce,*(NumericDomain*)d))->getId(); }
}
static void harness(){
  R=4; int MAXN=symx_thorough()?3:2; ConstraintEngineId ce=eng->ce();
  int op=sym_choice("op",0,6);
  if(op<=1){
    int pi=sym_choice("pair",0,NPAIRS-1); int ka=PAIRS[pi][0],kb=PAIRS[pi][1];
    Spec a=mk("a",ka,true,MAXN),b=mk("b",kb,true,MAXN); double w=witness(a,"w");
    ConstrainedVariableId x=var(a); Spec m=meet(a,b); ConstraintId c; ConstrainedVariableId y;
    if(op==0){ sym_reach("unary"); c=(new UnaryConstraint(*build(b),x))->getId(); }
    else { sym_reach("subset"); y=var(b); c=ce->createConstraint("subsetOf",scope(x,y)); }
    bool ok=ce->propagate(); sym_assert(ok==!emptySpec(m),"a domain restriction is consistent exactly when the domains meet");
    if(ok){ same(x->lastDomain(),m,w,"restricted variable"); if(op==1) same(y->lastDomain(),b,w,"superset variable"); }
    delete (Constraint*) c; sym_reach("removed");
    ok=ce->propagate(); sym_assert(ok,"consistent after removal"); same(x->lastDomain(),a,w,"variable after removing the restriction"); if(op==1) same(y->lastDomain(),b,w,"superset after removal");
    return;
  }
  int ks[]={INT,REAL,ENUMS,ENUMI,BOOLK};
  if(op==2){ int k=ks[sym_choice("kind",0,4)]; Spec a=mk("a",k,false,MAXN+1),b=mk("b",k,false,MAXN); double w=witness(a,"w"); ConstrainedVariableId x=var(a),y=var(b); sym_reach("lock");
    ce->createConstraint("lockCT",scope(x,y)); bool ok=ce->propagate(); bool sub=subsetSpec(b,a);
    sym_assert(ok==sub,"a lock is consistent exactly when the locked value set lies inside the variable's domain"); if(ok){ same(x->lastDomain(),b,w,"locked variable"); same(y->lastDomain(),b,w,"lock"); } return; }
  if(op==3||op==4){ int k=ks[sym_choice("kind",0,4)]; Spec t=mk("t",BOOLK,false,2),a=mk("a",k,false,MAXN); double w=witness(a,"w"); ConstrainedVariableId tv=var(t),x=var(a); bool spec=false,single=singleSpec(a);
    if(op==4&&sym_choice("specify",0,1)){ double v=a.isEnum()?a.v[0]:a.lo; x->specify(edouble(v)); spec=true; single=true; if(a.isEnum()) a.n=1; else a.hi=v; }
    sym_reach(op==3?"single":"specified"); ce->createConstraint(op==3?"testSingleton":"testSpecified",scope(tv,x)); bool ok=ce->propagate();
    bool holds=op==3?single:(spec|(single&x->isSpecified())); Spec e=t; if(holds){ e.lo=1; }
    sym_assert(ok==!emptySpec(e),"test constraint verdict"); if(ok){ same(tv->lastDomain(),e,sym_int("tw",0,1),"test variable"); same(x->lastDomain(),a,w,"tested variable"); } return; }
  if(op==5){ int p=sym_choice("kp",0,2); int ka=p==0?INT:p==1?ENUMI:BOOLK,kc=p==0?ENUMI:p==1?INT:INT; Spec a=mk("a",ka,false,MAXN),b=mk("b",kc,false,MAXN),c=mk("c",kc,false,MAXN),d=mk("d",ka,false,MAXN); double w=witness(a,"w");
    ConstrainedVariableId va=var(a),vb=var(b),vc=var(c),vd=var(d); sym_reach("imply"); ce->createConstraint("memberImply",scope(va,vb,vc,vd)); bool ok=ce->propagate();
    bool pre=subsetSpec(b,c); Spec e=pre?meet(a,d):a; sym_assert(ok==!emptySpec(e),"membership implication verdict");
    if(ok){ same(va->lastDomain(),e,w,"implied variable"); same(vb->lastDomain(),b,w,"B"); same(vc->lastDomain(),c,w,"C"); same(vd->lastDomain(),d,w,"D"); } return; }
  { int p=sym_choice("kp",0,4); int kd=p==0?INT:p==1?REAL:p==2?ENUMS:p==3?ENUMI:INT, k1=p==3?INT:p==4?ENUMI:kd,k2=p==4?INT:kd;
    Spec d=mk("d",kd,false,MAXN+1),a=mk("a",k1,false,MAXN),b=mk("b",k2,false,MAXN); double w=witness(d,"w"); ConstrainedVariableId vd=var(d),va=var(a),vb=var(b); sym_reach("union");
    ce->createConstraint("eqUnion",scope(vd,va,vb)); bool ok=ce->propagate();
    bool ia=d.isEnum()?intersectsSpec(d,a):intersectsSpec(a,d), ib=d.isEnum()&&!b.isEnum()?intersectsSpec(d,b):intersectsSpec(b,d);
    // an interval is intersected with the range of an enumeration (it cannot hold its gaps)
    bool ja=ia; if(p==3) ja=(a.lo<=d.v[d.n-1])&(d.v[0]<=a.hi);
    if(ia&ib) sym_assert(ok,"a union of domains that all meet the destination is consistent"); else if(ja&ib) return; else { sym_assert(!ok,"a union over a domain disjoint from the destination is inconsistent"); return; }
    sym_assert(has(vd,w)|!(d.in(w)&(a.in(w)|b.in(w))),"value of the union removed from the destination");
    sym_assert(has(va,w)|!(d.in(w)&a.in(w)),"value removed from the first part"); sym_assert(has(vb,w)|!(d.in(w)&b.in(w)),"value removed from the second part");
    sym_assert(!has(va,w)|a.in(w),"first part grew"); sym_assert(!has(vb,w)|b.in(w),"second part grew"); sym_assert(!has(vd,w)|d.in(w),"destination grew");
    if(d.isEnum()) sym_assert(!has(vd,w)|a.in(w)|b.in(w),"destination keeps a value of no part");
    else { double l1=a.isEnum()?a.v[0]:a.lo,h1=a.isEnum()?a.v[a.n-1]:a.hi,l2=b.lo,h2=b.hi; double l=l1<l2?l1:l2,h=h1<h2?h2:h1; sym_assert(!has(vd,w)|((l<=w)&(w<=h)),"destination exceeds the range of its parts"); }
  }
}
