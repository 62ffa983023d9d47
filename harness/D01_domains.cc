//@ {"mods":"ConstraintEngine","quick":100,"thorough":500,
//@  "tags":["query","intersect","intersect-empty","difference","equate","equate-empty","compare","bounds-intersect","remove","insert","relax","set"],
//@  "what":"set semantics of every domain operation and query, for a symbolic witness value",
//@  "bounds":"integer bounds |n|<=6 or infinite, real bounds in halves |x|<=3 or infinite, enumerations of up to 3 (thorough 4) members; mixed pairs enumeration/interval and integer/real interval"}
#include "dom.hh"
#include <cstring>
#include <cmath>
extern "C" void sym_setup(){ Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings(); FloatDT::instance(); IntDT::instance(); BoolDT::instance(); SymbolDT::instance(); }
static int MAXN;
static void harness(){
  MAXN=symx_thorough()?4:3;
  int op=sym_choice("op",0,8);
  int pi=sym_choice("pair",0,NPAIRS-1); int ka=PAIRS[pi][0],kb=PAIRS[pi][1];
  std::string pn=std::string(KN[ka])+"/"+KN[kb];
  bool mixedReal=(ka==INT&&kb==REAL)||(ka==ENUMR&&kb==INT);
  if(op==0){ // queries and copies
    if(ka!=kb) symx_prune();
    Spec a=mk("a",ka,true,MAXN,true); Domain* d=build(a); double w=witness(a,"w"); sym_reach("query");
    same(*d,a,w,std::string("query ")+KN[ka]);
    Domain* c=d->copy(); same(*c,a,w,std::string("copy ")+KN[ka]); sym_assert((*c==*d)&&!(*c!=*d),"a copy equals its original");
    if(!emptySpec(a) && (a.isEnum()||(a.integral()&&a.lo>-DINF&&a.hi<DINF))){ std::list<edouble> l; d->getValues(l); bool found=false; double prev=-1e9; bool asc=true; int n=0; for(std::list<edouble>::iterator it=l.begin();it!=l.end();++it){ double x=cast_double(*it); found|=(x==w); asc&=(x>prev); prev=x; n++; }
      sym_assert(found==a.in(w),"getValues enumerates exactly the members"); sym_assert(asc,"getValues lists values in ascending order without repetition"); }
    sym_assert(d->areBoundsFinite()==(ka==ENUMS||(!emptySpec(a)&&(a.isEnum()||((a.lo>-DINF)&(a.hi<DINF))))),"areBoundsFinite");
    return;
  }
  Spec a=mk("a",ka,true,MAXN,op==4&&ka>=ENUMR&&kb>=ENUMR), b=mk("b",kb,ka==INT||ka==REAL,MAXN,false);
  double w=witness(a,"w"); Domain *x=build(a),*y=build(b);
  switch(op){
    case 1: { sym_reach("intersect"); Spec m=meet(a,b); if(emptySpec(m)) sym_reach("intersect-empty"); x->intersect(*y); same(*x,m,w,"intersect "+pn); same(*y,b,w,"intersect argument "+pn); break; }
    case 2: { // difference; an interval is never split (precondition)
      if(mixedReal||kb==REAL&&ka==REAL&&0) symx_prune();
      if(!a.isEnum()){ sym_assume(!((a.lo<b.lo)&(b.hi<a.hi))); }
      sym_reach("difference"); x->difference(*y);
      Spec e=a; if(a.isEnum()){ e.n=0; for(int i=0;i<a.n;i++) if(!b.in(a.v[i])) e.v[e.n++]=a.v[i]; same(*x,e,w,"difference "+pn); }
      else { bool anyleft=(a.lo<b.lo)|(b.hi<a.hi);
        sym_assert(x->isEmpty()==!anyleft,("difference emptiness "+pn).c_str());
        if(anyleft&&(ka!=REAL||((w!=b.lo)&(w!=b.hi)))){ sym_assert(x->isMember(edouble(w))==(a.in(w)&!b.in(w)),("difference "+pn+": membership").c_str()); } }
      same(*y,b,w,"difference argument "+pn); break; }
    case 3: { if(ka==INT&&kb==REAL) symx_prune(); sym_reach("equate"); Spec m=meet(a,b); x->equate(*y);
      if(emptySpec(m)){ sym_reach("equate-empty"); sym_assert(x->isEmpty()||y->isEmpty(),("equating disjoint domains empties one of them "+pn).c_str()); break; }
      same(*x,m,w,"equate "+pn);
      if(b.isEnum()==a.isEnum()) same(*y,m,w,"equate second "+pn);
      else { sym_assert((cast_double(y->getLowerBound())==m.v[0])&(cast_double(y->getUpperBound())==m.v[m.n-1]),("equate: the interval shrinks to the enumeration's range "+pn).c_str()); }
      break; }
    case 4: { if(ka==INT&&kb==REAL) symx_prune(); sym_reach("compare");
      sym_assert(x->isSubsetOf(*y)==subsetSpec(a,b),("isSubsetOf "+pn).c_str());
      if(!emptySpec(a)) sym_assert(x->intersects(*y)==intersectsSpec(a,b),("intersects "+pn).c_str());
      if(ka==kb){ bool eq=equalSpec(a,b); sym_assert((*x==*y)==eq,("== "+pn).c_str()); sym_assert((*x!=*y)==!eq,("!= "+pn).c_str()); }
      else if(a.isEnum()&&kb==INT&&b.lo>-DINF&&b.hi<DINF){ bool eq=((double)a.n==b.hi-b.lo+1)&subsetSpec(a,b); sym_assert((*x==*y)==eq,("== "+pn).c_str()); }
      break; }
    case 5: { if(ka!=kb||ka==ENUMS) symx_prune(); sym_reach("bounds-intersect"); Spec r=b; double lo,hi;
      if(ka==BOOLK||a.isEnum()&&0) { lo=b.lo; hi=b.hi; } else if(ka==ENUMI){ lo=(double)sym_int("lo",-R,R); hi=(double)sym_int("hi",-R,R); } else if(a.isEnum()){ lo=sym_real("lo",-R/2,R/2,1); hi=sym_real("hi",-R/2,R/2,1); } else { lo=b.lo; hi=b.hi; }
      if(ka==INT){ lo=sym_choice("lofrac",0,1)&&lo>-DINF?lo-0.5:lo; hi=sym_choice("hifrac",0,1)&&hi<DINF?hi+0.5:hi; }
      Spec q; q.kind=(ka==INT)?REAL:ka==ENUMI?INT:(a.isEnum()?REAL:ka); q.lo=lo; q.hi=hi; q.n=0; x->intersect(edouble(lo),edouble(hi)); 
      Spec m=(lo>hi)?a:meet(a,q); if(lo>hi){ sym_assert(x->isEmpty(),"intersecting with reversed bounds empties"); break; }
      same(*x,m,w,std::string("intersect bounds ")+KN[ka]); break; }
    case 6: { if(ka!=kb) symx_prune(); double v=witness(a,"v");
      if(!a.isEnum()){ if(ka==REAL) sym_assume((v==a.lo)|(v==a.hi)|!a.in(v)); else sym_assume((v<=a.lo)|(v>=a.hi)); if(ka==BOOLK) sym_assume((v>=0)&(v<=1)); }
      sym_reach("remove"); x->remove(edouble(v));
      bool left=a.isEnum()? !(singleSpec(a)&&a.v[0]==v) : !((a.lo==a.hi)&(a.lo==v));
      sym_assert(x->isEmpty()==!left,"remove: emptiness"); if(left&&(ka!=REAL||w!=v)) sym_assert(x->isMember(edouble(w))==(a.in(w)&(w!=v)),(std::string("remove ")+KN[ka]).c_str());
      break; }
    case 7: { if(ka!=kb) symx_prune();
      if(a.isEnum()){ sym_reach("insert"); Domain* o= ka==ENUMS?(Domain*)new SymbolDomain(SymbolDT::instance()):(Domain*)new NumericDomain(ka==ENUMI?IntDT::instance():FloatDT::instance());
        for(int i=0;i<a.n;i++) o->insert(edouble(a.v[i])); for(int i=0;i<b.n;i++) o->insert(edouble(b.v[i])); sym_assert(o->isOpen(),"open before close"); o->close(); sym_assert(o->isClosed(),"closed after close");
        sym_assert(o->isMember(edouble(w))==(a.in(w)|b.in(w)),"insert: union of the inserted values"); int n=a.n; for(int i=0;i<b.n;i++) if(!a.in(b.v[i])) n++; sym_assert(o->getSize()==(Domain::size_type)n,"insert: size"); }
      else { sym_reach("relax"); sym_assume(subsetSpec(a,b)); x->relax(*y); same(*x,b,w,std::string("relax ")+KN[ka]);
        Domain* z=build(a); z->empty(); sym_assert(z->isEmpty(),"empty()"); z->relax(*y); same(*z,b,w,std::string("relax from empty ")+KN[ka]);
        Domain* q=build(a); q->reset(*y); same(*q,b,w,std::string("reset ")+KN[ka]); 
        if(ka!=BOOLK||1){ IntervalDomain* p=static_cast<IntervalDomain*>(build(a)); *static_cast<Domain*>(p)=*y; same(*p,b,w,std::string("assignment ")+KN[ka]); } }
      if(a.isEnum()){ sym_reach("relax"); if(subsetSpec(a,b)){ x->relax(*y); same(*x,b,w,std::string("relax ")+KN[ka]); } Domain* z=build(a); z->empty(); z->relax(*y); same(*z,b,w,std::string("relax from empty ")+KN[ka]);
        Domain* p=build(a); *p=*y; same(*p,b,w,std::string("assignment ")+KN[ka]); }
      break; }
    case 8: { if(ka!=kb) symx_prune(); double v=witness(a,"v"); sym_reach("set"); bool m=a.in(v); x->set(edouble(v));
      if(m){ sym_assert(!x->isEmpty()&&x->isSingleton()&&(x->isMember(edouble(w))==(w==v)),(std::string("set to a member ")+KN[ka]).c_str()); } else sym_assert(x->isEmpty(),(std::string("set to a non-member empties ")+KN[ka]).c_str());
      break; }
  }
}
extern "C" void sym_main(){ try { harness(); } catch(Error& e){ symx_fail(("unexpected internal error: "+e.getCondition()+" "+e.getMsg()+" at "+e.getFile()+":"+std::to_string(e.getLine())).c_str()); } }
