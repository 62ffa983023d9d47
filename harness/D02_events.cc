//@ {"mods":"ConstraintEngine","quick":100,"thorough":600,
//@  "tags":["intersect","bounds","difference","remove","relax","reset","set","equate","close","emptied","singleton","narrowed","unchanged"],
//@  "what":"returned change flags and listener events of every domain operation against the change of the denoted set, over sequences of operations",
//@  "bounds":"sequences of 2 (thorough 3) operations, the second one of the quick tier an intersection, removal or reset; integer bounds |n|<=6 (infinite for the domain; for operands in the thorough tier), real bounds in halves |x|<=3, enumerations of up to 3 members"}
#include "dom.hh"
extern "C" void sym_setup(){ Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings(); FloatDT::instance(); IntDT::instance(); BoolDT::instance(); SymbolDT::instance(); }
typedef DomainListener L;
static void expect(Rec& r,const Spec& before,const Spec& after,const std::string& what){
  // restricting operation
  size_t n=r.ev.size();
  if(equalSpec(before,after)){ sym_reach("unchanged"); sym_assert(n==0,(what+": nothing changed, nothing reported").c_str()); return; }
  if(emptySpec(after)){ sym_reach("emptied"); sym_assert(n==1&&r.ev[0]==L::EMPTIED,(what+": emptied is reported once as such").c_str()); return; }
  if(singleSpec(after)){ sym_reach("singleton"); sym_assert(n==1&&r.ev[0]==L::RESTRICT_TO_SINGLETON,(what+": narrowing to one value is reported once as such").c_str()); return; }
  sym_reach("narrowed");
  if(after.isEnum()){ sym_assert(n==1&&r.ev[0]==L::VALUE_REMOVED,(what+": removed members are reported").c_str()); return; }
  bool lb=after.lo>before.lo, ub=after.hi<before.hi;
  sym_assert(n==1&&r.ev[0]==(lb&&ub?L::BOUNDS_RESTRICTED:lb?L::LOWER_BOUND_INCREASED:L::UPPER_BOUND_DECREASED),(what+": the moved bound is reported").c_str());
}
static void harness(){
  int pi=sym_choice("pair",0,6); int ka=PAIRS[pi][0],kb=PAIRS[pi][1];
  std::string pn=std::string(KN[ka])+"/"+KN[kb];
  Spec a=mk("a",ka,true,3,false); Domain* x=build(a); Rec r; x->setListener((new Rec)->getId());
  Rec* l=(Rec*)(DomainListener*)x->getListener();
  int steps=symx_thorough()?3:2; bool last=false;
  for(int s=0;s<steps&&!last;s++){
    std::string q="s"+std::to_string(s); int op=sym_choice(keep(q+"op"),0,s==0?8:7); if(s>0&&!symx_thorough()&&op!=0&&op!=3&&op!=5) symx_prune(); l->ev.clear();
    // the later steps use a coarser operand to keep the state space small
    bool coarse=s>0; bool th=symx_thorough();
    switch(op){
      case 0: { Spec b=mk(q+"b",kb,th&&!coarse&&(kb==INT||kb==REAL),coarse?1:2); Domain* y=build(b); sym_reach("intersect"); Spec m=meet(a,b); bool c=x->intersect(*y);
        if(emptySpec(a)) symx_prune();
        sym_assert(c==!equalSpec(a,m),("intersect "+pn+": change flag").c_str()); expect(*l,a,m,"intersect "+pn); a=m; break; }
      case 1: { if(ka>=ENUMS||(ka==ENUMR)||ka!=kb) symx_prune(); Spec b=mk(q+"b",ka,th&&!coarse,2); sym_reach("bounds"); Spec m=meet(a,b); bool c=x->intersect(edouble(b.lo),edouble(b.hi));
        sym_assert(c==!equalSpec(a,m),("bounds intersect "+pn+": change flag").c_str()); expect(*l,a,m,"bounds intersect "+pn); a=m; break; }
      case 2: { if(kb==REAL||ka==REAL||ka!=kb) symx_prune(); Spec b=mk(q+"b",kb,false,coarse?1:2); Domain* y=build(b);
        if(!a.isEnum()) sym_assume(!((a.lo<b.lo)&(b.hi<a.hi)));
        sym_reach("difference"); bool c=x->difference(*y); Spec e=a;
        if(a.isEnum()){ e.n=0; for(int i=0;i<a.n;i++) if(!b.in(a.v[i])) e.v[e.n++]=a.v[i]; }
        else if(a.lo<b.lo){ if(b.lo<=a.hi) e.hi=b.lo-1; } else if(b.hi<a.hi){ if(b.hi>=a.lo) e.lo=b.hi+1; } else { e.lo=1; e.hi=0; }
        sym_assert(c==!equalSpec(a,e),("difference "+pn+": change flag").c_str()); expect(*l,a,e,"difference "+pn); a=e; break; }
      case 3: { if(ka==REAL||ka!=kb) symx_prune(); double v=witness(a,keep(q+"v"));
        if(!a.isEnum()){ sym_assume((v<=a.lo)|(v>=a.hi)); if(ka==BOOLK) sym_assume((v>=0)&(v<=1)); }
        sym_reach("remove"); x->remove(edouble(v)); Spec e=a;
        if(a.isEnum()){ e.n=0; for(int i=0;i<a.n;i++) if(a.v[i]!=v) e.v[e.n++]=a.v[i]; }
        else if(a.lo==v) e.lo=v+1; else if(a.hi==v) e.hi=v-1;
        expect(*l,a,e,"remove "+pn); a=e; break; }
      case 4: case 5: { if(ka!=kb) symx_prune(); Spec b=mk(q+"b",ka,th&&!coarse&&(ka==INT||ka==REAL),th?3:2); if(emptySpec(a)||1) sym_assume(emptySpec(a)|subsetSpec(a,b)); Domain* y=build(b); bool ch=emptySpec(a)||!equalSpec(a,b);
        if(op==4){ sym_reach("relax"); x->relax(*y); sym_assert(ch?(l->ev.size()==1&&l->ev[0]==L::RELAXED):(a.isEnum()||l->ev.empty()),("relax "+pn+": reported once if it changed the set").c_str()); }
        else { sym_reach("reset"); x->reset(*y); sym_assert(ch?(l->ev.size()==2&&l->ev[0]==L::RELAXED&&l->ev[1]==L::RESET):l->ev.empty(),("reset "+pn+": relaxation and reset reported if it changed the set").c_str()); }
        a=b; break; }
      case 6: { if(ka!=kb) symx_prune(); double v=witness(a,keep(q+"v")); sym_reach("set"); bool m=a.in(v); x->set(edouble(v));
        if(m){ sym_assert(l->ev.size()==1&&l->ev[0]==L::SET_TO_SINGLETON,("set "+pn+": setting to a member is reported as such").c_str()); if(a.isEnum()){ a.n=1; a.v[0]=v; } else a.lo=a.hi=v; }
        else { sym_assert(l->ev.size()==1&&l->ev[0]==L::EMPTIED,("set "+pn+": setting to a non-member is reported as emptied").c_str()); a.n=0; a.lo=1; a.hi=0; }
        break; }
      case 7: { Spec b=mk(q+"b",kb,false,coarse?1:2); Domain* y=build(b); y->setListener((new Rec)->getId()); Rec* ly=(Rec*)(DomainListener*)y->getListener(); ly->ev.clear(); sym_reach("equate");
        Spec m=meet(a,b); bool c=x->equate(*y);
        if(emptySpec(m)){ sym_assert(c,("equate "+pn+": change flag on emptying").c_str()); sym_assert((l->has(L::EMPTIED)&&x->isEmpty())||(ly->has(L::EMPTIED)&&y->isEmpty()),("equate "+pn+": emptied is reported").c_str()); return; }
        Spec mb=b; if(b.isEnum()==a.isEnum()) mb=m; else { mb.lo=m.v[0]; mb.hi=m.v[m.n-1]; }
        sym_assert(c==(!equalSpec(a,m)||!equalSpec(b,mb)),("equate "+pn+": change flag").c_str());
        // mixed kinds may narrow one of the two in more than one step; there the last report must be the tightest one
        if(a.isEnum()==b.isEnum()){ expect(*l,a,m,"equate "+pn); expect(*ly,b,mb,"equate second "+pn); }
        else { sym_assert(l->ev.empty()==equalSpec(a,m),("equate "+pn+": reported iff narrowed").c_str()); sym_assert(ly->ev.empty()==equalSpec(b,mb),("equate second "+pn+": reported iff narrowed").c_str());
          if(!equalSpec(a,m)&&singleSpec(m)) sym_assert(l->last()==L::RESTRICT_TO_SINGLETON,("equate "+pn+": singleton reported").c_str()); if(!equalSpec(b,mb)&&singleSpec(mb)) sym_assert(ly->last()==L::RESTRICT_TO_SINGLETON,("equate second "+pn+": singleton reported").c_str()); }
        a=m; break; }
      case 8: { // closing an open enumeration
        if(!a.isEnum()||ka!=kb) symx_prune(); int n=sym_choice("cn",0,2); sym_reach("close"); Domain* o= ka==ENUMS?(Domain*)new SymbolDomain(SymbolDT::instance()):(Domain*)new NumericDomain(ka==ENUMI?IntDT::instance():FloatDT::instance());
        o->setListener((new Rec)->getId()); Rec* lo=(Rec*)(DomainListener*)o->getListener(); sym_assert(lo->ev.empty(),"an open domain reports nothing when a listener is attached");
        Spec c; c.kind=ka; c.n=0; for(int i=0;i<n&&i<a.n;i++){ o->insert(edouble(a.v[i])); c.v[c.n++]=a.v[i]; } lo->ev.clear(); o->close();
        sym_assert(c.n? (lo->ev.size()==1&&lo->ev[0]==L::CLOSED):(lo->ev.size()==2&&lo->ev[0]==L::CLOSED&&lo->ev[1]==L::EMPTIED),"closing is reported, and emptiness with it"); lo->ev.clear(); o->close(); sym_assert(lo->ev.empty(),"closing again reports nothing");
        o->open(); sym_assert(lo->ev.size()==1&&lo->ev[0]==L::OPENED&&o->isOpen(),"opening is reported"); last=true; break; }
    }
    same(*x,a,th?witness(a,keep(q+"w")):1.0,"after "+std::to_string(op));
    if(emptySpec(a)) { // only relaxation is meaningful now
      if(s+1<steps&&ka==kb&&!last){ Spec b=mk("zb",ka,false,1); Domain* y=build(b); l->ev.clear(); x->relax(*y); sym_assert(l->ev.size()==1&&l->ev[0]==L::RELAXED,("relax from empty "+pn).c_str()); } last=true; }
  }
}
extern "C" void sym_main(){ try { harness(); } catch(Error& e){ symx_fail(("unexpected internal error: "+e.getCondition()+" "+e.getMsg()+" at "+e.getFile()+":"+std::to_string(e.getLine())).c_str()); } }
