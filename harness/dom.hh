// Domains with a reference denotation; shared by D01 (values) and D02 (change reports).
#ifndef DOM_HH
#define DOM_HH
#include "sym.h"
#include <cstring>
#include <cmath>
#include "Domains.hh"
#include "DataTypes.hh"
#include "Error.hh"
#include <vector>
#include <list>
#include <string>
using namespace EUROPA;
static const double DINF=4503599627370495.0;
enum Kind { INT, REAL, BOOLK, ENUMR, ENUMS, ENUMI };
static long R=6; // magnitude of finite bounds
struct Rec : public DomainListener { std::vector<int> ev; void notifyChange(const ChangeType& t){ ev.push_back((int)t); } int last(){ return ev.empty()?-1:ev.back(); } bool has(int k){ for(size_t i=0;i<ev.size();i++) if(ev[i]==k) return true; return false; } };
struct Spec { int kind; double lo,hi; int n; double v[4]; bool open;
  bool isEnum() const { return kind>=ENUMR; }
  bool integral() const { return kind==INT||kind==BOOLK||kind==ENUMI; }
  // membership of a candidate value (w integral where the kind is)
  bool in(double w) const { if(!isEnum()){ bool r=(lo<=w)&(w<=hi); if(integral()) r&=((double)(long)w==w); return r; } bool r=false; for(int i=0;i<n;i++) r|=(v[i]==w); return r; }
};
static std::string nm(const std::string& p,const char* s){ return p+s; }
static char* keep(const std::string& s){ return strdup(s.c_str()); }
// non-empty unless maybeEmpty; infinite bounds by choice
static Spec mk(const std::string& p,int kind,bool inf,int maxn,bool maybeEmpty=false){
  Spec s; s.kind=kind; s.n=0; s.open=false; s.lo=s.hi=0;
  if(kind==INT||kind==REAL){
    int f=inf?sym_choice(keep(p+"inf"),0,3):0;
    if(kind==INT){ s.lo=(f&1)?-DINF:(double)sym_int(keep(p+"lo"),-R,R); s.hi=(f&2)?DINF:(double)sym_int(keep(p+"hi"),-R,R); }
    else { s.lo=(f&1)?-DINF:sym_real(keep(p+"lo"),-R/2,R/2,1); s.hi=(f&2)?DINF:sym_real(keep(p+"hi"),-R/2,R/2,1); }
    sym_assume(s.lo<=s.hi);
  } else if(kind==BOOLK){ long l=sym_int(keep(p+"lo"),0,1),h=sym_int(keep(p+"hi"),0,1); sym_assume(l<=h); s.lo=l; s.hi=h; }
  else { s.n=sym_choice(keep(p+"n"),maybeEmpty?0:1,maxn); for(int i=0;i<s.n;i++){ std::string q=p+"v"+std::to_string(i); s.v[i]= kind==ENUMI?(double)sym_int(keep(q),-R,R): kind==ENUMR?sym_real(keep(q),-R/2,R/2,1):(double)sym_int(keep(q),1,2*R);
      if(i) sym_assume(s.v[i-1]<s.v[i]); } }
  return s;
}
static Domain* build(const Spec& s){
  switch(s.kind){
    case INT: return new IntervalIntDomain(edouble(s.lo),edouble(s.hi));
    case REAL: return new IntervalDomain(edouble(s.lo),edouble(s.hi));
    case BOOLK: { BoolDomain* b=new BoolDomain(); if(s.lo==s.hi){ delete b; b=new BoolDomain(s.lo==1.0); } return b; }
    default: { std::list<edouble> l; for(int i=s.n-1;i>=0;i--) l.push_back(edouble(s.v[i]));
      if(s.kind==ENUMS) return new SymbolDomain(l,SymbolDT::instance()); if(s.kind==ENUMI) return new NumericDomain(l,IntDT::instance()); return new NumericDomain(l,FloatDT::instance()); } }
}
static double witness(const Spec& s,const char* n){ if(s.kind==REAL||s.kind==ENUMR) return sym_real(n,-R,R,1); return (double)sym_int(n,-2*R-1,2*R+1); }
static int count(const Spec& s){ return s.n; }
// does every member of a lie in b (interval b, or enumerated a)
static bool subsetSpec(const Spec& a,const Spec& b){
  if(a.isEnum()){ bool r=true; for(int i=0;i<a.n;i++) r&=b.in(a.v[i]); return r; }
  return (b.lo<=a.lo)&(a.hi<=b.hi);
}
static bool intersectsSpec(const Spec& a,const Spec& b){
  if(a.isEnum()){ bool r=false; for(int i=0;i<a.n;i++) r|=b.in(a.v[i]); return r; }
  return (b.lo<=a.hi)&(a.lo<=b.hi);
}
static bool equalSpec(const Spec& a,const Spec& b){
  if(a.isEnum()&&b.isEnum()){ bool r=a.n==b.n; if(a.n==b.n) for(int i=0;i<a.n;i++) r&=a.v[i]==b.v[i]; return r; }
  return (a.lo==b.lo)&(a.hi==b.hi);
}
// exact intersection of same-sort specs
static Spec meet(const Spec& a,const Spec& b){
  Spec r=a;
  if(!a.isEnum()){ double bl=b.lo,bh=b.hi; if(a.kind==INT&&b.kind==REAL){ if(bl>-DINF) bl=std::ceil(bl); if(bh<DINF) bh=std::floor(bh); } if(bl>r.lo) r.lo=bl; if(bh<r.hi) r.hi=bh; }
  else { r.n=0; for(int i=0;i<a.n;i++) if(b.in(a.v[i])) r.v[r.n++]=a.v[i]; }
  return r;
}
static bool emptySpec(const Spec& s){ return s.isEnum()? s.n==0 : s.lo>s.hi; }
static bool singleSpec(const Spec& s){ return s.isEnum()? s.n==1 : s.lo==s.hi; }
// the domain denotes exactly the spec
static void same(const Domain& d,const Spec& s,double w,const std::string& what){
  bool e=emptySpec(s);
  sym_assert(d.isEmpty()==e,(what+": emptiness").c_str());
  if(e) return;
  sym_assert(d.isMember(edouble(w))==s.in(w),(what+": membership").c_str());
  edouble l,u; d.getBounds(l,u);
  double xl=s.isEnum()?s.v[0]:s.lo, xu=s.isEnum()?s.v[s.n-1]:s.hi;
  sym_assert((cast_double(l)==xl)&(cast_double(u)==xu),(what+": bounds").c_str());
  sym_assert((cast_double(d.getLowerBound())==xl)&(cast_double(d.getUpperBound())==xu),(what+": lower/upper bound").c_str());
  sym_assert(d.isSingleton()==singleSpec(s),(what+": singleton").c_str());
  if(singleSpec(s)) sym_assert(cast_double(d.getSingletonValue())==xl,(what+": singleton value").c_str());
  if(s.isEnum()) sym_assert(d.getSize()==(Domain::size_type)s.n,(what+": size").c_str());
  else if(s.integral()&&s.lo>-DINF&&s.hi<DINF) sym_assert((long)d.getSize()==(long)(s.hi-s.lo)+1,(what+": size").c_str());
}
static const char* KN[]={"int","real","bool","enum","symbol","int-enum"};
// pairs for which the operation is defined exactly
static const int PAIRS[][2]={{INT,INT},{REAL,REAL},{BOOLK,BOOLK},{ENUMR,ENUMR},{ENUMS,ENUMS},{ENUMI,ENUMI},{ENUMR,REAL},{ENUMI,INT},{ENUMR,INT},{INT,REAL}};
enum { NPAIRS=10 };
#endif
