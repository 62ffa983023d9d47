// A snapshot of everything observable in a plan database: structure as text, domain bounds as (symbolic) numbers.
#ifndef SNAP_HH
#define SNAP_HH
#include "plan.hh"
#include <algorithm>
#include <map>
struct Snap { std::vector<std::string> str; std::vector<double> num; std::vector<std::string> what; };
static inline long K(const Entity* e){ return e?(long)cast_int(e->getKey()):0; }
static void snapDom(Snap& s,const Domain& d,const std::string& w){
  std::string t=d.isEnumerated()?"e":"i"; bool em=d.isEmpty();
  if(em){ s.str.push_back(w+" empty"); return; }
  std::list<edouble> l;
  if(d.isEnumerated()) d.getValues(l); else { l.push_back(d.getLowerBound()); l.push_back(d.getUpperBound()); }
  s.str.push_back(w+" "+t+std::to_string(l.size())); for(auto& x:l){ s.num.push_back(cast_double(x)); s.what.push_back(w); } }
// bases: also the base domains; tmp: the constraints of the engine by name and scope
static Snap snapshot(PlanEngine* E,bool bases=true){
  Snap s; PlanDatabaseId db=E->db(); std::vector<TokenId> ts; for(TokenId t:db->getTokens()) ts.push_back(t);
  std::sort(ts.begin(),ts.end(),[](TokenId a,TokenId b){ return K((Token*)a)<K((Token*)b); });
  std::map<long,std::string> owner;
  for(TokenId t:ts){ std::string n="token "+std::to_string(K((Token*)t)); std::string r=n+" "+t->getPredicateName()+(t->isActive()?" active":"")+(t->isInactive()?" inactive":"")+(t->isMerged()?" merged":"")+(t->isRejected()?" rejected":"")+(t->isCommitted()?" committed":"")+(t->isAssigned()?" assigned":"");
    r+=" master "+std::to_string(t->master().isNoId()?0:K((Token*)t->master()))+" into "+std::to_string(t->getActiveToken().isNoId()?0:K((Token*)t->getActiveToken()));
    std::vector<long> k; for(TokenId m:t->slaves()) k.push_back(K((Token*)m)); std::sort(k.begin(),k.end()); r+=" slaves"; for(long x:k) r+=" "+std::to_string(x);
    k.clear(); for(TokenId m:t->getMergedTokens()) k.push_back(K((Token*)m)); std::sort(k.begin(),k.end()); r+=" merged"; for(long x:k) r+=" "+std::to_string(x); s.str.push_back(r);
    for(ConstrainedVariableId v:t->getVariables()){ std::string w=n+" "+t->getPredicateName()+"."+v->getName(); owner[K((ConstrainedVariable*)v)]=w; s.str.push_back(w+(v->isSpecified()?" specified":"")+(v->isActive()?" active":" passive")+(v->canBeSpecified()?"":" closed"));
      snapDom(s,v->lastDomain(),w+" domain"); if(bases) snapDom(s,v->baseDomain(),w+" base"); } }
  std::vector<std::string> cs; for(ConstraintId c:E->ce()->getConstraints()){ std::string r="constraint "+c->getName()+(c->isActive()?" active":" passive"); for(ConstrainedVariableId v:c->getScope()){ auto i=owner.find(K((ConstrainedVariable*)v)); r+=" "+(i==owner.end()?std::string("#")+v->getName():i->second); } cs.push_back(r); }
  std::sort(cs.begin(),cs.end()); for(auto& c:cs) s.str.push_back(c);
  s.str.push_back("variables "+std::to_string(E->ce()->getVariables().size()));
  for(ObjectId o:db->getObjects()){ std::vector<long> k; for(TokenId t:o->tokens()) k.push_back(K((Token*)t)); std::sort(k.begin(),k.end()); std::string r="object "+o->getName()+" tokens"; for(long x:k) r+=" "+std::to_string(x);
    Timeline* tl=dynamic_cast<Timeline*>((Object*)o); if(tl){ r+=" sequence"; for(TokenId t:tl->getTokenSequence()) r+=" "+std::to_string(K((Token*)t)); std::vector<TokenId> q; tl->getTokensToOrder(q); k.clear(); for(TokenId t:q) k.push_back(K((Token*)t)); std::sort(k.begin(),k.end()); r+=" to-order"; for(long x:k) r+=" "+std::to_string(x); } s.str.push_back(r); }
  std::vector<long> k; for(auto& p:db->getTokensToOrder()) k.push_back((long)cast_int(p.first)); std::string r="to-order"; for(long x:k) r+=" "+std::to_string(x); s.str.push_back(r);
  s.str.push_back("rules "+std::to_string(dynamic_cast<RulesEngine*>(E->getComponent("RulesEngine"))->getRuleInstances().size()));
  s.str.push_back(std::string("violated ")+(E->ce()->constraintConsistent()?"no":"yes"));
  return s; }
static void same(const Snap& a,const Snap& b,const char* msg){
  if(a.str!=b.str){ for(size_t i=0;i<a.str.size()||i<b.str.size();i++){ std::string x=i<a.str.size()?a.str[i]:"-", y=i<b.str.size()?b.str[i]:"-"; if(x!=y){ symx_note("before: %s",x.c_str()); symx_note("after:  %s",y.c_str()); break; } } sym_assert(false,msg); }
  bool eq=true; for(size_t i=0;i<a.num.size();i++) eq=eq&(a.num[i]==b.num[i]);
  if(symx_replaying()&&!eq) for(size_t i=0;i<a.num.size();i++) if(a.num[i]!=b.num[i]) symx_note("%s: before %g after %g",a.what[i].c_str(),a.num[i],b.num[i]);
  sym_assert(eq,msg); }
#endif
