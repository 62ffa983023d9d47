//@ {"mods":"NDDL","quick":60,"thorough":850,"pathcpu":20,
//@  "tags":["activated","slave-activated","merged","rejected","specified","constrained","ordered","inconsistent","lifo","fifo","cancel-first","guarded-slaves"],
//@  "what":"a history of activating, merging, rejecting, specifying, constraining and ordering tokens under rules with subgoals and guards, each undone at some later point (last one first with a comparison at every step, in the order of posting, or cancelling the tokens first): the whole database (token states, domains, base domains, slaves, merges, orderings, constraints, counts of variables and rule instances) equals what it was before",
//@  "bounds":"3 rejectable goals of two predicates on 2 timelines, none or two of them active at first, a rule with unguarded, guarded and nested subgoals and a strict relation, parameters with symbolic integer bounds 0..4, symbolic start bounds 0..6, every history of 3 (thorough 5) operations and undo steps before the final undo"}
#include "rules.hh"
#include "snap.hh"
static PlanEngine* E; static TokenId G[3]; static ObjectId tl[2];
extern "C" void sym_setup(){ quiet(); E=new PlanEngine(); E->nddl(MODEL); tl[0]=E->db()->getObject("o1"); tl[1]=E->db()->getObject("o2");
  static const char* P[]={"Obj.P","Obj.Q","Obj.P"}; for(int i=0;i<3;i++){ G[i]=E->client()->createToken(P[i],nm("g",i),true,false); } E->ce()->propagate(); }
struct Op { bool dead,sub; int kind; TokenId t,u; ConstrainedVariableId v; ConstraintId c; ObjectId o; double x; long k1,k2; Snap before; bool lifo; };
static std::vector<Op*> out; // what is outstanding
static bool alive(long key){ for(TokenId t:E->db()->getTokens()) if(K((Token*)t)==key) return true; return false; }
static bool applies(Op* o){ if(o->dead) return false; // still in force (it may have gone together with a master, a target or a cancelled token)
  if(o->kind==4) return true; if(!alive(o->k1)) return false; if(o->k2&&!alive(o->k2)) return false;
  if(o->kind==0) return o->t->isActive(); if(o->kind==1) return o->t->isMerged()&&o->t->getActiveToken()==o->u; if(o->kind==2) return o->t->isRejected(); if(o->kind==3) return o->v->isSpecified();
  if(!o->t->isActive()||!o->u->isActive()) return false; if(o->t!=o->u) return !o->o->getPrecedenceConstraint(o->t,o->u).isNoId();
  for(TokenId t:((Timeline*)(Object*)o->o)->getTokenSequence()) if(t==o->t) return true; return false; }
static bool perform(Op* o){
  if(o->kind==0) o->t->activate(); else if(o->kind==1) o->t->doMerge(o->u); else if(o->kind==2) o->t->reject(); else if(o->kind==3) o->v->specify(edouble(o->x));
  else if(o->kind==4) o->c=E->ce()->createConstraint(o->k2==0?"leq":"neq",scope(G[0]->getVariable("c"),G[2]->getVariable("a"))); else o->o->constrain(o->t,o->u);
  return E->ce()->propagate(); }
static bool below(TokenId t,TokenId top){ for(;!t.isNoId();t=t->master()) if(t==top) return true; return false; }
static void undo(Op* o){ if(!applies(o)) return;
  if(o->kind==0) for(Op* p:out) if(p!=o&&p->kind==5&&applies(p)&&(below(p->t,o->t)||below(p->u,o->t))){ p->o->free(p->t,p->u); p->dead=true; } // an ordered token's neighbours stay ordered when it is cancelled: free the orderings it is part of first
  if(o->kind==0&&o->sub&&o->t->master().isNoId()){ while(alive(o->k1)&&!o->t->getMergedTokens().empty()) (*o->t->getMergedTokens().begin())->cancel(); } // a subgoal which outlives its master for the tokens merged into it goes with the last of them
  else if(o->kind<=2) o->t->cancel(); else if(o->kind==3) o->v->reset(); else if(o->kind==4) delete (Constraint*)o->c; else o->o->free(o->t,o->u);
  o->dead=true; E->ce()->propagate(); for(Op* p:out) if(!applies(p)) p->dead=true; }
static void undoTop(){ Op* o=out.back(); out.pop_back(); bool f=applies(o); undo(o); if(f&&o->lifo){ sym_reach("lifo"); same(o->before,snapshot(E),"undoing the last operation does not give back what was there before it"); } }
static void harness(){
  int L=symx_thorough()?5:3;
  for(int i=0;i<3;i++){ double l=(double)sym_int(nm("slo",i),0,6),u=(double)sym_int(nm("shi",i),0,6); sym_assume(l<=u); rst(G[i]->start(),l,u); G[i]->duration()->restrictBaseDomain(IntervalIntDomain(1,4));
    if(i!=1){ l=(double)sym_int(nm("alo",i),0,4); u=(double)sym_int(nm("ahi",i),0,4); sym_assume(l<=u); rst(G[i]->getVariable("a"),l,u); l=(double)sym_int(nm("clo",i),0,4); u=4; rst(G[i]->getVariable("c"),l,u); }
    else rst(G[i]->getVariable("q"),0,4); }
  for(int i=0;i<2;i++) G[i]->getObject()->restrictBaseDomain(*E->db()->getObject("o1")->getThis()->baseDomain().copy());
  if(!E->ce()->propagate()) symx_prune();
  if(sym_choice("active",0,1)){ G[0]->activate(); G[1]->activate(); if(!E->ce()->propagate()) symx_prune(); }
  Snap first=snapshot(E); std::vector<Snap> st; bool clean=true; // clean: only undone last first so far
  for(int s=0;s<L;s++){
    std::vector<Op> v; std::vector<TokenId> ts; for(TokenId t:E->db()->getTokens()) ts.push_back(t); std::sort(ts.begin(),ts.end(),[](TokenId a,TokenId b){ return K((Token*)a)<K((Token*)b); });
    auto add=[&](int k,TokenId t,TokenId u,ConstrainedVariableId cv,ObjectId ob,long k2){ Op o; o.dead=false; o.kind=k; o.t=t; o.u=u; o.v=cv; o.o=ob; o.k1=t.isNoId()?0:K((Token*)t); o.k2=k2; o.x=0; o.lifo=true; v.push_back(o); };
    for(TokenId t:ts){ if(t->isInactive()){ add(0,t,TokenId(),ConstrainedVariableId(),ObjectId(),0); std::vector<TokenId> r; E->db()->getCompatibleTokens(t,r,3,true); for(TokenId u:r) add(1,t,u,ConstrainedVariableId(),ObjectId(),K((Token*)u)); if(t->master().isNoId()&&t->getState()->baseDomain().isMember(Token::REJECTED)) add(2,t,TokenId(),ConstrainedVariableId(),ObjectId(),0); }
      if(t->isActive()) for(int o=0;o<2;o++){ bool on=false; for(TokenId u:((Timeline*)(Object*)tl[o])->getTokenSequence()) on=on||u==t; if(on||!t->getObject()->lastDomain().isMember(tl[o]->getKey())) continue; std::vector<std::pair<TokenId,TokenId> > p; tl[o]->getOrderingChoices(t,p); for(auto& q:p) add(5,q.first,q.second,ConstrainedVariableId(),tl[o],K((Token*)q.second)); }
      if(!t->isMerged()) for(const char* n:{"a","b","c","q"}){ if(!t->master().isNoId()&&n[0]!='q') continue; ConstrainedVariableId p=t->getVariable(n,false); if(p.isId()&&!p->isSpecified()&&!p->baseDomain().isSingleton()) add(3,t,TokenId(),p,ObjectId(),0); } }
    bool posted=false; for(Op* o:out) posted|=o->kind==4; if(!posted){ add(4,TokenId(),TokenId(),ConstrainedVariableId(),ObjectId(),0); }
    int n=(int)v.size(); int c=sym_choice(nm("op",s),0,n+(out.empty()?0:2)-1);
    if(c>=n){ if(c==n) undoTop(); else { Op* o=out.front(); bool sole=out.size()==1; Snap b=o->before; out.erase(out.begin()); undo(o); for(Op* p:out) p->lifo=false; if(sole&&o->lifo) same(b,snapshot(E),"undoing the only operation does not give back what was there before it"); } continue; }
    Op* o=new Op(v[c]); o->sub=!o->t.isNoId()&&!o->t->master().isNoId(); o->before=snapshot(E);
    if(o->kind==3){ if(o->v->getName()=="b") o->x=1; else { o->x=(double)sym_int(nm("val",s),0,4); if(!has(o->v,o->x)) symx_prune(); } }
    symx_note("op %d: kind %d on %s(%ld) with %ld %s %g",s,o->kind,o->t.isNoId()?"-":o->t->getPredicateName().c_str(),o->k1,o->k2,o->v.isNoId()?"":o->v->getName().c_str(),symx_replaying()?o->x:0);
    out.push_back(o); bool ok=perform(o);
    sym_reach(o->kind==0?(o->t->master().isNoId()?"activated":"slave-activated"):o->kind==1?"merged":o->kind==2?"rejected":o->kind==3?"specified":o->kind==4?"constrained":"ordered");
    if(E->db()->getTokens().size()>5) sym_reach("guarded-slaves");
    if(!ok){ sym_reach("inconsistent"); undoTop(); }
  }
  int w=sym_choice("unwind",0,2);
  if(w==0) while(!out.empty()) undoTop();
  else { if(w==2){ sym_reach("cancel-first"); for(int k=0;k<3;k++) for(Op* o:out) if(o->kind==(k==0?0:k==1?1:2)) undo(o); } else sym_reach("fifo"); for(Op* o:out) undo(o); out.clear(); }
  E->ce()->propagate(); same(first,snapshot(E),"undoing everything does not give back the initial database");
}
