//@ {"mods":"NDDL","quick":60,"thorough":850,"pathcpu":20,
//@  "tags":["consistent","inconsistent","fired","else","nested","loop","undone","propagated-guard","singleton-guard","negative-disjoint","slave-active","merged"],
//@  "what":"a history of activating, cancelling, specifying, resetting, constraining and merging with rules in place: after every step the subgoals of each token are exactly those whose guards hold (judged by an independent reading of the guards), and verdict, domains, numbers of constraints, variables and rule instances equal those of a fresh database holding the same facts",
//@  "bounds":"one master with 3 parameters (symbolic integer bounds 0..4), 1 goal to merge with, 10 guards: equality with else, inequality nested twice, nested boolean and equality, foreach over two objects, native value-set guards (positive, negative) and implied-singleton guards, every history of 3 (thorough 5) operations"}
#include "rules.hh"
#include "snap.hh"
// guards that NDDL text cannot express: a value set (holding or excluded) and bare variables that must be bound
#include "RuleInstance.hh"
#include "Rule.hh"
class NChild : public RuleInstance { public: std::string pred; NChild(const RuleInstanceId p,const ConstrainedVariableId g,const Domain& d,bool pos,const char* pr):RuleInstance(p,g,d,pos),pred(pr){} NChild(const RuleInstanceId p,const std::vector<ConstrainedVariableId>& g,const char* pr):RuleInstance(p,g),pred(pr){}
  void handleExecute(){ addSlave((new IntervalToken(m_token,"any",pred,IntervalIntDomain(),IntervalIntDomain(),IntervalIntDomain(1,PLUS_INFINITY),Token::noObject(),true)),pred); std::vector<ConstrainedVariableId> s; s.push_back(m_token->end()); s.push_back(getSlave(pred)->start()); addConstraint("precedes",s); } };
class NRoot : public RuleInstance { public: NRoot(const RuleId r,const TokenId t,const PlanDatabaseId p):RuleInstance(r,t,p){}
  void handleExecute(){ ConstrainedVariableId a=m_token->getVariable("a"),b=m_token->getVariable("b"),c=m_token->getVariable("c");
    addChildRule(new NChild(getId(),a,IntervalIntDomain(2,3),true,"Obj.N1")); addChildRule(new NChild(getId(),a,IntervalIntDomain(2,3),false,"Obj.N2")); addChildRule(new NChild(getId(),scope(b,c),"Obj.N3")); } };
class NRule : public Rule { public: NRule():Rule("Obj.P"){} RuleInstanceId createInstance(const TokenId t,const PlanDatabaseId p,const RulesEngineId& e) const { NRoot* r=new NRoot(m_id,t,p); r->setRulesEngine(e); return r->getId(); } };
static PlanEngine *E1,*E2;
static void model(PlanEngine* E){ std::string m=MODEL; size_t i=m.find("predicate S1"); m.insert(i,"predicate N1 { } predicate N2 { } predicate N3 { } "); E->nddl(m.c_str()); dynamic_cast<RuleSchema*>(E->getComponent("RuleSchema"))->registerRule((new NRule())->getId()); }
extern "C" void sym_setup(){ quiet(); E1=new PlanEngine(); model(E1); E2=new PlanEngine(); model(E2); }
static const int NV=3; static const char* VN[]={"a","b","c"};
static double lo[2][NV],hi[2][NV]; static bool spec[2][NV]; static double val[2][NV]; static double slo,shi;
static bool act[2], posted[3]; static ConstraintId pc[3]; static TokenId T[2]; // 0: Obj.P, 1: Obj.Q goal (variable q in slot 0)
struct SL { std::string pred; int state; bool spec; double v; }; // what was done to subgoals: 1 activated, 2 merged with goal 1; q specified
static std::vector<SL> sl;
static ConstrainedVariableId var(TokenId t,int i,int v){ return t->getVariable(i==0?VN[v]:"q"); }
static TokenId make(PlanEngine* E,int i){ TokenId t=E->client()->createToken(i==0?"Obj.P":"Obj.Q",nm("g",i),false,false); rst(t->start(),i==0?slo:0,i==0?shi:9); t->duration()->restrictBaseDomain(IntervalIntDomain(1,4)); t->getObject()->restrictBaseDomain(E->db()->getObject("o1")->getThis()->baseDomain());
  if(i==0){ rst(t->getVariable("a"),lo[0][0],hi[0][0]); rst(t->getVariable("c"),lo[0][2],hi[0][2]); } else rst(t->getVariable("q"),lo[1][0],hi[1][0]); return t; }
static ConstraintId post(PlanEngine* E,int k,TokenId p,TokenId q){ return k==0?E->ce()->createConstraint("eq",scope(p->getVariable("a"),q->getVariable("q"))):k==1?E->ce()->createConstraint("lt",scope(p->getVariable("a"),p->getVariable("c"))):E->ce()->createConstraint("leq",scope(p->getVariable("c"),q->getVariable("q"))); }
static TokenId slaveOf(TokenId m,const std::string& pred,int nth=0){ TokenId r; std::vector<TokenId> v; for(TokenId t:m->slaves()) if(t->getPredicateName()==pred) v.push_back(t); std::sort(v.begin(),v.end(),[](TokenId a,TokenId b){ return K((Token*)a)<K((Token*)b); }); return nth<(int)v.size()?v[nth]:r; }
static TokenId F[2]; static ConstraintId fc[3];
static bool fresh(){ bool ok=true; for(int i=0;i<2;i++){ F[i]=make(E2,i); for(int v=0;v<(i==0?NV:1);v++) if(spec[i][v]) var(F[i],i,v)->specify(edouble(val[i][v])); }
  for(int k=0;k<3;k++) if(posted[k]) fc[k]=post(E2,k,F[0],F[1]);
  if(!E2->ce()->propagate()) return false; for(int i=0;i<2;i++) if(act[i]) F[i]->activate(); if(!E2->ce()->propagate()) return false;
  for(auto& s:sl){ TokenId t=slaveOf(F[0],s.pred); if(t.isNoId()){ sym_assert(false,"a subgoal present in the database does not appear in a fresh one holding the same facts"); } if(s.spec){ t->getVariable("q")->specify(edouble(s.v)); if(!E2->ce()->propagate()) return false; } if(s.state==1) t->activate(); if(s.state==2){ std::vector<TokenId> r; E2->db()->getCompatibleTokens(t,r,10,true); if(!std::count(r.begin(),r.end(),F[1])) return false; t->doMerge(F[1]); } if(!E2->ce()->propagate()) return false; }
  return true; }
static void drop(){ for(int i=0;i<2;i++) if(F[i].isId()&&!F[i]->isInactive()){ if(i==0) F[i]->cancel(); } for(int i=1;i<2;i++) if(F[i].isId()&&!F[i]->isInactive()) F[i]->cancel(); for(int k=0;k<3;k++) if(fc[k].isId()){ delete (Constraint*)fc[k]; fc[k]=ConstraintId::noId(); } for(int i=0;i<2;i++) if(F[i].isId()){ delete (Token*)F[i]; F[i]=TokenId::noId(); } E2->ce()->propagate(); }
static bool bound(TokenId t,const char* n){ ConstrainedVariableId v=t->getVariable(n); return v->isSpecified()||v->baseDomain().isSingleton(); }
static double one(TokenId t,const char* n){ return cast_double(t->getVariable(n)->lastDomain().getLowerBound()); }
static void expectP(TokenId t,std::vector<std::string>& e){
  bool A=bound(t,"a"),B=bound(t,"b"),C=bound(t,"c"); e.push_back("Obj.Q");
  if(A){ if(one(t,"a")==3){ e.push_back("Obj.S1"); sym_reach("fired"); } else { e.push_back("Obj.S2"); sym_reach("else"); } if(one(t,"a")!=1&&one(t,"a")!=2){ e.push_back("Obj.S4"); sym_reach("nested"); } }
  if(B&&one(t,"b")==1&&C&&one(t,"c")==2){ e.push_back("Obj.S3"); }
  double l=LB(t->getVariable("a")),u=UB(t->getVariable("a")); // a guard on one variable looks at its derived domain
  if(l==u){ if(!A) sym_reach("propagated-guard"); e.push_back((l==2)|(l==3)?"Obj.N1":"Obj.N2"); } else if((u<2)|(l>3)){ e.push_back("Obj.N2"); sym_reach("negative-disjoint"); }
  if(B&&C){ e.push_back("Obj.N3"); sym_reach("singleton-guard"); } }
static void expectQ(TokenId t,std::vector<std::string>& e){ if(bound(t,"q")&&one(t,"q")!=1){ e.push_back("Obj.S4"); e.push_back("Trk.E"); e.push_back("Trk.E"); sym_reach("loop"); } }
static void consequences(TokenId t){
  std::vector<std::string> e,g; for(TokenId s:t->slaves()) g.push_back(s->getPredicateName()); if(t->isActive()){ if(t->getPredicateName()=="Obj.P") expectP(t,e); else if(t->getPredicateName()=="Obj.Q") expectQ(t,e); }
  std::sort(e.begin(),e.end()); std::sort(g.begin(),g.end()); if(e!=g){ std::string a,b; for(auto& x:e) a+=" "+x; for(auto& x:g) b+=" "+x; symx_note("expected subgoals:%s",a.c_str()); symx_note("found:            %s",b.c_str()); } sym_assert(e==g,"the subgoals of a token are not those whose guards hold");
  TokenId q=slaveOf(t,"Obj.Q"); if(q.isId()){ sym_assert(q->master()==t,"master of a subgoal"); if(!q->isMerged()) sym_assert((LB(q->getVariable("q"))==LB(t->getVariable("c")))&(UB(q->getVariable("q"))==UB(t->getVariable("c")))&(LB(q->start())==LB(t->start()))&(UB(q->start())==UB(t->start())),"the unguarded consequences of a rule are not in force"); }
  TokenId s=slaveOf(t,"Obj.S1"); if(s.isId()) sym_assert((LB(s->start())==LB(t->end()))&(UB(s->start())==UB(t->end())),"meets");
  s=slaveOf(t,"Obj.S2"); if(s.isId()) sym_assert((LB(s->end())==LB(t->start()))&(UB(s->end())==UB(t->start())),"met_by");
  s=slaveOf(t,"Obj.S3"); if(s.isId()) sym_assert(UB(s->end())<UB(t->end()),"ends_after");
  if(slaveOf(t,"Trk.E").isId()) for(int k=0;k<2;k++){ int n=0; ObjectId o=E1->db()->getObject(k?"t2":"t1"); for(int j=0;j<2;j++){ TokenId x=slaveOf(t,"Trk.E",j); sym_assert(x->getObject()->lastDomain().isSingleton(),"a subgoal of a loop belongs to one object"); if(x->getObject()->lastDomain().isMember(o->getKey())) n++; if(!x->isMerged()) sym_assert((LB(x->start())==LB(t->start()))&(UB(x->start())==UB(t->start())),"relation inside a loop"); } sym_assert(n==1,"a loop makes one subgoal for each object"); } }
static bool eqDom(const Domain& a,const Domain& b){ if(a.isEmpty()||b.isEmpty()) return a.isEmpty()==b.isEmpty();
  if(dynamic_cast<const ObjectDomain*>(&a)){ std::list<edouble> x,y; a.getValues(x); b.getValues(y); std::vector<std::string> n,m; for(auto e:x) n.push_back(Entity::getTypedEntity<Object>(e)->getName()); for(auto e:y) m.push_back(Entity::getTypedEntity<Object>(e)->getName()); std::sort(n.begin(),n.end()); std::sort(m.begin(),m.end()); return n==m; }
  return (cast_double(a.getLowerBound())==cast_double(b.getLowerBound()))&(cast_double(a.getUpperBound())==cast_double(b.getUpperBound())); }
static void compare(TokenId a,TokenId b){ sym_assert(a->isActive()==b->isActive()&&a->isMerged()==b->isMerged(),"token state");
  if(!a->isMerged()) for(unsigned i=1;i<a->getVariables().size();i++) sym_assert(eqDom(a->getVariables()[i]->lastDomain(),b->getVariables()[i]->lastDomain()),"a domain differs from that in a fresh database");
  for(TokenId s:a->slaves()){ int n=0; for(TokenId x:a->slaves()) if(x->getPredicateName()==s->getPredicateName()&&K((Token*)x)<K((Token*)s)) n++; TokenId o=slaveOf(b,s->getPredicateName(),n); sym_assert(o.isId(),"a subgoal differs from a fresh database"); compare(s,o); } }
static int count(PlanEngine* E){ int n=0; for(ConstraintId c:E->ce()->getConstraints()) if(c->isActive()) n++; return n; }
static size_t base1[2],base2[2];
static bool check(){
  bool ok=E1->ce()->propagate(); if(!ok){ sym_reach("inconsistent"); bool want=fresh(); sym_assert(!want,"the rules make a consistent database inconsistent"); drop(); return false; }
  sym_reach("consistent"); for(TokenId t:E1->db()->getTokens()) consequences(t);
  bool want=fresh(); sym_assert(want,"the database is consistent though a fresh one with the same facts is not");
  sym_assert(E1->db()->getTokens().size()==E2->db()->getTokens().size(),"number of tokens differs from a fresh database");
  for(int i=0;i<2;i++) compare(T[i],F[i]);
  sym_assert((size_t)count(E1)==(size_t)count(E2),"number of active constraints differs from a fresh database");
  sym_assert(E1->ce()->getConstraints().size()-base1[0]==E2->ce()->getConstraints().size()-base2[0],"number of constraints differs from a fresh database");
  sym_assert(E1->ce()->getVariables().size()-base1[1]==E2->ce()->getVariables().size()-base2[1],"number of variables differs from a fresh database");
  drop(); return true; }
struct Op { int k,a; std::string p; };
static void sweep(){ std::vector<SL> n; for(auto& s:sl){ TokenId t=slaveOf(T[0],s.pred); if(!act[0]||t.isNoId()) continue; if(s.state==1&&!t->isActive()) s.state=0; if(s.state==2&&!t->isMerged()) s.state=0; if(s.spec&&!t->getVariable("q")->isSpecified()) s.spec=false; if(s.state||s.spec) n.push_back(s); } sl=n; }
static SL& rec(const std::string& p){ for(auto& s:sl) if(s.pred==p) return s; SL x; x.pred=p; x.state=0; x.spec=false; x.v=0; sl.push_back(x); return sl.back(); }
static bool undoLast(Op o){ // after an inconsistency: take the operation back
  if(o.k==0){ T[o.a]->cancel(); act[o.a]=false; } else if(o.k==2){ int i=o.a/NV,v=o.a%NV; var(T[i],i,v)->reset(); spec[i][v]=false; } else if(o.k==4){ delete (Constraint*)pc[o.a]; pc[o.a]=ConstraintId::noId(); posted[o.a]=false; } else if(o.k==6||o.k==7){ TokenId t=slaveOf(T[0],o.p); if(t.isNoId()) return false; t->cancel(); rec(o.p).state=0; } else if(o.k==8){ TokenId t=slaveOf(T[0],o.p); if(t.isNoId()) return false; t->getVariable("q")->reset(); rec(o.p).spec=false; } else return false;
  return true; }
static void harness(){
  int L=symx_thorough()?5:3;
  int wide=sym_choice("wide",0,1); // wide: all bounds as wide as they get, only the values specified are symbolic
  auto num=[&](const char* n,double w,long l,long u){ return wide?w:(double)sym_int(n,l,u); };
  slo=num("slo",0,0,6); shi=num("shi",6,0,6); sym_assume(slo<=shi);
  lo[0][0]=num("alo",0,0,4); hi[0][0]=num("ahi",4,0,4); lo[0][1]=0; hi[0][1]=1; lo[0][2]=num("clo",0,0,4); hi[0][2]=4; lo[1][0]=0; hi[1][0]=num("qhi",4,0,4); sym_assume((lo[0][0]<=hi[0][0]));
  base1[0]=E1->ce()->getConstraints().size(); base1[1]=E1->ce()->getVariables().size(); base2[0]=E2->ce()->getConstraints().size(); base2[1]=E2->ce()->getVariables().size();
  for(int i=0;i<2;i++) T[i]=make(E1,i);
  if(sym_choice("active",0,1)){ T[0]->activate(); act[0]=true; }
  if(!check()) symx_prune();
  for(int s=0;s<L;s++){
    std::vector<Op> v; auto add=[&](int k,int a,const char* p=""){ Op o; o.k=k; o.a=a; o.p=p; v.push_back(o); };
    for(int i=0;i<2;i++) add(act[i]?1:0,i);
    for(int i=0;i<2;i++) for(int x=0;x<(i==0?NV:1);x++){ if(spec[i][x]) add(3,i*NV+x); else if(!var(T[i],i,x)->baseDomain().isSingleton()) add(2,i*NV+x); }
    for(int k=0;k<3;k++) add(posted[k]?5:4,k);
    if(act[0]) for(const char* p:{"Obj.Q","Obj.S4"}){ TokenId t=slaveOf(T[0],p); if(t.isNoId()) continue; if(t->isInactive()){ add(6,0,p); if(p[4]=='Q'&&T[1]->isActive()){ std::vector<TokenId> r; E1->db()->getCompatibleTokens(t,r,10,true); if(std::count(r.begin(),r.end(),T[1])) add(7,0,p); } if(p[4]=='Q'&&!t->getVariable("q")->isSpecified()) add(8,0,p); } else add(9,0,p); }
    Op o=v[sym_choice(nm("op",s),0,(int)v.size()-1)]; symx_note("op %d: kind %d %d %s",s,o.k,o.a,o.p.c_str());
    if(o.k==0){ T[o.a]->activate(); act[o.a]=true; } else if(o.k==1){ T[o.a]->cancel(); act[o.a]=false; sym_reach("undone"); }
    else if(o.k==2){ int i=o.a/NV,x=o.a%NV; double y=x==1?1:(double)sym_int(nm("val",s),0,4); if(!has(var(T[i],i,x),y)) symx_prune(); var(T[i],i,x)->specify(edouble(y)); spec[i][x]=true; val[i][x]=y; }
    else if(o.k==3){ int i=o.a/NV,x=o.a%NV; var(T[i],i,x)->reset(); spec[i][x]=false; sym_reach("undone"); }
    else if(o.k==4){ pc[o.a]=post(E1,o.a,T[0],T[1]); posted[o.a]=true; } else if(o.k==5){ delete (Constraint*)pc[o.a]; pc[o.a]=ConstraintId::noId(); posted[o.a]=false; }
    else { TokenId t=slaveOf(T[0],o.p); if(o.k==6){ t->activate(); rec(o.p).state=1; sym_reach("slave-active"); } else if(o.k==7){ t->doMerge(T[1]); rec(o.p).state=2; sym_reach("merged"); } else if(o.k==8){ double y=(double)sym_int(nm("qval",s),0,4); if(!has(t->getVariable("q"),y)) symx_prune(); t->getVariable("q")->specify(edouble(y)); SL& r=rec(o.p); r.spec=true; r.v=y; } else t->cancel(); }
    bool ok=E1->ce()->propagate(); sweep(); ok=check();
    if(!ok){ if(!undoLast(o)) return; E1->ce()->propagate(); sweep(); if(!check()) return; }
  }
}
