//@ {"mods":"RulesEngine,TemporalNetwork","quick":60,"thorough":850,"pathcpu":15,
//@  "tags":["merged","two-merged","split","consistent","inconsistent","constraint-while-merged","reset-while-merged","not-offered","cancel-target"],
//@  "what":"a history of merging, splitting, activating, cancelling, posting and removing constraints (also on merged tokens), specifying and resetting: verdict and derived domains equal those of a fresh database holding, for each active token with its merged ones, a single token with the intersection of their base domains, their specified values and all their constraints; every compatible active token is offered as merge candidate (inexact and exact test), judged by building that fresh database",
//@  "bounds":"3 tokens of one predicate (one of a derived object type), parameters with symbolic integer bounds |n|<=3 and fixed overlapping enumerations, symbolic start bounds 0..4, 2 constraints out of 6 kinds, a merge followed by every history of 2 (thorough 4) operations"}
#define NO_NDDL
#include "plan.hh"
#include <algorithm>
static PlanEngine *E1,*E2; static const int N=3;
static void model(PlanEngine* E){ Schema* s=E->schema(); s->addObjectType("Objects"); s->addPredicate("Objects.P"); s->addMember("Objects.P","int","p"); s->addMember("Objects.P","int","q");
  new Object(E->db(),"Objects","o"); new Object(E->db(),"Objects","x"); E->db()->close(); }
extern "C" void sym_setup(){ quiet(); E1=new PlanEngine(); model(E1); E2=new PlanEngine(); model(E2); }
static double lo[N][3],hi[N][3]; static int obj[N]; // 0 start, 1 p, 2 end/duration fixed
static std::vector<int> en[N]; static bool spec[N][2]; static double val[N][2]; static int st[N]; static int tgt[N]; // st: 0 inactive 1 active 2 merged
struct CT { const char* n; int a,va,b,vb; }; // variable: 0 start 1 end 2 p 3 q
static const CT K[]={ {"leq",1,2,2,2},{"eq",0,2,1,2},{"precedes",1,1,2,0},{"neq",1,3,0,3},{"lt",2,2,2,3},{"concurrent",1,0,2,1} };
static int ck[2]; static bool posted[2]; static ConstraintId c1[2];
static TokenId T[N];
static TokenId make(PlanEngine* E,double slo,double shi,double plo,double phi,const std::vector<int>& q,int o){
  IntervalToken* t=new IntervalToken(E->db(),"Objects.P",true,false,IntervalIntDomain((eint)(long)slo,(eint)(long)shi),IntervalIntDomain(0,20),IntervalIntDomain(2,5),o==0?std::string("o"):o==1?std::string("x"):Token::noObject(),false);
  t->addParameter(IntervalIntDomain((eint)(long)plo,(eint)(long)phi),"p"); std::list<edouble> l; for(int i:q) l.push_back(edouble(i)); t->addParameter(EnumeratedDomain(IntDT::instance(),l),"q"); t->close(); return t->getId(); }
static ConstrainedVariableId var(TokenId t,int v){ return v==0?(ConstrainedVariableId)t->start():v==1?(ConstrainedVariableId)t->end():t->parameters()[v-2]; }
static ConstraintId post(PlanEngine* E,const CT& c,TokenId a,TokenId b){ return E->ce()->createConstraint(c.n,scope(var(a,c.va),var(b,c.vb))); }
static int rep(const int* s,const int* g,int i){ return s[i]==2?g[i]:i; }
static TokenId F[N]; static ConstraintId c2[2];
// the fresh database for the given states; false when it is inconsistent
static bool fresh(const int* s,const int* g){
  bool ok=true; double a[N][4]; std::vector<int> q[N]; int o[N]; 
  for(int i=0;i<N;i++){ a[i][0]=lo[i][0];a[i][1]=hi[i][0];a[i][2]=lo[i][1];a[i][3]=hi[i][1]; q[i]=en[i]; o[i]=obj[i]; F[i]=TokenId::noId(); }
  for(int i=0;i<N;i++) if(s[i]==2){ int r=g[i]; for(int k=0;k<4;k+=2){ a[r][k]=a[r][k]<a[i][k]?a[i][k]:a[r][k]; a[r][k+1]=a[i][k+1]<a[r][k+1]?a[i][k+1]:a[r][k+1]; }
    std::vector<int> m; for(int x:q[r]) if(std::count(q[i].begin(),q[i].end(),x)) m.push_back(x); q[r]=m; if(o[r]==2) o[r]=o[i]; else if(o[i]!=2&&o[i]!=o[r]) return false; }
  for(int i=0;i<N;i++) if(s[i]!=2){ bool e=(a[i][0]>a[i][1])|(a[i][2]>a[i][3]); if(e||q[i].empty()) return false; }
  for(int i=0;i<N;i++) for(int v=0;v<2;v++) if(spec[i][v]){ int r=rep(s,g,i); // a specified value outside the intersection, or two different ones
    if(v==0&&((val[i][0]<a[r][2])|(val[i][0]>a[r][3]))) return false; if(v==1&&!std::count(q[r].begin(),q[r].end(),(int)val[i][1])) return false;
    for(int j=0;j<i;j++) if(rep(s,g,j)==r&&spec[j][v]&&val[j][v]!=val[i][v]) return false; }
  for(int i=0;i<N;i++) if(s[i]!=2){ F[i]=make(E2,a[i][0],a[i][1],a[i][2],a[i][3],q[i],o[i]); if(s[i]==1) F[i]->activate(); }
  for(int i=0;i<N;i++) for(int v=0;v<2;v++) if(spec[i][v]){ TokenId t=F[rep(s,g,i)]; if(!t->parameters()[v]->isSpecified()) t->parameters()[v]->specify(edouble(val[i][v])); }
  for(int k=0;k<2;k++) if(posted[k]) c2[k]=post(E2,K[ck[k]],F[rep(s,g,K[ck[k]].a)],F[rep(s,g,K[ck[k]].b)]);
  return E2->ce()->propagate();
}
static void drop(){ for(int k=0;k<2;k++) if(!c2[k].isNoId()){ delete (Constraint*)c2[k]; c2[k]=ConstraintId::noId(); } for(int i=0;i<N;i++) if(!F[i].isNoId()){ delete (Token*)F[i]; F[i]=TokenId::noId(); } E2->ce()->propagate(); }
static bool eqDom(const Domain& a,const Domain& b){
  if(a.isEmpty()||b.isEmpty()) return a.isEmpty()==b.isEmpty();
  if(a.isEnumerated()){ std::list<edouble> x,y; a.getValues(x); b.getValues(y); if(x.size()!=y.size()) return false; bool r=true; auto j=y.begin(); for(auto i=x.begin();i!=x.end();++i,++j) r=r&(cast_double(*i)==cast_double(*j)); return r; }
  return (cast_double(a.getLowerBound())==cast_double(b.getLowerBound()))&(cast_double(a.getUpperBound())==cast_double(b.getUpperBound())); }
static bool check(bool full){
  bool ok=E1->ce()->propagate(); bool want=fresh(st,tgt);
  sym_assert(ok==want,ok?"a merged plan is accepted though the unified tokens conflict":"a merged plan is rejected though the unified tokens agree");
  if(!ok||!want){ sym_reach("inconsistent"); drop(); return false; } sym_reach("consistent");
  for(int i=0;i<N;i++){ sym_assert(T[i]->isActive()==(st[i]==1)&&T[i]->isMerged()==(st[i]==2)&&T[i]->isInactive()==(st[i]==0),"token state"); sym_assert(st[i]!=2||T[i]->getActiveToken()==T[tgt[i]],"active token of a merged one");
    unsigned m=0; for(int j=0;j<N;j++) if(st[j]==2&&tgt[j]==i) m++; sym_assert(T[i]->getMergedTokens().size()==m,"merged tokens of an active one");
    if(st[i]!=2) for(int v=0;v<4;v++) sym_assert(eqDom(var(T[i],v)->lastDomain(),var(F[i],v)->lastDomain()),v==0?"start differs from that of the unified token":v==1?"end differs from that of the unified token":"a parameter differs from that of the unified token");
    if(st[i]!=2) for(int o=0;o<2;o++) sym_assert(T[i]->getObject()->lastDomain().isMember(E1->db()->getObject(o?"x":"o")->getKey())==F[i]->getObject()->lastDomain().isMember(E2->db()->getObject(o?"x":"o")->getKey()),"the object differs from that of the unified token"); }
  drop();
  if(full) for(int i=0;i<N;i++) if(st[i]==0) for(int ex=0;ex<2;ex++){ std::vector<TokenId> r; E1->db()->getCompatibleTokens(T[i],r,1000,ex);
    for(unsigned k=0;k<r.size();k++){ bool act=false; for(int j=0;j<N;j++) act=act||(st[j]==1&&T[j]==r[k]); sym_assert(act,"a token that is not active is offered for merging"); sym_assert(std::count(r.begin(),r.end(),r[k])==1,"a merge candidate is offered twice"); }
    sym_assert(E1->db()->countCompatibleTokens(T[i],1000,ex)==r.size(),"the number of merge candidates differs from the candidates"); if(r.size()>1){ std::vector<TokenId> one; E1->db()->getCompatibleTokens(T[i],one,1,ex); sym_assert(one.size()==1&&one[0]==r[0],"a limit does not yield the leading candidates"); }
    for(int j=0;j<N;j++) if(st[j]==1&&!std::count(r.begin(),r.end(),T[j])){ sym_reach("not-offered"); int s[N],g[N]; for(int k=0;k<N;k++){ s[k]=st[k]; g[k]=tgt[k]; } s[i]=2; g[i]=j; bool possible=fresh(s,g); sym_assert(!possible,"an active token with which merging is possible is not offered"); drop(); } }
  return true;
}
static bool offered(int i,int j){ std::vector<TokenId> r; E1->db()->getCompatibleTokens(T[i],r,1000,false); return std::count(r.begin(),r.end(),T[j])>0; }
static bool merge(int i,int j){ if(st[i]!=0||st[j]!=1||i==j||!offered(i,j)) return false; T[i]->doMerge(T[j]); st[i]=2; tgt[i]=j; sym_reach("merged"); int n=0; for(int k=0;k<N;k++) if(st[k]==2) n++; if(n>1) sym_reach("two-merged"); return true; }
static void harness(){
  const long R=3; int L=symx_thorough()?4:2;
  ck[0]=sym_choice("kind0",0,5); ck[1]=symx_thorough()?sym_choice("kind1",0,5):(ck[0]+1)%6;
  static const int Q[N][3]={{0,1,2},{1,2,3},{0,2,4}};
  for(int i=0;i<N;i++){ lo[i][0]=i==2?0:(double)sym_int(nm("slo",i),0,4); hi[i][0]=i==1?4:(double)sym_int(nm("shi",i),0,4); lo[i][1]=i==0?-3:(double)sym_int(nm("plo",i),-R,R); hi[i][1]=(double)sym_int(nm("phi",i),-R,R); sym_assume((lo[i][0]<=hi[i][0])&(lo[i][1]<=hi[i][1])); for(int k=0;k<3;k++) en[i].push_back(Q[i][k]); obj[i]=i==2?0:i==1?2:symx_thorough()?sym_choice("obj0",0,2):2; T[i]=make(E1,lo[i][0],hi[i][0],lo[i][1],hi[i][1],en[i],obj[i]); }
  if(sym_choice("specified",0,1)){ double x=(double)sym_int("sval",-R,R); sym_assume((lo[1][1]<=x)&(x<=hi[1][1])); T[1]->parameters()[0]->specify(edouble(x)); spec[1][0]=true; val[1][0]=x; }
  c1[0]=post(E1,K[ck[0]],T[K[ck[0]].a],T[K[ck[0]].b]); posted[0]=true;
  T[0]->activate(); st[0]=1; if(sym_choice("both",0,1)){ T[2]->activate(); st[2]=1; }
  if(!check(true)) symx_prune();
  if(!merge(1,0)) symx_prune(); if(!check(true)) return;
  for(int s=0;s<L;s++){
    struct O { int k,a,b; }; std::vector<O> v;
    for(int i=0;i<N;i++){ for(int j=0;j<N;j++) if(i!=j&&st[i]==0&&st[j]==1&&offered(i,j)) v.push_back(O{0,i,j}); if(st[i]==2) v.push_back(O{1,i,0}); if(st[i]!=2) v.push_back(O{4,i,0}); for(int x=0;x<(symx_thorough()?2:1);x++) if(spec[i][x]||(st[i]!=2&&!T[i]->parameters()[x]->isSpecified())) v.push_back(O{3,i,x}); }
    for(int k=0;k<2;k++) v.push_back(O{2,k,0});
    O o=v[sym_choice(nm("op",s),0,(int)v.size()-1)]; int i=o.a;
    if(o.k==0) merge(i,o.b);
    else if(o.k==1){ T[i]->cancel(); st[i]=0; sym_reach("split"); }
    else if(o.k==2){ int k=o.a; bool m=st[K[ck[k]].a]==2||st[K[ck[k]].b]==2; if(posted[k]){ delete (Constraint*)c1[k]; posted[k]=false; } else { c1[k]=post(E1,K[ck[k]],T[K[ck[k]].a],T[K[ck[k]].b]); posted[k]=true; } if(m) sym_reach("constraint-while-merged"); }
    else if(o.k==3){ int x=o.b; if(spec[i][x]){ T[i]->parameters()[x]->reset(); spec[i][x]=false; if(st[i]==2) sym_reach("reset-while-merged"); }
      else { double y; if(x==0){ y=(double)sym_int(nm("val",s),-R,R); sym_assume((lo[i][1]<=y)&(y<=hi[i][1])); } else y=en[i][sym_choice(nm("qval",s),0,2)]; if(!has(T[i]->parameters()[x],y)) symx_prune(); T[i]->parameters()[x]->specify(edouble(y)); spec[i][x]=true; val[i][x]=y; } }
    else { if(st[i]==0){ T[i]->activate(); st[i]=1; } else { for(int k=0;k<N;k++) if(st[k]==2&&tgt[k]==i){ st[k]=0; sym_reach("cancel-target"); } T[i]->cancel(); st[i]=0; } }
    if(!check(s==L-1)) return;
  }
}
