//@ {"mods":"RulesEngine,TemporalNetwork","defs":["-DNO_NDDL"],"quick":60,"thorough":850,"pathcpu":10,
//@  "tags":["consistent","inconsistent","specified","deleted","infinite"],
//@  "what":"a history of temporal constraints between two tokens, specified and reset time variables and removals, with propagation after any step: the verdict and the bounds of start and end equal the independent shortest-path solution of what is in force; durations keep every implied value and stay within their own bounds",
//@  "bounds":"two activated tokens, start/end bounds |n|<=8 (optionally unbounded for one token), durations in 1..8, 6 temporal constraint forms in both directions, every history of 2 (thorough 4) operations after an initial constraint"}
#include "plan.hh"
#include <map>
static PlanEngine* E;
extern "C" void sym_setup(){ quiet(); E=new PlanEngine(); Schema* s=E->schema(); s->addObjectType("Objects"); s->addPredicate("Objects.P"); new Timeline(E->db(),"Objects","o"); E->db()->close(); }
static const long INF=1L<<30;
struct C { ConstraintId c; int a,b; double lo,up; bool hasUp; ConstrainedVariableId dist; };
static TokenId t[2]; static ConstrainedVariableId v[6]; // s0 e0 d0 s1 e1 d1
static double lo[6],hi[6]; static bool spec[6]; static double val[6]; static bool inf0; static std::vector<C> cs;
// node numbering: 0 origin, 1 s0, 2 e0, 3 s1, 4 e1
static const int NODE[6]={1,2,-1,3,4,-1};
static void post(int k,int s){
  static const struct { const char* n; int a,b; } F[]={{"precedes",1,3},{"concurrent",0,3},{"strictlyPrecedes",1,3},{"temporalDistance",1,3},{"precedes",4,0},{"temporalDistance",3,1},{"concurrent",1,4},{"precedes",0,3}};
  C x; x.a=NODE[F[k].a]; x.b=NODE[F[k].b]; x.lo=0; x.up=0; x.hasUp=true; std::string n=F[k].n;
  if(n=="temporalDistance"){ x.lo=(double)sym_int(nm("dlo",s),-4,8); x.up=(double)sym_int(nm("dup",s),-4,8); sym_assume(x.lo<=x.up); x.dist=ivar(E->ce(),(long)x.lo,(long)x.up); x.c=E->ce()->createConstraint(n,scope(v[F[k].a],x.dist,v[F[k].b])); }
  else { if(n!="concurrent") x.hasUp=false; if(n=="strictlyPrecedes") x.lo=1; x.c=E->ce()->createConstraint(n,scope(v[F[k].a],v[F[k].b])); }
  cs.push_back(x);
}
static double mn(double a,double b){ return a<b?a:b; } static double mx(double a,double b){ return a>b?a:b; }
static bool was;
static void check(){
  bool ok=E->ce()->propagate();
  double d[5][5]; for(int i=0;i<5;i++) for(int j=0;j<5;j++) d[i][j]=i==j?0:(double)INF;
  bool r[5][5]; for(int i=0;i<5;i++) for(int j=0;j<5;j++) r[i][j]=i==j;
  double el[6],eh[6]; for(int i=0;i<6;i++){ el[i]=spec[i]?val[i]:lo[i]; eh[i]=spec[i]?val[i]:hi[i]; }
  auto edge=[&](int a,int b,double l){ d[a][b]=r[a][b]?mn(d[a][b],l):l; r[a][b]=true; };
  for(int i=0;i<6;i++) if(NODE[i]>0){ if(i<=1&&inf0&&!spec[i]) continue; edge(0,NODE[i],eh[i]); edge(NODE[i],0,-el[i]); }
  for(int k=0;k<2;k++){ edge(NODE[3*k],NODE[3*k+1],eh[3*k+2]); edge(NODE[3*k+1],NODE[3*k],-el[3*k+2]); }
  for(unsigned i=0;i<cs.size();i++) if(!cs[i].c.isNoId()){ edge(cs[i].b,cs[i].a,-cs[i].lo); if(cs[i].hasUp) edge(cs[i].a,cs[i].b,cs[i].up); }
  for(int k=0;k<5;k++) for(int i=0;i<5;i++) for(int j=0;j<5;j++) if(r[i][k]&&r[k][j]) edge(i,j,d[i][k]+d[k][j]);
  bool neg=false; for(int i=0;i<5;i++) neg=neg|(d[i][i]<0);
  sym_assert(ok!=neg,ok?"impossible temporal requirements not detected":"possible temporal requirements reported inconsistent");
  if(!ok){ sym_reach("inconsistent"); was=true; return; } sym_reach("consistent"); if(was) sym_reach("recovered");
  for(int i=0;i<6;i++) if(NODE[i]>0){ int n=NODE[i]; if(!r[0][n]||!r[n][0]){ sym_reach("infinite"); }
    sym_assert(r[n][0]? LB(v[i])==-d[n][0] : v[i]->lastDomain().getLowerBound()==edouble(MINUS_INFINITY),"earliest time of a token is wrong"); sym_assert(r[0][n]? UB(v[i])==d[0][n] : v[i]->lastDomain().getUpperBound()==edouble(PLUS_INFINITY),"latest time of a token is wrong"); }
  for(int k=0;k<2;k++){ int s=NODE[3*k],e=NODE[3*k+1],D=3*k+2; double l=LB(v[D]),u=UB(v[D]);
    sym_assert((l<=-d[e][s])&(u>=d[s][e]),"a possible duration was discarded");
    sym_assert((l>=el[D])&(u<=eh[D]),"duration left its own bounds");
}
}
static void harness(){
  const long R=8; int L=symx_thorough()?4:2; inf0=sym_choice("unbounded",0,1);
  for(int i=0;i<6;i++){ if(NODE[i]<0){ lo[i]=(double)sym_int(nm("lo",i),1,R); hi[i]=(double)sym_int(nm("hi",i),1,R); } else { lo[i]=(double)sym_int(nm("lo",i),-R,R); hi[i]=(double)sym_int(nm("hi",i),-R,R); } sym_assume(lo[i]<=hi[i]); }
  for(int k=0;k<2;k++){ t[k]=(new IntervalToken(E->db(),"Objects.P",true,false,k==0&&inf0?IntervalIntDomain():IntervalIntDomain((eint)(long)lo[3*k],(eint)(long)hi[3*k]),k==0&&inf0?IntervalIntDomain():IntervalIntDomain((eint)(long)lo[3*k+1],(eint)(long)hi[3*k+1]),IntervalIntDomain((eint)(long)lo[3*k+2],(eint)(long)hi[3*k+2])))->getId();
    t[k]->activate(); v[3*k]=t[k]->start(); v[3*k+1]=t[k]->end(); v[3*k+2]=t[k]->duration(); }
  post(sym_choice("first",0,symx_thorough()?7:5),9); check();
  static const int VARS[4]={0,1,3,2};
  for(int s=0;s<L;s++){
    int op=sym_choice(nm("op",s),0,2);
    if(op==0){ post(sym_choice(nm("kind",s),0,symx_thorough()?7:5),s); }
    else if(op==1){ int i=sym_choice(nm("rm",s),0,(int)cs.size()-1); if(cs[i].c.isNoId()) symx_prune(); delete (Constraint*)cs[i].c; cs[i].c=ConstraintId::noId(); sym_reach("deleted"); }
    else { int i=VARS[sym_choice(nm("var",s),0,symx_thorough()?3:1)]; if(spec[i]){ v[i]->reset(); spec[i]=false; sym_reach("reset"); } else { double x=(double)sym_int(nm("val",s),-R,R); if(!(i<=1&&inf0)) sym_assume((lo[i]<=x)&(x<=hi[i])); v[i]->specify(edouble(x)); spec[i]=true; val[i]=x; sym_reach("specified"); } }
    if(s==L-1||sym_choice(nm("look",s),0,1)) check();
  }
}
