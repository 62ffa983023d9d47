// Timelines with intervals tokens and the independent solution of what is in force on them.
#ifndef TL_HH
#define TL_HH
#define NO_NDDL
#include "plan.hh"
#include <list>
#include <map>
#include <algorithm>
static PlanEngine* E; static const int NT=4, NO=2; static TimelineId TLS[NO];
static void tl_setup(){ quiet(); E=new PlanEngine(); Schema* s=E->schema(); s->addObjectType("Objects"); s->addPredicate("Objects.P"); for(int i=0;i<NO;i++) TLS[i]=(new Timeline(E->db(),"Objects",i?"p":"o"))->getId(); E->db()->close(); }
static TokenId tok[NT]; static double slo[NT],shi[NT],dlo[NT],dhi[NT],elo[NT],ehi[NT]; static bool act[NT]; static int ntok;
static std::vector<int> seq[NO];                       // model: the sequence of each timeline
static std::vector<std::pair<int,int> > ex[NO];         // model: explicit orderings
static int where(int t){ for(int o=0;o<NO;o++) if(std::find(seq[o].begin(),seq[o].end(),t)!=seq[o].end()) return o; return -1; }
static int tokOf(TokenId t){ for(int i=0;i<ntok;i++) if(tok[i]==t) return i; return -1; }
// latest (UBD) and negated earliest (LBD) times over origin, s_i=1+2i, e_i=2+2i for the active tokens and the given sequences (Bellman-Ford from and to the origin); false when inconsistent.
// The comparisons are branches: the engine has already taken most of them, so they rarely split a path.
static double UBD[2*NT+1],LBD[2*NT+1]; struct Edge { int a,b; double l; };
static __attribute__((noinline)) bool relaxD(double& d,double x){ if(x<d){ asm volatile("":::"memory"); d=x; return true; } return false; }
static bool solve(const std::vector<int>* sq){
  int n=2*ntok+1; std::vector<Edge> es; for(int i=0;i<n;i++) UBD[i]=LBD[i]=i?1e6:0;
  for(int t=0;t<ntok;t++) if(act[t]){ int s=1+2*t,e=2+2*t; Edge k[6]={{0,s,shi[t]},{s,0,-slo[t]},{0,e,ehi[t]},{e,0,-elo[t]},{s,e,dhi[t]},{e,s,-dlo[t]}}; for(int i=0;i<6;i++) es.push_back(k[i]); }
  for(int o=0;o<NO;o++) for(unsigned i=0;i+1<sq[o].size();i++) es.push_back(Edge{1+2*sq[o][i+1],2+2*sq[o][i],0});
  for(int back=0;back<2;back++){ double* d=back?LBD:UBD; bool ch=true; for(int r=0;ch;r++){ if(r>n) return false; ch=false;
    for(unsigned i=0;i<es.size();i++){ int a=back?es[i].b:es[i].a,b=back?es[i].a:es[i].b; if(d[a]<1e5&&relaxD(d[b],d[a]+es[i].l)){ ch=true; if(b==0) return false; } } } }
  return true;
}
static void mkTokens(int n,const char* obj,long R,long DR){ ntok=n;
  for(int i=0;i<n;i++){ // some of the bounds are kept fixed
    slo[i]=i==1?1:i==3?0:(double)sym_int(nm("slo",i),0,R); shi[i]=i!=1?R-(i==2?1:0):(double)sym_int(nm("shi",i),0,R); dlo[i]=i==2?2:(double)sym_int(nm("dlo",i),1,DR); dhi[i]=dlo[i]; sym_assume(slo[i]<=shi[i]); elo[i]=slo[i]+dlo[i]; ehi[i]=R+DR;
    sym_assume(elo[i]<=ehi[i]);
    tok[i]=(new IntervalToken(E->db(),"Objects.P",true,false,IntervalIntDomain((eint)(long)slo[i],(eint)(long)shi[i]),IntervalIntDomain((eint)(long)elo[i],(eint)(long)ehi[i]),IntervalIntDomain((eint)(long)dlo[i],(eint)(long)dhi[i]),obj?obj:Token::noObject()))->getId(); act[i]=false; }
}
static void activate(int i){ tok[i]->activate(); act[i]=true; }
// model of placing a before b on timeline o (at least one of them sequenced, or an empty timeline)
static void m_constrain(int o,int a,int b){ std::vector<int>&q=seq[o]; ex[o].push_back(std::make_pair(a,b));
  auto ia=std::find(q.begin(),q.end(),a); auto ib=std::find(q.begin(),q.end(),b);
  if(q.empty()){ q.push_back(a); if(a!=b) q.push_back(b); return; }
  if(ia==q.end()) q.insert(ib,a); else if(ib==q.end()) q.insert(ia+1,b); }
static bool supported(int o,int t){ for(auto&p:ex[o]) if(p.first==t||p.second==t) return true; return false; }
static void m_drop(int o,int t){ auto i=std::find(seq[o].begin(),seq[o].end(),t); if(i!=seq[o].end()) seq[o].erase(i); }
static void m_free(int o,int a,int b){ auto i=std::find(ex[o].begin(),ex[o].end(),std::make_pair(a,b)); ex[o].erase(i); if(!supported(o,a)) m_drop(o,a); if(!supported(o,b)) m_drop(o,b); }
static void m_cancel(int t){ act[t]=false; int o=where(t); if(o<0) return; std::vector<int>&q=seq[o]; auto i=std::find(q.begin(),q.end(),t); int before=i==q.begin()?-1:*(i-1),after=i+1==q.end()?-1:*(i+1); q.erase(i);
  bool had=false; std::vector<std::pair<int,int> > r; for(auto&p:ex[o]){ if(p.first==t||p.second==t) continue; if(p==std::make_pair(before,after)) had=true; r.push_back(p); } ex[o]=r; (void)had; }
// the operations possible in the current state: 0 place t on o before/after u, 1 free, 2 cancel, 3 activate
struct Op { int k,o,t,u,after; };
static bool mayBe[NT][NO];
static void placements(std::vector<Op>& v){ for(int t=0;t<ntok;t++) if(act[t]&&where(t)<0) for(int o=0;o<NO;o++) if(mayBe[t][o]){ if(seq[o].empty()) v.push_back(Op{0,o,t,t,0}); for(unsigned i=0;i<seq[o].size();i++) for(int a=0;a<2;a++) v.push_back(Op{0,o,t,seq[o][i],a}); } }
static void others(std::vector<Op>& v,bool anyCancel){ for(int o=0;o<NO;o++) for(unsigned i=0;i<ex[o].size();i++) v.push_back(Op{1,o,ex[o][i].first,ex[o][i].second,0}); for(int t=0;t<ntok;t++){ if(act[t]&&(anyCancel||where(t)>=0)) v.push_back(Op{2,0,t,0,0}); if(!act[t]) v.push_back(Op{3,0,t,0,0}); } }
static void doOp(const std::vector<Op>& v,const char* name){ if(v.empty()) symx_prune(); Op op=v[sym_choice(name,0,(int)v.size()-1)]; int o=op.o,t=op.t,u=op.u;
  if(op.k==0){ int i=std::find(seq[o].begin(),seq[o].end(),u)-seq[o].begin(); if(t==u){ TLS[o]->constrain(tok[t],tok[t]); m_constrain(o,t,t); } else if(op.after){ if(i+1<(int)seq[o].size()) sym_reach("middle"); TLS[o]->constrain(tok[u],tok[t]); m_constrain(o,u,t); } else { if(i>0) sym_reach("middle"); TLS[o]->constrain(tok[t],tok[u]); m_constrain(o,t,u); } }
  else if(op.k==1){ TLS[o]->free(tok[t],tok[u]); m_free(o,t,u); sym_reach("freed"); }
  else if(op.k==2){ bool need=false; int b=-1,a=-1; o=where(t); if(o>=0){ auto i=std::find(seq[o].begin(),seq[o].end(),t); b=i==seq[o].begin()?-1:*(i-1); a=i+1==seq[o].end()?-1:*(i+1); need=a>=0&&b>=0&&TLS[o]->getPrecedenceConstraint(tok[b],tok[a]).isNoId(); }
    tok[t]->cancel(); m_cancel(t); if(need) ex[o].push_back(std::make_pair(b,a)); sym_reach("cancelled"); }
  else activate(t); }
#endif
