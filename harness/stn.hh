// Symbolic histories of a simple temporal network, with an independent all-pairs oracle (Floyd-Warshall over the constraints in force).
#include "sym.h"
#include "TemporalNetworkDefs.hh"
#include "TemporalNetwork.hh"
#include "Error.hh"
#include <cstring>
#include <cstdio>
#include <vector>
#include <string>
using namespace EUROPA;
static char* nm(const char* p,int i){ char b[30]; sprintf(b,"%s%d",p,i); return strdup(b); }
static const long INF=1L<<30;
struct Con { TemporalConstraint* c; int a,b; long lo,up; bool hasLo,hasUp,on; };
struct Net {
  TemporalNetwork n; Timepoint* tp[6]; bool alive[6]; int nt; Con c[10]; int nc; long d[6][6];
  explicit Net(int k):nt(k),nc(0){ tp[0]=&n.getOrigin(); alive[0]=true; for(int i=1;i<k;i++){ tp[i]=&n.addTimepoint(); alive[i]=true; } }
  // kind 0: [lo,up], 1: [lo,+inf), 2: (-inf,up]
  void add(int a,int b,int kind,long R,int tag){ Con& x=c[nc++]; x.a=a; x.b=b; x.hasLo=kind!=2; x.hasUp=kind!=1; x.on=true; x.lo=x.up=0;
    if(x.hasLo) x.lo=sym_int(nm("lo",tag),-R,R); if(x.hasUp) x.up=sym_int(nm("up",tag),-R,R); if(kind==0) sym_assume(x.lo<=x.up);
    x.c=n.addTemporalConstraint(*tp[a],*tp[b],x.hasLo?(Time)x.lo:cast_basis(MINUS_INFINITY),x.hasUp?(Time)x.up:cast_basis(PLUS_INFINITY)); }
  void remove(int i){ n.removeTemporalConstraint(*c[i].c); c[i].on=false; }
  void narrow(int i,int tag){ Con& x=c[i]; long R=12; long lo=x.lo,up=x.up; if(x.hasLo) lo=x.lo+sym_int(nm("dlo",tag),0,R); if(x.hasUp) up=x.up-sym_int(nm("dup",tag),0,R); if(x.hasLo&&x.hasUp) sym_assume(lo<=up);
    x.lo=lo; x.up=up; n.narrowTemporalConstraint(*x.c,x.hasLo?(Time)lo:NEG_INFINITY,x.hasUp?(Time)up:POS_INFINITY); }
  // distances implied by the constraints in force
  void oracle(){
    for(int i=0;i<nt;i++) for(int j=0;j<nt;j++) d[i][j]= i==j?0:INF;
    for(int k=0;k<nc;k++) if(c[k].on){ Con&x=c[k]; if(x.hasUp) d[x.a][x.b]= d[x.a][x.b]<x.up?d[x.a][x.b]:x.up; if(x.hasLo) d[x.b][x.a]= d[x.b][x.a]<-x.lo?d[x.b][x.a]:-x.lo; }
    // which pairs are connected at all depends on the structure only
    bool r[6][6]; for(int i=0;i<nt;i++) for(int j=0;j<nt;j++){ r[i][j]=i==j; } for(int k=0;k<nc;k++) if(c[k].on){ if(c[k].hasUp) r[c[k].a][c[k].b]=true; if(c[k].hasLo) r[c[k].b][c[k].a]=true; }
    for(int k=0;k<nt;k++) for(int i=0;i<nt;i++) for(int j=0;j<nt;j++) if(r[i][k]&&r[k][j]){ long s=d[i][k]+d[k][j]; if(!r[i][j]){ d[i][j]=s; r[i][j]=true; } else d[i][j]= s<d[i][j]?s:d[i][j]; }
  }
  bool neg(){ bool q=false; for(int i=0;i<nt;i++) q=q|(d[i][i]<0); return q; }
};
static void harness();
extern "C" void sym_setup(){ Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings(); }
extern "C" void sym_main(){
  try { harness(); }
  catch(Error& e){ std::string s="unexpected internal error: "+e.getCondition()+" "+e.getMsg()+" at "+e.getFile()+":"+std::to_string(e.getLine()); symx_fail(s.c_str()); }
}
// Initial constraints of the history: pairs of timepoints (0 is the origin) and which bounds are finite
struct Tmpl { int n; int p[5][3]; };
static const Tmpl TMPL[]={
 {4,{{0,1,0},{1,2,0},{1,2,2},{1,2,2}}}, {4,{{0,1,2},{0,1,0},{1,0,1},{0,1,1}}}, // several constraints on the same pair
 {3,{{0,1,0},{1,2,0},{0,2,0}}}, {3,{{1,2,0},{2,3,0},{1,3,0}}}, {3,{{0,1,0},{0,2,0},{1,2,1}}}, {3,{{0,1,1},{1,2,0},{0,2,2}}},
 {4,{{0,1,0},{1,2,0},{2,3,0},{0,3,0}}}, {4,{{0,1,0},{1,2,1},{1,2,2},{0,2,0}}}, {4,{{0,1,1},{1,2,1},{2,3,1},{0,3,2}}}, {4,{{1,2,0},{0,1,0},{2,1,0},{0,2,1}}}, {5,{{0,1,0},{0,2,0},{1,3,1},{2,3,1},{0,3,2}}} };
static const int NTMPL=sizeof(TMPL)/sizeof(TMPL[0]);
#include <functional>
// Runs a history; chk is called at every point where the client looks at the network
static void history(Net& N,int L,long R,const std::function<void(const char*)>& chk){
  int t=sym_choice("template",0,symx_thorough()?NTMPL-1:7); const Tmpl& T=TMPL[t];
  for(int i=0;i<T.n;i++) N.add(T.p[i][0],T.p[i][1],T.p[i][2],R,i);
  chk("initially");
  static const int PR[4][2]={{1,2},{2,1},{0,1},{3,2}};
  for(int s=0;s<L;s++){
    int k=sym_choice(nm("op",s),0,symx_thorough()?4:3);
    if(k==0){ int i=sym_choice(nm("rm",s),0,N.nc-1); if(!N.c[i].on) symx_prune(); N.remove(i); sym_reach("removed"); }
    else if(k==1){ int i=sym_choice(nm("nw",s),0,N.nc-1); if(!N.c[i].on) symx_prune(); N.narrow(i,s); sym_reach("narrowed"); }
    else if(k<=3){ int q=sym_choice(nm("pair",s),0,symx_thorough()?3:1); int kind=sym_choice(nm("kind",s),0,2); N.add(PR[q][0],PR[q][1],kind,R,10+s); sym_reach("added"); if(k==3) continue; }
    else { int v=sym_choice(nm("del",s),1,N.nt-1); if(!N.alive[v]) symx_prune(); for(int i=0;i<N.nc;i++) if(N.c[i].on&&(N.c[i].a==v||N.c[i].b==v)) N.remove(i);
      N.n.deleteTimepoint(*N.tp[v]); N.tp[v]=&N.n.addTimepoint(); }
    if(s<L-1&&!sym_choice(nm("look",s),0,1)) continue;
    chk("after the history");
  }
}
