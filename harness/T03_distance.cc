//@ {"mods":"TemporalNetwork","quick":60,"thorough":850,"pathcpu":10,
//@  "tags":["consistent","less","not-less","many"],
//@  "what":"distance queries after a history: exact distance bounds of a pair (single- and many-target form) equal the independent all-pairs shortest paths; their signs agree in the sign-only form; the direct-edge form encloses them; 'is distance less than' never claims too much and 'possibly less than' never denies too much; timepoint bounds stay exact after the queries",
//@  "bounds":"origin and 3 timepoints, 8 (thorough 11) initial networks of 3-5 constraints, every history of 1 (thorough 2) further operations, all integer bounds |n|<=10, either bound possibly infinite, every ordered pair and every threshold |n|<=20"}
#include "stn.hh"
static long up(long x){ return x; }
static void harness(){
  Net N(4);
  int q=-1; bool last=false;
  history(N,symx_thorough()?2:1,10,[&](const char* w){
    bool fin=!strcmp(w,"after the history"); bool ok=N.n.propagate(); if(!ok||!fin) return; N.oracle(); sym_reach("consistent");
    int s=sym_choice("src",0,3), kind=sym_choice("query",0,2); Timepoint& S=*N.tp[s];
    if(kind==0) for(int t=0;t<N.nt;t++) if(t!=s){ Time lb,ub,l2,u2; N.n.calcDistanceBounds(S,*N.tp[t],lb,ub); 
        sym_assert(N.d[s][t]==INF? ub>=POS_INFINITY: ub==N.d[s][t],"upper distance bound is not the implied one"); sym_assert(N.d[t][s]==INF? lb<=NEG_INFINITY: lb==-N.d[t][s],"lower distance bound is not the implied one");
        N.n.calcDistanceBounds(S,*N.tp[t],l2,u2,false); sym_assert((l2<=lb)&(ub<=u2),"approximate distance bounds do not enclose the exact ones"); }
    if(kind==1){ std::vector<Timepoint*> ts; std::vector<int> ix; for(int t=0;t<N.nt;t++) if(t!=s){ ts.push_back(N.tp[t]); ix.push_back(t); } std::vector<Time> lbs,ubs; N.n.calcDistanceBounds(S,ts,lbs,ubs); sym_reach("many");
        for(unsigned i=0;i<ts.size();i++){ int t=ix[i]; sym_assert(N.d[s][t]==INF? ubs[i]>=POS_INFINITY: ubs[i]==N.d[s][t],"many-target upper distance bound is not the implied one"); sym_assert(N.d[t][s]==INF? lbs[i]<=NEG_INFINITY: lbs[i]==-N.d[t][s],"many-target lower distance bound is not the implied one"); }
        N.n.calcDistanceSigns(S,ts,lbs,ubs);
        for(unsigned i=0;i<ts.size();i++){ int t=ix[i]; sym_assert((ubs[i]<0)==(N.d[s][t]<0)&((ubs[i]==0)==(N.d[s][t]==0)),"sign of the upper distance bound"); sym_assert((lbs[i]>0)==(-N.d[t][s]>0)&((lbs[i]==0)==(N.d[t][s]==0)),"sign of the lower distance bound"); } }
    if(kind==2) for(int t=0;t<N.nt;t++) if(t!=s){ long b=sym_int(nm("bound",t),-20,20); bool less=N.n.isDistanceLessThan(S,*N.tp[t],b), poss=N.n.isDistancePossiblyLessThan(S,*N.tp[t],b), leq=N.n.isDistanceLessThanOrEqual(S,*N.tp[t],b);
        bool real=N.d[s][t]<b; sym_reach(real?"less":"not-less");
        sym_assert(!less|real,"claims a smaller distance than implied"); sym_assert(!leq|(N.d[s][t]<=b),"claims a smaller or equal distance than implied"); sym_assert(poss|!real,"denies a possible smaller distance"); }
    for(int i=1;i<N.nt;i++){ Time lb,ub; N.n.getTimepointBounds(*N.tp[i],lb,ub); sym_assert((N.d[i][0]==INF? lb==NEG_INFINITY: lb==-N.d[i][0])&(N.d[0][i]==INF? ub==POS_INFINITY: ub==N.d[0][i]),"a distance query changed the timepoint bounds"); }
  });
}
