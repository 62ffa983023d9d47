//@ {"mods":"TemporalNetwork","quick":60,"thorough":850,"pathcpu":10,
//@  "tags":["consistent","removed","narrowed","added","infinite"],
//@  "what":"a history of adding, narrowing and removing temporal constraints: whenever the client looks at a consistent network, the bounds of every timepoint are exactly its earliest and latest time (independent all-pairs shortest paths)",
//@  "bounds":"origin and 3 timepoints, 8 (thorough 11) initial networks of 3-5 constraints, every history of 2 (thorough 3) further operations, all integer bounds |n|<=10, either bound possibly infinite; the client looks or not after each step"}
#include "stn.hh"
static void harness(){
  Net N(4);
  history(N,symx_thorough()?3:2,10,[&](const char* w){
    bool ok=N.n.propagate(); if(!ok) return; N.oracle(); sym_reach("consistent");
    for(int i=1;i<N.nt;i++){ Time lb,ub; N.n.getTimepointBounds(*N.tp[i],lb,ub); long el=-N.d[i][0],la=N.d[0][i];
      if(N.d[i][0]==INF||N.d[0][i]==INF) sym_reach("infinite");
      sym_assert(N.d[i][0]==INF? lb==NEG_INFINITY: lb==el,"lower bound is not the earliest time");
      sym_assert(N.d[0][i]==INF? ub==POS_INFINITY: ub==la,"upper bound is not the latest time");
      Time l2,u2; N.n.getLastTimepointBounds(*N.tp[i],l2,u2); sym_assert((l2==lb)&(u2==ub),"last bounds differ after propagation"); }
  });
}
