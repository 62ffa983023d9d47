//@ {"mods":"TemporalNetwork","quick":60,"thorough":850,"pathcpu":10,
//@  "tags":["consistent","inconsistent","removed","narrowed","added","recovered"],
//@  "what":"a history of adding, narrowing and removing temporal constraints: whenever the client asks, the network is consistent exactly when the constraints in force have no negative cycle (independent all-pairs shortest paths); a reported inconsistency comes with a cycle of negative length",
//@  "bounds":"origin and 3 timepoints, 8 (thorough 11) initial networks of 3-5 constraints, every history of 2 (thorough 3) further operations, all integer bounds |n|<=10, either bound possibly infinite; the client looks or not after each step"}
#include "stn.hh"
static void harness(){
  Net N(4); bool was=false;
  history(N,symx_thorough()?3:2,10,[&](const char* w){
    bool ok=N.n.propagate(); N.oracle(); bool neg=N.neg();
    sym_assert(ok!=neg,ok?"negative cycle not detected":"consistent network reported inconsistent");
    if(ok){ sym_reach("consistent"); if(was) sym_reach("recovered"); } else { sym_reach("inconsistent"); was=true;
      std::list<Dedge*> l=N.n.getEdgeNogoodList(); long sum=0; bool closed=!l.empty(); Dedge* first=0,*prev=0;
      for(std::list<Dedge*>::iterator i=l.begin();i!=l.end();++i){ sum+=(*i)->length; if(!first) first=*i; else closed=closed&&&prev->from==&(*i)->to; prev=*i; }
      if(closed) closed=&prev->from==&first->to;
      sym_assert(closed,"the reported inconsistency is not a cycle"); sym_assert(sum<0,"the reported cycle is not negative"); }
  });
}
