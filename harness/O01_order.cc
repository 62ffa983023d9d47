//@ {"mods":"RulesEngine,TemporalNetwork","quick":60,"thorough":850,"pathcpu":40,
//@  "tags":["consistent","inconsistent","freed","cancelled","middle"],
//@  "what":"a history of activating, placing (before or after a sequenced token), freeing and cancelling tokens on timelines: the sequence is the one those operations define, and the start and end bounds of every token equal the independent shortest-path solution with exactly the orderings of consecutive tokens, so no two can overlap and nothing else is ordered",
//@  "bounds":"3 tokens on one timeline (thorough: 4 tokens, two timelines), start bounds in 0..8 and durations in 1..4, of which up to 5 (thorough 6) symbolic, 2 placements followed by every history of 2 (thorough 4) operations"}
#include "tl.hh"
extern "C" void sym_setup(){ tl_setup(); }
static int L;
static bool check(){
  bool ok=E->ce()->propagate(), possible=solve(seq);
  sym_assert(ok==possible,ok?"tokens that cannot be ordered as required are accepted":"a possible order of tokens is reported inconsistent");
  for(int o=0;o<NO;o++){ const std::list<TokenId>& q=TLS[o]->getTokenSequence(); sym_assert(q.size()==seq[o].size(),"the sequence holds other tokens than were placed"); unsigned i=0; for(auto it=q.begin();it!=q.end();++it,++i) sym_assert(tokOf(*it)==seq[o][i],"the sequence is in another order than placed"); }
  if(!ok){ sym_reach("inconsistent"); return false; } sym_reach("consistent");
  for(int t=0;t<ntok;t++) if(act[t]){ int s=1+2*t,e=2+2*t;
    sym_assert((LB(tok[t]->start())==-LBD[s])&(UB(tok[t]->start())==UBD[s]),"start bounds are not those the orderings imply");
    sym_assert((LB(tok[t]->end())==-LBD[e])&(UB(tok[t]->end())==UBD[e]),"end bounds are not those the orderings imply"); }
  return true;
}
static void harness(){
  L=symx_thorough()?4:2; bool free=symx_thorough(); mkTokens(symx_thorough()?4:3,free?0:"o",8,4);
  for(int i=0;i<ntok;i++){ activate(i); mayBe[i][0]=true; mayBe[i][1]=free; }
  if(!check()) symx_prune();
  for(int s=0;s<L+2;s++){ std::vector<Op> v; placements(v); if(s>=2) others(v,false); doOp(v,nm("op",s)); if(!check()) return; }
}
