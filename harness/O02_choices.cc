//@ {"mods":"RulesEngine,TemporalNetwork","quick":60,"thorough":850,"pathcpu":40,
//@  "tags":["two-choices","between","none","empty-timeline","limited","freed"],
//@  "what":"after a history of placing, freeing and cancelling tokens on timelines: the tokens to order are exactly the active ones missing from the sequence of a timeline they may be on, with exactly those timelines; every position whose resulting sequence has a schedule (independent shortest paths) is among the choices offered, each choice is an end or between neighbours and offered once, a limit yields the leading choices, and the counts agree",
//@  "bounds":"3 tokens on one timeline (thorough: 4 tokens, two timelines, tokens with and without an assigned timeline), start bounds in 0..8 and durations in 1..4, of which up to 5 (thorough 6) symbolic (a timeline does not support tokens of zero duration), 2 placements, then one (thorough: every history of 2) further operation"}
#include "tl.hh"
extern "C" void sym_setup(){ tl_setup(); }
typedef std::pair<ObjectId,std::pair<TokenId,TokenId> > Choice;
static int tlOf(ObjectId x){ for(int o=0;o<NO;o++) if((Object*)(ObjectId)TLS[o]==(Object*)x) return o; return -1; }
static bool check(){
  if(!E->ce()->propagate()) return false;
  const std::map<eint,std::pair<TokenId,ObjectSet> >& todo=E->db()->getTokensToOrder(); unsigned expect=0;
  for(int t=0;t<ntok;t++){ auto it=todo.find(tok[t]->getKey()); bool need=act[t]&&where(t)<0;
    if(!need){ sym_assert(it==todo.end(),"a token that needs no ordering is listed as needing one"); continue; }
    expect++; sym_assert(it!=todo.end(),"an active token missing from its timeline is not listed as needing an order"); if(it==todo.end()) continue;
    unsigned n=0; for(int o=0;o<NO;o++){ bool in=it->second.second.find((ObjectId)TLS[o])!=it->second.second.end(); sym_assert(in==mayBe[t][o],"the timelines of a token to order are not those it may be on"); if(in) n++; } sym_assert(it->second.second.size()==n,"an unknown timeline is listed");
    std::vector<TokenId> lst; for(int o=0;o<NO;o++) if(mayBe[t][o]){ lst.clear(); TLS[o]->getTokensToOrder(lst); sym_assert(std::count(lst.begin(),lst.end(),tok[t])==1,"a timeline does not list one of its tokens to order"); sym_assert(TLS[o]->hasTokensToOrder(),"a timeline denies having tokens to order"); }
    std::vector<Choice> all; E->db()->getOrderingChoices(tok[t],all); if(all.size()>1) sym_reach("two-choices"); if(all.empty()) sym_reach("none");
    for(unsigned i=0;i<all.size();i++){ for(unsigned j=i+1;j<all.size();j++) sym_assert(all[i]!=all[j],"the same choice is offered twice");
      int o=tlOf(all[i].first); sym_assert(o>=0&&mayBe[t][o],"a choice on a timeline the token cannot be on"); int p=tokOf(all[i].second.first),q=tokOf(all[i].second.second);
      if(seq[o].empty()) sym_assert(p==t&&q==t,"on an empty timeline the token is the only choice");
      else if(p==t) sym_assert(where(q)==o,"the successor offered is not on the timeline"); else sym_assert(q==t&&p==seq[o].back(),"the position offered is not between neighbours"); }
    for(int o=0;o<NO;o++) if(mayBe[t][o]){ int n=seq[o].size(); if(!n) sym_reach("empty-timeline");
      for(int pos=0;pos<=n;pos++){ std::vector<int> sq[NO]; for(int k=0;k<NO;k++) sq[k]=seq[k]; sq[o].insert(sq[o].begin()+pos,t);
        TokenId a=n==0||pos<n?tok[t]:tok[seq[o][n-1]], b=n==0||pos==n?tok[t]:tok[seq[o][pos]]; Choice c((ObjectId)TLS[o],std::make_pair(a,b)); bool offered=std::find(all.begin(),all.end(),c)!=all.end();
        if(offered&&pos>0&&pos<n) sym_reach("between");
        if(!offered){ bool feasible=solve(sq); sym_assert(!feasible,n==0?"the empty timeline is not offered":pos==0?"a possible first position is not offered":pos==n?"a possible last position is not offered":"a possible position between neighbours is not offered"); } } }
    sym_assert(E->db()->countOrderingChoices(tok[t])==all.size(),"the number of choices differs from the choices"); sym_assert(E->db()->hasOrderingChoice(tok[t])==!all.empty(),"hasOrderingChoice differs from the choices");
    for(unsigned lim=1;lim<=2;lim++){ std::vector<Choice> some; E->db()->getOrderingChoices(tok[t],some,lim); sym_assert(some.size()==(all.size()<lim?all.size():lim),"a limit changes the number of choices otherwise than by cutting it off"); for(unsigned i=0;i<some.size()&&i<all.size();i++) sym_assert(some[i]==all[i],"a limit does not yield the leading choices"); if(all.size()>lim) sym_reach("limited"); }
  }
  sym_assert(todo.size()==expect,"unknown tokens are listed as needing an order");
  return true;
}
static void harness(){
  int L=symx_thorough()?2:1; bool free=symx_thorough(); mkTokens(symx_thorough()?4:3,free?0:"o",8,4);
  for(int i=0;i<ntok;i++){ activate(i); mayBe[i][0]=true; mayBe[i][1]=free; }
  if(free&&sym_choice("assign",0,1)) { tok[0]->getObject()->specify(TLS[1]->getKey()); mayBe[0][0]=false; }
  if(!check()) symx_prune();
  for(int s=0;s<L+2;s++){ std::vector<Op> v; placements(v); if(s>=2) others(v,true); doOp(v,nm("op",s)); if(!check()) return; }
}
