// Runtime of the symbolic execution engine: expressions, path condition, solver queries,
// path queue, replay.  Not instrumented itself.
#include "sym.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <vector>
#include <deque>
#include <string>
#include <fstream>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <new>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <typeinfo>
#include <cxxabi.h>
#include <exception>

typedef __int128 big;
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;
enum Op {
#define HANDLE_INST(N,OPC,CLASS) I_##OPC=N,
#include "llvm/IR/Instruction.def"
  I__end };
enum { U_FABS=1,U_FLOOR,U_CEIL,U_TRUNC,U_IABS, U_FNEG=50 };
enum { B_SMIN=100,B_SMAX,B_UMIN,B_UMAX,B_FMIN,B_FMAX };

extern "C" { u32 __sym_args[256]; void* __sym_mark; u32 __sym_ret[16]; void* __sym_retmark; }

static const u64 FLAGS_BASE=0x100000000000ULL;
static u8* const FLAGS=(u8*)FLAGS_BASE;

// ---------------------------------------------------------------- shared state
struct Item { int nvals; int bound; u64 hash; int next,prev; long vals[1]; };
static const int NBUCKET=1024; // pending work is kept per value of the first structural choices and served round-robin
static const int MAXV=120;
static const size_t ITEMSZ=sizeof(Item)+sizeof(long)*MAXV;
static const long MAXITEMS=2000000;
struct Tag { char name[80]; volatile long n; };
struct Shared {
  pthread_mutex_t mu;
  volatile long top;          // pending items
  int head[NBUCKET],tail[NBUCKET],freeList,used;
  volatile long paths, completed, pruned, failed, crashed, events, queries, sat, unsat, unknown, splits, folded,
       divergences, asserts, stale, solver_us, maxdepth, dropped, unsup, overflow_items, path_timeouts, pinned, maxnodes, nodes;
  volatile long nviol;
  Tag tags[256];
  Tag unsupTags[64];
  char viol[16][512]; volatile long knownHits[64];
  volatile u8 fnmap[1<<23];    // bitmap over text addresses (bytes), 64 MB of text
};
static Shared* SH; static char* QUEUE;
static inline long inc1(volatile long& x){ return __sync_fetch_and_add(&x,1); }
static inline void inc(volatile long& x,long d=1){ __sync_fetch_and_add(&x,d); }
static Item* itemAt(long i){ return (Item*)(QUEUE+i*ITEMSZ); }

static int g_symbolic=0;       // symbolic mode (off while replaying / in set-up)
static int g_replay=0, g_thorough=0;
static std::string g_outdir=".";
static long g_timelimit=60; static int g_jobs=8; static long g_pathcpu=60;
static long g_rlimit=20000000;
static long g_maxviol=4; static std::vector<std::string> g_known;
static int g_verbose=0, g_trace=0;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ---------------------------------------------------------------- expressions
enum K : u8 { K_NONE, K_CONST, K_VAR, K_LIN, K_MUL, K_ITE, K_DIV, K_MOD, // ints
              K_TRUE,K_FALSE, K_LE, K_EQ, K_NOT, K_AND, K_OR, K_XOR, // bools
                      K_FP, K_BITS, K_FPO }; // K_FPO: n/2^k + offset, up to a rounding error bound
struct Node { K k; u8 isf; short scale; u32 a,b,c; big lo,hi; big v; /*concrete value (bool:0/1)*/ big cst; u32 off,len; u64 h; Z3_ast z; };
static std::deque<Node> N;
struct Term { u32 n; big c; };
static std::vector<Term> T;   // terms of LIN nodes
struct Key { u64 h; bool operator==(const Key& o) const { return h==o.h; } };
static std::unordered_multimap<u64,u32> tab;

static u64 mix(u64 a,u64 b){ a^=b+0x9e3779b97f4a7c15ULL+(a<<6)+(a>>2); a*=0xff51afd7ed558ccdULL; a^=a>>32; return a; }
static u64 hbig(big x){ return mix((u64)x,(u64)(x>>64)); }

static bool sameNode(const Node& x,const Node& y,const Term* ty){
  if(x.k!=y.k||x.a!=y.a||x.b!=y.b||x.c!=y.c||x.cst!=y.cst||x.scale!=y.scale||x.isf!=y.isf||x.len!=y.len) return false;
  for(u32 i=0;i<x.len;i++) if(T[x.off+i].n!=ty[i].n||T[x.off+i].c!=ty[i].c) return false;
  return true;
}
static u32 intern(Node n,const Term* t=nullptr){
  u64 h=mix(n.k,mix(hbig(n.cst),n.scale*31+n.isf));
  if(n.a) h=mix(h,N[n.a].h); if(n.b) h=mix(h,N[n.b].h+1); if(n.c) h=mix(h,N[n.c].h+2);
  for(u32 i=0;i<n.len;i++) h=mix(h,mix(N[t[i].n].h,hbig(t[i].c)));
  n.h=h;
  auto r=tab.equal_range(h);
  for(auto it=r.first;it!=r.second;++it) if(sameNode(N[it->second],n,t)) return it->second;
  n.off=T.size(); for(u32 i=0;i<n.len;i++) T.push_back(t[i]);
  n.z=nullptr;
  u32 id=N.size(); N.push_back(n); tab.emplace(h,id); return id;
}
static Node blank(K k){ Node n; memset(&n,0,sizeof n); n.k=k; return n; }
static u32 mkConst(big v){ Node n=blank(K_CONST); n.cst=v; n.lo=n.hi=n.v=v; return intern(n); }
static u32 ID_TRUE,ID_FALSE;
static u32 mkBool(bool b){ return b?ID_TRUE:ID_FALSE; }

struct Var { std::string name; long lo,hi; u32 node; big clo,chi; /* bounds on this path */ int kind; int k; };
static std::vector<Var> vars;

// linear builder
struct Lin { big c; std::vector<Term> t; Lin():c(0){} };
static void addTo(Lin& l,u32 id,big f){
  Node& n=N[id];
  if(f==0) return;
  if(n.k==K_CONST){ l.c+=f*n.cst; return; }
  if(n.k==K_LIN){ l.c+=f*n.cst; for(u32 i=0;i<n.len;i++) l.t.push_back({T[n.off+i].n,T[n.off+i].c*f}); return; }
  l.t.push_back({id,f});
}
static void norm(Lin& l){
  std::sort(l.t.begin(),l.t.end(),[](const Term&a,const Term&b){return a.n<b.n;});
  size_t j=0;
  for(size_t i=0;i<l.t.size();){ big c=0; u32 n=l.t[i].n; while(i<l.t.size()&&l.t[i].n==n) c+=l.t[i++].c; if(c!=0){ l.t[j++]={n,c}; } }
  l.t.resize(j);
}
static u32 mkLin(Lin& l){
  norm(l);
  if(l.t.empty()) return mkConst(l.c);
  if(l.t.size()==1&&l.c==0&&l.t[0].c==1) return l.t[0].n;
  Node n=blank(K_LIN); n.cst=l.c; n.len=l.t.size(); n.lo=n.hi=n.v=l.c;
  for(auto& t: l.t){ Node& m=N[t.n]; if(t.c>0){ n.lo+=t.c*m.lo; n.hi+=t.c*m.hi; } else { n.lo+=t.c*m.hi; n.hi+=t.c*m.lo; } n.v+=t.c*m.v; }
  return intern(n,l.t.data());
}
static u32 mkAdd(u32 a,u32 b,big fb=1){ Lin l; addTo(l,a,1); addTo(l,b,fb); return mkLin(l); }
static u32 mkSub(u32 a,u32 b){ return mkAdd(a,b,-1); }
static u32 mkMulC(u32 a,big c){ Lin l; addTo(l,a,c); return mkLin(l); }
static u32 mkAddC(u32 a,big c){ Lin l; addTo(l,a,1); l.c+=c; return mkLin(l); }
static u32 mkNeg(u32 a){ return mkMulC(a,-1); }
static big bmin(big a,big b){return a<b?a:b;} static big bmax(big a,big b){return a>b?a:b;}
static u32 mkMul(u32 a,u32 b){
  if(N[a].k==K_CONST) return mkMulC(b,N[a].cst);
  if(N[b].k==K_CONST) return mkMulC(a,N[b].cst);
  if(a>b) std::swap(a,b);
  Node n=blank(K_MUL); n.a=a;n.b=b; n.v=N[a].v*N[b].v;
  big p[4]={N[a].lo*N[b].lo,N[a].lo*N[b].hi,N[a].hi*N[b].lo,N[a].hi*N[b].hi};
  n.lo=bmin(bmin(p[0],p[1]),bmin(p[2],p[3])); n.hi=bmax(bmax(p[0],p[1]),bmax(p[2],p[3]));
  return intern(n);
}
static big fdiv_(big a,big b){ big q=a/b; if((a%b!=0)&&((a<0)!=(b<0))) q--; return q; }
static u32 mkNot(u32 a); static u32 mkEqC(u32 a,big c);
static u32 mkIte(u32 c,u32 a,u32 b){
  if(c==ID_TRUE) return a; if(c==ID_FALSE) return b; if(a==b) return a;
  if(N[c].k==K_NOT){ c=N[c].a; std::swap(a,b); }
  Node n=blank(K_ITE); n.a=c;n.b=a;n.c=b; n.v=N[c].v?N[a].v:N[b].v; n.lo=bmin(N[a].lo,N[b].lo); n.hi=bmax(N[a].hi,N[b].hi);
  return intern(n);
}
static bool divisible(u32 a,big m){ Node& n=N[a]; if(n.k==K_CONST) return n.cst%m==0; if(n.k==K_LIN){ if(n.cst%m!=0) return false; for(u32 i=0;i<n.len;i++) if(T[n.off+i].c%m!=0) return false; return true; } return false; }
static u32 mkDiv(u32 a,big c){ // floor, c>0
  if(c==1) return a;
  Node& x=N[a];
  if(x.k==K_CONST) return mkConst(fdiv_(x.cst,c));
  if(fdiv_(x.lo,c)==fdiv_(x.hi,c)) return mkConst(fdiv_(x.lo,c));
  if(x.k==K_LIN){ // split off the divisible part
    Lin d,r; d.c=fdiv_(x.cst,c); r.c=x.cst-d.c*c;
    for(u32 i=0;i<x.len;i++){ Term t=T[x.off+i]; if(t.c%c==0) d.t.push_back({t.n,t.c/c}); else r.t.push_back(t); }
    if(!d.t.empty()||d.c!=0){ u32 rr=mkLin(r); u32 q=mkDiv(rr,c); u32 dd=mkLin(d); return mkAdd(dd,q); } }
  Node n=blank(K_DIV); n.a=a; n.cst=c; n.v=fdiv_(N[a].v,c); n.lo=fdiv_(N[a].lo,c); n.hi=fdiv_(N[a].hi,c); return intern(n);
}
static u32 mkMod(u32 a,big c){ // floor mod, c>0
  if(c==1) return mkConst(0);
  if(N[a].k==K_CONST) return mkConst(N[a].cst-c*fdiv_(N[a].cst,c));
  if(fdiv_(N[a].lo,c)==fdiv_(N[a].hi,c)) return mkAddC(a,-c*fdiv_(N[a].lo,c));
  if(N[a].k==K_LIN){ Node x=N[a]; Lin r; r.c=x.cst-c*fdiv_(x.cst,c); bool ch=r.c!=x.cst;
    for(u32 i=0;i<x.len;i++){ Term t=T[x.off+i]; big k=t.c-c*fdiv_(t.c,c); if(k!=t.c) ch=true; if(k!=0) r.t.push_back({t.n,k}); }
    if(ch){ u32 rr=mkLin(r); return mkMod(rr,c);} }
  if(N[a].k==K_MOD && N[a].cst%c==0) return mkMod(N[a].a,c);
  Node n=blank(K_MOD); n.a=a; n.cst=c; n.v=N[a].v-c*fdiv_(N[a].v,c); n.lo=0; n.hi=c-1; return intern(n);
}
static u32 mkNot(u32 a){
  if(a==ID_TRUE) return ID_FALSE; if(a==ID_FALSE) return ID_TRUE; if(N[a].k==K_NOT) return N[a].a;
  if(N[a].k==K_LE){ // not(l<=0) == -l+1 <=0
    Lin l; addTo(l,N[a].a,-1); l.c+=1; u32 x=mkLin(l); Node n=blank(K_LE); n.a=x; n.v=N[x].v<=0; n.lo=0;n.hi=1; return intern(n); }
  Node n=blank(K_NOT); n.a=a; n.v=!N[a].v; n.lo=0;n.hi=1; return intern(n);
}
static u32 mkAnd(u32 a,u32 b){
  if(a==ID_FALSE||b==ID_FALSE) return ID_FALSE; if(a==ID_TRUE) return b; if(b==ID_TRUE) return a; if(a==b) return a; if(a>b) std::swap(a,b);
  Node n=blank(K_AND); n.a=a;n.b=b; n.v=N[a].v&&N[b].v; n.hi=1; return intern(n); }
static u32 mkOr(u32 a,u32 b){
  if(a==ID_TRUE||b==ID_TRUE) return ID_TRUE; if(a==ID_FALSE) return b; if(b==ID_FALSE) return a; if(a==b) return a; if(a>b) std::swap(a,b);
  Node n=blank(K_OR); n.a=a;n.b=b; n.v=N[a].v||N[b].v; n.hi=1; return intern(n); }
static u32 mkXor(u32 a,u32 b){
  if(a==ID_FALSE) return b; if(b==ID_FALSE) return a; if(a==ID_TRUE) return mkNot(b); if(b==ID_TRUE) return mkNot(a); if(a==b) return ID_FALSE; if(a>b) std::swap(a,b);
  Node n=blank(K_XOR); n.a=a;n.b=b; n.v=N[a].v!=N[b].v; n.hi=1; return intern(n); }
static u32 mkBIte(u32 c,u32 a,u32 b){ return mkOr(mkAnd(c,a),mkAnd(mkNot(c),b)); }
static big bgcd(big a,big b){ if(a<0)a=-a; if(b<0)b=-b; while(b){ big t=a%b; a=b; b=t; } return a; }
// comparison of a linear form with zero
static u32 mkCmp0(Lin l,bool eq){
  norm(l);
  if(l.t.empty()) return mkBool(eq? l.c==0 : l.c<=0);
  big g=0; for(auto& t: l.t) g=bgcd(g,t.c);
  if(g>1){
    if(eq){ if(l.c%g!=0) return ID_FALSE; for(auto& t: l.t) t.c/=g; l.c/=g; }
    else { for(auto& t: l.t) t.c/=g; l.c=-fdiv_(-l.c,g); }
  }
  if(eq && l.t[0].c<0){ for(auto& t: l.t) t.c=-t.c; l.c=-l.c; }
  if(l.t.size()==1 && N[l.t[0].n].k==K_ITE){ // push the comparison into an ite with a constant leaf
    Node it=N[l.t[0].n];
    if(N[it.b].k==K_CONST||N[it.c].k==K_CONST){
      Lin x,y; x.c=y.c=l.c; addTo(x,it.b,l.t[0].c); addTo(y,it.c,l.t[0].c);
      u32 cx=mkCmp0(x,eq), cy=mkCmp0(y,eq);
      return mkBIte(it.a,cx,cy);
    }
  }
  big lo=l.c,hi=l.c,v=l.c; for(auto& t: l.t){ Node& m=N[t.n]; if(t.c>0){lo+=t.c*m.lo;hi+=t.c*m.hi;} else {lo+=t.c*m.hi;hi+=t.c*m.lo;} v+=t.c*m.v; }
  if(eq){ if(lo>0||hi<0) return ID_FALSE; if(lo==0&&hi==0) return ID_TRUE; }
  else { if(hi<=0) return ID_TRUE; if(lo>0) return ID_FALSE; }
  u32 x=mkLin(l);
  Node n=blank(eq?K_EQ:K_LE); n.a=x; n.v= eq? v==0 : v<=0; n.hi=1; return intern(n);
}
static u32 mkLe(u32 a,u32 b,big off=0){ Lin l; addTo(l,a,1); addTo(l,b,-1); l.c+=off; return mkCmp0(l,false); } // a-b+off<=0
static u32 mkLt(u32 a,u32 b){ return mkLe(a,b,1); }
static u32 mkEq(u32 a,u32 b){ Lin l; addTo(l,a,1); addTo(l,b,-1); return mkCmp0(l,true); }
static u32 mkEqC(u32 a,big c){ Lin l; addTo(l,a,1); l.c-=c; return mkCmp0(l,true); }
static u32 mkLeC(u32 a,big c){ Lin l; addTo(l,a,1); l.c-=c; return mkCmp0(l,false); }

static big P2(int k){ return ((big)1)<<k; }
static bool isBoolNode(u32 a){ K k=N[a].k; return k>=K_TRUE&&k<=K_XOR; }
static u32 bool2int(u32 b,big t=1){ return mkIte(b,mkConst(t),mkConst(0)); }

// floating point: value = n / 2^scale
static u32 mkFP(u32 n,int k,int isf){
  while(k>0){ if(N[n].k==K_CONST){ if(N[n].cst%2==0){ n=mkConst(N[n].cst/2); k--; continue; } break; }
    if(divisible(n,2)){ n=mkDiv(n,2); k--; continue; } break; }
  Node x=blank(K_FP); x.a=n; x.scale=k; x.isf=isf; return intern(x);
}
static double fpval(u32 id){ Node& x=N[id]; return ldexp((double)(long double)N[x.a].v,-x.scale); }
// exact dyadic of a double; returns false if not usable
static bool dyadic(double d,big& m,int& k){
  if(!std::isfinite(d)) return false;
  if(d==0){ m=0;k=0; return true; }
  int e; double f=frexp(d,&e); // f in [.5,1)
  long long i=(long long)ldexp(f,53); int kk=53-e; // d=i*2^-kk
  while(i%2==0&&kk>0){ i/=2; kk--; }
  if(kk<0){ if(kk<-40) return false; m=((big)i)<<(-kk); k=0; return true; }
  if(kk>40) return false;
  m=i;k=kk; return true;
}

// ---------------------------------------------------------------- path state
static Item* CUR=nullptr;  // private copy of the work item
static int g_ev=0; static u64 g_hash=1469598103934665603ULL;
static std::unordered_map<u32,bool> known;
static std::vector<u32> pc;      // asserted (signed) node ids: node, possibly mkNot'ed
static size_t pc_done=0;
static Z3_context zc; static Z3_solver zs; static Z3_sort zint;
static bool in_path=false;

static std::string bigstr(big v){ bool neg=v<0; unsigned __int128 u= neg? -(unsigned __int128)v : v; std::string s; do{ s.push_back('0'+(int)(u%10)); u/=10; }while(u); if(neg) s.push_back('-'); std::reverse(s.begin(),s.end()); return s; }
static Z3_ast zconst(big v){ if(v>=-(big)1e18&&v<=(big)1e18) return Z3_mk_int64(zc,(int64_t)v,zint); return Z3_mk_numeral(zc,bigstr(v).c_str(),zint); }
static Z3_ast toZ3(u32 id){
  if(N[id].z) return N[id].z;
  Z3_ast r=nullptr; Node n=N[id];
  switch(n.k){
    case K_CONST: r=zconst(n.cst); break;
    case K_VAR: { Z3_symbol s=Z3_mk_int_symbol(zc,(int)n.cst); r=Z3_mk_const(zc,s,zint); break; }
    case K_LIN: { std::vector<Z3_ast> as; for(u32 i=0;i<n.len;i++){ Term t=T[n.off+i]; Z3_ast x=toZ3(t.n); if(t.c!=1){ Z3_ast p[2]={zconst(t.c),x}; x=Z3_mk_mul(zc,2,p); } as.push_back(x); }
      if(n.cst!=0) as.push_back(zconst(n.cst)); r= as.size()==1? as[0]: Z3_mk_add(zc,as.size(),as.data()); break; }
    case K_MUL: { u32 a=n.a,b=n.b; big ra=N[a].hi-N[a].lo, rb=N[b].hi-N[b].lo; if(ra<rb) std::swap(a,b); // b is the small one
      Z3_ast x=toZ3(a), y=toZ3(b); big lo=N[b].lo,hi=N[b].hi;
      if(hi-lo<=64){ Z3_ast p[2]={zconst(hi),x}; r=Z3_mk_mul(zc,2,p);
        for(big v=hi-1;v>=lo;v--){ Z3_ast q[2]={zconst(v),x}; r=Z3_mk_ite(zc,Z3_mk_eq(zc,y,zconst(v)),Z3_mk_mul(zc,2,q),r); } }
      else { Z3_ast p[2]={x,y}; r=Z3_mk_mul(zc,2,p); } break; }
    case K_ITE: r=Z3_mk_ite(zc,toZ3(n.a),toZ3(n.b),toZ3(n.c)); break;
    case K_DIV: r=Z3_mk_div(zc,toZ3(n.a),zconst(n.cst)); break;
    case K_MOD: r=Z3_mk_mod(zc,toZ3(n.a),zconst(n.cst)); break;
    case K_TRUE: r=Z3_mk_true(zc); break; case K_FALSE: r=Z3_mk_false(zc); break;
    case K_LE: r=Z3_mk_le(zc,toZ3(n.a),zconst(0)); break;
    case K_EQ: r=Z3_mk_eq(zc,toZ3(n.a),zconst(0)); break;
    case K_NOT: r=Z3_mk_not(zc,toZ3(n.a)); break;
    case K_AND: { Z3_ast p[2]={toZ3(n.a),toZ3(n.b)}; r=Z3_mk_and(zc,2,p); break; }
    case K_OR: { Z3_ast p[2]={toZ3(n.a),toZ3(n.b)}; r=Z3_mk_or(zc,2,p); break; }
    case K_XOR: r=Z3_mk_xor(zc,toZ3(n.a),toZ3(n.b)); break;
    default: fprintf(stderr,"symrt: toZ3 kind %d\n",n.k); _exit(97);
  }
  N[id].z=r; return r;
}
static void unsup(const char* what){
  inc(SH->unsup);
  pthread_mutex_lock(&SH->mu);
  for(int i=0;i<64;i++){ Tag& t=SH->unsupTags[i]; if(!t.name[0]) strncpy(t.name,what,79); if(!strncmp(t.name,what,79)){ t.n++; break; } }
  pthread_mutex_unlock(&SH->mu);
}
static void markFn(void* ra){ u64 a=(u64)ra; a-=0x200000; if(a<(1ull<<26)) SH->fnmap[a>>3]|=1<<(a&7); }

// interval implied truth under the bounds tightened on this path: 1 true, 0 false, -1 unknown
static void curIv(u32 id,big& lo,big& hi){ Node& n=N[id]; if(n.k==K_VAR){ Var& v=vars[(int)n.cst]; lo=v.clo; hi=v.chi; } else { lo=n.lo; hi=n.hi; } }
static int implied(u32 id){
  Node& n=N[id];
  if(n.k==K_NOT){ int r=implied(n.a); return r<0?r:!r; }
  if(n.k!=K_LE&&n.k!=K_EQ) return -1;
  Node& x=N[n.a]; big lo,hi;
  if(x.k==K_LIN){ lo=hi=x.cst; for(u32 i=0;i<x.len;i++){ Term t=T[x.off+i]; big l,h; curIv(t.n,l,h); if(t.c>0){lo+=t.c*l;hi+=t.c*h;} else {lo+=t.c*h;hi+=t.c*l;} } }
  else curIv(n.a,lo,hi);
  if(n.k==K_LE){ if(hi<=0) return 1; if(lo>0) return 0; return -1; }
  if(lo==0&&hi==0) return 1; if(lo>0||hi<0) return 0; return -1;
}
static void tighten(u32 id){ // asserted true
  Node& n=N[id];
  u32 v=0; big f=1,c=0; bool eq=n.k==K_EQ;
  if(n.k==K_AND){ tighten(n.a); tighten(n.b); return; }
  if(n.k!=K_LE&&n.k!=K_EQ) return;
  Node& x=N[n.a];
  if(x.k==K_VAR) v=n.a; else if(x.k==K_LIN&&x.len==1&&N[T[x.off].n].k==K_VAR){ v=T[x.off].n; f=T[x.off].c; c=x.cst; } else return;
  Var& V=vars[(int)N[v].cst];
  // f*v + c <= 0  (or ==)
  if(eq){ if(c%f==0){ V.clo=bmax(V.clo,-c/f); V.chi=bmin(V.chi,-c/f); } return; }
  if(f>0){ big b=fdiv_(-c,f); V.chi=bmin(V.chi,b); } else { big b=-fdiv_(-c,-f); /* v >= c/(-f) ceil */ big q=-fdiv_(-c,-f); (void)b; V.clo=bmax(V.clo,q); }
}

static std::vector<int> g_choiceIx;
static void pushItem(const std::vector<long>& vals,int bound,u64 hash){
  u64 b=7; for(size_t i=0;i<g_choiceIx.size()&&i<2;i++) if((size_t)g_choiceIx[i]<vals.size()) b=b*37+(u64)(vals[g_choiceIx[i]]+1); b%=NBUCKET;
  pthread_mutex_lock(&SH->mu);
  if(SH->top>=MAXITEMS-1||(int)vals.size()>MAXV){ SH->overflow_items++; pthread_mutex_unlock(&SH->mu); return; }
  int ix; if(SH->freeList){ ix=SH->freeList; SH->freeList=itemAt(ix)->next; } else ix=++SH->used;
  Item* it=itemAt(ix); static u64 rs=88172645463325252ULL+(u64)getpid(); rs^=rs<<13; rs^=rs>>7; rs^=rs<<17;
  if(rs&64){ it->prev=0; it->next=SH->head[b]; if(SH->head[b]) itemAt(SH->head[b])->prev=ix; else SH->tail[b]=ix; SH->head[b]=ix; }
  else { it->next=0; it->prev=SH->tail[b]; if(SH->tail[b]) itemAt(SH->tail[b])->next=ix; else SH->head[b]=ix; SH->tail[b]=ix; }
  it->nvals=vals.size(); it->bound=bound; it->hash=hash; for(size_t i=0;i<vals.size();i++) it->vals[i]=vals[i];
  SH->top++;
  pthread_mutex_unlock(&SH->mu);
}
static void flushPC(){ for(;pc_done<pc.size();pc_done++){ Z3_solver_assert(zc,zs,toZ3(pc[pc_done])); } }

static void dump(u32 id,std::string& s,int d=0);
static void event(u32 id,bool taken){
  if(id==ID_TRUE||id==ID_FALSE||!id) return;
  if(N[id].k==K_NOT){ id=N[id].a; taken=!taken; }
  auto kn=known.find(id);
  if(kn!=known.end()){
    if(kn->second!=taken){ inc(SH->divergences); if(g_verbose) fprintf(stderr,"contradiction on known node %u\n",id); }
    return; }
  if((bool)N[id].v!=taken){ inc(SH->divergences); if(g_verbose){ std::string s; dump(id,s); fprintf(stderr,"model/native mismatch at event %d: expected %d: %s\n",g_ev,(int)N[id].v,s.c_str()); } unsup("native/encoding mismatch"); return; }
  int im=implied(id);
  if(im>=0){ if(im!=(int)taken){ inc(SH->divergences); unsup("implied mismatch"); } inc(SH->folded); known[id]=taken; return; }
  g_ev++; inc(SH->events);
  u32 pos=taken?id:mkNot(id), neg=taken?mkNot(id):id;
  if(g_trace){ std::string s; dump(pos,s); fprintf(stderr,"  [ev %d] %s\n",g_ev,s.c_str()); }
  u64 hflip=mix(g_hash,N[neg].h);
  g_hash=mix(g_hash,N[pos].h);
  if(g_ev<=CUR->bound){
    if(g_ev==CUR->bound && g_hash!=CUR->hash){ inc(SH->divergences); unsup("prefix divergence"); if(g_verbose){ std::string s; dump(pos,s); fprintf(stderr,"divergence at ev %d: %s\n",g_ev,s.c_str()); } }
  } else {
    flushPC();
    double t0=now();
    Z3_solver_push(zc,zs); Z3_solver_assert(zc,zs,toZ3(neg));
    Z3_lbool r=Z3_solver_check(zc,zs);
    inc(SH->queries);
    if(r==Z3_L_TRUE){
      inc(SH->sat);
      Z3_model m=Z3_solver_get_model(zc,zs); Z3_model_inc_ref(zc,m);
      std::vector<long> vals;
      for(auto& v: vars){ Z3_ast o; int64_t x=v.lo; if(Z3_model_eval(zc,m,toZ3(v.node),true,&o)) Z3_get_numeral_int64(zc,o,&x); vals.push_back(x); }
      Z3_model_dec_ref(zc,m);
      pushItem(vals,g_ev,hflip);
    } else if(r==Z3_L_FALSE) inc(SH->unsat);
    else inc(SH->unknown);
    Z3_solver_pop(zc,zs,1);
    inc(SH->solver_us,(long)((now()-t0)*1e6));
  }
  known[id]=taken; pc.push_back(pos); tighten(pos);
}
static void dump(u32 id,std::string& s,int d){
  Node& n=N[id]; if(d>8){ s+="..."; return; }
  auto bin=[&](const char* o){ s+="("; dump(n.a,s,d+1); s+=o; dump(n.b,s,d+1); s+=")"; };
  switch(n.k){
    case K_CONST: s+=bigstr(n.cst); break; case K_VAR: s+=vars[(int)n.cst].name; break;
    case K_LIN: s+="("; for(u32 i=0;i<n.len;i++){ s+= (i?" + ":""); if(T[n.off+i].c!=1) s+=bigstr(T[n.off+i].c)+"*"; dump(T[n.off+i].n,s,d+1);} if(n.cst!=0) s+=" + "+bigstr(n.cst); s+=")"; break;
    case K_MUL: bin("*"); break; case K_ITE: s+="ite("; dump(n.a,s,d+1); s+=","; dump(n.b,s,d+1); s+=","; dump(n.c,s,d+1); s+=")"; break;
    case K_DIV: s+="div("; dump(n.a,s,d+1); s+=","+bigstr(n.cst)+")"; break; case K_MOD: s+="mod("; dump(n.a,s,d+1); s+=","+bigstr(n.cst)+")"; break;
    case K_TRUE: s+="T"; break; case K_FALSE: s+="F"; break;
    case K_LE: dump(n.a,s,d+1); s+="<=0"; break; case K_EQ: dump(n.a,s,d+1); s+="==0"; break;
    case K_NOT: s+="!("; dump(n.a,s,d+1); s+=")"; break; case K_AND: bin("&"); break; case K_OR: bin("|"); break; case K_XOR: bin("^"); break;
    case K_FP: s+="fp("; dump(n.a,s,d+1); s+="/2^"+std::to_string(n.scale)+")"; break; case K_BITS: s+="bits("; dump(n.a,s,d+1); s+=")"; break;
    default: s+="?"; }
}
// value split: a fixed bisection over the node's interval, so that every path meets the same decisions
static void ivNow(u32 id,big& lo,big& hi){
  Node& x=N[id];
  if(x.k==K_LIN){ lo=hi=x.cst; for(u32 i=0;i<x.len;i++){ Term t=T[x.off+i]; big l,h; curIv(t.n,l,h); if(t.c>0){lo+=t.c*l;hi+=t.c*h;} else {lo+=t.c*h;hi+=t.c*l;} } }
  else curIv(id,lo,hi);
}
static void splitInt(u32 id){
  big v=N[id].v, lo,hi; ivNow(id,lo,hi);
  if(v<lo||v>hi){ inc(SH->divergences); unsup("split outside interval"); return; }
  while(lo<hi){ big mid=fdiv_(lo+hi,2); event(mkLeC(id,mid),v<=mid); if(v<=mid) hi=mid; else lo=mid+1; }
}
static void conc(u32 id){
  if(!id||!g_symbolic) return;
  Node& n=N[id];
  if(n.k==K_CONST||n.k==K_TRUE||n.k==K_FALSE) return;
  inc(SH->splits);
  if(n.k==K_BITS){ conc(n.a); return; }
  if(n.k==K_FP){ u32 a=n.a; splitInt(a); return; }
  if(n.k==K_FPO){ u32 a=n.a; if(N[a].k!=K_CONST) splitInt(a); return; }
  if(isBoolNode(id)){ event(id,n.v!=0); return; }
  splitInt(id);
}

// ---------------------------------------------------------------- int helpers
static big sx(u64 bits,int w){ if(w>=64) return (big)(int64_t)bits; u64 m=bits&((1ull<<w)-1); if(w==1) return m; if(m>>(w-1)) return (big)m-P2(w); return m; }
static u32 wrap(u32 e,int w){
  big lo=-P2(w-1),hi=P2(w-1)-1;
  if(N[e].lo>=lo&&N[e].hi<=hi) return e;
  u32 inr=mkAnd(mkLeC(e,hi),mkLe(mkConst(lo),e));
  big v=N[e].v; bool ok=v>=lo&&v<=hi;
  event(inr,ok);
  if(ok) return e;
  return mkAddC(mkMod(mkAddC(e,P2(w-1)),P2(w)),-P2(w-1));
}
static u32 uns(u32 e,int w){ if(N[e].lo>=0) return e; if(N[e].hi<0) return mkAddC(e,P2(w)); return mkIte(mkLe(mkConst(0),e),e,mkAddC(e,P2(w))); }
static u32 sgn(u32 e,int w){ if(N[e].hi<P2(w-1)) return e; if(N[e].lo>=P2(w-1)) return mkAddC(e,-P2(w)); return mkIte(mkLeC(e,P2(w-1)-1),e,mkAddC(e,-P2(w))); }
// operand as int node (math); handles bool/bits nodes; 0 on failure (value pinned)
static u32 intOp(u32 s,u64 bits,int w){
  if(!s) return mkConst(sx(bits,w));
  K k=N[s].k;
  if(k==K_BITS||k==K_FP||k==K_FPO){ conc(s); return mkConst(sx(bits,w)); }
  if(isBoolNode(s)) return bool2int(s);
  return s;
}
static u32 boolOp(u32 s,u64 bits){ if(!s) return mkBool(bits&1); if(isBoolNode(s)) return s; return mkNot(mkEqC(s,0)); }
static u32 res(u32 id){ if(!id) return 0; K k=N[id].k; if(k==K_CONST||k==K_TRUE||k==K_FALSE) return 0; if((k==K_FP||k==K_FPO)&&N[N[id].a].k==K_CONST) return 0; return id; }
static bool is01(u32 a){ return N[a].lo>=0&&N[a].hi<=1; }
static double dbl(u64 b,int isf){ if(isf){ u32 x=(u32)b; float f; memcpy(&f,&x,4); return f; } double d; memcpy(&d,&b,8); return d; }

static void chkInt(u32 id,int w,u64 nat,const char* what){
  if(!id) return; big v=N[id].v; if(N[id].k==K_FP||N[id].k==K_BITS) return;
  big nv=sx(nat,w); if(isBoolNode(id)) nv=nat&1;
  if(v!=nv){ inc(SH->divergences); char b[100]; snprintf(b,100,"value mismatch %s w%d %ld!=%ld",what,w,(long)v,(long)nv); unsup(b); }
}
static void chkFP(u32 id,int isf,u64 nat,const char* what){
  if(!id) return; double d=dbl(nat,isf); if(fpval(id)!=d){ inc(SH->divergences); char b[100]; snprintf(b,100,"fp mismatch %s %g!=%g",what,fpval(id),d); unsup(b); } }

struct FPO { bool ok; u32 n; int k; double off,err; };
static double bits2d(big b){ u64 x=(u64)b; double d; memcpy(&d,&x,8); return d; } static big d2bits(double d){ u64 x; memcpy(&x,&d,8); return (big)x; }
static FPO fpoOp(u32 s,u64 bits){
  FPO r; r.ok=false; r.n=0; r.k=0; r.off=r.err=0;
  if(s){ Node& x=N[s]; if(x.k==K_FP){ r.ok=true; r.n=x.a; r.k=x.scale; } else if(x.k==K_FPO){ r.ok=true; r.n=x.a; r.k=x.scale; r.off=bits2d(x.lo); r.err=bits2d(x.hi); } return r; }
  double d=dbl(bits,0); if(!std::isfinite(d)) return r; big m; int k;
  if(dyadic(d,m,k)){ r.ok=true; r.n=mkConst(m); r.k=k; return r; }
  if(fabs(d)<1e12){ r.ok=true; r.n=mkConst(0); r.off=d; }
  return r;
}
static bool isFPO(u32 s){ return s&&N[s].k==K_FPO; }
static bool nonDyadic(u32 s,u64 bits){ if(s) return false; double d=dbl(bits,0); big m; int k; return std::isfinite(d)&&!dyadic(d,m,k); }
static u32 mkFPO(u32 n,int k,double off,double err,double nat){
  if(N[n].k==K_CONST) return 0;
  Node x=blank(K_FPO); x.a=n; x.scale=k; x.cst=d2bits(nat); x.b=0; x.lo=d2bits(off); x.hi=d2bits(err); x.v=N[n].v;
  return intern(x);
}
static double mag(u32 n,int k){ double a=fabs((double)N[n].lo),b=fabs((double)N[n].hi); return ldexp(a>b?a:b,-k); }
// comparison of offset values; 0 if it cannot be decided exactly
static u32 fpoCmp(const FPO& x,const FPO& y,int p){
  int k=std::max(x.k,y.k); if(k>40) return 0;
  u32 a=mkMulC(x.n,((big)1)<<(k-x.k)), b=mkMulC(y.n,((big)1)<<(k-y.k));
  long double T=ldexpl((long double)y.off-(long double)x.off,k), e=ldexpl((long double)x.err+y.err,k)+ldexpl(1.0L,-30);
  if(fabsl(T)>1e17L||!(e<0.25L)) return 0;
  long double f=floorl(T); if(T-f<=e||f+1-T<=e) return 0;
  u32 le=mkLe(a,b,-(big)f); // a-b <= floor(T)
  switch(p){ case 1: return ID_FALSE; case 6: return ID_TRUE; case 4: case 5: return le; case 2: case 3: return mkNot(le); }
  return 0;
}
struct FPv { bool ok; u32 n; int k; };
static FPv fpOp(u32 s,u64 bits,int isf){
  FPv r; r.ok=false; r.n=0; r.k=0;
  if(s){ if(N[s].k==K_FP){ r.ok=true; r.n=N[s].a; r.k=N[s].scale; return r; } conc(s); }
  double d=dbl(bits,isf); big m; int k; if(!dyadic(d,m,k)) return r; r.ok=true; r.n=mkConst(m); r.k=k; return r;
}
static u32 scaleTo(u32 n,int from,int to){ return mkMulC(n,P2(to-from)); }
static bool fits(u32 n,int isf){ big lim=P2(isf?24:53); return N[n].lo>=-lim&&N[n].hi<=lim; }
static u32 fpcmpLe(FPv a,FPv b,bool strict){ int k=std::max(a.k,b.k); u32 x=scaleTo(a.n,a.k,k),y=scaleTo(b.n,b.k,k); return strict?mkLt(x,y):mkLe(x,y); }
static u32 fpcmpEq(FPv a,FPv b){ int k=std::max(a.k,b.k); return mkEq(scaleTo(a.n,a.k,k),scaleTo(b.n,b.k,k)); }

extern "C" {
#define RA __builtin_return_address(0)
u32 __sym_bin(u32 op,u32 tc,u32 sa,u32 sb,u64 a,u64 b,u64 r){
  if(!g_symbolic) return 0; markFn(RA);
  int w=tc&0xff; 
  if(tc&0x100){
    int isf=w==32;
    double da=dbl(a,isf),db=dbl(b,isf);
    if((!sa&&!std::isfinite(da))||(!sb&&!std::isfinite(db))){ if(op==I_FMul||op==I_FDiv||op>=100){ conc(sa); conc(sb);} return 0; }
    if(!isf&&(op==I_FAdd||op==I_FSub)&&(isFPO(sa)||isFPO(sb)||nonDyadic(sa,a)||nonDyadic(sb,b))){
      FPO x=fpoOp(sa,a),y=fpoOp(sb,b);
      if(x.ok&&y.ok){ int k=std::max(x.k,y.k); if(k<=40){ int sg=op==I_FAdd?1:-1;
        u32 n=mkAdd(mkMulC(x.n,((big)1)<<(k-x.k)),mkMulC(y.n,((big)1)<<(k-y.k)),sg); double off=x.off+sg*y.off; double m=mag(n,k)+fabs(off);
        double err=x.err+y.err+ldexp(m,-52)+ldexp(fabs(x.off)+fabs(y.off),-52);
        double nat=dbl(r,0), ex=ldexp((double)N[n].v,-k)+off;
        if(fabs(nat-ex)>2*err+ldexp(fabs(ex),-50)){ inc(SH->divergences); unsup("offset mismatch"); }
        return mkFPO(n,k,off,err,nat); } }
      conc(sa); conc(sb); return 0; }
    FPv x=fpOp(sa,a,isf),y=fpOp(sb,b,isf);
    u32 out=0;
    if(x.ok&&y.ok&&(op==I_FAdd||op==I_FSub)){
      int k=std::max(x.k,y.k); 
      u32 n=mkAdd(scaleTo(x.n,x.k,k),scaleTo(y.n,y.k,k),op==I_FAdd?1:-1);
      // reduce first, then check exactness
      u32 f=mkFP(n,k,isf); if(fits(N[f].a,isf)) out=f;
    } else if(x.ok&&y.ok&&op==I_FMul){
      big r1=N[x.n].hi-N[x.n].lo,r2=N[y.n].hi-N[y.n].lo;
      if(r1==0||r2==0||bmin(r1,r2)<=256){ u32 f=mkFP(mkMul(x.n,y.n),x.k+y.k,isf); if(fits(N[f].a,isf)&&N[f].scale<=40) out=f; }
    } else if(x.ok&&op==I_FDiv&&!sb&&db!=0){
      int e; double f=frexp(db,&e); // power of two?
      if(f==0.5||f==-0.5){ int j=e-1; u32 n=f<0?mkNeg(x.n):x.n; int k=x.k+j; if(k<0){ n=mkMulC(n,P2(-k)); k=0; } u32 q=mkFP(n,k,isf); if(fits(N[q].a,isf)&&k<=40) out=q; }
      else if(y.ok&&y.k==0){ // exact integer division when the dividend is a multiple
        big c=N[y.n].cst; big g=c<0?-c:c;
        if(divisible(x.n,g)){ u32 q=mkDiv(x.n,g); if(c<0) q=mkNeg(q); out=mkFP(q,x.k,isf); } }
    } else if(x.ok&&y.ok&&(op==B_FMIN||op==B_FMAX)){
      int k=std::max(x.k,y.k); u32 p=scaleTo(x.n,x.k,k),q=scaleTo(y.n,y.k,k);
      u32 c=mkLe(p,q); out=mkFP(op==B_FMIN?mkIte(c,p,q):mkIte(c,q,p),k,isf);
    }
    if(!out){ conc(sa); conc(sb); return 0; }
    chkFP(out,isf,r,"fbin"); return res(out);
  }
  if(w==1){
    u32 x=boolOp(sa,a),y=boolOp(sb,b),o=0;
    switch(op){ case I_And: case I_Mul: o=mkAnd(x,y); break; case I_Or: o=mkOr(x,y); break; case I_Xor: case I_Add: case I_Sub: o=mkXor(x,y); break;
      case B_UMIN: case B_SMAX: o=mkAnd(x,y); break; case B_UMAX: case B_SMIN: o=mkOr(x,y); break;
      default: conc(sa); conc(sb); return 0; }
    chkInt(o,1,r,"bbin"); return res(o);
  }
  u32 x=intOp(sa,a,w),y=intOp(sb,b,w),o=0;
  Node nx=N[x],ny=N[y];
  bool cy=ny.k==K_CONST,cx=nx.k==K_CONST;
  if(cx&&cy) return 0;
  switch(op){
    case I_Add: o=wrap(mkAdd(x,y),w); break;
    case I_Sub: o=wrap(mkSub(x,y),w); break;
    case I_Mul: if(cx||cy||bmin(nx.hi-nx.lo,ny.hi-ny.lo)<=256) o=wrap(mkMul(x,y),w); break;
    case I_SDiv: case I_SRem: if(cy&&ny.cst!=0){ big c=ny.cst; big g=c<0?-c:c;
        u32 q; if(nx.lo>=0) q=mkDiv(x,g); else if(nx.hi<=0) q=mkNeg(mkDiv(mkNeg(x),g)); else q=mkIte(mkLe(mkConst(0),x),mkDiv(x,g),mkNeg(mkDiv(mkNeg(x),g)));
        if(op==I_SRem) o=mkSub(x,mkMulC(q,g)); else o=wrap(c<0?mkNeg(q):q,w); } break;
    case I_UDiv: case I_URem: if(cy&&ny.cst!=0){ big c=ny.cst<0?ny.cst+P2(w):ny.cst; u32 u=uns(x,w); o=op==I_UDiv?mkDiv(u,c):mkMod(u,c); o=sgn(o,w); } break;
    case I_Shl: if(cy&&ny.cst>=0&&ny.cst<w) o=wrap(mkMulC(x,P2((int)ny.cst)),w); break;
    case I_LShr: if(cy&&ny.cst>=0&&ny.cst<w) o=sgn(mkDiv(uns(x,w),P2((int)ny.cst)),w); break;
    case I_AShr: if(cy&&ny.cst>=0&&ny.cst<w) o=mkDiv(x,P2((int)ny.cst)); break;
    case I_And: {
      if(is01(x)&&is01(y)){ o=bool2int(mkAnd(mkEqC(x,1),mkEqC(y,1))); break; }
      if(cx){ std::swap(x,y); std::swap(cx,cy); std::swap(nx,ny); }
      if(cy){ big m=ny.cst; if(m<0){ big inv=-m; if((inv&(inv-1))==0){ o=mkSub(x,mkMod(x,inv)); break; } m+=P2(w); }
        int j=0; big mm=m; while(mm&&!(mm&1)){ mm>>=1; j++; }
        if(mm&&((mm+1)&mm)==0){ int k=0; while(mm){mm>>=1;k++;} u32 t=mkMod(mkDiv(x,P2(j)),P2(k)); o=sgn(mkMulC(t,P2(j)),w); } }
      break; }
    case I_Or: {
      if(is01(x)&&is01(y)){ o=bool2int(mkOr(mkEqC(x,1),mkEqC(y,1))); break; }
      for(int s=0;s<2&&!o;s++){ u32 p=s?y:x,q=s?x:y; // q in [0,2^k), p multiple of 2^k
        if(N[q].lo>=0){ int k=0; while(P2(k)<=N[q].hi) k++; if(divisible(p,P2(k))) o=mkAdd(p,q); } }
      break; }
    case I_Xor: {
      if(is01(x)&&is01(y)){ o=bool2int(mkXor(mkEqC(x,1),mkEqC(y,1))); break; }
      if(cy&&ny.cst==-1) o=mkAddC(mkNeg(x),-1); else if(cx&&nx.cst==-1) o=mkAddC(mkNeg(y),-1);
      break; }
    case B_SMIN: o=mkIte(mkLe(x,y),x,y); break; case B_SMAX: o=mkIte(mkLe(x,y),y,x); break;
    case B_UMIN: o=mkIte(mkLe(uns(x,w),uns(y,w)),x,y); break; case B_UMAX: o=mkIte(mkLe(uns(x,w),uns(y,w)),y,x); break;
  }
  if(!o){ conc(sa); conc(sb); return 0; }
  chkInt(o,w,r,"bin");
  return res(o);
}
u32 __sym_cmp(u32 pred,u32 tc,u32 sa,u32 sb,u64 a,u64 b,u32 r){
  if(!g_symbolic) return 0; markFn(RA);
  int w=tc&0xff; u32 o=0;
  if(tc&0x100){
    int isf=w==32;
    if(!isf&&(isFPO(sa)||isFPO(sb))){
      if((!sa&&!std::isfinite(dbl(a,0)))||(!sb&&!std::isfinite(dbl(b,0)))){ conc(sa); conc(sb); return 0; }
      FPO x=fpoOp(sa,a),y=fpoOp(sb,b); u32 q=(x.ok&&y.ok)?fpoCmp(x,y,pred&7):0;
      if(!q){ conc(sa); conc(sb); return 0; } chkInt(q,1,r,"fpocmp"); return res(q); }
    if(!sa||!sb){ double d=dbl(sa?b:a,isf); if(!std::isfinite(d)) return 0; big m;int k;
      if(!dyadic(d,m,k)){ // constant that is not a small dyadic: compare with floor/ceil at the other's scale
        u32 s=sa?sa:sb; if(N[s].k!=K_FP){ conc(s); return 0; }
        int ks=N[s].scale; u32 n=N[s].a; long double t=ldexpl((long double)d,ks);
        if(fabsl(t)>1e18L) { // beyond any modelled magnitude
          bool lt = sa? t>0 : t<0; (void)lt; big L=(big)1e18; if(N[n].lo>-L&&N[n].hi<L) return 0; conc(s); return 0; }
        big fl=(big)floorl(t); bool exact=(long double)(double)fl==t && floorl(t)==t;
        // s < d  <=> n < t <=> n <= ceil(t)-1 ; with t non integer: n<=fl
        int p=pred&7; // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne(one) , unordered variants +8 share low bits
        if(!sa){ if(p==2)p=4; else if(p==3)p=5; else if(p==4)p=2; else if(p==5)p=3; }
        u32 le=mkLeC(n,fl), lt=exact?mkLeC(n,fl-1):le;
        switch(p){ case 1: o=exact?mkEqC(n,fl):ID_FALSE; break; case 6: o=exact?mkNot(mkEqC(n,fl)):ID_TRUE; break;
          case 2: o=mkNot(le); break; case 3: o=mkNot(lt); break; case 4: o=lt; break; case 5: o=le; break; default: return 0; }
        chkInt(o,1,r,"fcmpc"); return res(o);
      } }
    FPv x=fpOp(sa,a,isf),y=fpOp(sb,b,isf);
    if(!x.ok||!y.ok){ conc(sa); conc(sb); return 0; }
    switch(pred&7){ case 1: o=fpcmpEq(x,y); break; case 2: o=fpcmpLe(y,x,true); break; case 3: o=fpcmpLe(y,x,false); break;
      case 4: o=fpcmpLe(x,y,true); break; case 5: o=fpcmpLe(x,y,false); break; case 6: o=mkNot(fpcmpEq(x,y)); break; default: return 0; }
    if(pred==7||pred==8||pred==0||pred==15) return 0;
    chkInt(o,1,r,"fcmp"); return res(o);
  }
  if(w==1){ u32 x=boolOp(sa,a),y=boolOp(sb,b);
    switch(pred){ case 32: o=mkNot(mkXor(x,y)); break; case 33: o=mkXor(x,y); break;
      case 34: o=mkAnd(x,mkNot(y)); break; case 35: o=mkOr(x,mkNot(y)); break; case 36: o=mkAnd(mkNot(x),y); break; case 37: o=mkOr(mkNot(x),y); break;
      default: conc(sa); conc(sb); return 0; }
    chkInt(o,1,r,"bcmp"); return res(o); }
  // bit patterns of doubles: equality only
  if((sa&&(N[sa].k==K_BITS||N[sa].k==K_FP))||(sb&&(N[sb].k==K_BITS||N[sb].k==K_FP))){ conc(sa); conc(sb); return 0; }
  u32 x=intOp(sa,a,w),y=intOp(sb,b,w);
  if(pred>=34&&pred<=37){ x=uns(x,w); y=uns(y,w); }
  switch(pred){ case 32: o=mkEq(x,y); break; case 33: o=mkNot(mkEq(x,y)); break;
    case 34: case 38: o=mkLt(y,x); break; case 35: case 39: o=mkLe(y,x); break; case 36: case 40: o=mkLt(x,y); break; case 37: case 41: o=mkLe(x,y); break; }
  chkInt(o,1,r,"icmp"); return res(o);
}
u32 __sym_cast(u32 op,u32 ft,u32 tt,u32 s,u64 in,u64 out){
  if(!g_symbolic) return 0; markFn(RA);
  int fw=ft&0xff,tw=tt&0xff; bool ff=ft&0x100,tf=tt&0x100; u32 o=0;
  if(op==I_BitCast){
    if(ff==tf) return s;
    if(N[s].k==K_FPO){ conc(s); return 0; }
    if(ff) { Node n=blank(K_BITS); n.a=s; return intern(n); }
    if(N[s].k==K_BITS) return N[s].a;
    conc(s); return 0;
  }
  if(!ff && N[s].k==K_BITS){ conc(s); return 0; }
  switch(op){
    case I_Trunc: { if(isBoolNode(s)) { o=s; break; }
      if(tw==1){ if(is01(s)) o=mkEqC(s,1); else o=mkEqC(mkMod(s,2),1); break; }
      big lo=-P2(tw-1),hi=P2(tw-1)-1; if(N[s].lo>=lo&&N[s].hi<=hi) o=s; else o=sgn(mkMod(s,P2(tw)),tw); break; }
    case I_ZExt: if(isBoolNode(s)) o=bool2int(s); else o=uns(s,fw); break;
    case I_SExt: if(isBoolNode(s)) o=bool2int(s,-1); else o=s; break;
    case I_SIToFP: case I_UIToFP: { u32 x=isBoolNode(s)?bool2int(s,op==I_SIToFP?-1:1):(op==I_UIToFP?uns(s,fw):s); if(!fits(x,tw==32)){ conc(s); return 0; } o=mkFP(x,0,tw==32); break; }
    case I_FPToSI: case I_FPToUI: { if(N[s].k!=K_FP){ conc(s); return 0; } u32 n=N[s].a; int k=N[s].scale; u32 q;
      if(k==0) q=n; else if(N[n].lo>=0) q=mkDiv(n,P2(k)); else q=mkIte(mkLe(mkConst(0),n),mkDiv(n,P2(k)),mkNeg(mkDiv(mkNeg(n),P2(k))));
      big lo=op==I_FPToSI?-P2(tw-1):0, hi=op==I_FPToSI?P2(tw-1)-1:P2(tw)-1;
      if(N[q].lo<lo||N[q].hi>hi){ conc(s); return 0; }
      o= op==I_FPToUI? sgn(q,tw):q; break; }
    case I_FPExt: if(N[s].k!=K_FP){ conc(s); return 0; } o=mkFP(N[s].a,N[s].scale,0); break;
    case I_FPTrunc: if(N[s].k!=K_FP||!fits(N[s].a,1)){ conc(s); return 0; } o=mkFP(N[s].a,N[s].scale,1); break;
    default: conc(s); return 0;
  }
  if(tf) chkFP(o,tw==32,out,"cast"); else chkInt(o,tw,out,"cast");
  return res(o);
}
u32 __sym_unary(u32 op,u32 tc,u32 s,u64 a,u64 r){
  if(!g_symbolic) return 0; markFn(RA);
  int w=tc&0xff;
  if(!(tc&0x100)){ if(op==U_IABS){ u32 x=intOp(s,a,w); if(N[x].lo>=0) return res(x); return res(mkIte(mkLe(mkConst(0),x),x,mkNeg(x))); } conc(s); return 0; }
  if(N[s].k==K_FPO&&op==U_FNEG){ Node q=N[s]; return mkFPO(mkNeg(q.a),q.scale,-bits2d(q.lo),bits2d(q.hi),dbl(r,0)); }
  int isf=w==32; if(N[s].k!=K_FP){ conc(s); return 0; }
  u32 n=N[s].a; int k=N[s].scale; u32 o=0;
  switch(op){
    case U_FNEG: o=mkFP(mkNeg(n),k,isf); break;
    case U_FABS: if(N[n].lo>=0) return s; o=mkFP(mkIte(mkLe(mkConst(0),n),n,mkNeg(n)),k,isf); break;
    case U_FLOOR: o=mkFP(mkDiv(n,P2(k)),0,isf); break;
    case U_CEIL: o=mkFP(mkNeg(mkDiv(mkNeg(n),P2(k))),0,isf); break;
    case U_TRUNC: if(k==0) return s; o=mkFP(mkIte(mkLe(mkConst(0),n),mkDiv(n,P2(k)),mkNeg(mkDiv(mkNeg(n),P2(k)))),0,isf); break;
    default: conc(s); return 0; }
  chkFP(o,isf,r,"unary"); return res(o);
}
u32 __sym_select(u32 tc,u32 sc,u32 st,u32 sf,u32 c,u64 tv,u64 fv){
  if(!g_symbolic) return c?st:sf; markFn(RA);
  int w=tc&0xff;
  u32 cb=boolOp(sc,c);
  if(N[cb].v!=(big)(c!=0)){ unsup("select cond mismatch"); inc(SH->divergences); return c?st:sf; }
  if(tc&0x100){ int isf=w==32; FPv x=fpOp(st,tv,isf),y=fpOp(sf,fv,isf);
    if(!x.ok||!y.ok){ event(cb,c!=0); return c?st:sf; }
    int k=std::max(x.k,y.k); u32 p=scaleTo(x.n,x.k,k),q=scaleTo(y.n,y.k,k);
    u32 n=mkIte(cb,p,q); if(k>40||!fits(n,0)){ event(cb,c!=0); return c?st:sf; }
    return res(mkFP(n,k,isf)); }
  if(w==1) return res(mkBIte(cb,boolOp(st,tv),boolOp(sf,fv)));
  if((st&&(N[st].k==K_BITS||N[st].k==K_FP))||(sf&&(N[sf].k==K_BITS||N[sf].k==K_FP))){ event(cb,c!=0); return c?st:sf; }
  return res(mkIte(cb,intOp(st,tv,w),intOp(sf,fv,w)));
}
void __sym_branch(u32 s,u32 taken){ if(!g_symbolic) return; markFn(RA);
  if(!isBoolNode(s)){ s=mkNot(mkEqC(s,0)); }
  event(s,taken!=0); }
void __sym_conc(u32 s){ if(g_symbolic){ markFn(RA); conc(s);} }
void __sym_unconsumed(u32 s,void* fn){ if(!g_symbolic||!s) return; inc(SH->pinned); 
  if(g_verbose>1) fprintf(stderr,"pinned argument for uninstrumented %p\n",fn);
  if(SH->pinned<2000){ char b[64]; snprintf(b,64,"pinned:%p",fn); unsup(b); inc(SH->unsup,-1); }
  conc(s); }

// ---------------------------------------------------------------- shadow memory
struct Line { u32 id[64]; u8 off[64]; u8 sz[64]; int cnt; };
static std::unordered_map<u64,Line*> lines;
static inline Line* line(u64 l,bool mk){ auto it=lines.find(l); if(it!=lines.end()) return it->second; if(!mk) return nullptr; Line* L=(Line*)calloc(1,sizeof(Line)); lines[l]=L; return L; }
static inline u32 getb(u64 a,u8& off,u8& sz){ if(!FLAGS[a>>6]) return 0; Line* L=line(a>>6,false); if(!L) return 0; int i=a&63; off=L->off[i]; sz=L->sz[i]; return L->id[i]; }
static inline void setb(u64 a,u32 id,u8 off,u8 sz){
  if(!id&&!FLAGS[a>>6]) return;
  Line* L=line(a>>6,id!=0); if(!L) return; int i=a&63;
  if(L->id[i]&&!id){ if(--L->cnt==0) FLAGS[a>>6]=0; } else if(!L->id[i]&&id){ L->cnt++; FLAGS[a>>6]=1; }
  L->id[i]=id; L->off[i]=off; L->sz[i]=sz; }
void __sym_store(void* p,u32 tc,u32 id){
  u64 a=(u64)p; int size=(tc&0x10000)?(int)(tc&0xffff):(int)(((tc&0xff)+7)/8);
  if(!g_symbolic) id=0;
  for(int i=0;i<size;i++) setb(a+i,id,i,size);
}
u32 __sym_load(void* p,u32 tc,u64 nat){
  if(!g_symbolic) return 0;
  u64 a=(u64)p; int w=tc&0xff; int size=(w+7)/8; bool fp=tc&0x100;
  u8 o,s; u32 id=getb(a,o,s);
  bool whole=id&&o==0&&s==size; bool any=id!=0;
  for(int i=1;i<size;i++){ u8 o2,s2; u32 j=getb(a+i,o2,s2); if(j) any=true; if(j!=id||o2!=i||s2!=s) whole=false; }
  if(!any) return 0;
  markFn(RA);
  if(whole){
    // stale? compare with memory
    Node& n=N[id];
    if(n.k==K_FP){ double d=fpval(id); u64 b=0; if(n.isf){ float f=d; u32 x; memcpy(&x,&f,4); b=x; } else memcpy(&b,&d,8);
      u64 m=size==8?~0ull:((1ull<<(8*size))-1);
      if((b&m)!=(nat&m)&&!(d==0&&dbl(nat,n.isf)==0)){ inc(SH->stale); for(int i=0;i<size;i++) setb(a+i,0,0,0); return 0; }
      if(fp) return id; Node q=blank(K_BITS); q.a=id; return intern(q); }
    if(n.k==K_FPO){ if((u64)n.cst!=nat||size!=8){ inc(SH->stale); for(int i=0;i<size;i++) setb(a+i,0,0,0); return 0; } if(fp) return id; conc(id); return 0; }
    if(n.k==K_BITS){ double d=fpval(n.a); u64 b; memcpy(&b,&d,8); if(b!=nat&&!(d==0&&dbl(nat,0)==0)){ inc(SH->stale); for(int i=0;i<size;i++) setb(a+i,0,0,0); return 0; } return fp?n.a:id; }
    big v=n.v; if(isBoolNode(id)){ if(w==1){ if((u64)v!=(nat&1)){ inc(SH->stale); for(int i=0;i<size;i++) setb(a+i,0,0,0); return 0; } return id; } }
    if(v!=sx(nat,w)&&!(isBoolNode(id))){ inc(SH->stale); for(int i=0;i<size;i++) setb(a+i,0,0,0); return 0; }
    if(fp){ conc(id); return 0; }
    if(isBoolNode(id)) return w==1?id:bool2int(id);
    if(w==1) return mkEqC(mkMod(id,2),1);
    return id;
  }
  if(fp){ for(int i=0;i<size;i++){ u8 o2,s2; u32 j=getb(a+i,o2,s2); if(j) conc(j); } unsup("partial fp load"); inc(SH->unsup,-1); return 0; }
  // pieces
  u32 sum=mkConst(0);
  for(int i=0;i<size;){ u8 o2,s2; u32 j=getb(a+i,o2,s2); 
    if(j&&N[j].k==K_FPO){ conc(j); j=0; }
    if(!j){ sum=mkAddC(sum,((big)((nat>>(8*i))&0xff))<<(8*i)); i++; continue; }
    int len=1; while(i+len<size){ u8 o3,s3; u32 j3=getb(a+i+len,o3,s3); if(j3!=j||o3!=o2+len) break; len++; }
    if(N[j].k==K_FP||N[j].k==K_BITS){ conc(j); for(int q=0;q<len;q++) sum=mkAddC(sum,((big)((nat>>(8*(i+q)))&0xff))<<(8*(i+q))); i+=len; continue; }
    u32 x=isBoolNode(j)?bool2int(j):uns(j,s2*8);
    u32 part=mkMod(mkDiv(x,P2(8*o2)),P2(8*len));
    big pv=N[part].v; u64 mm=len==8?~0ull:((1ull<<(8*len))-1);
    if((u64)pv!=((nat>>(8*i))&mm)){ inc(SH->stale); for(int q=0;q<len;q++){ setb(a+i+q,0,0,0); sum=mkAddC(sum,((big)((nat>>(8*(i+q)))&0xff))<<(8*(i+q))); } }
    else sum=mkAdd(sum,part,P2(8*i));
    i+=len; }
  if(N[sum].k==K_CONST) return 0;
  if(w==1) return mkEqC(mkMod(sum,2),1);
  return res(sgn(sum,w));
}
static bool anyFlag(u64 a,u64 n){ if(!n) return false; for(u64 l=a>>6;l<=(a+n-1)>>6;l++) if(FLAGS[l]) return true; return false; }
void __sym_clear(void* p,u64 n){ u64 a=(u64)p; if(!anyFlag(a,n)) return; for(u64 i=0;i<n;i++) setb(a+i,0,0,0); }
void __sym_memcpy(void* d,void* s,u64 n){
  u64 da=(u64)d,sa=(u64)s; if(!n||(!anyFlag(da,n)&&!anyFlag(sa,n))) return;
  std::vector<u32> ids(n); std::vector<u8> of(n),sz(n);
  for(u64 i=0;i<n;i++) ids[i]=getb(sa+i,of[i],sz[i]);
  for(u64 i=0;i<n;i++) setb(da+i,ids[i],of[i],sz[i]);
}
void __sym_memset(void* d,u64 n,u32 id){ u64 a=(u64)d; if(!g_symbolic) id=0; if(!id){ __sym_clear(d,n); return; } for(u64 i=0;i<n;i++) setb(a+i,id,0,1); }
void __sym_concmem(void* p,u64 n){ if(!g_symbolic) return; u64 a=(u64)p; for(u64 i=0;i<n;i++){ u8 o,s; u32 j=getb(a+i,o,s); if(j&&o==0) conc(j); else if(j) conc(j); } }
// byval aggregates
struct BV { void* fn; int idx; std::vector<u32> id; std::vector<u8> of,sz; };
static std::vector<BV> bvs;
void __sym_byval_out(void* p,u64 n,u32 idx,void* fn){ if(!g_symbolic||!anyFlag((u64)p,n)) return;
  BV b; b.fn=fn;b.idx=idx; b.id.resize(n);b.of.resize(n);b.sz.resize(n); for(u64 i=0;i<n;i++) b.id[i]=getb((u64)p+i,b.of[i],b.sz[i]);
  for(size_t i=0;i<bvs.size();) if(bvs[i].fn==fn&&bvs[i].idx==(int)idx) bvs.erase(bvs.begin()+i); else i++;
  bvs.push_back(b); }
void __sym_byval_in(void* p,u64 n,u32 idx,void* fn){ __sym_clear(p,n); if(!g_symbolic) return;
  for(size_t i=0;i<bvs.size();i++) if(bvs[i].fn==fn&&bvs[i].idx==(int)idx){ BV b=bvs[i]; bvs.erase(bvs.begin()+i); for(u64 k=0;k<n&&k<b.id.size();k++) setb((u64)p+k,b.id[k],b.of[k],b.sz[k]); return; } }
} // extern C

// fresh heap memory is concrete; freed memory is scribbled over
void* operator new(size_t n){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); __sym_clear(p,n); return p; }
void* operator new[](size_t n){ return operator new(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { void* p=malloc(n?n:1); if(p) __sym_clear(p,n); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p,size_t n) noexcept { if(p&&n){ memset(p,0xdd,n); __sym_clear(p,n);} free(p); }
void operator delete[](void* p,size_t n) noexcept { if(p&&n) memset(p,0xdd,n); free(p); }

// ---------------------------------------------------------------- harness API
static std::vector<std::pair<std::string,long>> g_given; static size_t g_givenIx=0;
static std::vector<long> g_used; static std::vector<std::string> g_names;
static std::string g_notes;
static std::vector<std::pair<std::string,double>> g_obs;
static long nextVal(const char* name,long lo,long hi){
  long v=lo;
  if(g_replay){ if(g_givenIx<g_given.size()) v=g_given[g_givenIx++].second; else v=lo; }
  else { size_t ix=g_used.size(); if(CUR&&(int)ix<CUR->nvals) v=CUR->vals[ix]; }
  if(v<lo||v>hi) v=lo;
  g_used.push_back(v); g_names.push_back(name);
  return v;
}
static u32 mkVar(const char* name,long lo,long hi,long v){
  Var x; x.name=name; x.lo=lo;x.hi=hi; x.clo=lo;x.chi=hi; 
  Node n=blank(K_VAR); n.cst=vars.size(); n.lo=lo;n.hi=hi;n.v=v; u32 id=intern(n); 
  N[id].lo=lo;N[id].hi=hi;N[id].v=v;
  x.node=id; vars.push_back(x);
  if(lo!=hi){ Z3_ast z=toZ3(id); flushPC(); Z3_solver_assert(zc,zs,Z3_mk_ge(zc,z,zconst(lo))); Z3_solver_assert(zc,zs,Z3_mk_le(zc,z,zconst(hi))); }
  return id;
}
extern "C" {
long symx_int(const char* name,long lo,long hi){
  long v=nextVal(name,lo,hi);
  if(g_symbolic){ u32 id=mkVar(name,lo,hi,v); __sym_ret[0]=lo==hi?0:id; __sym_retmark=(void*)&symx_int; }
  return v; }
double symx_real(const char* name,long lo,long hi,int k){
  long v=nextVal(name,lo<<k,hi<<k);
  if(g_symbolic){ u32 id=mkVar(name,lo<<k,hi<<k,v); __sym_ret[0]=mkFP(id,k,0); __sym_retmark=(void*)&symx_real; }
  return ldexp((double)v,-k); }
long symx_choice(const char* name,long lo,long hi){
  long v=nextVal(name,lo,hi);
  if(g_symbolic){ u32 id=mkVar(name,lo,hi,v); g_choiceIx.push_back((int)vars.size()-1); if(lo!=hi){ conc(id); inc(SH->splits,-1);} }
  return v; }
}
static void finish(int code){
  if(!g_replay&&in_path){
    inc(SH->nodes,(long)N.size());
    if((long)N.size()>SH->maxnodes) SH->maxnodes=N.size();
    if(g_ev>SH->maxdepth) SH->maxdepth=g_ev;
  }
  fflush(stdout);
  if(g_replay){ for(auto& o: g_obs) printf("OBS %s %.17g\n",o.first.c_str(),o.second); fflush(stdout); }
  _exit(code);
}
static void writeInputs(FILE* f,const char* msg){
  fprintf(f,"# %s\n",msg);
  for(size_t i=0;i<g_used.size();i++) fprintf(f,"%s %ld\n",g_names[i].c_str(),g_used[i]);
  fprintf(f,"%s",g_notes.c_str());
}
static void violation(const char* msg){
  g_symbolic=0;
  if(g_replay){ printf("REPLAY-VIOLATION %s\n",msg); for(size_t i=0;i<g_used.size();i++) printf("  input %s = %ld\n",g_names[i].c_str(),g_used[i]); printf("%s",g_notes.c_str()); finish(1); }
  for(size_t i=0;i<g_known.size()&&i<64;i++) if(strstr(msg,g_known[i].c_str())){
    if(inc1(SH->knownHits[i])==0){ char fn[600]; snprintf(fn,600,"%s/known.%ld.txt",g_outdir.c_str(),(long)i); FILE* f=fopen(fn,"w"); if(f){ writeInputs(f,msg); fclose(f); } }
    finish(0); }
  long ix=__sync_fetch_and_add(&SH->nviol,1);
  if(ix<16){ char fn[600]; snprintf(fn,600,"%s/viol.%ld.txt",g_outdir.c_str(),ix); FILE* f=fopen(fn,"w"); if(f){ writeInputs(f,msg); fclose(f); } snprintf(SH->viol[ix],512,"%s",msg); }
  inc(SH->failed);
  finish(10);
}
static double g_start;
extern "C" {
void symx_fail(const char* msg){ violation(msg); _exit(1); }
void symx_prune(){ if(!g_replay) inc(SH->pruned); else { printf("REPLAY-PRUNED\n"); } finish(g_replay?2:0); _exit(0); }
void symx_done(){ if(!g_replay) inc(SH->completed); else printf("REPLAY-OK\n"); finish(0); _exit(0); }
void symx_reach(const char* tag){
  if(g_replay) { printf("REACH %s\n",tag); return; }
  pthread_mutex_lock(&SH->mu);
  for(int i=0;i<256;i++){ Tag& t=SH->tags[i]; if(!t.name[0]) strncpy(t.name,tag,79); if(!strcmp(t.name,tag)){ t.n++; break; } }
  pthread_mutex_unlock(&SH->mu); }
void symx_note_assert(){ if(!g_replay) inc(SH->asserts); }
void symx_observe(const char* tag,double v){ g_obs.push_back({tag,v}); }
void symx_note(const char* fmt,...){ char b[1000]; va_list ap; va_start(ap,fmt); vsnprintf(b,1000,fmt,ap); va_end(ap); g_notes+="#note "; g_notes+=b; g_notes+="\n"; }
int symx_replaying(){ return g_replay; }
int symx_thorough(){ return g_thorough; }
}
static void onsig(int s){ char b[200]; 
  if(s==SIGXCPU||s==SIGALRM) { if(!g_replay) inc(SH->path_timeouts); snprintf(b,200,"does not terminate within the per-path limit"); }
  else snprintf(b,200,"crash: signal %d (%s)",s,strsignal(s));
  g_symbolic=0; violation(b); }
static void onterm(){ const char* n="unknown"; std::string w; 
  std::type_info* t=abi::__cxa_current_exception_type(); int st; if(t){ char* d=abi::__cxa_demangle(t->name(),0,0,&st); n=d?d:t->name(); }
  try{ if(std::current_exception()) std::rethrow_exception(std::current_exception()); } catch(std::exception& e){ w=e.what(); } catch(...){}
  char b[500]; snprintf(b,500,"uncaught exception: %s %s",n,w.c_str()); violation(b); }

static void runPath(){
  in_path=true; g_start=now();
  g_symbolic=g_replay?0:1;
  try { sym_main(); }
  catch(...) { g_symbolic=0; onterm(); }
  g_symbolic=0;
  symx_done();
}
static void childSignals(){
  stack_t ss; ss.ss_sp=malloc(1<<16); ss.ss_size=1<<16; ss.ss_flags=0; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER;
  for(int s: {SIGSEGV,SIGBUS,SIGFPE,SIGABRT,SIGILL,SIGXCPU}) sigaction(s,&sa,0);
  std::set_terminate(onterm);
  rlimit rl; rl.rlim_cur=g_pathcpu; rl.rlim_max=g_pathcpu+5; setrlimit(RLIMIT_CPU,&rl);
}
static void jstr(FILE* f,const char* s){ fputc('"',f); for(;*s;s++){ if(*s=='"'||*s=='\\') fputc('\\',f); if((unsigned char)*s>=32) fputc(*s,f); else fputc(' ',f);} fputc('"',f); }

// runs before any constructor: fixed addresses, flag map
static void preinit(int argc,char** argv,char** envp){
  int pers=personality(0xffffffff);
  if(!(pers&ADDR_NO_RANDOMIZE)&&!getenv("SYM_NOREEXEC")){ personality(pers|ADDR_NO_RANDOMIZE); static char* ne[200]; int n=0; while(envp[n]&&n<190){ ne[n]=envp[n]; n++; } ne[n]=(char*)"SYM_NOREEXEC=1"; ne[n+1]=0; execve("/proc/self/exe",argv,ne); }
  void* m=mmap((void*)FLAGS_BASE,1ull<<41,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  if(m==MAP_FAILED){ static const char e[]="symrt: cannot map the flag area\n"; if(write(2,e,sizeof e-1)){} _exit(98); }
}
__attribute__((section(".preinit_array"),used)) static void (*preinit_p)(int,char**,char**)=preinit;
int main(int argc,char** argv){
  std::string replay; std::vector<long> only; bool haveOnly=false;
  for(int i=1;i<argc;i++){ std::string a=argv[i];
    if(a=="--out") g_outdir=argv[++i]; else if(a=="--time") g_timelimit=atol(argv[++i]); else if(a=="--jobs") g_jobs=atoi(argv[++i]);
    else if(a=="--replay") { replay=argv[++i]; g_replay=1; } else if(a=="-v") g_verbose++; else if(a=="--trace") { g_trace=1; g_jobs=1; } else if(a=="--thorough") g_thorough=1;
    else if(a=="--maxviol") g_maxviol=atol(argv[++i]); else if(a=="--known"){ std::ifstream kf(argv[++i]); std::string l; while(std::getline(kf,l)) if(!l.empty()) g_known.push_back(l); } else if(a=="--pathcpu") g_pathcpu=atol(argv[++i]); }
  SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  QUEUE=(char*)mmap(0,MAXITEMS*ITEMSZ,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(SH==MAP_FAILED||QUEUE==MAP_FAILED){ perror("mmap"); return 98; }
  pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at,PTHREAD_PROCESS_SHARED); pthread_mutex_init(&SH->mu,&at);
  T.reserve(1<<16); tab.reserve(1<<16);
  N.push_back(blank(K_NONE));
  { Node t=blank(K_TRUE); t.v=1;t.lo=t.hi=1; ID_TRUE=intern(t); Node f=blank(K_FALSE); ID_FALSE=intern(f); }
  if(g_replay){
    FILE* f=fopen(replay.c_str(),"r"); if(!f){ perror(replay.c_str()); return 98; }
    char ln[2000]; while(fgets(ln,2000,f)){ if(ln[0]=='#') continue; char nm[1500]; long v; if(sscanf(ln,"%1499s %ld",nm,&v)==2) g_given.push_back({nm,v}); }
    fclose(f);
    childSignals();
    try { sym_setup(); } catch(...) { onterm(); }
    runPath();
  }
  { Z3_config cfg=Z3_mk_config(); zc=Z3_mk_context(cfg); Z3_del_config(cfg); zint=Z3_mk_int_sort(zc); 
    zs=Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc,zs);
    Z3_params p=Z3_mk_params(zc); Z3_params_inc_ref(zc,p); Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"rlimit"),(unsigned)g_rlimit); Z3_solver_set_params(zc,zs,p); Z3_params_dec_ref(zc,p); }
  double t0=now();
  try { sym_setup(); } catch(...) { fprintf(stderr,"symrt: set-up threw\n"); return 96; }
  double tsetup=now()-t0;
  pushItem({},0,0);
  u64 rs=88172645463325252ULL; { const char* sd=getenv("VERIF_SEED"); rs^=((u64)(sd?atol(sd):1))*0x9e3779b97f4a7c15ULL; if(!rs) rs=1; }
  int rr=0; int running=0; bool timeout=false; std::vector<char> buf(ITEMSZ);
  for(;;){
    if(now()-t0>g_timelimit) { timeout=true; }
    if(SH->nviol>=g_maxviol) timeout=true;
    bool got=false;
    if(!timeout){ pthread_mutex_lock(&SH->mu); if(SH->top>0){ SH->top--;
      do { rr=(rr+1)%NBUCKET; } while(!SH->head[rr]);
      rs^=rs<<13; rs^=rs>>7; rs^=rs<<17;
      int ix=(rs&3)==0?SH->tail[rr]:SH->head[rr]; Item* it=itemAt(ix);
      if(it->prev) itemAt(it->prev)->next=it->next; else SH->head[rr]=it->next;
      if(it->next) itemAt(it->next)->prev=it->prev; else SH->tail[rr]=it->prev;
      memcpy(buf.data(),it,ITEMSZ); it->next=SH->freeList; SH->freeList=ix; got=true; } pthread_mutex_unlock(&SH->mu); }
    if(got){
      fflush(stdout); fflush(stderr);
      pid_t p=fork();
      if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); CUR=(Item*)buf.data(); childSignals(); runPath(); _exit(0); }
      if(p<0){ usleep(10000); pushItem(std::vector<long>(((Item*)buf.data())->vals,((Item*)buf.data())->vals+((Item*)buf.data())->nvals),((Item*)buf.data())->bound,((Item*)buf.data())->hash); }
      else { SH->paths++; running++; }
      if(running<g_jobs) { // harvest finished ones without blocking
        int st; pid_t q; while(running>0&&(q=waitpid(-1,&st,WNOHANG))>0){ running--; if(!(WIFEXITED(st)&&(WEXITSTATUS(st)==0||WEXITSTATUS(st)==10))) SH->crashed++; }
        continue; }
    } else if(running==0) break;
    int st; pid_t q=waitpid(-1,&st,0); if(q>0){ running--; if(!(WIFEXITED(st)&&(WEXITSTATUS(st)==0||WEXITSTATUS(st)==10))){ SH->crashed++; if(g_verbose) fprintf(stderr,"child status %x\n",st); } }
  }
  bool exhausted=!timeout&&SH->top==0;
  std::string fn=g_outdir+"/stats.json"; FILE* f=fopen(fn.c_str(),"w"); if(!f) f=stdout;
  fprintf(f,"{\"exhausted\":%s,\"wall_s\":%.2f,\"setup_s\":%.3f,\"pending\":%ld",exhausted?"true":"false",now()-t0,tsetup,SH->top);
#define P(x) fprintf(f,",\"%s\":%ld",#x,SH->x)
  P(paths);P(completed);P(pruned);P(failed);P(crashed);P(events);P(queries);P(sat);P(unsat);P(unknown);P(splits);P(folded);P(divergences);P(asserts);P(stale);P(solver_us);P(maxdepth);P(unsup);P(overflow_items);P(path_timeouts);P(pinned);P(maxnodes);P(nodes);P(nviol);
  fprintf(f,",\"tags\":{"); for(int i=0;i<256&&SH->tags[i].name[0];i++){ if(i) fputc(',',f); jstr(f,SH->tags[i].name); fprintf(f,":%ld",SH->tags[i].n); } fprintf(f,"}");
  fprintf(f,",\"unsupported\":{"); for(int i=0;i<64&&SH->unsupTags[i].name[0];i++){ if(i) fputc(',',f); jstr(f,SH->unsupTags[i].name); fprintf(f,":%ld",SH->unsupTags[i].n); } fprintf(f,"}");
  fprintf(f,",\"violations\":["); for(int i=0;i<16&&i<SH->nviol;i++){ if(i) fputc(',',f); jstr(f,SH->viol[i]); } fprintf(f,"]");
  fprintf(f,",\"known_hits\":["); for(size_t i=0;i<g_known.size()&&i<64;i++) fprintf(f,"%s%ld",i?",":"",SH->knownHits[i]); fprintf(f,"]");
  fprintf(f,",\"fn_addrs\":["); bool first=true; for(u64 i=0;i<(1ull<<23);i++) if(SH->fnmap[i]) for(int b=0;b<8;b++) if(SH->fnmap[i]>>b&1){ fprintf(f,"%s%llu",first?"":",",(unsigned long long)(0x200000+i*8+b)); first=false; }
  fprintf(f,"]}\n"); if(f!=stdout) fclose(f);
  return 0;
}
