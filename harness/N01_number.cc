//@ {"mods":"Utils","quick":60,"thorough":300,"tags":["int-arith","int-overflow","int-inf","real-arith","real-overflow","real-inf","cmp","unary"],
//@  "what":"every arithmetic and comparison operator of the extended numbers against exact integer/dyadic arithmetic with infinities",
//@  "bounds":"operands: |n|<=12 (thorough 40), the 4 values next to either end of the range, +-infinity; reals in halves; all operator overloads (eint/edouble with int, long, unsigned long, double); undefined forms (inf-inf, inf/inf, 0*inf, x/0, x mod 0) not judged"}
#include "sym.h"
#include "Number.hh"
#include "Error.hh"
#include <string>
#include <cmath>
using namespace EUROPA;
extern "C" void sym_setup(){}
static const long INF=4503599627370495L;
static long S;
// region 0: small, 1: near +max, 2: near -max, 3: +inf, 4: -inf
static long pick(const char* r,const char* v,int& reg){
  reg=sym_choice(r,0,4);
  switch(reg){ case 0: return sym_int(v,-S,S); case 1: return sym_int(v,INF-4,INF-1); case 2: return sym_int(v,-INF+1,-INF+4); case 3: return INF; default: return -INF; }
}
static int sgn(long x){ return (x>0)-(x<0); }
struct Out { bool threw; long v; };
// kind: 0 none judged, 1 value, 2 must throw
static void judge(const char* what,int kind,__int128 exp,bool threw,__int128 got){
  std::string w(what);
  if(kind==0) return;
  if(kind==2){ sym_reach("int-overflow"); sym_assert(threw,(w+": result out of range must be reported").c_str()); return; }
  sym_assert(!threw,(w+": unexpected range error").c_str());
  sym_assert(got==exp,(w+": wrong result").c_str());
}
static void expectInt(int op,long a,int ra,long b,int rb,int& kind,__int128& e){
  bool ia=ra>=3, ib=rb>=3; int sa=ra==3?1:ra==4?-1:0, sb=rb==3?1:rb==4?-1:0;
  kind=1;
  if(!ia&&!ib){
    switch(op){ case 0: e=(__int128)a+b; break; case 1: e=(__int128)a-b; break; case 2: e=(__int128)a*b; break;
      case 3: if(b==0){ kind=0; return; } e=a/b; return; case 4: if(b==0){ kind=0; return; } e=a%b; return; }
    if((e>INF)|(e<-INF)) kind=2;
    return;
  }
  switch(op){
    case 0: if(ia&&ib){ if(sa!=sb){ kind=0; return; } e=sa*(__int128)INF; } else e=(ia?sa:sb)*(__int128)INF; return;
    case 1: if(ia&&ib){ if(sa==sb){ kind=0; return; } e=sa*(__int128)INF; } else e=(ia?sa:-sb)*(__int128)INF; return;
    case 2: { int p=(ia?sa:sgn(a))*(ib?sb:sgn(b)); if(p==0){ kind=0; return; } e=p*(__int128)INF; return; }
    case 3: if(ia&&ib){ kind=0; return; } if(ib){ e=0; return; } if(b==0){ kind=0; return; } e=sa*sgn(b)*(__int128)INF; return;
    case 4: if(ia){ kind=0; return; } e=a; return;   // finite modulo infinite leaves the number
  }
}
static const char* OPN[]={"+","-","*","/","%"};
#define TRY(expr) try { res=(expr); } catch(std::overflow_error&){ threw=true; } catch(std::underflow_error&){ threw=true; }
static void intArith(){
  int ra,rb; long a=pick("ra","a",ra),b=pick("rb","b",rb); int op=sym_choice("op",0,4), ov=sym_choice("overload",0,5);
  sym_reach("int-arith"); if(ra>=3||rb>=3) sym_reach("int-inf");
  int kind; __int128 e=0; expectInt(op,a,ra,b,rb,kind,e);
  if(op>=3 && b==0) symx_prune();   // division by zero: not judged
  bool threw=false; eint res; eint x(a),y(b);
  std::string nm;
  switch(ov){
    case 0: nm="eint,eint"; switch(op){ case 0: TRY(x+y) break; case 1: TRY(x-y) break; case 2: TRY(x*y) break; case 3: TRY(x/y) break; case 4: TRY(x%y) break; } break;
    case 1: nm="eint,long"; switch(op){ case 0: TRY(x+b) break; case 1: TRY(x-b) break; case 2: TRY(x*b) break; case 3: TRY(x/b) break; case 4: TRY(x%b) break; } break;
    case 2: nm="long,eint"; switch(op){ case 0: TRY(a+y) break; case 1: TRY(a-y) break; case 2: TRY(a*y) break; case 3: TRY(a/y) break; case 4: TRY(a%y) break; } break;
    case 3: { if(rb!=0) symx_prune(); nm="eint,int"; int i=(int)b; switch(op){ case 0: TRY(x+i) break; case 1: TRY(x-i) break; case 2: TRY(x*i) break; case 3: TRY(x/i) break; case 4: symx_prune(); } break; }
    case 4: { if(rb==2||rb==4) symx_prune(); sym_assume(b>=0); nm="eint,ulong"; unsigned long u=(unsigned long)b; switch(op){ case 0: TRY(x+u) break; case 1: TRY(x-u) break; case 2: TRY(x*u) break; case 3: TRY(x/u) break; case 4: symx_prune(); } break; }
    case 5: { nm="compound"; res=x; eint r2=x; try { switch(op){ case 0: r2=(res+=y); break; case 1: r2=(res-=y); break; case 2: r2=(res*=y); break; case 3: r2=(res/=y); break; case 4: r2=(res%=y); break; } } catch(std::overflow_error&){ threw=true; } catch(std::underflow_error&){ threw=true; }
      if(!threw) sym_assert(cast_long(r2)==cast_long(res),"compound assignment returns the new value"); break; }
  }
  judge((std::string("integer ")+OPN[op]+" ("+nm+")").c_str(),kind,e,threw,(__int128)cast_long(res));
}
// reals: halves
static double rpick(const char* r,const char* v,int& reg){
  reg=sym_choice(r,0,4);
  switch(reg){ case 0: return sym_real(v,-S/2,S/2,1); case 1: return (double)INF-sym_real(v,1,4,1); case 2: return -(double)INF+sym_real(v,1,4,1); case 3: return (double)INF; default: return -(double)INF; }
}
static void realArith(){
  int ra,rb; double a=rpick("ra","a",ra),b=rpick("rb","b",rb); int op=sym_choice("op",0,3), ov=sym_choice("overload",0,4);
  sym_reach("real-arith"); if(ra>=3||rb>=3) sym_reach("real-inf");
  bool ia=ra>=3, ib=rb>=3; int sa=ra==3?1:ra==4?-1:0, sb=rb==3?1:rb==4?-1:0; const double D=(double)INF;
  int kind=1; double e=0;
  if(op==3){ if(b==0.0) symx_prune(); }
  if(!ia&&!ib){ switch(op){ case 0: e=a+b; break; case 1: e=a-b; break; case 2: if(ra&&rb) { kind=2; } else e=a*b; break; case 3: e=a/b; break; }
    if(kind==1 && ((e>D)|(e<-D))) kind=2; }
  else { int fa=(a>0)-(a<0), fb=(b>0)-(b<0);
    switch(op){ case 0: if(ia&&ib&&sa!=sb) kind=0; e=(ia?sa:sb)*D; break; case 1: if(ia&&ib&&sa==sb) kind=0; e=(ia?sa:-sb)*D; break;
      case 2: { int p=(ia?sa:fa)*(ib?sb:fb); if(!p) kind=0; e=p*D; break; } case 3: if(ia&&ib) kind=0; else if(ib) e=0; else e=sa*fb*D; break; } }
  if((ra==1||ra==2)&&(rb==1||rb==2)&&op==2) kind=2;
  bool threw=false; edouble res; edouble x(a),y(b); std::string nm;
  switch(ov){
    case 0: nm="edouble,edouble"; switch(op){ case 0: TRY(x+y) break; case 1: TRY(x-y) break; case 2: TRY(x*y) break; case 3: TRY(x/y) break; } break;
    case 1: nm="double,edouble"; switch(op){ case 0: TRY(a+y) break; case 1: TRY(a-y) break; case 2: TRY(a*y) break; case 3: TRY(a/y) break; } break;
    case 2: { nm="eint,edouble"; sym_assume(a==std::floor(a)); eint i((long)a); switch(op){ case 0: TRY(i+y) break; case 1: TRY(i-y) break; case 2: TRY(i*y) break; case 3: TRY(i/y) break; } break; }
    case 3: { nm="eint,double"; sym_assume(a==std::floor(a)); eint i((long)a); switch(op){ case 0: TRY(i+b) break; case 1: TRY(i-b) break; case 2: TRY(i*b) break; case 3: TRY(i/b) break; } break; }
    case 4: { nm="compound"; res=x; try { switch(op){ case 0: res+=y; break; case 1: res-=y; break; case 2: res*=y; break; case 3: res/=y; break; } } catch(std::overflow_error&){ threw=true; } catch(std::underflow_error&){ threw=true; } break; }
  }
  std::string w=std::string("real ")+OPN[op]+" ("+nm+")";
  if(kind==0) return;
  if(kind==2){ sym_reach("real-overflow"); sym_assert(threw,(w+": result out of range must be reported").c_str()); return; }
  sym_assert(!threw,(w+": unexpected range error").c_str());
  sym_assert(cast_double(res)==e,(w+": wrong result").c_str());
}
#define CMP6(x,y,A,B,nm) \
  sym_assert(((x)<(y))==((A)<(B)),nm " <"); sym_assert(((x)<=(y))==((A)<=(B)),nm " <="); sym_assert(((x)==(y))==((A)==(B)),nm " =="); \
  sym_assert(((x)!=(y))==((A)!=(B)),nm " !="); sym_assert(((x)>(y))==((A)>(B)),nm " >"); sym_assert(((x)>=(y))==((A)>=(B)),nm " >=");
static void compare(){
  int ra,rb; sym_reach("cmp");
  if(sym_choice("real",0,1)==0){
    long a=pick("ra","a",ra),b=pick("rb","b",rb); eint x(a),y(b); edouble X(a),Y(b); double db=(double)b;
    CMP6(x,y,a,b,"compare eint,eint"); CMP6(x,b,a,b,"compare eint,long"); CMP6(a,y,a,b,"compare long,eint"); CMP6(x,Y,a,b,"compare eint,edouble"); CMP6(X,y,a,b,"compare edouble,eint"); CMP6(x,db,a,b,"compare eint,double");
    if(rb==0){ int i=(int)b; CMP6(x,i,a,b,"compare eint,int"); CMP6(X,i,a,b,"compare edouble,int"); }
    if(ra==0){ int i=(int)a; CMP6(i,y,a,b,"compare int,eint"); CMP6(i,Y,a,b,"compare int,edouble"); }
    CMP6(X,Y,a,b,"compare edouble,edouble (integral)"); CMP6(X,b,a,b,"compare edouble,long"); CMP6(a,Y,a,b,"compare long,edouble");
    eint m=std::min(x,y),M=std::max(x,y); sym_assert(cast_long(m)==(a<b?a:b),"min"); sym_assert(cast_long(M)==(a<b?b:a),"max");
    if(ra<3){ sym_assert((x<PLUS_INFINITY)&(x>MINUS_INFINITY),"finite values lie strictly between the infinities"); sym_assert(finite(x),"finite()"); }
    else sym_assert(!finite(x),"infinities are not finite");
    if(ra<3 && (rb==0||rb>=3)){ long d; bool thr=false; try { d=cast_long(x-y); } catch(std::exception&){ thr=true; } if(!thr) sym_assert(((d<0)==(a<b))&((d>0)==(a>b)),"order agrees with the sign of the difference"); }
  } else {
    double a=rpick("ra","a",ra),b=rpick("rb","b",rb); edouble X(a),Y(b);
    CMP6(X,Y,a,b,"compare edouble,edouble"); CMP6(X,b,a,b,"compare edouble,double"); CMP6(a,Y,a,b,"compare double,edouble");
    sym_assert(cast_double(std::min(X,Y))==(a<b?a:b),"min of reals"); sym_assert(cast_double(std::max(X,Y))==(a<b?b:a),"max of reals");
    if(ra<3){ sym_assert((X<cast_double(PLUS_INFINITY))&(X>cast_double(MINUS_INFINITY)),"finite reals lie strictly between the infinities"); sym_assert(finite(X),"finite() of reals"); } else sym_assert(!finite(X),"infinite reals are not finite");
    long ia=(long)std::floor(a); if(rb==0 && a==(double)ia){ eint i(ia); CMP6(i,Y,a,b,"compare eint,edouble (fractional)"); CMP6(i,b,a,b,"compare eint,double (fractional)"); }
  }
}
static void unary(){
  int ra; sym_reach("unary");
  if(sym_choice("real",0,1)==0){
    long a=pick("ra","a",ra); eint x(a);
    sym_assert(cast_long(-x)==-a,"negation"); sym_assert(cast_long(+x)==a,"unary plus"); sym_assert((!x)==(a==0),"logical not");
    sym_assert((cast_long(x)==a)&(cast_int(x)==a)&(cast_double(x)==(double)a)&(cast_basis(x)==a)&(x.asLong()==a),"casts of integers");
    eint i=x; eint r=++i; sym_assert((cast_long(i)==(ra>=3?a:a+1))&(cast_long(r)==cast_long(i)),"pre-increment");
    i=x; r=i++; sym_assert((cast_long(i)==(ra>=3?a:a+1))&(cast_long(r)==a),"post-increment");
    i=x; r=--i; sym_assert((cast_long(i)==(ra>=3?a:a-1))&(cast_long(r)==cast_long(i)),"pre-decrement");
    i=x; r=i--; sym_assert((cast_long(i)==(ra>=3?a:a-1))&(cast_long(r)==a),"post-decrement");
    edouble d(x); sym_assert(cast_double(d)==(double)a,"integer to real"); eint back(d); sym_assert(cast_long(back)==a,"integer to real and back");
  } else {
    double a=rpick("ra","a",ra); edouble X(a);
    sym_assert(cast_double(-X)==-a,"negation of reals"); sym_assert((!X)==(a==0.0),"logical not of reals"); sym_assert(cast_double(std::abs(X))==(a<0?-a:a),"abs");
    sym_assert(cast_double(std::floor(X))==std::floor(a),"floor"); sym_assert(cast_double(std::ceil(X))==std::ceil(a),"ceil");
    sym_assert(cast_long(eint(X))==(long)a,"real to integer truncates"); sym_assert((cast_long(X)==(long)a)&(cast_double(X)==a)&(cast_basis(X)==a),"casts of reals");
    edouble i=X; ++i; sym_assert(cast_double(i)==(ra>=3?a:a+1.0),"increment of reals"); i=X; --i; sym_assert(cast_double(i)==(ra>=3?a:a-1.0),"decrement of reals");
    i=X; edouble r=i++; sym_assert((cast_double(i)==(ra>=3?a:a+1.0))&(cast_double(r)==a),"post-increment of reals"); i=X; r=i--; sym_assert((cast_double(i)==(ra>=3?a:a-1.0))&(cast_double(r)==a),"post-decrement of reals");
    if(ra==0){ long e=sym_choice("e",0,3); double p=1; for(int k=0;k<e;k++) p*=a; sym_assert(cast_double(std::pow(X,eint(e)))==p,"power"); 
      double q=a*a; sym_assert(cast_double(std::sqrt(edouble(q)))==(a<0?-a:a),"square root of a square");
      double m=sym_real("m",1,4,1); double rem=cast_double(std::fmod(X,edouble(m))); sym_assert(((rem<m)&(rem>-m))&((a>=0)|(rem<=0))&((a<=0)|(rem>=0)),"remainder range"); double t=(a-rem)/m; sym_assert(t==std::floor(t),"remainder congruence"); }
  }
}
extern "C" void sym_main(){
  S=symx_thorough()?40:12;
  switch(sym_choice("part",0,3)){ case 0: intArith(); break; case 1: realArith(); break; case 2: compare(); break; case 3: unary(); break; }
}
