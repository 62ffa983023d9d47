// The documented relation of each library constraint, over one value per variable.
#ifndef REL_HH
#define REL_HH
#include "ce.hh"
#include <cstring>
#include <cmath>
typedef const double* A;
struct Con { const char* name; const char* sig; bool (*rel)(A w,int n); int R; int fn; /* index of a result variable determined by the others, or -1 */ bool (*pre)(A w,int n); };
// sig: I integer interval, R real interval, B boolean, N real enumeration, M integer enumeration, S symbols
static double dmin(double a,double b){ return a<b?a:b; } static double dmax(double a,double b){ return a<b?b:a; } static double dabs(double a){ return a<0?-a:a; }
static bool r_abs(A w,int){ return w[0]==dabs(w[1]); }
static bool r_add(A w,int){ return w[0]+w[1]==w[2]; }
static bool r_mul(A w,int){ return w[0]*w[1]==w[2]; }
static bool r_div(A w,int){ return (w[1]!=0)&(w[1]*w[2]==w[0]); }
static bool r_alldiff(A w,int n){ bool r=true; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) r&=w[i]!=w[j]; return r; }
static bool r_allsame(A w,int n){ bool r=true; for(int i=1;i<n;i++) r&=w[0]==w[i]; return r; }
static bool r_condAllDiff(A w,int n){ return (w[0]!=0)==r_alldiff(w+1,n-1); }
static bool r_condEq(A w,int n){ return (w[0]!=0)==r_allsame(w+1,n-1); }
static bool r_countZ(A w,int n){ double c=0; for(int i=1;i<n;i++) c+=(double)(long)(w[i]==0); return w[0]==c; }
static bool r_countNZ(A w,int n){ double c=0; for(int i=1;i<n;i++) c+=(double)(long)(w[i]!=0); return w[0]==c; }
static bool r_eqmax(A w,int n){ double m=w[1]; for(int i=2;i<n;i++) m=dmax(m,w[i]); return w[0]==m; }
static bool r_eqmin(A w,int n){ double m=w[1]; for(int i=2;i<n;i++) m=dmin(m,w[i]); return w[0]==m; }
static bool r_eqprod(A w,int n){ double m=w[1]; for(int i=2;i<n;i++) m*=w[i]; return w[0]==m; }
static bool r_eqsum(A w,int n){ double m=w[1]; for(int i=2;i<n;i++) m+=w[i]; return w[0]==m; }
static bool r_rmax(A w,int n){ double m=w[0]; for(int i=1;i<n-1;i++) m=dmax(m,w[i]); return w[n-1]==m; }
static bool r_rmin(A w,int n){ double m=w[0]; for(int i=1;i<n-1;i++) m=dmin(m,w[i]); return w[n-1]==m; }
static bool r_lt(A w,int){ return w[0]<w[1]; }
static bool r_leq(A w,int){ return w[0]<=w[1]; }
static bool r_neg(A w,int){ return w[0]==-w[1]; }
static bool r_neq(A w,int){ return w[0]!=w[1]; }
static bool r_or(A w,int n){ bool r=false; for(int i=0;i<n;i++) r|=w[i]!=0; return r; }
static bool r_dsq(A w,int){ return w[2]==(w[0]-w[1])*(w[0]-w[1]); }
static bool r_tand(A w,int){ return (w[0]!=0)==((w[1]!=0)&(w[2]!=0)); }
static bool r_tor(A w,int){ return (w[0]!=0)==((w[1]!=0)|(w[2]!=0)); }
static bool r_teq(A w,int){ return (w[0]!=0)==(w[1]==w[2]); }
static bool r_tneq(A w,int){ return (w[0]!=0)==(w[1]!=w[2]); }
static bool r_tlt(A w,int){ return (w[0]!=0)==(w[1]<w[2]); }
static bool r_tleq(A w,int){ return (w[0]!=0)==(w[1]<=w[2]); }
static bool r_within(A w,int){ return (w[1]<=w[0])&(w[0]<=w[2]); }
static bool r_fmax(A w,int){ return w[0]==dmax(w[1],w[2]); }
static bool r_fmin(A w,int){ return w[0]==dmin(w[1],w[2]); }
static bool r_floor(A w,int){ double t=(double)(long)w[1]; return w[0]==(t>w[1]?t-1:t); }
static bool r_ceil(A w,int){ double t=(double)(long)w[1]; return w[0]==(t<w[1]?t+1:t); }
static bool r_mod(A w,int){ if(w[2]==0) return false; long a=(long)w[1],b=(long)w[2]; return w[0]==(double)(a%b); }
static bool r_sqrt(A w,int){ return (w[0]>=0)&(w[0]*w[0]==w[1]); }
static bool r_dist2(A w,int){ return (w[2]>=0)&(w[2]*w[2]==w[0]+w[1]); }
static bool r_dist(A w,int){ return (w[0]>=0)&(w[0]*w[0]==(w[1]-w[3])*(w[1]-w[3])+(w[2]-w[4])*(w[2]-w[4])); }
static bool r_pow(A w,int){ double r=1; for(int i=0;i<3;i++) r*= (double)i<w[2]?w[1]:1.0; return w[0]==r; }
static bool p_pow(A w,int){ return w[2]>=0; }
static bool p_y(A w,int){ return w[1]!=0; }
static bool p_z(A w,int){ return w[2]!=0; }
static bool p_nn(A w,int){ return w[1]>=0; }
static bool p_nn2(A w,int){ return w[0]+w[1]>=0; }
static const Con CONS[]={
 {"absVal","II",r_abs,6,0,0},{"absVal","RR",r_abs,3,0,0},
 {"addEq","III",r_add,6,2,0},{"addEq","RRR",r_add,3,2,0},{"addEq","MIM",r_add,4,2,0},
 {"multEq","III",r_mul,3,2,0},{"mulEq","III",r_mul,3,2,0},{"divEq","III",r_div,3,-1,p_y},
 {"allDiff","III",r_alldiff,4,-1,0},{"allDiff","SSS",r_alldiff,4,-1,0},{"allDiff","MMM",r_alldiff,4,-1,0},{"allDiff","RRR",r_alldiff,2,-1,0},
 {"condAllDiff","BII",r_condAllDiff,4,0,0},{"condAllDiff","BSSS",r_condAllDiff,4,0,0},{"condAllDiff","BIII",r_condAllDiff,3,0,0},
 {"condEq","BII",r_condEq,4,0,0},{"condEq","BSSS",r_condEq,4,0,0},{"condEq","BIII",r_condEq,3,0,0},{"condEq","BRR",r_condEq,2,0,0},
 {"countZeroes","IIII",r_countZ,3,0,0},{"countZeroes","IMM",r_countZ,3,0,0},{"countZeroes","IBBB",r_countZ,3,0,0},{"countNonZeroes","III",r_countNZ,3,0,0},{"countNonZeroes","IBBB",r_countNZ,3,0,0},
 {"eq","II",r_allsame,6,-1,0},{"eq","RR",r_allsame,3,-1,0},{"eq","III",r_allsame,6,-1,0},{"eq","SS",r_allsame,5,-1,0},{"eq","SSS",r_allsame,5,-1,0},{"eq","IM",r_allsame,5,-1,0},{"eq","NRN",r_allsame,3,-1,0},{"eq","BB",r_allsame,1,-1,0},
 {"eqMaximum","III",r_eqmax,6,0,0},{"eqMaximum","IIII",r_eqmax,4,0,0},{"eqMaximum","RRR",r_eqmax,3,0,0},{"eqMaximum","MMM",r_eqmax,4,0,0},
 {"eqMinimum","III",r_eqmin,6,0,0},{"eqMinimum","IIII",r_eqmin,4,0,0},{"eqMinimum","RRR",r_eqmin,3,0,0},{"eqMinimum","MMM",r_eqmin,4,0,0},
 {"max","III",r_rmax,5,2,0},{"min","III",r_rmin,5,2,0},{"allMax","IIII",r_rmax,3,3,0},{"allMin","IIII",r_rmin,3,3,0},
 {"eqProduct","III",r_eqprod,3,0,0},
 {"eqSum","III",r_eqsum,6,0,0},{"eqSum","IIII",r_eqsum,4,0,0},{"eqSum","IIIII",r_eqsum,3,0,0},{"eqSum","IIIIII",r_eqsum,3,0,0},{"eqSum","IIIIIII",r_eqsum,3,0,0},
 {"lt","II",r_lt,6,-1,0},{"lt","RR",r_lt,3,-1,0},{"leq","II",r_leq,6,-1,0},{"leq","RR",r_leq,3,-1,0},{"leq","IR",r_leq,4,-1,0},{"leq","MI",r_leq,4,-1,0},
 {"neg","II",r_neg,6,0,0},{"neg","RR",r_neg,3,0,0},
 {"neq","II",r_neq,6,-1,0},{"neq","RR",r_neq,3,-1,0},{"neq","SS",r_neq,5,-1,0},{"neq","BB",r_neq,1,-1,0},{"neq","MI",r_neq,4,-1,0},{"neq","MM",r_neq,4,-1,0},
 {"or","BBB",r_or,1,-1,0},{"or","III",r_or,3,-1,0},{"or","B",r_or,1,-1,0},
 {"diffSquare","III",r_dsq,4,2,0},
 {"testAnd","BBB",r_tand,1,0,0},{"testOr","BBB",r_tor,1,0,0},
 {"testEq","BII",r_teq,5,0,0},{"testEq","BSS",r_teq,4,0,0},{"testEq","BMM",r_teq,4,0,0},{"testEq","BRR",r_teq,3,0,0},{"testNeq","BII",r_tneq,5,0,0},{"testNeq","BSS",r_tneq,4,0,0},
 {"testLessThan","BII",r_tlt,5,0,0},{"testLessThan","BRR",r_tlt,3,0,0},{"testLeq","BII",r_tleq,5,0,0},{"testLeq","BRR",r_tleq,3,0,0},
 {"withinBounds","III",r_within,5,-1,0},{"withinBounds","RRR",r_within,3,-1,0},
 {"maxf","III",r_fmax,5,0,0},{"minf","III",r_fmin,5,0,0},{"abs","II",r_abs,5,0,0},{"abs","RR",r_abs,3,0,0},{"floor","IR",r_floor,3,0,0},{"ceil","IR",r_ceil,3,0,0},{"mod","III",r_mod,5,0,p_z},
 {"calcDistance","IMMMM",r_dist,3,-1,0},{"calcDistance","RIIII",r_dist,2,-1,0},{"pow","III",r_pow,3,0,p_pow},
 {"sqrt","II",r_sqrt,9,0,p_nn},{"distanceSquares","III",r_dist2,5,2,p_nn2},
};
enum { NCONS=sizeof(CONS)/sizeof(CONS[0]) };
static char* keepn(const char* p,int i){ char b[40]; sprintf(b,"%s%d",p,i); return strdup(b); }
static double sval(char k,const char* n,int R){ switch(k){ case 'B': return (double)sym_int(n,0,1); case 'R': case 'N': return sym_real(n,-R,R,1); case 'S': return (double)sym_int(n,1,R); default: return (double)sym_int(n,-R,R); } }
// a domain of kind k holding the value w (w may be null)
static ConstrainedVariableId svar(ConstraintEngineId ce,char k,int i,int R,const double* w,int inf){
  double lo,hi;
  switch(k){
    case 'I': case 'R': { lo=(inf&1)?-4503599627370495.0:sval(k,keepn("lo",i),R); hi=(inf&2)?4503599627370495.0:sval(k,keepn("hi",i),R); if(w){ sym_assume((lo<=*w)&(*w<=hi)); } else sym_assume(lo<=hi);
      if(k=='I') return (new Variable<IntervalIntDomain>(ce,IntervalIntDomain((eint)edouble(lo),(eint)edouble(hi))))->getId(); return (new Variable<IntervalDomain>(ce,IntervalDomain(edouble(lo),edouble(hi))))->getId(); }
    case 'B': { lo=(double)sym_int(keepn("lo",i),0,1); hi=(double)sym_int(keepn("hi",i),0,1); if(w){ sym_assume((lo<=*w)&(*w<=hi)); } else sym_assume(lo<=hi); if(lo==hi) return (new Variable<BoolDomain>(ce,BoolDomain(lo==1.0)))->getId(); return (new Variable<BoolDomain>(ce,BoolDomain()))->getId(); }
    default: { int n=sym_choice(keepn("n",i),w?0:1,2); std::list<edouble> l; double prev=0; for(int j=0;j<n;j++){ double x=sval(k,keepn("e",i*4+j),R); if(j) sym_assume(prev<x); if(w) sym_assume(x!=*w); prev=x; l.push_back(edouble(x)); } if(w) l.push_back(edouble(*w));
      if(k=='S') return (new Variable<SymbolDomain>(ce,SymbolDomain(l,SymbolDT::instance())))->getId(); return (new Variable<NumericDomain>(ce,NumericDomain(l,k=='M'?IntDT::instance():FloatDT::instance())))->getId(); }
  }
}
static ConstrainedVariableId gvar(ConstraintEngineId ce,char k,double w){
  switch(k){ case 'I': return (new Variable<IntervalIntDomain>(ce,IntervalIntDomain((eint)edouble(w),(eint)edouble(w))))->getId(); case 'R': return (new Variable<IntervalDomain>(ce,IntervalDomain(edouble(w),edouble(w))))->getId();
   case 'B': return (new Variable<BoolDomain>(ce,BoolDomain(w==1.0)))->getId();
   case 'S': return (new Variable<SymbolDomain>(ce,SymbolDomain(edouble(w),SymbolDT::instance())))->getId();
   default: return (new Variable<NumericDomain>(ce,NumericDomain(edouble(w),k=='M'?IntDT::instance():FloatDT::instance())))->getId(); }
}
static ConstrainedVariableId freevar(ConstraintEngineId ce,char k,int R){
  switch(k){ case 'I': return ivar(ce,-R,R); case 'R': return rvar(ce,-R,R); case 'B': return (new Variable<BoolDomain>(ce,BoolDomain()))->getId();
   default: { std::list<edouble> l; for(int i=-R;i<=R;i++){ l.push_back(edouble((double)i)); if(k=='N'&&i<R) l.push_back(edouble(i+0.5)); } return (new Variable<NumericDomain>(ce,NumericDomain(l,k=='M'?IntDT::instance():FloatDT::instance())))->getId(); } }
}
#endif
