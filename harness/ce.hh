// Constraint-engine set-up shared by the harnesses (public API only).
#ifndef CE_HH
#define CE_HH
#include "sym.h"
#include "Engine.hh"
#include "Module.hh"
#include "ModuleConstraintEngine.hh"
#include "ConstraintEngine.hh"
#include "CESchema.hh"
#include "Constraint.hh"
#include "ConstrainedVariable.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "Error.hh"
#include <vector>
#include <string>
using namespace EUROPA;
class CEEngine : public EngineBase {
public:
  CEEngine(){ addModule((new ModuleConstraintEngine())->getId()); addModule((new ModuleConstraintLibrary())->getId()); doStart(); }
  virtual ~CEEngine(){ doShutdown(); }
  ConstraintEngineId ce(){ return dynamic_cast<ConstraintEngine*>(getComponent("ConstraintEngine"))->getId(); }
};
static inline void quiet(){ Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings(); }
typedef std::vector<ConstrainedVariableId> Scope;
static inline Scope scope(ConstrainedVariableId a){ Scope s; s.push_back(a); return s; }
static inline Scope scope(ConstrainedVariableId a,ConstrainedVariableId b){ Scope s=scope(a); s.push_back(b); return s; }
static inline Scope scope(ConstrainedVariableId a,ConstrainedVariableId b,ConstrainedVariableId c){ Scope s=scope(a,b); s.push_back(c); return s; }
static inline Scope scope(ConstrainedVariableId a,ConstrainedVariableId b,ConstrainedVariableId c,ConstrainedVariableId d){ Scope s=scope(a,b,c); s.push_back(d); return s; }
#endif
static void harness();
#ifndef NO_MAIN
extern "C" void sym_main(){
  try { harness(); }
  catch(Error& e){ std::string s="unexpected internal error: "+e.getCondition()+" "+e.getMsg()+" at "+e.getFile()+":"+std::to_string(e.getLine()); symx_fail(s.c_str()); }
}
#endif
// variables live until the end of the path (the process ends with it)
static inline ConstrainedVariableId ivar(ConstraintEngineId ce,long l,long u){ return (new Variable<IntervalIntDomain>(ce,IntervalIntDomain((eint)l,(eint)u)))->getId(); }
static inline ConstrainedVariableId rvar(ConstraintEngineId ce,double l,double u){ return (new Variable<IntervalDomain>(ce,IntervalDomain(l,u)))->getId(); }
static inline bool has(ConstrainedVariableId v,double x){ return v->lastDomain().isMember(edouble(x)); }
