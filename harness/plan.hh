// Plan-database set-up shared by the harnesses: engine with all modules but System; models are given as NDDL text
// (parsed and interpreted natively before the symbolic part starts) or built through the schema API.
#ifndef PLAN_HH
#define PLAN_HH
#include "ce.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleRulesEngine.hh"
#include "ModuleTemporalNetwork.hh"
#ifndef NO_NDDL
#include "ModuleNddl.hh"
#endif
#ifdef WITH_SOLVER
#include "ModuleSolvers.hh"
#endif
#ifdef WITH_RESOURCE
#include "ModuleResource.hh"
#endif
#include "PlanDatabase.hh"
#include "PlanDatabaseDefs.hh"
#include "DbClient.hh"
#include "Schema.hh"
#include "Object.hh"
#include "Timeline.hh"
#include "Token.hh"
#include "TokenVariable.hh"
#include "IntervalToken.hh"
#include "RulesEngine.hh"
#include <boost/cast.hpp>
#include <cstring>
class PlanEngine : public EngineBase {
public:
  PlanEngine(){ addModule((new ModuleConstraintEngine())->getId()); addModule((new ModuleConstraintLibrary())->getId()); addModule((new ModulePlanDatabase())->getId()); addModule((new ModuleRulesEngine())->getId()); addModule((new ModuleTemporalNetwork())->getId());
#ifdef WITH_SOLVER
    addModule((new ModuleSolvers())->getId());
#endif
#ifdef WITH_RESOURCE
    addModule((new ModuleResource())->getId());
#endif
#ifndef NO_NDDL
    addModule((new ModuleNddl())->getId());
#endif
    doStart(); }
  virtual ~PlanEngine(){ doShutdown(); }
  ConstraintEngineId ce(){ return dynamic_cast<ConstraintEngine*>(getComponent("ConstraintEngine"))->getId(); }
  PlanDatabaseId db(){ return dynamic_cast<PlanDatabase*>(getComponent("PlanDatabase"))->getId(); }
  Schema* schema(){ return dynamic_cast<Schema*>(getComponent("Schema")); }
  DbClientId client(){ return db()->getClient(); }
  void nddl(const char* txt){ std::string r=executeScript("nddl",txt,false); if(!r.empty()){ fprintf(stderr,"model rejected: %s\n",r.c_str()); abort(); } }
};
static inline char* nm(const char* p,int i){ char b[40]; sprintf(b,"%s%d",p,i); return strdup(b); }
static inline double LB(ConstrainedVariableId v){ return cast_double(v->lastDomain().getLowerBound()); }
static inline double UB(ConstrainedVariableId v){ return cast_double(v->lastDomain().getUpperBound()); }
static inline void rst(ConstrainedVariableId v,double l,double u){ v->restrictBaseDomain(IntervalIntDomain((eint)(long)l,(eint)(long)u)); }
#endif
