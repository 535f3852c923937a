// stands in for src/main/devsim_py.cc: no math libraries are loaded, no derivative rules defined
#include "GlobalData.hh"
#include "FPECheck.hh"
#include "ObjectHolder.hh"
void devsim_initialization()
{
    FPECheck::InitializeFPE();
    GlobalData &gdata = GlobalData::GetInstance();
    gdata.AddDBEntryOnGlobal("symbolic_iteration_limit", ObjectHolder(1));
    gdata.AddDBEntryOnGlobal("direct_solver", ObjectHolder("unknown"));
}
