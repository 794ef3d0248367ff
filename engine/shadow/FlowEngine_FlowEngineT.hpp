// Stand-in for the generated flow-engine header: the checks encode controllers without a fluid engine,
// the original needs CGAL sources the symbolic compiler cannot take.  Only the names used are declared.
#pragma once
#include<core/PartialEngine.hpp>
struct FlowCellInfo_FlowEngineT{};
struct FlowVertexInfo_FlowEngineT{};
template<class A,class B> struct TemplateFlowEngine_FlowEngineT: public PartialEngine { double fluidBulkModulus=0; };
