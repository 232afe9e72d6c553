SPECIFICATION TraceSpec
CONSTANT ObjTree <- TraceObjTree
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
