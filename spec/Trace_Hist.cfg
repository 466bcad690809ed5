CONSTANTS
  TInitState <- HTInit
  TJudge <- HTJudge
  TApply <- HTApply
SPECIFICATION TraceSpec
