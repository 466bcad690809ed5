CONSTANTS
  TInitState <- GTInit
  TJudge <- GTJudge
  TApply <- GTApply
SPECIFICATION TraceSpec
