CONSTANTS
  TInitState <- LTInit
  TJudge <- LTJudge
  TApply <- LTApply
SPECIFICATION TraceSpec
