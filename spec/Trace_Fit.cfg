CONSTANTS
  TInitState <- XTInit
  TJudge <- XTJudge
  TApply <- XTApply
SPECIFICATION TraceSpec
