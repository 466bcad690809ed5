CONSTANTS
  TInitState <- NTInit
  TJudge <- NTJudge
  TApply <- NTApply
SPECIFICATION TraceSpec
