CONSTANTS
  TInitState <- FTInit
  TJudge <- FTJudge
  TApply <- FTApply
SPECIFICATION TraceSpec
