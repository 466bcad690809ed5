CONSTANTS
  TInitState <- OTInit
  TJudge <- OTJudge
  TApply <- OTApply
SPECIFICATION TraceSpec
