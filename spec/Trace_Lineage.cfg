CONSTANTS
  TInitState <- ITInit
  TJudge <- ITJudge
  TApply <- ITApply
SPECIFICATION TraceSpec
