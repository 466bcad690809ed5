CONSTANTS
  TInitState <- MTInit
  TJudge <- MTJudge
  TApply <- MTApply
SPECIFICATION TraceSpec
