CONSTANTS
  TInitState <- PTInit
  TJudge <- PTJudge
  TApply <- PTApply
SPECIFICATION TraceSpec
