CONSTANTS
  TInitState <- STInit
  TJudge <- STJudge
  TApply <- STApply
SPECIFICATION TraceSpec
