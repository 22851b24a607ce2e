SPECIFICATION Spec
CONSTANTS Lo = 10900
          Hi = 11400
INVARIANTS RoundTrip Succ MonthLaw RollLaw LagLaw EomLaw
