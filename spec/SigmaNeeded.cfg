SPECIFICATION Spec
CONSTANTS Groups <- SmallGroups
          CLimbs <- SmallLimbs
          Base <- SmallBase
INVARIANT Count
POSTCONDITION Needed
CHECK_DEADLOCK FALSE
