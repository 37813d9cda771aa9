SPECIFICATION Spec
CONSTANTS Groups <- SmallGroups
          CLimbs <- SmallLimbs
          Base <- SmallBase
INVARIANT Correct
CHECK_DEADLOCK FALSE
