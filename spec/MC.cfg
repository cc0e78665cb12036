SPECIFICATION Spec
CONSTANT Sloppy = FALSE
INVARIANTS TypeOK StackIsPath PartialResults NoPartial Exact NotRejected JunkRejected AttemptsBounded
           Intended Clean1 Balances KeepsTokens Composes Intangible WholeOnly LinearWork Regroups Splits PairsUp OwnBases FailsOnlyForCounts EndsProperly Emit
PROPERTY StepsDecrease
CHECK_DEADLOCK FALSE
