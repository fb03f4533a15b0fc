CONSTANTS Tabs <- MCTabs
          MinLev = 3
          MaxSteps = 3
SPECIFICATION Spec
INVARIANTS CacheBelongsToPosition DetailedBalance MovesOnlyToProposals
PROPERTY StaysInSupport
CHECK_DEADLOCK FALSE
