SPECIFICATION Spec
INVARIANTS OutcomeSet TruthfulSuccess FinalizeOnce FinalizeMatches Emit
