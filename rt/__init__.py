"""Run-time contracts of classes, coroutines and file-system functions that the
deductive verifier cannot reach: every module has
  RULE          what a case is and when it is non-trivial
  cases(rng, tier)   JSON-able cases, small ones enumerated first
  nontrivial(case)
  run(case)     executes the real code and returns the violated clauses
                [(clause, detail)]
and is executed inside the worker (the interpreter with the repository's
dependencies). These checks are bounded: they are never counted as proofs."""
