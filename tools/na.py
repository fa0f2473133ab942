NA=[
 dict(property='C37',reason='Quantifies over whole histories of many instructions and the token balances they leave: the sum of every position\'s entitlement is a runtime quantity over an unbounded set of accounts. Static analysis decides the per-instruction facts it rests on (C06-C10, C17, C18, C21, C23, C30, C31) but no sound static argument in reach sums them.'),
 dict(property='C40',reason='A liveness claim over all reachable states: no wrapping or checked addition on the way may fail for any history. Bounding accumulated values (owed tokens, fee growth, compute units, caller-supplied accounts) needs invariants over runtime quantities that static dataflow cannot supply.'),
 dict(property='C42',reason='Depends on prices, other traders and the order of transactions on the chain; manipulation resistance of time-weighted averages is an economic, not a source-level, quantity.'),
]
