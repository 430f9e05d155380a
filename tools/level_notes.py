DEFAULT="Seeded exploration: every run is one exactly repeatable schedule with injected collections, handle drops, cache faults and aborted calls, compared after every step with a reference model that holds the full function table. It finds violations, it does not prove absence. Trusted: the reference model, the simulator, rustc. Bounds: small variable counts (full tables) except C21, run lengths of tens to hundreds of operations."
NOTE={
 "C05":"Twin runs (faulted versus undisturbed) compared result by result, plus the computed table alone against a map model. Seeded exploration, no proof of absence. Assumes the guarded seam in the memo tables (forced miss, lost store, small size) represents any cache loss.",
 "C18":"Cuts are injected by panicking in the caller's number type and at a seeded memo-table access, and by invalid requests; afterwards all live handles and later results are checked. Cut points are sampled, not enumerated. Aborting panics (stack overflow, abort) are outside.",
 "C22":"The clock is the number of executed basic blocks (LLVM coverage callbacks compiled into the libraries), so the verdict is machine independent and repeatable; the budget is about 25 times the largest call seen on the unchanged tree. Judges order of growth on generated automata with exponential path counts, not constant factors.",
 "C21":"Large diagrams are judged at sampled state vectors and by closed forms, counts and probabilities, not by full tables.",
}
