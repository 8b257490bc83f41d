"""pyvc: a contract verifier for the Python code of /repo/symfem.

The functions under contract are the ones in /repo's working tree: they are
loaded through `loader` on every run (mechanically instrumented, see there),
executed on symbolic arguments by `engine` (every feasible path, decisions are
settled by z3), and their postconditions become verification conditions that
`vc` discharges.
"""
