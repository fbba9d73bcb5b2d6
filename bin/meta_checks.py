TECHD = "deterministic simulation, seeded schedules/histories and fault injection, reference-model oracle, recorded and minimised replay"
TECH = {}
NOTED = ("Seeded search, not exhaustive: the property held on every simulated run of the tier (counts in the evidence file). Real library code runs, compiled with gcc and scheduling/coverage "
         "instrumentation; trusts the reference model in sim/props, sequential consistency at memory-access granularity, and gcc's instrumentation being complete.")
NA = {}
NOTES = "Every check: bin/check ID. Replay a violation with bin/check ID --replay FILE. See DESIGN.md."
