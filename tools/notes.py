EXTRA = {"C08", "C09"}  # both live in sim/dst/src/lob.rs
COMMON = " Seeded search, not exhaustive; one simulated thread at a time (sequentially consistent memory)."
TECH = {
 "C01": "seeded schedules, entropy/clock/thread faults; differential against a quiet sequential process",
 "C02": "seeded schedules; prefix and distinctness relations over simulations of different sizes and seeds",
 "C03": "simulated entropy source with failures, per-process entropy seeds; no repeated draw over threads and processes",
 "C04": "seeded schedules with panics injected into user callbacks; outcome of the failing call and of healthy calls beside and after it",
 "C05": "seeded schedules; every path replayed against a reference recursion, increments checked statistically",
 "C06": "seeded schedules; Monte-Carlo price against a reference mean over the paths generated in the same process",
 "C07": "simulated clock with midnights and jumps placed between the call's own reads; result must be one of the explicit-date results",
 "C08": "simulated clients, lossy network, crashing exchange with journal replay; fills against a reference order book",
 "C09": "simulated clients, lossy network, crashing exchange with journal replay; conservation and acceptance against a reference book",
 "C10": "seeded interleavings of recordings on shared and per-thread tapes, recordings cut short by panics; bitwise against the expression alone",
 "C11": "seeded histories and interleavings of library calls under clock, entropy and panic faults; bitwise against the same call alone in a fresh process",
 "C12": "simulated feed (delay, duplication, loss, reordering) and crashing consumer with journal replay; every query against reference stores",
 "C13": "per-process and per-thread hash seeds from the simulated entropy source, permuted insertions; answers compared across simulated processes",
 "C14": "bad values, panics, slowness and nested solves injected into user callbacks; evaluation budget and differential against a fresh solver",
}
NOTE = {
 "C01": "Random models, schemes, grids, seeds, neighbours, worker counts, interleavings and faults; every result compared bit for bit with a quiet sequential run in another simulated process." + COMMON,
 "C02": "Random models and seeds, path counts to tens of thousands; shared prefixes bit-identical, all paths and unit-noise increments pairwise distinct." + COMMON,
 "C03": "Random mixes of unseeded draws over threads and processes under entropy faults; any repeated path or sample is reported." + COMMON,
 "C04": "User models that panic at chosen evaluations, from one on, or from a time on, in one to four simultaneous calls, beside and before healthy seeded calls." + COMMON,
 "C05": "All Brownian-driven, jump and fractional processes; recursion checked point by point with the noise recovered from a unit-noise run, plus variance, independence and jump statistics with false-alarm odds below 1e-9 per run." + COMMON,
 "C06": "Twelve contract families on several processes, all payoffs recomputed from the generated paths; least-squares prices compared across processes." + COMMON,
 "C07": "Every pricer, model and curve with an optional date; clock faults before and between reads; also checks that the interval of dates is the call's own." + COMMON,
 "C08": "Reference book written from the property text; books rebuilt from the journal are sipped empty and compared order by order." + COMMON,
 "C09": "As C08 with colliding and re-used identifiers, cancellations and extreme sizes." + COMMON,
 "C10": "Random expressions over all supported operations, up to 66 000 foreign nodes on the tape, several threads." + COMMON,
 "C11": "About 60 families of calls with random and neighbouring arguments (down to differences of 1e-12); histories of up to dozens of compared calls over several threads, some behind hundreds of other calls of the same kind." + COMMON,
 "C12": "Quotes, portfolios, exchange tables, money, curves, interpolators, calendars, legs, option pricers and order queues; up to 400 events, 40 positions, 70 points." + COMMON,
 "C13": "Two to four simulated processes with different hash seeds and insertion orders per case." + COMMON,
 "C14": "Bisection, Newton and Brent root finders, gradient descent, quadrature and implied volatility under misbehaving callbacks." + COMMON,
}
