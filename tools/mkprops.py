#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
S="crates/RustQuant_stochastics/src/"; I="crates/RustQuant_instruments/src/"; M="crates/RustQuant_math/src/"
T="crates/RustQuant_time/src/"; TR="crates/RustQuant_trading/src/"; A="crates/RustQuant_autodiff/src/"
D="crates/RustQuant_data/src/"; PF="crates/RustQuant_portfolios/src/"; ML="crates/RustQuant_ml/src/"; MO="crates/RustQuant_models/src/"

p("C01","A seeded simulation is a function of its arguments and seed alone",
 "With a seed in its configuration, simulating any stochastic process (diffusions, jump diffusions and fractional processes, every scheme) returns bit-for-bit the same time grid and paths every time. The parallel flag, the number of worker threads, how those threads are scheduled, what other threads simulate at the same moment, earlier simulations, the process it runs in, the wall clock and the operating system's entropy make no difference. A resource failure may surface as a panic, never as a different result.",
 ["schedules","configurations","fault_sequences"],
 "Every process type, scheme, seed, path and step count; every worker count and interleaving; every state of clock, entropy source and thread creation.",
 "Tests run one seed under one uncontrolled schedule and never compare the sequential and the parallel result, let alone under thread-creation, entropy or clock faults.",
 [S+"simulation.rs",S+"process.rs",S+"merton_jump_diffusion.rs",S+"fractional_process.rs"],
 [("per-path generator seeded from base seed plus path index",S+"simulation.rs"),("data-parallel map over disjoint path buffers",S+"simulation.rs")],
 [("base_seed","seed all noise of one simulation derives from",S+"simulation.rs")],["return value of generate()"])
p("C02","Path i of a seeded simulation is fixed by the seed and i; paths differ",
 "In a seeded simulation the i-th path depends only on the model, the configuration, the seed and i: asking for more or fewer paths, sequentially or in parallel, never changes the paths both requests contain. Different paths of one simulation are driven by different noise (including jump times and sizes and fractional noise), however many are requested. Two different seeds never give the same paths: path i of one never equals path i of the other.",
 ["schedules","configurations","inputs"],
 "Every pair of path counts (up to tens of thousands), every seed including the largest and wrap-around values, every process type, any worker count and schedule.",
 "Tests look at one path count and one seed; a collision between two path indices or two seeds, or a path that depends on how work was split, needs particular counts, seeds and schedules to show.",
 [S+"simulation.rs",S+"fractional_process.rs",S+"merton_jump_diffusion.rs"],
 [("base_seed.wrapping_add(i)",S+"simulation.rs")],None,["return value of generate()"])
p("C03","Unseeded draws are fresh, and fail loudly when there is no entropy",
 "Without a seed, every simulation and every call that samples a distribution draws fresh noise: no two paths of a run, calls of a process, threads, or processes started at the same instant repeat one another's noise. An interrupted, short or unsupported entropy request is survived with fresh results. If no entropy can be had the call panics or returns an error; it never falls back to predictable numbers.",
 ["schedules","fault_sequences","histories"],
 "Every interleaving of sampling threads, every position of an entropy fault, processes started at equal clock readings with equal arguments.",
 "Tests only ever see a healthy entropy source, one process and one thread; repeated noise across threads or processes and behaviour on entropy failure cannot show.",
 [S+"simulation.rs",S+"process.rs",S+"fractional_process.rs",M+"distributions/",I+"options/longstaff_schwartz.rs"],
 [("thread-local and entropy-seeded generators",M+"distributions/distribution.rs"),("unseeded base seed drawn per simulation",S+"simulation.rs")],None,
 ["returned samples and paths","outcome of the call"])
p("C04","A failing user model in a parallel run reaches the caller, and nothing else",
 "If a user-supplied drift, diffusion or jump callback panics during a simulation or Monte-Carlo pricing, the call panics in its caller: it does not hang, abort the process, or return a normal-looking result. Simulations running concurrently in other threads and simulations started afterwards return exactly what they would have returned had nothing failed.",
 ["schedules","fault_sequences"],
 "Every path and step at which the callback may fail, every worker count and interleaving, any number of simultaneous failures.",
 "No test makes a callback fail; whether a panic in one worker is propagated, swallowed or poisons later work depends on which thread meets it and when.",
 [S+"simulation.rs",I+"monte_carlo_pricer.rs"],
 [("panic propagation of the data-parallel loop",S+"simulation.rs")],None,["unwinding out of generate()/price_monte_carlo()","results of other calls"])
p("C05","Every simulated path obeys its scheme's recursion on the configured time grid",
 "Each path has one point per grid time, starts at the initial value, and each point follows from the previous point of the same path and the time of that step by the chosen scheme (Euler-Maruyama, Milstein, Strang splitting) with Brownian increments of mean zero and variance dt, independent over steps and paths; jump processes add their jumps and fractional processes use increments of variance dt^(2H) of their own driver. The grid runs evenly from the start to the end time. This holds for every process, sequential or parallel, under every schedule.",
 ["schedules","inputs","configurations"],
 "Every process, scheme, horizon, start time, step and path count, seed, worker count and schedule; time-dependent and state-dependent coefficients.",
 "Tests check the mean and variance of terminal values with wide tolerances for one scheme and start time 0; a step that reads a neighbouring path, a wrong time or a wrong increment on some paths passes them.",
 [S+"simulation.rs",S+"process.rs",S+"fractional_process.rs",S+"merton_jump_diffusion.rs"],
 [("scheme closures",S+"simulation.rs"),("time grid",S+"simulation.rs")],None,["times and paths returned by generate()"])
p("C06","A Monte-Carlo price is the discounted mean payoff of the paths it generated",
 "Pricing an instrument by Monte Carlo with a seeded configuration returns the discount factor times the arithmetic mean of the instrument's payoff over exactly the paths the process generates for that configuration, every path counted once. The value is the same up to floating-point summation order for the sequential and the parallel configuration, every worker count and schedule. A seeded least-squares Monte-Carlo price with an explicit date is likewise reproducible.",
 ["schedules","inputs","configurations"],
 "Every supported option contract, strike, rate, path count, seed, worker count and schedule.",
 "Tests compare one seeded price per option with an analytic value within a coarse tolerance; a dropped, repeated or mispaired path disappears in it.",
 [I+"monte_carlo_pricer.rs",I+"payoff.rs",I+"options/",S+"simulation.rs"],
 [("mean over payoffs of generated paths",I+"monte_carlo_pricer.rs")],None,["return value of price_monte_carlo() and of the Longstaff-Schwartz pricer"])
p("C07","A valuation uses one date: the explicit one, or today read once",
 "A pricer, model or curve that was given an explicit valuation date returns results that do not depend on the clock. One that was given none uses the UTC calendar date of the system clock, and every result equals the result for one single explicit date between the start and the end of the call, even when midnight passes or the clock jumps during the call.",
 ["fault_sequences","inputs","histories"],
 "Every clock reading at which midnight, a leap day, a year end, or a forward or backward jump can fall relative to the call's own clock reads; all pricers that take an optional evaluation date.",
 "Tests use the machine's clock and cannot make midnight fall between two reads of one call; they never compare an implied with an explicit date.",
 [T+"utilities.rs",I+"options/black_scholes_merton.rs",I+"options/finite_difference_pricer.rs",I+"options/longstaff_schwartz.rs",I+"options/implied_volatility.rs",I+"analytic_option_pricer.rs",S+"nelson_siegel_svensson.rs"],
 [("evaluation_date.unwrap_or(today())",I+"options/black_scholes_merton.rs"),("today()",T+"utilities.rs")],None,["return values under a controlled clock"])
p("C08","Market orders sweep the limit order book by price, then arrival",
 "For every history of resting limit orders, cancellations and market orders, a market order takes the best price of the opposite side first (lowest ask, highest bid), the earliest order first within a price, reports the shares taken at each price in that order, and reports success exactly when it was filled completely; limit orders of its own side are untouched. Replaying the journal of accepted operations after a crash rebuilds a book that behaves identically.",
 ["histories","fault_sequences","crash_points"],
 "Every history of operations by any number of clients over a network that delays, reorders, duplicates, partitions and drops messages, with crashes of the matching engine at any point.",
 "Tests exercise scripted sequences of one or two orders; priority errors need several orders at one price, partial fills, cancellations in the middle of a queue and particular arrival orders.",
 [TR+"limit_order_book.rs",TR+"limit_order_book/limit.rs",TR+"limit_order_book/order.rs"],
 [("price-ordered ladders with FIFO queues of order ids",TR+"limit_order_book/limit.rs"),("sweep loop",TR+"limit_order_book.rs")],
 [("order_map","resting orders by id",TR+"limit_order_book.rs"),("buy_limits/sell_limits","price ladders",TR+"limit_order_book.rs")],
 ["results of add, cancel and market orders"])
p("C09","The order book neither creates nor loses shares; refused operations do nothing",
 "At every moment the shares of accepted limit orders equal the shares filled by market orders plus the shares cancelled plus the shares still resting, per order and per price. An order can be cancelled exactly while shares of it rest, an identifier is refused exactly while an order with it rests, and a refused operation leaves the book behaving exactly as before.",
 ["histories","fault_sequences","crash_points"],
 "Every operation history from concurrent clients under message loss, duplication, reordering, partitions and engine crashes; identifiers that are reused, duplicated, unknown or already filled; order sizes from zero to the largest.",
 "Tests check single operations; conservation over long histories with partial fills, cancellations and refused operations is never summed.",
 [TR+"limit_order_book.rs",TR+"limit_order_book/limit.rs"],
 [("quantity bookkeeping in matching and cancelling",TR+"limit_order_book/limit.rs")],None,["results of add, cancel and market orders; draining a rebuilt book"])
p("C10","A gradient depends only on its own expression, whatever else is recorded",
 "The derivative of an expression with respect to its inputs is the same, bit for bit, however many other expressions are recorded before, between or after its operations on the same graph, however often gradients are accumulated, whatever other graphs are used by this and other threads, and even if recording another expression was cut short by a panic. The same holds for the expression's value.",
 ["histories","schedules","fault_sequences"],
 "Every expression over the supported operations, every interleaving of several expressions on one tape, every number of threads with tapes of their own, every point at which a recording panics.",
 "Tests record one expression on one fresh graph in one thread; a gradient that picks up another expression's nodes needs interleaved recordings.",
 [A+"graph.rs",A+"accumulate.rs",A+"gradient.rs",A+"variable.rs",A+"overload.rs"],
 [("append-only vertex list with parent indices",A+"graph.rs"),("reverse sweep",A+"accumulate.rs")],None,["wrt() of accumulate()","value()"])
p("C11","A result depends on the call's arguments only, not on what ran before or beside",
 "Every deterministic public computation of the library (pricing formulas, models, root finding, integration, interpolation, calendars, schedules, day counts, cashflows, statistics, regressions, transforms, sequences, code tables) returns bit-for-bit the same result for the same arguments: whatever was computed before in the process, whatever other threads compute at the same time, in whatever order, in whichever process, and whatever the clock, the entropy source and the hash seeds say.",
 ["histories","schedules","fault_sequences"],
 "Every history of calls with equal and neighbouring arguments from any number of threads under any interleaving, repeated calls on one object and on fresh copies.",
 "Each test calls a function once or a few times in one thread on fresh objects; hidden state such as a cache with an incomplete key, a lazily initialised or shared scratch value shows only in particular histories and interleavings.",
 ["crates/"],
 [("no shared mutable state in the computational code","crates/"),],None,["return values compared with the same call alone in a fresh process"])
p("C12","Market-data stores answer with the latest accepted update",
 "After any sequence of updates, quotes, portfolios, exchange-rate tables, curves, interpolators, holiday calendars, cashflow legs, option pricers and order queues answer every query from exactly the updates accepted so far, the last one winning: a quote's value, a position's price and quantity and every total computed from them, a conversion at the stored rate, a curve's rate at a date (the stored node at a node, interpolation of the current nodes between them, nothing outside their range), an interpolator's value after points at new places were added, the extra holidays of a calendar, the flows and totals of a leg, the option and model a pricer was given last, each side of an order queue in order of arrival. A query changes nothing but what its name says, and a copy is independent of the original.",
 ["histories","fault_sequences"],
 "Every sequence of updates and queries delivered by a feed that delays, duplicates, drops and reorders, with the consumer crashing and rebuilding its stores from its journal at any point.",
 "Tests build each store once and query it; stale derived state appears only when queries and updates alternate in particular orders.",
 ["crates/RustQuant_cashflows/src/quotes.rs",PF+"lib.rs",I+"fx/exchange.rs",I+"fx/money.rs",D+"curves.rs",M+"interpolation/",T+"calendar.rs",T+"countries/","crates/RustQuant_cashflows/src/legs.rs",I+"analytic_option_pricer.rs","crates/RustQuant_trading/src/order_book.rs"],
 [("stores updated in place",D+"curves.rs")],
 [("interpolator of a curve","derived from the nodes",D+"curves.rs")],["queries after each update"])
p("C13","Hash order and insertion order never show in a result",
 "Portfolio totals and weights, exchange-rate look-ups, nearest-neighbour predictions (vote ties included, as long as no two training points are equally far from the query; distance ties are settled by row order) and autodiff graph exports are the same whatever seed the standard library's hash maps drew in that process or thread. Portfolios, exchange-rate tables, curves, calendars, interpolators, cashflow legs and the order book (orders at distinct prices) answer alike in whatever order the same entries were inserted, up to the rounding of a floating-point sum.",
 ["schedules","configurations","inputs"],
 "Every hash seed (drawn from the simulated entropy source, per thread) and every insertion order of the same content.",
 "A test run has one uncontrolled hash seed, so an order-dependent answer is at best a rare unexplained failure.",
 [PF+"lib.rs",I+"fx/exchange.rs",ML+"k_nearest_neighbors.rs",A+"graphviz.rs"],
 [("order-free aggregation over hash maps",PF+"lib.rs")],None,["query results across simulated processes with different hash seeds"])
p("C14","Iterative solvers stop within their budget and survive a failing callback",
 "Root finders, the gradient-descent optimiser, the quadrature rule and the implied-volatility solvers return or report failure after at most a fixed number of evaluations of the user's function (root finders: two per allowed iteration plus a few; gradient descent: two per allowed iteration plus two; quadrature: 400), whatever that function returns: NaN, infinities, constants, discontinuities, values that change between calls, or a panic at any evaluation. After such a failure the same solver object and every other computation work as if it had not happened, and no outcome depends on how fast the clock runs.",
 ["fault_sequences","inputs","histories"],
 "Every position at which the user's function turns bad and every kind of bad value, all iteration limits and tolerances, stalled and jumping clocks.",
 "Tests give each solver well-behaved functions only; termination under a misbehaving function and state left behind by a failed run are never observed.",
 [M+"rootfinding/",M+"optimization/gradient_descent.rs",M+"integration.rs",I+"options/implied_volatility.rs"],
 [("iteration limits",M+"rootfinding/")],None,["number of callback evaluations","outcome and later results"])

na="Tests sample points; the property quantifies over a continuum of real inputs."
def n(id,title,st,files):
    p(id,title,st,["inputs"],"All admissible parameter values.",na,files,[("closed-form or numerical implementation",files[0])])
n("N01","Option prices respect no-arbitrage relations and parity",
 "For all admissible inputs, analytic option prices satisfy put-call parity, lie within their no-arbitrage bounds, and are monotone in strike, volatility and maturity where theory says so; Greeks equal the derivatives of the price.",[I+"options/black_scholes_merton.rs",I+"options/vanilla.rs",MO])
n("N02","Implied volatility inverts the pricing formula",
 "For every price strictly inside the no-arbitrage bounds, the implied volatility reproduces that price when fed back to the pricing formula.",[I+"options/implied_volatility.rs"])
n("N03","Distributions are mutually consistent",
 "For every parameter, each distribution's density integrates to its CDF, the inverse CDF inverts the CDF, and moments match the density.",[M+"distributions/"])
n("N04","Calendars, day counts and schedules follow their market conventions",
 "For every date, business-day and holiday status, rolled dates, day-count fractions and generated schedules follow the published conventions of the market concerned.",[T])
n("N05","Estimators minimise their loss",
 "For every well-posed data set, linear, ridge, lasso and logistic regression return coefficients at which their penalised loss is stationary.",[ML])
n("N06","Numerical algorithms reach their stated accuracy",
 "Root finders, quadrature, the FFT, interpolation and the gradient-descent optimiser return results within their tolerance of the true value for every function in their class.",[M])
n("N07","ISO code tables and money arithmetic are correct",
 "Every country, currency and market code maps to the attributes of the published standard, and money arithmetic is exact within one currency and refuses to mix currencies.",["crates/RustQuant_iso/src/",I+"fx/"])
n("N08","Fractional noise has the covariance of its Hurst parameter",
 "For every Hurst parameter in (0,1) both generators return Gaussian noise with the autocovariance of fractional Gaussian noise at the configured step.",[S+"fractional_process.rs"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
