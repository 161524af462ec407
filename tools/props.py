"""Source of truth for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = "most_queue/sim/"
T = "most_queue/theory/"


def prop(id, title, statement, over, qtext, why, files, mech, obs=None, state=None, level_note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=obs or [], hook_needed=None,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])])))
    META[id] = (technique, level_note)


META = {}
H = ["histories", "inputs", "configurations"]
STEP = "after every simulated event (run_one_step) and at the end of run()"

# ------------------------------------------------------------------ simulators
prop("Q01", "Multichannel simulator follows the FIFO GI/G/n(/r) queue exactly",
     "For any interarrival and service times, channel count and waiting-room size, the multichannel queue simulator processes the events of the FIFO GI/G/n/r queue in time order: a job starts at once iff a channel is free, otherwise waits in arrival order, and is dropped iff all channels and all waiting places are taken. "
     "At every moment arrived = served + dropped + in system, in system = in service + waiting, no channel is idle while a job waits (outside warm-up/cooling), and the clock never goes back.",
     H, "every sequence of interarrival/service times, n >= 1, buffer None or >= 0, list or deque container, every prefix of the run",
     "tests compare 10-30%-tolerance averages of a few long runs with one parameter set; a lost, reordered or wrongly dropped job in rare states moves those averages by less than the tolerance",
     [S+"qs_sim.py", S+"utils/servers.py", S+"utils/qs_queue.py", S+"utils/tasks.py"],
     [("event selection", S+"qs_sim.py run_one_step"), ("arrival/serving handlers", S+"qs_sim.py arrival, serving, send_task_to_queue, send_head_of_queue_to_channel")],
     [STEP], [("in_sys, arrived, served, dropped, taked, ttek", "counters and clock", S+"qs_sim.py")])
prop("Q02", "Wait and sojourn moments equal the averages over the simulated jobs",
     "After any number of events the waiting-time moments reported by the multichannel simulator are the averages of the 1st, 2nd and 3rd powers of the actual waits of all jobs that have started service, and the reported sojourn moments are the same averages of departure minus arrival over all served jobs. Jobs that start at once count with wait 0; dropped jobs do not count.",
     H, "every trajectory, every prefix, all n and buffers, with and without warm-up/cooling phases",
     "tests look only at means of one configuration with wide tolerance; per-job bookkeeping errors in rare branches (buffer, zero wait, after a phase) are invisible",
     [S+"qs_sim.py", S+"utils/stats_update.py"],
     [("running-moment update", S+"utils/stats_update.py refresh_moments_stat"), ("refresh_w_stat/refresh_v_stat", S+"qs_sim.py")], [STEP])
prop("Q03", "Simulated state probabilities are exact fractions of simulated time",
     "At any moment the state probabilities reported by the multichannel simulator equal, for every j, the fraction of elapsed simulated time during which exactly j jobs were in the system; they are non-negative and sum to one.",
     H, "every trajectory, every prefix, all n, buffers, phases",
     "tests compare the first states of one long run to theory with tolerances of 10% or not at all",
     [S+"qs_sim.py"], [("p[in_sys] accumulation before each state change", S+"qs_sim.py arrival/serving/on_end_*"), ("get_p", S+"qs_sim.py")], [STEP])
prop("Q04", "Busy-period moments describe the all-channels-busy periods",
     "The busy-period moments reported by the multichannel simulator are the averages of the powers of the lengths of the completed periods during which all channels were continuously busy (from the instant the last free channel is taken to the instant a channel becomes free with nobody waiting), each such period counted exactly once.",
     H, "every trajectory, n, buffer, warm-up/cooling setting",
     "no test reads the busy-period statistics of the base simulator",
     [S+"qs_sim.py"], [("start_ppnz / refresh_ppnz_stat", S+"qs_sim.py serving, send_head_of_queue_to_channel, send_task_to_channel")], [STEP])
prop("Q05", "Warm-up, cooling and cooling-delay phases follow the vacation protocol",
     "With warm-up, cooling and cooling-delay times set, the simulator serves nobody during warm-up or cooling, starts cooling (after the delay, if set) exactly when the system empties, cancels the delay and serves at once if a job comes during it, warms up exactly when a job finds the system empty and switched off or when cooling ends with jobs waiting, and on the end of warm-up (or of cooling without warm-up) starts as many waiting jobs as there are channels. "
     "The reported warm-up, cooling and delay probabilities are the fractions of time spent in completed or cancelled phases, and phases never overlap.",
     H, "every trajectory and every combination of the three phases, n, buffer; phase times from shorter than an interarrival to much longer than a busy period",
     "two tests run one configuration each and compare means with 20-30% tolerance or print only",
     [S+"qs_sim.py", S+"utils/phase.py"], [("phase state machine", S+"utils/phase.py QsPhase"), ("on_end_warming/on_end_cold/on_end_cold_delay", S+"qs_sim.py")], [STEP])
prop("Q06", "Run control, container choice and seeding do not alter the model",
     "run(N) stops at the first event by which N jobs have been served (or after exactly N events when asked to count events), run may be called again to continue, and its result is the same as stepping one event at a time. The list and deque waiting rooms give identical results, a phase or distribution set with an unknown kind or in the wrong order is refused with the documented error, and distinct simulator objects share no state.",
     ["histories", "inputs", "configurations"], "all simulators with run(), both container types, split runs, interleaved simulator objects",
     "tests call run once on one object and one (tolerant) list-vs-deque comparison",
     [S+"qs_sim.py", S+"utils/qs_queue.py", S+"utils/distribution_utils.py", S+"priority_queue_sim.py", S+"priority_network.py", S+"fj_sim.py"],
     [("run loop", S+"qs_sim.py run"), ("containers", S+"utils/qs_queue.py")], ["end of run()"])
prop("Q07", "Priority simulator obeys its queueing discipline at every event",
     "Under the preemptive disciplines (PR, RS, RW) no job ever waits while a job of a strictly lower class is in service, and only a strictly higher arrival interrupts; under NP service is never interrupted and a freed channel takes the waiting job of the highest class; with No priority jobs start in arrival order whatever their class; in every discipline first starts within a class are in arrival order, an interrupted job resumes before any job of its class that has not started yet, and no channel idles while jobs wait. "
     "Per class arrived = served + dropped + in system, and an arrival is dropped iff it can neither start nor find a free waiting place.",
     H, "every arrival/service sequence, 1-4 classes, 1-4 channels, five disciplines, buffer None or finite",
     "the only test checks the mean of class 0 within 0.3 for NP and PR on one parameter set; No, RS and RW are never run",
     [S+"priority_queue_sim.py"], [("arrival with preemption", S+"priority_queue_sim.py arrival"), ("class scan on completion", S+"priority_queue_sim.py serving")], [STEP])
prop("Q08", "Interrupted service is resumed, repeated or resampled as the discipline says",
     "In the priority simulator a job leaves exactly when it has received its due service: under PR the total over all its service intervals equals the time drawn for it; under RW its last uninterrupted interval equals that original time; under RS its last interval equals a fresh time drawn for its own class; under NP and No its single interval equals the time drawn; a configured warm-up time replaces the service time of exactly the jobs that find the system empty.",
     H, "every sequence of interruptions, including repeated interruption of the same job, several channels and classes",
     "no test runs RS or RW, and PR is only checked through class-0 means, which interruption bookkeeping of lower classes cannot affect",
     [S+"priority_queue_sim.py"], [("time_to_end_service / total_time_to_serve / is_pr", S+"priority_queue_sim.py arrival, Server.start_service")], [STEP])
prop("Q09", "Per-class statistics of the priority simulator equal per-class averages",
     "For every class the reported sojourn moments are averages of powers of departure minus arrival over its served jobs, the wait moments are the same averages of the total time the job spent not in service, and the reported probability of j jobs of the class is the fraction of time with exactly j of them present. For one class, the busy-period moments are averages over the completed busy periods, the count of service starts equals the starts that happened, and the announced time of the next event is the earliest one pending.",
     H, "every trajectory, discipline, class count, buffer",
     "only the class-0 mean is compared to theory, with absolute tolerance 0.3",
     [S+"priority_queue_sim.py"], [("refresh_v_stat/refresh_w_stat/p", S+"priority_queue_sim.py")], [STEP])
prop("Q10", "Priority network routes, conserves and times jobs correctly",
     "In the network simulator every external job of a class enters and moves only along arcs with positive routing probability (with those frequencies), is in exactly one node until it leaves, and is served in a node with that node's priority rank and service law of its class; per class arrived = served + in network = sum over nodes. "
     "The reported network sojourn and wait moments are averages of powers of leave minus entry time and of the total waiting over all nodes, over departed jobs.",
     H, "every routing matrix, class permutation, node discipline, channel vector",
     "one test checks the class-0 mean sojourn within 10% on one network with symmetric priorities",
     [S+"priority_network.py", S+"priority_queue_sim.py"], [("play_next_node", S+"priority_network.py"), ("arrival/serving with is_network", S+"priority_queue_sim.py")], [STEP])
prop("Q11", "Fork-join simulator completes a job when k of its n parts are done",
     "In the fork-join simulator every accepted job puts one part in each channel's own FIFO queue, each channel serves its parts in order and never idles while it has parts, the job's sojourn is the time from arrival to the k-th completion among its n parts, and with purging its remaining parts vanish at that moment, freeing their channels for the next parts. Job counts, in-system counts, state-time fractions and sojourn moments agree with the simulated history, and a finite buffer refuses a job exactly when its parts do not fit the idle channels and free waiting places.",
     H, "every arrival/service sequence, 1 <= k <= n, purge on/off, buffer",
     "one test compares the mean for one n,k within 10%; purge and buffers are never run",
     [S+"fj_sim.py"], [("arrival/serving", S+"fj_sim.py"), ("purge branch", S+"fj_sim.py serving")], [STEP])
prop("Q12", "Split-join and delayed-part simulators serve whole jobs one after another",
     "In split-join mode a job's parts start together only when the previous job has left, jobs are served in arrival order and a job leaves when its last part is done; with part delays each part becomes available at its own delayed moment, parts of the job in service start at once on a free channel, no part is lost or served twice, and the sojourn runs from the arrival of the job. Delayed fork-join serves available parts from one FIFO queue on any free channel; counters, state fractions, sojourn moments and refusals (parts not fitting the buffer) agree with the history.",
     H, "every arrival/service sequence and delay, n >= k, constant and random delays, both modes",
     "one test compares means for one n and delay within 10%; delayed fork-join is never run",
     [S+"fj_sim.py", S+"fj_delta_sim.py"], [("split-join branch", S+"fj_sim.py arrival/serving"), ("subtask arrivals", S+"fj_delta_sim.py")], [STEP])
prop("Q13", "Batch-arrival simulator treats a batch as simultaneous single arrivals",
     "In the batch simulator each arrival epoch brings a batch whose size has the given distribution, all its jobs arrive at that instant and behave as in the FIFO GI/G/n/r queue (start, wait or drop), and the counters, wait and sojourn moments and state probabilities equal the averages over the simulated history, state probabilities summing to one. Busy-period moments are those of the completed periods with all channels busy, as in the multichannel simulator. With a warm-up time set, exactly the jobs that find the system empty have it as their service time.",
     H, "every batch-size law, arrival/service sequence, n, buffer",
     "one test checks a one-sided bound on the mean sojourn for n=1 without buffer and reads no state probabilities",
     [S+"batch_sim.py", S+"qs_sim.py"], [("arrival", S+"batch_sim.py")], [STEP])
prop("Q14", "Impatient jobs leave exactly at their deadline and never during service",
     "In the impatience simulator a waiting job leaves unserved exactly when its own patience since arrival runs out and only if its service has not begun; jobs in service are never lost, the rest keep FIFO order, and arrived = served to completion + lost + in system. Reported waits and sojourns average over all finished (served or impatient) jobs as the simulator declares, and state probabilities are exact time fractions. Busy-period moments are those of the completed periods with all channels busy, as in the multichannel simulator. With a warm-up time set, exactly the jobs that find the system empty have it as their service time.",
     H, "every arrival/service/patience sequence, n, buffer",
     "one test compares one mean with absolute tolerance 0.01 for M/M/1",
     [S+"impatient_queue_sim.py", S+"qs_sim.py"], [("drop_task, run_one_step", S+"impatient_queue_sim.py")], [STEP])
prop("Q15", "Finite-source simulator keeps its closed population of sources",
     "In the finite-source simulator each of the m sources is at any moment either thinking or has exactly one job in the system; a source starts a new thinking time exactly when its job leaves, never more than m jobs are present, and jobs are served FIFO by n channels. Counters, wait and sojourn moments and state probabilities (over 0..m, summing to one) equal the averages over the history. Busy-period moments are those of the completed periods with all channels busy, as in the multichannel simulator. With a warm-up time set, exactly the jobs that find the system empty have it as their service time.",
     H, "every think/service sequence, m >= 1, n >= 1, buffer",
     "the only test has no assertion",
     [S+"queue_finite_source_sim.py"], [("arrival/serving", S+"queue_finite_source_sim.py")], [STEP])
prop("Q16", "Superposed flows merge exactly the two arrival streams",
     "Summing two flows in simulation yields the interval moments of the time-ordered union of two independent renewal streams fitted to the given moments: every event of either stream appears once, in order, and the reported moments are averages of powers of successive differences. Summing several flows folds this pairwise and keeps total intensity equal to the sum of intensities.",
     ["inputs", "histories"], "every pair/list of flows, each distribution kind, moment count",
     "no test runs flow summation",
     [S+"flow_sum_sim.py"], [("sum_2_*_flows", S+"flow_sum_sim.py")], ["return values and generate() calls"])
prop("Q17", "Reported load is intensity times mean service over channels",
     "For every supported arrival and service distribution the load reported by the simulators and by the load helper equals arrival intensity times mean service time divided by the number of channels (for several classes: the sum of the class loads), and is undefined/infinite only where the mean is.",
     ["inputs", "configurations"], "every pair of distribution kinds and parameters, n, class sets",
     "no test reads the load",
     [S+"utils/distribution_utils.py", S+"priority_queue_sim.py"], [("calc_qs_load", S+"utils/distribution_utils.py"), ("calc_load", S+"priority_queue_sim.py, "+S+"qs_sim.py")], ["return value"])
# ------------------------------------------------------------------ distributions
RD = "most_queue/rand_distribution.py"
prop("Q20", "Fitted distributions reproduce the moments they were fitted to",
     "For every family (H2 real and complex, Cox, Gamma with and without correcting polynomial, Erlang, Exponential, Pareto, Uniform) and every admissible set of moments, the fitted parameters' theoretical moments equal the given moments up to the number the family can match; fitting by mean and coefficient of variation gives that mean and variation; fitted real parameters are valid.",
     ["inputs"], "all means, coefficients of variation and third moments in the family's admissible region",
     "tests use a few fixed coefficients of variation and observe them only through noisy simulations",
     [RD], [("get_params, get_params_clx, get_params_by_mean_and_coev, get_mu_alpha, get_a_k", RD), ("calc_theory_moments", RD)], ["return values"])
prop("Q21", "Generated samples follow the declared distribution",
     "Every distribution object, also when made from its Kendall letter by the simulators' factory and also through the static generator, produces independent samples that follow its declared law (distribution function, mean and variance), draws only from the random generator it was given when it was given one, and an unknown letter is refused.",
     ["inputs", "histories"], "every family and parameters, with and without an explicit generator",
     "samples are only seen through queue averages with 10-30% tolerance",
     [RD, S+"utils/distribution_utils.py"], [("generate/generate_static", RD), ("create_distribution", S+"utils/distribution_utils.py")], ["generate() return values"])
prop("Q22", "CDF, density, tail, moments and transforms of a family agree",
     "For every family and parameters the distribution function is 0 below the support, non-decreasing, tends to 1; tail = 1 - CDF; the density is its derivative and is 0 outside the support; theoretical moments equal the integrals of powers against it; residual-life parameters and Laplace transforms and the Gamma-function helpers equal their definitions.",
     ["inputs"], "all parameters and arguments, inside and outside the support",
     "no test evaluates CDF, density, tail or residual helpers directly",
     [RD, T+"utils/weibull.py"], [("get_cdf/get_pdf/get_tail/calc_theory_moments", RD)], ["return values"])
# ------------------------------------------------------------------ theory
prop("Q30", "M/M/n/r results equal the exact birth-death solution",
     "For all intensities, n and r, the M/M/n/r calculator's probabilities, loss, queue and number in system, wait and sojourn moments equal those of the exact birth-death chain (waits over accepted jobs), probabilities are non-negative and sum to one.",
     ["inputs"], "all l, mu, n >= 1, r >= 0, including load equal to and above one",
     "no test calls the M/M/n/r calculator with assertions",
     [T+"mmnr_calc.py"], [("M_M_n_formula getPI/getQ/get_w/get_v/get_p", T+"mmnr_calc.py")], ["return values"])
prop("Q31", "M/G/1 results satisfy Pollaczek-Khinchine exactly",
     "For every arrival rate and service-time law with load below one the M/G/1 wait moments equal the Pollaczek-Khinchine moments, the sojourn moments are those of wait plus independent service, and the state probabilities are the stationary law of the M/G/1 queue for exponential, Gamma, Uniform and Pareto service; with warm-up the sojourn moments equal those of the M/G/1 queue with exceptional first service.",
     ["inputs"], "all loads in (0,1), service laws, number of moments and of probabilities",
     "one parameter set against a noisy simulation with 10-20% tolerance",
     [T+"mg1_calc.py", T+"mg1_warm_calc.py", T+"utils/q_poisson_arrival_calc.py", T+"utils/diff5dots.py"], [("get_w/get_v/get_p", T+"mg1_calc.py"), ("get_v", T+"mg1_warm_calc.py")], ["return values"])
prop("Q32", "GI/M/1 and GI/M/n results equal the exact embedded-chain solution",
     "For every interarrival law (Gamma, Pareto, exponential by moments) and load below one, the arrival-epoch and stationary probabilities, wait and sojourn moments of the GI/M/1 and GI/M/n calculators equal the exact solution, probabilities are non-negative and sum to one, and n=1 agrees with GI/M/1.",
     ["inputs"], "interarrival variation 0.3-3, loads in (0,1), n from 1 to 8, at least three interarrival moments",
     "one parameter set each with 300% and 20% tolerances",
     [T+"gi_m_1_calc.py", T+"gi_m_n_calc.py"], [("get_v/get_w/get_p/get_omega/get_pi", T+"gi_m_1_calc.py, "+T+"gi_m_n_calc.py")], ["return values"])
prop("Q33", "M/D/n and Ek/D/n probabilities equal the exact stationary law",
     "For every n, load below one and Erlang order, the M/D/n and Ek/D/n calculators return the stationary distribution of the number in system: non-negative, satisfying the one-service-time balance equations, with the exact empty probability and mean; E1/D/n equals M/D/n.",
     ["inputs"], "n 1-60, k 1-14 with n*k up to 24, loads 0.002-0.93, any list length",
     "one parameter set each with a 20-30% tolerance against simulation",
     [T+"m_d_n_calc.py", T+"ek_d_n_calc.py"], [("calc_p/get_p", T+"m_d_n_calc.py, "+T+"ek_d_n_calc.py")], ["return values"])
prop("Q34", "Takahashi-Takami M/H2/n solver equals the exact Markov chain",
     "For every service-time moments (coefficient of variation below, at or above one), n, load and optional finite buffer, the Takahashi-Takami calculator's state probabilities equal those of the exact M/H2/n(/r) Markov chain, sum to one, satisfy Little's law with the reported mean sojourn and wait, and sojourn = wait + service; exponential service reproduces M/M/n (exponential and Erlang-2 service moments, where the two-phase fit is singular, within one per cent).",
     ["inputs"], "n 1-12, loads 0.001-0.92 (up to 2.5 with a buffer), coefficient of variation 0.4-2.7, buffer None or 0-160",
     "one parameter set per run with 10-20% tolerance against a simulation",
     [T+"mgn_tt.py"], [("run / get_p / get_v / get_w", T+"mgn_tt.py")], ["return values"])
prop("Q35", "Multichannel warm-up/cooling/delay solvers equal their exact chains",
     "The M/H2/n with H2 warm-up, M/M/n with H2 cooling and H2 warm-up and M/H2/n with H2 cooling delay, cooling and warm-up calculators return, for every parameter set, the stationary law of the corresponding Markov chain: state probabilities, phase probabilities, mean sojourn and wait consistent with Little's law; with negligible phases they reduce to the plain queue.",
     ["inputs"], "n 1-7, loads 0.02-0.8, phase means from a hundredth to five service times",
     "each test runs one parameter set, mostly without assertions",
     [T+"m_h2_h2warm.py", T+"mmn_with_h2_cold_and_h2_warmup.py", T+"mgn_with_h2_delay_cold_warm.py"], [("run/get_p/get_v/get_warmup_prob/get_cold_prob", T+"m_h2_h2warm.py etc.")], ["return values"])
prop("Q36", "Batch, Engset and impatience calculators equal their exact chains",
     "The M/M/1 batch-arrival, finite-source M/M/1 (Engset) and M/M/1 with exponential impatience calculators return probabilities, mean numbers, readiness, waits and sojourn times equal to those of the exact Markov chain of the model, with probabilities non-negative and summing to one.",
     ["inputs"], "all rates, batch laws, source counts, loads (also above one where stable)",
     "tests check one parameter set one-sidedly or not at all",
     [T+"batch_mm1.py", T+"engset_model.py", T+"impatience_calc.py"], [("get_p/get_N/get_Q/get_v1/get_w1/get_kg", T+"batch_mm1.py, "+T+"engset_model.py, "+T+"impatience_calc.py")], ["return values"])
prop("Q37", "Single-server priority formulas equal the exact priority-queue moments",
     "For every set of class rates and service moments with total load below one, the M/G/1 non-preemptive and preemptive calculators return the exact wait and sojourn moments of each class (Kleinrock/Takacs), classes with equal laws satisfy the conservation law, one class reduces to M/G/1, and a higher class is never affected by lower preemptible classes; the multichannel calculators reduce to them (or to M/G/n) for one channel.",
     ["inputs"], "1-9 classes, loads 0.001-0.995, rates and means over four decades, coefficients of variation 0-6, 1-8 channels",
     "the test compares printed means on one symmetric parameter set",
     [T+"priority_calc.py"], [("get_w1_np/get_w_np/get_v_np/get_w1_pr/calc_pr1/get_w_prty_invar", T+"priority_calc.py")], ["return values"])
prop("Q38", "Maximum-of-parts moments and fork-join approximations are exact where they claim",
     "The moments of the maximum of n independent (also delayed) part times equal the true moments for every family used, the split-join sojourn equals M/G/1 with that maximum, and the fork-join approximations return the exact known value for two exponential channels (Varma, the (n,k) and Varki-Merchant formulas also for one), agree with their published formulas for all n, and reduce the (n,k) job to order statistics of independent exponentials where the formula says so.",
     ["inputs"], "1-60 parts, all families and delays",
     "tests check n=3 at one load with tolerance 10%",
     [T+"fj_calc.py"], [("getMaxMoments/getMaxMomentsDelta/get_v1_*", T+"fj_calc.py")], ["return values"])
prop("Q39", "Network analysis solves the traffic equations and sums node sojourns",
     "For every routing the network calculator's node intensities solve the traffic balance equations for each class, node loads follow from them, and the network mean sojourn of each class is the sum over nodes of visit ratio times node sojourn of that class (in every permutation of node priorities); a network of exponential FIFO-equivalent nodes reproduces Jackson's means.",
     ["inputs"], "1-6 nodes, 1-4 classes, all substochastic routings and class permutations",
     "one network with one routing compared to simulation within 10% for class 0",
     [T+"network_calc.py"], [("balance_equation/network_prty_calc", T+"network_calc.py")], ["return values"])
prop("Q40", "Priority busy-period solvers agree with the multi-class Markov chains",
     "The M/M/n two-class, M/M/2 three-class and M/Ph/n two-class preemptive solvers return level probabilities summing to one that equal the stationary solution of the Markov chain in which busy periods of the higher classes are replaced by two-phase (Cox or H2) laws with the same transition probabilities and first three conditional moments; the highest class is the exact stand-alone queue, mean numbers of the lowest class agree with the exact multi-class chain within a fraction of a per cent, mean sojourn times satisfy Little's law, and equal service rates give the difference of two M/M/n queues. Domain: stable loads where every busy period has a genuine two-phase fit (positive real rates, branching probability in [0, 1]).",
     ["inputs"], "total load 0.1-0.85, n 1-6 (M/Ph/n: 1-3), service rates of classes within a factor 4, any unit of time",
     "one parameter set each, mean sojourn compared within 10-20% to simulation",
     [T+"mmn_prty_pnz_approx.py", T+"mmn3_pnz_cox_approx.py", T+"m_ph_n_prty.py"], [("run/get_p/get_second_class_v1", T+"mmn_prty_pnz_approx.py etc.")], ["return values"])
prop("Q41", "Moment algebra of sums and differences is exact",
     "The moments of a sum of independent variables, of an n-fold sum and of the deconvolution (difference inverting a sum) returned by the convolution helpers equal the exact binomial expressions, so that subtracting a summand's moments from a sum's moments restores the other summand's moments.",
     ["inputs"], "all moment lists of length >= 1 up to the supported order, all n",
     "no test calls the helpers",
     ["most_queue/general_utils/conv.py"], [("get_moments/get_self_conv_moments/get_moments_minus", "most_queue/general_utils/conv.py")], ["return values"])
prop("Q42", "Numerical helpers return the mathematical quantity they name",
     "The five-point derivative is exact for the local polynomial it interpolates, the Poisson-arrival count probabilities during Gamma, Uniform and Pareto intervals are the true mixed-Poisson probabilities, Student coefficients match the t distribution to table accuracy, flow-sum moments of Poisson flows are Poisson and those of two H2 flows exact, the semi-invariants of the counts add up in the semi-invariant method, and several flows are folded one after another, with the partial sums and their coefficients of variation kept.",
     ["inputs"], "all tabulated functions, rates, parameters, confidence levels in the table",
     "no test calls them directly",
     [T+"utils/diff5dots.py", T+"utils/q_poisson_arrival_calc.py", T+"utils/student_stat.py", T+"utils/binom_probs.py", T+"utils/flow_sum.py"], [("diff5dots, get_q_Gamma/get_q_uniform/get_q_Pareto", T+"utils/")], ["return values"])
prop("Q43", "Passage-time moments between Markov levels equal first-passage moments",
     "For every level-structured Markov chain given by its up, down and within-level rates, the passage-time calculator's transition probabilities and conditional first three moments of the time to go one level down, and any number of levels down, equal those of the chain's true first passage.",
     ["inputs"], "all stable level chains with 1-4 states per level and up to 6 levels",
     "only exercised inside priority solvers whose outputs are compared with 10% tolerance",
     [T+"utils/passage_time.py"], [("passage_time_calc.calc", T+"utils/passage_time.py")], ["return values"])
prop("Q44", "Calculators are pure: no argument is changed, repeated calls agree",
     "No calculator, fitting function or simulator setter modifies its arguments, results do not depend on what was computed before, calling a result getter twice gives the same answer, getters never disturb a simulation in progress, and a calculation draws nothing from and never reseeds the process-wide random number generators, so a seeded simulation gives the same result whatever is calculated beside it.",
     ["histories", "inputs"], "all public functions, arguments, call orders",
     "tests call each function once with fresh arguments",
     [T+"priority_calc.py", T+"network_calc.py", T+"mgn_tt.py", RD, S+"qs_sim.py"], [("every public function", "most_queue/theory, most_queue/sim")], ["arguments before/after, return values"])
prop("Q45", "Results scale with the unit of time",
     "If all times are multiplied by c (all rates divided by c) then every calculator's probabilities stay the same and its k-th time moments are multiplied by c to the power k.",
     ["inputs"], "all calculators, c over several orders of magnitude",
     "tests use time units near one only, so absolute thresholds and mixed units stay hidden",
     [T+"mg1_calc.py", T+"gi_m_1_calc.py", T+"gi_m_n_calc.py", T+"mgn_tt.py", T+"priority_calc.py", T+"fj_calc.py", RD], [("every calculator", "most_queue/theory")], ["return values"])
prop("Q46", "Simulators and calculators of the same model agree statistically",
     "For every model that the package can both simulate and calculate exactly (M/G/1, M/G/1 with warm-up, M/M/n/r, GI/M/n, M/D/n, Ek/D/n, M/H2/n(/r), queues with warm-up, cooling and cooling delay, batch arrivals, finite source, impatience, single-server priorities, split-join and two-part fork-join, Jackson networks), long simulations with the package's own random laws agree with the calculated moments and probabilities within the statistical error of the simulation, for every parameter set and unit of time.",
     ["inputs", "histories", "configurations"], "random parameter sets for each simulated model with a calculator, time units over four decades",
     "tests fix one parameter set per model and accept 10-300% differences",
     [S+"qs_sim.py", S+"priority_queue_sim.py", S+"priority_network.py", S+"fj_sim.py", S+"batch_sim.py", S+"impatient_queue_sim.py", S+"queue_finite_source_sim.py", RD, T+"mg1_calc.py", T+"mgn_tt.py", T+"priority_calc.py"],
     [("whole pipelines", "most_queue/sim, most_queue/theory")], ["simulation results vs calculator results"])
prop("Q47", "Reports, tables and graphs show the numbers they are about",
     "The text reports of the simulators (long and short form) show under each heading the current value of that quantity: clock, load, sojourn, wait and busy-period moments, state probabilities, counts of arrived, served, dropped, waiting jobs, arrival times, servers and the job that will leave first. The comparison tables print every moment, probability and class once and in order, calculated and simulated values each in its own column, the real part of complex values; "
     "the tables, files and curves of the vacation studies keep and reload every value; the moments listed by the approximation script are those of the law it describes and of its approximations; the graph of a network has exactly one edge, with its weight, per non-zero transition.",
     ["histories", "inputs", "configurations"], "every simulator state (busy, idle, full, with and without buffer, many classes), tables of any length and value size, transition matrices of any shape",
     "no test looks at a report, a table or a graph; they are printed and never read",
     [S+"qs_sim.py", S+"priority_queue_sim.py", S+"impatient_queue_sim.py", S+"queue_finite_source_sim.py", S+"utils/servers.py", "most_queue/general_utils/tables.py", "most_queue/general_utils/vacations_paper_utils.py", "most_queue/general_utils/approx_cdf_make.py", T+"network_viewer.py"],
     [("__str__ of simulators and servers", S+"*.py"), ("times_print, probs_print, times_print_with_classes", "most_queue/general_utils/tables.py"), ("create_DG", T+"network_viewer.py")],
     ["printed text, files and graph objects"])

# ------------------------------------------------------------------ output
SIM = {"Q%02d" % i for i in list(range(1, 17))}
TECH_SIM = "runtime monitoring: online trace monitor and reference queue model over scripted, hostile random histories of the real simulator"
TECH_CALC = "runtime monitoring: exact-oracle monitor on return values of the real calculators over generated inputs (independent Markov-chain / transform solution as oracle)"
TECH = {"Q17": TECH_CALC, "Q20": "runtime monitoring: moment/validity monitor on fitted parameters over generated inputs",
        "Q21": "runtime monitoring: statistical and generator-use monitors on recorded sample streams",
        "Q22": "runtime monitoring: numerical consistency monitors on distribution functions over generated parameters and arguments",
        "Q44": "runtime monitoring: argument/state snapshots and repeat-call comparison around every public call",
        "Q45": "runtime monitoring: metamorphic (time-unit) monitor over paired runs of every calculator",
        "Q47": "runtime monitoring: printed reports, tables, files and graphs are read back and compared with the observed state",
        "Q46": "runtime monitoring: statistical monitor (replicated batches, z-bounds) of simulators against calculators"}
NOTE_SIM = ("Every event of the explored histories is judged exactly against an independent model; histories are random and hostile, not exhaustive. "
            "Trusts the reference model and the tape hook that scripts the deterministic law's values.")
NOTE_CALC = ("Values are compared with an independent exact solution on every generated input; inputs are sampled, not enumerated. Trusts numpy/scipy linear algebra and the oracle code.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NOT_APPLICABLE:
            na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
            continue
        if not os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
            na.append(dict(property=i, reason="no check yet"))
            continue
        tech, note = META[i]
        checks.append(dict(property=i, quick_cmd=f"./check.py {i}", thorough_cmd=f"./check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique=tech or TECH.get(i) or (TECH_SIM if i in SIM else TECH_CALC), level="exploration",
                           level_note=note or (NOTE_SIM if i in SIM else NOTE_CALC)))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy'", checks=checks, not_applicable=na,
             notes="No hooks are committed to /repo: monitors attach from outside (scripted time tapes, wrapped methods).")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")


NOT_APPLICABLE = {}
if __name__ == "__main__":
    main()
