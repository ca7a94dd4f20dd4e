#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = list(observe)
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SA = "qopt/solver_algorithms.py"; MA = "qopt/matrix.py"; TF = "qopt/transfer_function.py"
CF = "qopt/cost_functions.py"; NO = "qopt/noise.py"; OP = "qopt/optimize.py"; SI = "qopt/simulator.py"

p("C01", "Forward propagators are the ordered products of the step propagators",
  "For every solver with n time steps the forward propagators are n+1 operators: the first equals the initial state, and entry k+1 equals step propagator k multiplied from the left onto entry k. In particular the last one is P[n-1]...P[1]P[0] applied to the initial state.",
  ["inputs", "configurations"], "every number of time steps, operator dimension, initial state (operator or ket) and list of step propagators, for the Schroedinger, Monte-Carlo and Lindblad solvers",
  "Tests compare a handful of final propagators of 2-level systems, where a reversed product or a dropped step is often invisible because the steps commute.",
  [SA], [("Solver._compute_forward_propagation", SA), ("Solver.forward_propagators", SA)], ["solver.forward_propagators"])
p("C02", "Reversed propagators complete the evolution from any intermediate time",
  "The reversed propagators are n+1 operators starting with the identity, where entry j+1 is entry j multiplied from the right by the j-th last step propagator. Hence for every split point k, reversed entry n-k times forward entry k equals the final forward propagator.",
  ["inputs", "configurations"], "every number of steps, dimension, split point and list of step propagators, for all solvers; super operator solvers included",
  "Only used inside gradient tests with few steps; the identity for every split point and non-commuting steps is not asserted.",
  [SA], [("Solver._compute_reversed_propagation", SA)], ["solver.reversed_propagators"])
p("C03", "Step propagators are exp(-i(H_drift + sum_k u_k H_k) tau) for each step",
  "For a Schroedinger solver the t-th step propagator is the exponential, computed with the configured method (the Taylor methods apply to propagators computed without derivatives, those computed along with derivatives are exact), of tau_t times -i times (the t-th drift Hamiltonian plus the sum over controls k of the control amplitude u[t,k] times the k-th control Hamiltonian). The amplitudes u are the amplitude function applied to the transfer function applied to the pulse last set, and a single drift operator stands for a constant drift.",
  ["inputs", "configurations"], "every number of steps and controls, every amplitude array, time grid, drift list, exponential method, with or without derivative computation",
  "Tests use one or two controls, usually equal time steps and constant drift, so swapped indices of time and control or a wrong tau index survive.",
  [SA], [("SchroedingerSolver._compute_dyn_gen", SA), ("SchroedingerSolver._compute_propagation", SA), ("Solver.set_optimization_parameters", SA), ("Solver.__init__", SA)], ["solver.propagators"])
p("C04", "Propagator derivatives: one per control and time, in direction -iH_k",
  "The derivative propagators are nested by control first and time second; entry [k][t] is the derivative of step propagator t, by the configured method, in the direction -i times control Hamiltonian k over the duration of step t. With the first-order approximation selected (it takes effect only if the derivatives are not always calculated with the propagators), entry [k][t] is tau_t times that direction times step propagator t.",
  ["inputs", "configurations"], "every number of steps and controls (in particular different from each other), exponential methods, approximation setting, Schroedinger and Monte-Carlo solvers",
  "Existing gradient tests cover single layouts with the exact method; the approximation layout is not exercised when the number of controls and steps differ.",
  [SA], [("SchroedingerSolver._compute_propagation", SA), ("SchroedingerSolver._compute_propagation_derivatives", SA), ("SchroedingerSolver._compute_derivative_directions", SA)], ["solver.frechet_deriv_propagators"])
p("C05", "Monte-Carlo solvers evolve every noise trace with its own noise samples",
  "For every noise trace j, step t: the noisy step propagator is the exponential of tau_t times (the noise-free generator minus i times the sum over noise operators n of the noise sample [n, j, t], or of the value of the noise amplitude function [t, j, n], times operator n). Forward, reversed and derivative propagators per trace are built from that trace's step propagators, and the number of worker processes does not change the result.",
  ["inputs", "configurations", "schedules"], "every number of traces, steps, noise operators, noise amplitude function, serial or process-pool execution",
  "Tests average infidelities over traces of one or two noise operators; a transposed trace/time/operator index or a shared generator between traces is averaged away.",
  [SA], [("SchroedingerSMonteCarlo._compute_dyn_gen_noise", SA), ("SchroedingerSMonteCarlo._compute_propagation", SA), ("SchroedingerSMonteCarlo._compute_forward_propagation", SA), ("SchroedingerSMonteCarlo._compute_reversed_propagation", SA), ("SchroedingerSMCControlNoise.__init__", SA)], ["solver.propagators_noise", "solver.forward_propagators_noise"])
p("C06", "The Lindblad solver exponentiates the vectorised master equation generator",
  "For every step the Lindblad solver's generator is I(x)(-iH_t) + conj(-iH_t)(x)I plus the dissipator, which for jump operators L_k with prefactors a_k(t) is the sum of a_k(t) [conj(L_k)(x)L_k - 1/2 I(x)L_k^dag L_k - 1/2 L_k^T conj(L_k)(x)I], so that applied to a column-stacked density matrix it gives -i[H,rho] plus the Lindblad terms. Derivative directions are the derivative of this generator with respect to each control amplitude, including the prefactor derivative when one is supplied.",
  ["inputs", "configurations"], "every dimension, number of jump operators, prefactor function, user supplied dissipation super operators, number of steps and controls",
  "Tests use sigma_- or sigma_z type jump operators on one qubit for which several wrong transposes or conjugations coincide.",
  [SA], [("LindbladSolver._calc_diss_sup_op", SA), ("LindbladSolver._compute_dyn_gen", SA), ("LindbladSolver._compute_derivative_directions", SA), ("LindbladSolver._calc_diss_sup_op_deriv", SA)], ["solver.propagators"])
p("C07", "Solver results always belong to the current pulse and times",
  "After any sequence of setting pulses (including rejected ones), setting times (of the same number of steps) and reading results in any order, every result a solver returns equals what a freshly constructed solver returns for the current pulse and times. Reading results never changes later results, and changing the array the pulse was passed in afterwards has no effect.",
  ["histories", "fault_sequences"], "all interleavings of setting pulses (equal, different, mutated in place, invalid), setting times and reading propagators, forward, reversed and derivative propagators, on all solver types",
  "Tests build a solver, set one pulse and read one result; stale caches need a second pulse, a failed call or a particular reading order.",
  [SA, TF], [("Solver.set_optimization_parameters", SA), ("Solver.set_times", SA), ("Solver.reset_cached_propagators", SA), ("property getters", SA), ("MatrixTF.__call__", TF)], ["solver.propagators and the other result properties"],
  [("cached propagators", "None or the value for the current amplitudes", SA)])
p("C08", "Inputs handed to the library are never modified",
  "Computing propagators, derivatives, costs or gradients never changes the operators, lists, arrays and parameters the caller supplied (drift, control, noise and jump operators, dissipators, initial state, target, pulse, times, noise standard deviations, incoming derivative arrays).",
  ["inputs", "histories"], "every public computation on every solver, cost function, transfer and amplitude function and noise generator, for all inputs",
  "Tests do not compare inputs before and after; in-place operators on shared operands only show when the same operand is used again.",
  [SA, CF, TF, MA, NO], [("copying arithmetic of DenseOperator", MA), ("SchroedingerSolver._compute_dyn_gen", SA), ("LindbladSolver._calc_diss_sup_op", SA), ("NTGQuasiStatic.__init__", NO)], ["the caller's objects"])
p("C09", "Operator arithmetic agrees with matrix arithmetic and copies its operands",
  "For an operator as left operand and an operator, array or scalar as right one, and for products with a scalar on the left, the operations +, -, *, / return new operators holding the matrix sum, difference, product and quotient without changing or sharing memory with either operand, while the in-place forms store the same value in the left operand. Unsupported operand types are rejected.",
  ["inputs"], "all shapes compatible with the operation, all complex values, all supported scalar and array operand types including operand aliasing (A*A, A+A)",
  "The unit test checks a few 2x2 examples and no aliasing.",
  [MA], [("DenseOperator.__add__/__iadd__/__sub__/__isub__", MA), ("DenseOperator.__mul__/__rmul__/__imul__", MA), ("DenseOperator.__truediv__/__itruediv__", MA), ("DenseOperator.copy", MA)], ["returned operators"])
p("C10", "Adjoint, conjugate, transpose, Kronecker product, trace and identity",
  "The adjoint, conjugate and transpose have entries conj(A[j,i]), conj(A[i,j]) and A[j,i]; with copying requested the operand is unchanged and shares no memory that the result's in-place use could corrupt, without it the operand itself takes the value. The Kronecker product has entry [i*p+k, j*q+l] = A[i,j]B[k,l], the trace is the sum of diagonal entries and the identity has the operand's dimension.",
  ["inputs"], "all shapes (square and rectangular) and complex values, with and without copying",
  "Tests use symmetric or Hermitian 2x2 examples.",
  [MA], [("DenseOperator.dag", MA), ("DenseOperator.conj", MA), ("DenseOperator.transpose", MA), ("DenseOperator.kron", MA), ("DenseOperator.tr", MA), ("DenseOperator.identity_like", MA)], ["returned operators"])
p("C11", "Partial trace and subspace truncation select the right entries",
  "The partial trace over a set of subsystems equals the sum over those subsystems' basis states of the corresponding entries, with the remaining subsystems in their original order, for operators and for kets (taken as projectors). Truncation to a list of basis states returns exactly these rows and/or columns of an operator, bra or ket; rescaling makes truncated vectors unit-norm and truncated operators unitary.",
  ["inputs"], "all subsystem dimension lists, all subsets and orderings of subsystems to remove, all index lists, square operators, bras and kets",
  "Tests cover one bipartite and one tripartite example of equal dimensions and truncation of square operators.",
  [MA], [("DenseOperator.ptrace", MA), ("DenseOperator.truncate_to_subspace", MA), ("closest_unitary", MA)], ["returned operators"])
p("C12", "Vectorisation is invertible and super operators act as U rho U^dag",
  "Column-stacking a square matrix and converting back returns the original matrix, and entry i + d*j of the vector is entry [i, j] of the matrix. The super operator of a unitary U applied to the vectorised density matrix is the vectorised U rho U^dag.",
  ["inputs"], "all dimensions and complex matrices, operators and arrays",
  "One random 2-level example in the tests.",
  [MA], [("ket_vectorize_density_matrix", MA), ("convert_ket_vectorized_density_matrix_to_square", MA), ("convert_unitary_to_super_operator", MA)], ["returned operators"])
p("C13", "Matrix exponentials and their derivatives match the chosen method",
  "The spectral and Frechet methods return exp(tau A), the n-th order methods the Taylor polynomial of degree n (n = 1,2,3). The derivative returned for the same method is the directional derivative of exp(tau A) (of that Taylor polynomial) with respect to A in the given direction, for the method 'approx' a difference quotient of it, and the exponential returned along with the derivative is the exact exponential.",
  ["inputs"], "all square complex matrices with a complete eigenbasis (spectral) or arbitrary (others), all directions, durations tau, with and without the skew-Hermitian flag for skew-Hermitian matrices",
  "Tests compare one skew-Hermitian example per method; non-normal and degenerate matrices are not sampled.",
  [MA], [("DenseOperator.exp", MA), ("DenseOperator._exp_diagonalize", MA), ("DenseOperator.dexp", MA), ("DenseOperator._dexp_diagonalization", MA)], ["returned operators"])
p("C14", "Transfer function gradients are the exact transpose of the transfer",
  "Every transfer function is affine in the pulse, and its gradient conversion applied to derivatives with respect to the transferred pulse returns the derivatives with respect to the original pulse: for every pulse variation dy and derivative array g, the sum of g times the resulting variation of the transferred pulse equals the sum of the converted g times dy, separately per control and per cost function. The layout (time, cost function, control) is preserved.",
  ["inputs", "configurations"], "all transfer functions, numbers of steps and controls, oversampling, padding type and width, kernels, boundary modes, matrices, and all derivative arrays",
  "Tests check few fixed pulses in the interior; the identity must hold for all index pairs including boundaries.",
  [TF], [("OversamplingTF.gradient_chain_rule", TF), ("MatrixTF.gradient_chain_rule", TF), ("ConvolutionTF.gradient_chain_rule", TF), ("GaussianConvolution.gradient_chain_rule", TF), ("ConcatenateTF/ParallelTF.gradient_chain_rule", TF), ("ExponentialMTF.gradient_chain_rule", TF)], ["gradient_chain_rule"])
p("C15", "Transferred time grids have the right length and durations",
  "After setting n time steps the transferred grid has oversampling*n entries plus the padding of the boundary type, the reported number of transferred steps equals that length and the length of the transferred pulse, every original step is split into equal parts summing to its duration, and padding entries have the sub-step duration of the nearest original step. Absolute times are converted to their differences and unsorted ones are rejected.",
  ["inputs", "configurations"], "all time grids, oversampling factors, boundary types and widths, transfer functions and compositions",
  "Tests use equal steps and one or two boundary types.",
  [TF], [("TransferFunction.set_times", TF), ("TransferFunction.num_padding_elements", TF), ("TransferFunction.set_absolute_times", TF), ("CustomMTF.set_times", TF), ("ConcatenateTF.set_times", TF)], ["x_times, num_x"])
p("C16", "Transferred pulses follow the documented transfer rule",
  "The identity returns the pulse; oversampling repeats each value and pads with zeros; matrix transfer functions return sum_j T[i,j,k] y[j,k] plus the offset; the exponential transfer function (for equally long steps) saturates exponentially within every step from the previous value towards the new one with the given rise time, starting and ending at zero. Pulses of wrong shape or type are rejected.",
  ["inputs", "configurations"], "all pulses, oversampling, padding, offsets, rise times, numbers of controls",
  "Tests use one or two short pulses with one setting each.",
  [TF], [("OversamplingTF.__call__", TF), ("MatrixTF.__call__", TF), ("OversamplingMTF._calculate_transfer_matrix", TF), ("ExponentialMTF._calculate_transfer_matrix", TF), ("TransferFunction._check_dimensions_datatype", TF)], ["transfer_function(pulse)"])
p("C17", "Composed transfer functions act like their parts",
  "Concatenating two transfer functions gives the second applied to the first, and putting two in parallel applies each to its own block of controls, keeping the order of the controls; this holds for values, offsets, time grids and gradients, for the plain and the matrix versions alike.",
  ["inputs", "configurations"], "all pairs of compatible transfer functions, including nested compositions, offsets and different oversampling, and repeated setting of times",
  "Tests compose two or three fixed transfer functions without offsets.",
  [TF], [("ConcatenateTF", TF), ("ParallelTF", TF), ("ConcatenateMTF", TF), ("ParallelMTF", TF)], ["composed(pulse)", "composed.gradient_chain_rule"])
p("C18", "Amplitude functions convert derivatives by the chain rule",
  "For every amplitude function u(x) with correct derivative function, derivatives with respect to amplitudes are converted to derivatives with respect to the optimisation parameters by summing over the amplitudes at the same time step: result[t, f, m] = sum_j (du_j/dx_m)[t] * given[t, f, j]. Unary functions act elementwise on each entry and the identity passes values and derivatives through.",
  ["inputs"], "all arrays, numbers of time steps, cost functions, parameters and amplitudes (also different in number)",
  "Only square Jacobians and few entries are tested.",
  ["qopt/amplitude_functions.py"], [("UnaryAnalyticAmpFunc", "qopt/amplitude_functions.py"), ("CustomAmpFunc", "qopt/amplitude_functions.py"), ("IdentityAmpFunc", "qopt/amplitude_functions.py")], ["derivative_by_chain_rule"])
p("C19", "Infidelity cost functions return the documented infidelity",
  "State infidelity is 1-|<target|psi>|^2, entanglement infidelity 1-|tr(T^dag U)|^2/d^2 (for super operators 1-Re tr((conj(T)(x)T)^dag S)/d^2), optionally restricted to the computational states; noise versions return the mean over all noise traces against the target or the noise-free result. They lie in [0,1] for unitary evolutions, vanish when the result is the target, and are independent of a global phase.",
  ["inputs", "configurations"], "all unitaries, states, targets, dimensions, lists of computational states, numbers of noise traces",
  "Tests evaluate some gates of one qubit; normalisation, conjugation and index errors in higher dimensions or subspaces are not covered.",
  [CF], [("state_fidelity", CF), ("state_fidelity_subspace", CF), ("entanglement_fidelity", CF), ("entanglement_fidelity_super_operator", CF), ("StateInfidelity/OperationInfidelity/StateNoiseInfidelity/OperationNoiseInfidelity/LiouvilleMonteCarloEntanglementInfidelity.costs", CF)], ["costs()"])
p("C20", "Infidelity gradients are the exact derivatives of the costs",
  "Whenever the propagator derivatives are the exact derivatives of the step propagators, and without mapping to the closest unitary or rescaling truncated states, the gradient returned for an infidelity cost function has the layout (time, control) and each entry is the partial derivative of that cost function's value with respect to the control amplitude of that control in that step.",
  ["inputs", "configurations"], "all numbers of steps and controls, dimensions, initial states, targets, computational subspaces, noise traces with or without neglected systematic errors",
  "Tests compare numeric and analytic gradients at a few pulses of one system each.",
  [CF], [("derivative_state_fidelity", CF), ("derivative_state_fidelity_subspace", CF), ("derivative_entanglement_fidelity_with_du", CF), ("deriv_entanglement_fid_sup_op_with_du", CF), ("*.grad", CF)], ["grad()"])
p("C21", "Leakage costs measure the population leaving the computational space",
  "The leakage error is max(0, 1 - tr(P U P U^dag P)/d_c) of the evolution restricted to the d_c computational states (averaged over traces in the incoherent version; from the super operator, the leaked population of the averaged computational input in the Liouville version). Its gradient is the exact derivative, per time and control.",
  ["inputs", "configurations"], "all unitaries and super operators, dimensions, lists of computational states, traces, steps and controls",
  "Tests use one three-level example.",
  [CF], [("LeakageError", CF), ("IncoherentLeakageError", CF), ("LeakageLiouville", CF)], ["costs()", "grad()"])
p("C22", "Quasi-static noise: constant traces with the requested statistics",
  "Quasi-static samples have shape (operators, traces, samples per trace) and are constant along each trace. Deterministic sampling uses the quantiles of the normal distribution at (i+1/2)/n, varies exactly one operator at a time with n traces each and all others zero, and with correction enabled the sample standard deviation of each operator's n traces equals the requested one; Monte-Carlo sampling scales each operator's independent normal samples by its own standard deviation.",
  ["inputs", "configurations"], "all lists of standard deviations, numbers of traces and samples, both sampling modes, with and without correction, repeated construction from the same list",
  "Tests check one or two operators; mean values hide exchanged or repeated blocks.",
  [NO], [("NTGQuasiStatic", NO), ("sample_1dim_gaussian_distribution", NO), ("inverse_cumulative_gaussian_distribution_function", NO), ("bell_curve_1dim", NO)], ["noise_samples"])
p("C23", "Coloured noise filters white noise with the requested spectral density",
  "Coloured samples of n points are the inverse real Fourier transform of the transform of unit white noise multiplied, at frequency f, by the square root of S(f)/(2 dt), with zero mean component removed, where the frequencies run from 0 to 1/(2 dt). The result has the requested shape; traces are cached unless redrawing is requested; a low-frequency extension samples a longer trace and cuts it.",
  ["inputs", "configurations"], "all spectral densities, time steps, numbers of samples (even and odd), traces and operators and extension ratios; conditional on the white noise drawn",
  "The test compares averaged periodograms with a loose tolerance.",
  [NO], [("fast_colored_noise", NO), ("NTGColoredNoise._sample_noise", NO), ("NoiseTraceGenerator.noise_samples", NO)], ["noise_samples"])
p("C24", "The simulator concatenates costs and chains gradients in one order",
  "The cost vector is the concatenation of the flattened values of all cost functions in their given order after handing the pulse to every solver, and the jacobian with layout (time, cost, parameter) holds, for the same cost indices, each cost function's gradient converted through its own solver's amplitude function and transfer function. The numeric gradient holds the finite difference quotient for each entry in the same layout, and statistics record one time per cost function and call without changing any value.",
  ["inputs", "configurations"], "all lists of cost functions (scalar or vector valued) and solvers, pulses, statistics on or off, numeric or analytic jacobian",
  "Integration tests use one solver with one or two scalar costs.",
  [SI], [("Simulator.wrapped_cost_functions", SI), ("Simulator.wrapped_jac_function", SI), ("Simulator.numeric_gradient", SI), ("Simulator.pulse", SI)], ["wrapped_cost_functions", "wrapped_jac_function"])
p("C25", "Optimisers translate pulses, weights and bookkeeping consistently",
  "The flat parameter vector an optimiser works on is the pulse read control by control and is converted back to exactly that pulse; the jacobian's columns follow the same order; costs and jacobian rows are both multiplied by the cost function weights. Saved intermediate costs, parameters and gradients are the unweighted values of each evaluation, later evaluations never alter them, and the best evaluation is tracked.",
  ["inputs", "histories"], "all pulse shapes, weights, sequences of evaluations, with or without saved steps, vector and scalar optimisers",
  "Tests inspect only the final result of some optimisations.",
  [OP], [("Optimizer.cost_func_wrapper", OP), ("Optimizer.cost_jacobian_wrapper", OP), ("ScalarMinimizingOptimizer.*_wrapper", OP)], ["wrapper return values", "optim_iter_summary"])
p("C26", "Optimisation results report the state the run ended in, per optimiser",
  "An optimisation returns the final pulse in the layout of the initial pulse together with the final costs, status and reason reported by the algorithm; when the wall time is exceeded it instead returns the best evaluated pulse, the one with the smallest norm of its unweighted costs, with these costs, whatever the number of controls and weights. Termination conditions given to one optimiser hold for it and never change those of other optimisers.",
  ["inputs", "configurations", "fault_sequences"], "all optimisers, pulse shapes, termination conditions, points in the run at which the wall time is exceeded, sequences of constructed optimisers",
  "Tests run optimisations to convergence with one optimiser at a time.",
  [OP], [("Optimizer.__init__", OP), ("Optimizer.write_state_to_result", OP), ("*.run_optimization", OP)], ["OptimizationResult"])
p("C27", "Results survive collection, conversion and storage unchanged",
  "Appending results to a data container keeps one entry per result in every field, in order, and refuses results with different cost labels; converting a result to a dictionary and back, writing a container to a file and reading it, and deep-copying it preserve every field. A deep copy shares no mutable state with the original.",
  ["inputs", "histories"], "all result contents (with and without saved steps) and sequences of appends, conversions and copies",
  "Not covered by the unit tests beyond attribute access.",
  ["qopt/data_container.py", "qopt/optimization_data.py"], [("DataContainer", "qopt/data_container.py"), ("OptimizationResult.to_dict/from_dict", "qopt/optimization_data.py")], ["container fields"])
p("C28", "Analysis aggregates are computed over the right axes and runs",
  "The best run is the one with the smallest sum of squared final costs; absolute costs are the root of the sum of squared costs per run and iteration, undefined after the end of shorter runs; evaluation times are summed per cost function and over runs, and time shares are the ratio of evaluation time to total optimisation time.",
  ["inputs"], "all numbers of runs, iterations (at least one, different per run) and cost functions",
  "Tests do not check the numbers.",
  ["qopt/analyser.py"], [("Analyser", "qopt/analyser.py")], ["Analyser methods"])
p("C29", "Annealing moves stay inside the bounds and within the step size",
  "For integer valued pulses and bounds every proposed annealing move changes each pulse entry by an integer of magnitude at most the step size, keeps every entry within the lower and upper bound once it started there, and does not modify the previous state. The energy is the norm of the cost vector of the current state.",
  ["inputs", "histories"], "all integer pulses within bounds, bounds arrays, step sizes, step ratios, random draws and sequences of moves",
  "Randomised and not asserted anywhere.",
  [OP], [("PulseAnnealer.move", OP), ("PulseAnnealer.energy", OP), ("SimulatedAnnealing", OP)], ["annealer.state"])
p("C30", "Parallel optimisation returns one independent result per initial pulse",
  "Running an optimiser over several initial pulses in parallel returns one result per pulse, in the order of the pulses, equal to running the optimiser on that pulse alone; runs do not share state and the given optimiser is unchanged.",
  ["inputs", "schedules"], "all lists of initial pulses, any number of processes and completion order",
  "The tests do not run it.",
  ["qopt/parallel.py"], [("run_optimization_parallel", "qopt/parallel.py")], ["returned DataContainer"])
p("C31", "Filter function pulse sequences describe the solver's current pulse",
  "The pulse sequence a solver hands to the filter function package holds, for the current pulse and times, every control operator with its own control amplitudes, the given noise operators with their own coefficients and identifiers (for Monte Carlo solvers without given ones its noise operators with unit coefficients), the step durations, and the eigen decomposition and cumulative propagators of drift plus controls. The filter function infidelity and its gradient are requested for this sequence, with the spectral density at the frequencies, for all noise operators in the given order; the gradient has the layout (time, cost, control).",
  ["inputs", "histories"], "all operators, pulses, times, noise operators with any identifiers given as list or function, repeated creation after changed pulses",
  "Tests compare one infidelity of one fixed system and create each pulse sequence once.",
  [SA, CF], [("Solver.create_pulse_sequence", SA), ("Solver.create_ff_h_n", SA), ("SchroedingerSMonteCarlo.create_ff_h_n", SA), ("OperatorFilterFunctionInfidelity", CF)], ["pulse_sequence", "costs()", "grad()"])
p("C32", "Operator distances ignore the global phase of the evolution",
  "The operator norm cost compares the final propagator, multiplied by the phase factor that makes its first element real and positive, with the target: as vector it returns all real parts followed by all imaginary parts of the difference in row order, labelled accordingly, as scalar the sum of the moduli. In the mode rotation_axis the result is the difference of angle times axis, where angle in [0, pi] and unit axis reproduce the unitary up to a phase. The average gate fidelity is (|tr(U^dag T)|^2+d)/(d(d+1)).",
  ["inputs"], "all final propagators and targets, dimensions and global phases",
  "These cost functions have no test.",
  [CF], [("OperatorMatrixNorm", CF), ("angle_axis_representation", CF), ("averge_gate_fidelity", CF)], ["costs()", "label"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
