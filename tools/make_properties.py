"""Writes /verif/properties.jsonl (one entry per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=observe, hook_needed=None)))
I, C, H = 'inputs', 'configurations', 'histories'
VS = 'tmdsimpy/vibration_system.py'; HU = 'tmdsimpy/utils/harmonic.py'

prop('C01', 'Jacobians of all steady-state residuals are the exact derivatives',
 "Every steady-state residual (harmonic balance, forced by scaled load, base excited, nonlinear-mode, superharmonic phase condition, amplitude/phase controlled, static) returns, for every system, harmonic list and evaluation point where it is differentiable, a Jacobian with respect to the unknowns and a derivative with respect to the control parameter equal to the true partial derivatives of the residual it returns.",
 [I, C], 'all DOF counts, mass/damping/stiffness matrices, harmonic lists with or without the zeroth harmonic, loads, control options and evaluation points',
 'Tests difference a handful of 2-3 DOF systems at a few points; the derivative identity must hold for every shape, harmonic list and point.',
 [VS, HU], [('residual functions', VS+': hbm_res, hbm_res_dFl, hbm_base_res, epmc_res, vprnm_single_eqn, vprnm_res, hbm_amp_control_res, hbm_amp_phase_control_res, hbm_amp_phase_control_dA_res, vprnm_amp_phase_res, static_res'), ('sum of element forces', VS+': total_aft')],
 ['returned tuples (R, dRdX, dRdlam)'])
prop('C02', 'Residuals are the force balance plus the stated constraint equations',
 "Each steady-state residual equals dynamic stiffness times harmonic displacement plus harmonic nonlinear force minus external load, followed by exactly the documented constraint rows (mass normalisation and phase for nonlinear modes, orthogonality of superharmonic force and response, commanded amplitude and zero phase for controlled responses); static load is never scaled with the dynamic load. Asking for no gradient returns the identical residual, and no input array is modified.",
 [I, C], 'all systems, harmonic lists, loads, control amplitudes and orders, constraint scales and modal filters',
 'Tests check solutions of a few problems; a wrong constraint row, scaling or dropped static load is invisible for harmonic lists and loads that are not sampled.',
 [VS], [('residual rows', VS+': same functions as C01'), ('static/dynamic load split', VS+': hbm_res_dFl, epmc_res, vprnm_res, hbm_amp_control_res, hbm_amp_phase_control_res')],
 ['returned residual R', 'arguments after the call'])
prop('C03', 'Fourier synthesis and analysis are exact and mutually inverse',
 "The time series (and its time derivatives of any order) built from harmonic coefficients equals the corresponding cosine and sine sums at every sample, and extracting harmonic coefficients from a series returns exactly the coefficients of the listed harmonics, so synthesis followed by analysis is the identity. The array-library and the automatic-differentiation versions agree.",
 [I, C], 'all harmonic lists (gaps, with or without zero), coefficient matrices, numbers of columns, derivative orders and admissible sample counts',
 'Tests compare a few stored reference arrays; aliasing, ordering or scaling slips show only for particular harmonic lists or sample counts.',
 [HU, 'tmdsimpy/jax/harmonic_utils.py'], [('synthesis', HU+': time_series_deriv'), ('analysis', HU+': get_fourier_coeff'), ('JAX versions', 'tmdsimpy/jax/harmonic_utils.py')],
 ['returned arrays'])
prop('C04', 'Harmonic dynamic stiffness represents M, C, K exactly in frequency domain',
 "For every harmonic list the dynamic stiffness matrix maps harmonic displacement coefficients to the harmonic coefficients of mass times acceleration plus damping times velocity plus stiffness times displacement, with no coupling between harmonics, and its frequency derivative is exact. The damping-only option contains exactly the damping part, and the number of harmonic components is one per zeroth and two per other harmonic.",
 [I, C], 'all matrices (also nonsymmetric), frequencies and harmonic lists',
 'Tests compare one stored matrix per case; the law must hold for every matrix, frequency and list.',
 [HU], [('assembly', HU+': harmonic_stiffness'), ('component count', HU+': Nhc')], ['returned E, dEdw'])
prop('C05', 'Instantaneous force laws follow their constitutive formulas with exact slopes',
 "Each memoryless element (cubic, quintic, polynomial, one-sided spring, cubic damper, conservative Iwan backbone) returns the force of its documented law at every displacement or velocity, with the exact derivative wherever the law is smooth, odd laws staying odd and saturating laws never exceeding their limit. The static evaluation and the time-history evaluation give the same local forces.",
 [I, C], 'all parameters, displacements/velocities of either sign, element counts and DOF maps',
 'Tests sample a few amplitudes and one parameter set per element.',
 ['tmdsimpy/nlforces/cubic_stiffness.py','tmdsimpy/nlforces/quintic_stiffness.py','tmdsimpy/nlforces/general_poly_stiffness.py','tmdsimpy/nlforces/unilateral_spring.py','tmdsimpy/nlforces/cubic_damping.py','tmdsimpy/nlforces/iwan_bb_conserve.py'],
 [('force laws','force and local_force_history of each class')], ['returned force and derivative arrays'])
prop('C06', 'Harmonic element forces are the harmonics of the local force on the motion',
 "The alternating frequency-time evaluation of an element returns the harmonic coefficients of the local force along the motion synthesised from the harmonic displacements, mapped through the element's displacement and force maps, and returns the exact derivatives with respect to every harmonic displacement and to frequency. The element sum of a system is the plain sum over its elements, with or without gradients.",
 [I, C], 'all harmonic lists, sample counts, DOF maps, numbers of local DOFs, frequencies and motions',
 'Tests use fixed maps and one harmonic list per element; layout mistakes show only for several local DOFs or lists without zero.',
 ['tmdsimpy/nlforces/nonlinear_force.py','tmdsimpy/nlforces/general_poly_stiffness.py', VS],
 [('AFT', 'nonlinear_force.py: InstantaneousForce.aft, HystereticForce.aft; general_poly_stiffness.py: GenPolyForce.aft'), ('sum', VS+': total_aft')],
 ['returned Fnl, dFnldU, dFnldw'])
prop('C07', 'Coulomb slider (Jenkins) obeys stick/slip law, limit and history at all times',
 "At every instant the slider force is the previous force plus stiffness times displacement increment, limited to plus or minus the slip force, and its derivative is that of the active branch (stick or slip) including the dependence carried by the history. Static evaluations update history only when asked, resetting history returns to zero state, and the frictionless-prestress switch is undone exactly.",
 [I, H], 'all displacement histories (any number of reversals), stiffness, slip limits and initial slider positions, in both implementations',
 'Tests follow a few sinusoidal cycles; the law must hold at every instant of every history.',
 ['tmdsimpy/nlforces/jenkins_element.py','tmdsimpy/nlforces/nonlinear_force.py','tmdsimpy/jax/nlforces/jenkins_element.py'],
 [('step', 'jenkins_element.py: force, instant_force, instant_force_harmonic'), ('cycle loop','nonlinear_force.py: HystereticForce.local_force_history'), ('JAX loop','jax/nlforces/jenkins_element.py: _local_jenkins_loop_body, _local_aft_jenkins')],
 ['local force history', 'force and derivative'], [('up, fp','previous displacement and force','jenkins_element.py')])
prop('C08', 'Iwan element is its weighted slider set and stays within its strength',
 "The Iwan force is the weighted sum of sliders each following the stick/slip law with its own limit, so it never exceeds the macroslip strength (up to the stated quadrature error) and has the full initial stiffness from a reset state; its derivative is that of the active sliders including the history. Slider positions and weights discretise the stated distribution for every discretisation setting.",
 [I, H, C], 'all displacement histories, parameters of the distribution, slider counts and spacing ratios',
 'Tests use one parameter set and few cycles.',
 ['tmdsimpy/nlforces/iwan4_element.py','tmdsimpy/nlforces/nonlinear_force.py'],
 [('discretisation','iwan4_element.py: __init__'),('step','iwan4_element.py: instant_force, instant_force_harmonic, force')],
 ['force, derivative, slider forces'], [('up, fpsliders','previous displacement and slider forces','iwan4_element.py')])
prop('C09', 'Vectorised hysteresis evaluations equal the step-by-step evaluations',
 "The vectorised Coulomb-slider and Iwan evaluations (and the automatic-differentiation ones) return, for every periodic motion, the same steady-state forces and derivatives as the element that marches through all instants.",
 [I, H], 'all periodic displacement series (several reversals, reversals at the ends of the series, plateaus, slip or stick, monotonic segments across the period end), parameters and initial slider positions',
 'Tests compare a few smooth motions; the vectorised forms branch on where reversals fall in the series.',
 ['tmdsimpy/nlforces/vector_jenkins.py','tmdsimpy/nlforces/vector_iwan4.py','tmdsimpy/jax/nlforces/vector_jenkins.py'],
 [('reversal search and segment fill','local_force_history in vector_jenkins.py and vector_iwan4.py'),('JAX','jax/nlforces/vector_jenkins.py: _local_aft_jenkins')],
 ['local force history and derivative', 'harmonic force and derivative'])
prop('C10', 'Elastic dry friction never pulls and stays within the Coulomb limit',
 "In two and three dimensions and at every instant the normal force is the contact stiffness times penetration past the gap and zero when separated, the tangential force in each direction is the stick prediction from the saved state limited to the friction coefficient times the current normal force, and derivatives follow the active branch. The frictionless-prestress switch gives zero tangential force and is undone exactly; history changes only when asked.",
 [I, H, C], 'all displacement histories, stiffnesses, friction coefficients, gaps and initial slider positions, static and harmonic evaluations',
 'Tests compare a few motions with another implementation; the limits must hold at every instant.',
 ['tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py','tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py'],
 [('static step','_local_eldy_force, force'),('cycle loop','_local_eldry_loop_body, _local_force_history'),('harmonic','aft, _local_aft_eldry')],
 ['force, derivative, local force history'], [('up, fp','saved tangential displacement and force','elastic_dry_fric_*.py')])
prop('C11', 'Rough contact forces are unilateral, history consistent and friction limited',
 "For every asperity the normal force and contact radius are zero when separated and nonnegative otherwise, follow the elastic law below yield, and unload along a curve that meets the recorded maximum load point; the tangential force stays within the friction coefficient times the normal force (or pressure), and the totals are the weighted sums over the gap distribution. Derivatives match the forces, history changes only when asked, and the frictionless-prestress switch is undone exactly.",
 [I, H, C], 'all displacement histories, material parameters, gap distributions and both tangential models',
 'Tests compare stored MATLAB results for a few load cases.',
 ['tmdsimpy/jax/nlforces/roughcontact/rough_contact.py','tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py'],
 [('asperity laws','_asperity_functions.py'),('static step','rough_contact.py: _static_force, force'),('cycle loop','rough_contact.py: _local_loop_body, _local_force_history')],
 ['force, derivative, auxiliary outputs, local history'], [('unmax, Fm_prev, fxy0, uxyn0','contact history','rough_contact.py')])
prop('C12', 'Continuation returns only converged points and keeps its step and call protocol',
 "Every returned point (also those passed to the user callback) is one the nonlinear solver reported as converged, the first at the requested start value; the run stops at a failed step, the step limit, the end value or the backtracking limit, and steps stay within the configured minimum and maximum. The callback sees each point once in order with an undefined direction first and an undefined point last, and suppressing output changes nothing else, including the settings the caller passed.",
 [H, C, 'fault_sequences'], 'all problems, solver success/failure patterns, iteration counts, configurations and both directions',
 'Tests run well-behaved problems where few steps fail; the protocol must hold for every pattern of failures.',
 ['tmdsimpy/continuation.py','tmdsimpy/utils/continuation.py'], [('main loop','continuation.py: Continuation.continuation'),('callback list','utils/continuation.py: combine_callback_funs')],
 ['returned array', 'callback arguments', 'standard output'], [('ds','current arc length step','continuation.py: continuation')])
prop('C13', 'Arc-length predictor and corrector equations are consistent',
 "The corrector system appends to the scaled residual exactly the arc-length (or orthogonality) equation of the conditioned space, with its exact Jacobian, in both options and for every scaling vector. The predictor is tangent to the solution curve, has unit length in the same weighted norm, and points along the previous step, so travelling the step from the previous point satisfies the corrector's equation.",
 [I, C], 'all residual functions, points, scalings, weights and step sizes',
 'Tests run continuation on a few problems and never compare the augmented Jacobian or norm for general scalings.',
 ['tmdsimpy/continuation.py'], [('predictor','continuation.py: predict'),('corrector','continuation.py: correct_res, pseudo_arc_res, orthogonal_arc_res')],
 ['returned residuals, Jacobians, directions'])
prop('C14', 'Nonlinear solver claims success only when a requested tolerance is met',
 "The iterative solver reports success only if one of the requested stopping tolerances (or, at the iteration limit, accepting tolerances) holds for the last step, never after an undefined residual, Jacobian or step, and never uses more iterations than allowed; the returned point is the last iterate, counts of evaluations are exact, and its configuration is unchanged by a solve. The line search returns a step fraction in (0,1], within its iteration limit, that respects the sign option.",
 [I, C, 'fault_sequences'], 'all functions (including ones producing undefined values), start points, tolerance lists, reform frequencies and line-search settings',
 'Tests solve smooth problems to default tolerances.',
 ['tmdsimpy/jax/solvers.py'], [('iteration','jax/solvers.py: nsolve'),('tolerances','jax/solvers.py: _check_convg'),('line search','jax/solvers.py: line_search')],
 ['returned X, R, sol dictionary', 'config'], [('config','solver settings','jax/solvers.py')])
prop('C15', 'Linear solves, eigenproblems and variable scaling are exact and stateless',
 "Linear solves (direct or through a stored factorisation, for one or several right sides) satisfy the given system, eigen solutions satisfy the generalised problem with mass-orthonormal vectors in ascending order, and scaled problems return the residual and Jacobian of the scaled function. No call alters its arguments or the result of a later call.",
 [I, H, C], 'all nonsingular matrices, symmetric pairs, requested mode ranges, scaling vectors, functions and call sequences',
 'Tests call each once with one size.',
 ['tmdsimpy/solvers.py','tmdsimpy/jax/solvers.py'], [('wrappers','solvers.py: lin_solve, lin_factor, lin_factored_solve, eigs, conditioning_wrapper, _conditioned_fun, nsolve; jax/solvers.py: lin_*')],
 ['returned arrays', 'arguments after the call'])
prop('C16', 'Interpolated solution curves reproduce the data and respect their range',
 "Linear interpolation returns the stored rows at stored reference values, the straight-line blend between neighbouring rows elsewhere and undefined rows outside the range; cubic interpolation passes through every stored solution with the stored slopes and is exact for cubic data. Upsampling keeps the original points and end points, inputs are unmodified, and non-monotonic or out-of-range requests are rejected.",
 [I, C], 'all monotonic data sets, query values (scalar or array, order, repeats, outside) and upsampling factors',
 'Tests use one data set.',
 ['tmdsimpy/postprocess/continuation.py'], [('interpolation','postprocess/continuation.py: linear_interp, hermite_interp, hermite_upsample')], ['returned arrays'])
prop('C17', 'Phase rotation of a harmonic solution is a pure time shift',
 "Rotating a solution by a phase defined at one harmonic shifts the synthesised motion in time: every harmonic keeps its amplitude, its phase moves in proportion to its order, zeroth-harmonic and trailing columns stay untouched, successive rotations add and the inverse rotation restores the input, which is not modified. Wrapped phases lie in [-pi, pi) and differ from the input by whole turns; sign changes are flagged exactly at the first index of each changing pair below the tolerance.",
 [I, C], 'all harmonic lists, solution sets, phases (scalar or per row) and reference harmonics',
 'Tests rotate one solution; wrapping and crossing helpers are documented as untested.',
 [HU], [('rotation', HU+': rotate_subtract_phase'), ('wrap', HU+': shift_pm_pi'), ('crossing', HU+': zero_crossing')], ['returned arrays'])
prop('C18', 'Nonlinear-mode reduced model satisfies the modal balance it is built on',
 "Every response point built from a nonlinear-mode backbone satisfies the single-mode force balance at its frequency with the backbone's frequency, damping and shape at that amplitude, carries the phase of that balance, and reproduces backbone shape times amplitude (static part unscaled); points with no real frequency are left out and none that has one is lost. The constant-displacement variant returns the force that holds the commanded amplitude, undefined outside the backbone.",
 [I, C], 'all backbones, forces (cosine and sine), optional frequency, damping and modal force inputs, harmonic lists with or without zero',
 'Tests compare a few full solutions within loose tolerance.',
 ['tmdsimpy/roms/epmc.py'], [('constant force','roms/epmc.py: constant_force'),('constant displacement','roms/epmc.py: constant_displacement')], ['returned responses, amplitudes, phases, forces'])
prop('C19', 'Superharmonic reduced model reproduces its backbones at the resonance',
 "The superharmonic reduced response is the sum of the fundamental mode held at the commanded amplitude and the superharmonic mode's response, placed in the right harmonics of the output list, phase aligned with the resonance backbone, and at the resonance frequency it has the backbone's superharmonic amplitude (up to the interpolation of shapes between backbone rows); the force correction makes the predicted force equal the backbone's there and is proportional to superharmonic amplitude elsewhere. Inputs are unmodified.",
 [I, C], 'all consistent backbones, harmonic lists, superharmonic orders, control points, both backbone formats and extra frequency points',
 'Tests compare one example against a full solution.',
 ['tmdsimpy/roms/vprnm.py','tmdsimpy/roms/epmc.py'], [('reconstruction','roms/vprnm.py: constant_h1_displacement, _extract_harmonic_amplitude')], ['returned responses, force, harmonic list'])
prop('C20', 'Linear frequency responses solve the linear equations of motion',
 "With all modes retained, the linear response to a cosine/sine load, and to prescribed base motion, satisfies the linear harmonic balance of the free degrees of freedom at every frequency; with fewer modes it is the modal truncation. Asking for more modes than exist gives the full response, and output is ordered cosine, sine, frequency for every number of frequencies.",
 [I, C], 'all symmetric positive definite mass/stiffness pairs with proportional damping, loads, base sets, frequencies and mode counts',
 'Tests check one system and one base DOF with diagonal mass.',
 [VS], [('modal sums', VS+': linear_frf, linear_frf_base')], ['returned responses'])
prop('C21', 'Initial guesses meet the amplitude, phase and static conditions asked for',
 "Predicted starting points hold the linear response in the first harmonic with unknowns in the order of the requested formulation; amplitude-controlled guesses have exactly the commanded amplitude measure and phase-controlled ones exactly zero sine part, with the load components that produce them under the linear model. A supplied static solution fills the zeroth harmonic and all other entries are zero, except the superharmonic entries of the superharmonic formulation.",
 [I, C], 'all formulations, harmonic lists, loads, control points, orders and amplitudes',
 'Tests check one system per formulation.',
 [HU, VS], [('prediction', HU+': predict_harmonic_solution')], ['returned vector'])
prop('C22', 'System state changes are exact, complete and reversible',
 "The static residual is stiffness force plus the sum of element forces minus load and never changes history; initialising, updating and frictionless-prestress switching reach every element that supports them and no other, and restoring friction recovers every element's real coefficient from any sequence of switches. Changing the damping sets exactly the requested matrix, or leaves everything as it was when nothing is given, and adding an element affects only that system.",
 [H, C], 'all element lists (mixed kinds) and all sequences of state-changing calls',
 'Tests call each once in one order.',
 [VS], [('state methods', VS+': add_nl_force, init_force_history, update_force_history, set_prestress_mu, reset_real_mu, set_aft_initialize, set_new_C, static_res, __init__')],
 ['element state', 'returned residual', 'system matrices'])
prop('C23', 'Harmonic scaling vectors are per-harmonic, bounded below and complete',
 "The scaling vector has one value per unknown, constant over the cosine and sine entries of each harmonic and equal to the larger of the requested minimum and that harmonic's mean absolute value; each extra unknown gets the larger of its own absolute value and the minimum. This holds for scalar and per-harmonic minimums and any number of extra unknowns.",
 [I, C], 'all solution vectors, DOF counts, harmonic lists, minimums (scalar or list) and numbers of extra unknowns',
 'Tests cover one layout.',
 [HU], [('scaling', HU+': harmonic_wise_conditioning')], ['returned vector'])
prop('C24', 'Time-domain shooting integrates the same equation of motion and its variation',
 "The state equation used for periodic-orbit shooting is the system's equation of motion with all element forces and the harmonic load, and the propagated sensitivity equations are its exact linearisation with respect to initial state and frequency. The residual is the state change over one period with exact derivatives, and an orbit is called stable exactly when no eigenvalue of its one-period map exceeds one in magnitude.",
 [I, C], 'all systems with any number (also none) of memoryless elements, states, loads and frequencies',
 'Tests run a single-element oscillator.',
 [VS, 'tmdsimpy/postprocess/shooting.py'], [('state equation', VS+': _shooting_state_space'),('residual', VS+': shooting_res'),('stability','postprocess/shooting.py: time_stability')], ['state derivative', 'residual, Jacobians, stability flags'])
prop('C25', 'Saved continuation history is append-only and reported statistics are right',
 "After any sequence of saves the file holds every earlier point and direction unchanged and in order with the new ones last, also when resuming into an existing file. Each statistics line reports the frequency, damping, force and amplitude computed from the point it is given, after one header per file, and combined callbacks each run once, in order, with the same arguments.",
 [H, I], 'all sequences of saves and restarts, points, harmonic lists, orders and recovery vectors',
 'Tests save one run; header, layout and amplitude formulas are not compared.',
 ['tmdsimpy/utils/continuation.py'], [('save','utils/continuation.py: continuation_save'),('statistics','utils/continuation.py: print_*_stats, _calc_harmonic_resp'),('combination','utils/continuation.py: combine_callback_funs')], ['file contents'])
prop('C26', 'Post-processed local forces are those used by the harmonic analysis',
 "For every element of a system, the local displacement and force histories and harmonics reported for a harmonic solution are those of the harmonic analysis at that solution: mapping them through the elements' force maps and summing gives the system's harmonic nonlinear force.",
 [I, C], 'all element kinds (memoryless, hysteretic, automatic differentiation), harmonic lists, solutions, frequencies and initial slider settings',
 'Tests check one element kind at a time at one solution.',
 ['tmdsimpy/postprocess/harmonic.py'], [('post-processing','postprocess/harmonic.py: local_harmonic_forces')], ['returned histories and harmonics'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
