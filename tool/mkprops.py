#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the JSON readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
             observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
N='include/mpc/NLMPC/'; L='include/mpc/LMPC/'; I='include/mpc/'
DIMS='all dimensions, horizons 1<=ch<=ph and all real data'
p('C01','Nonlinear bounds land on exactly the requested horizon stages',
 'A state or input bound given to the nonlinear controller for a horizon slice [start,end) constrains exactly the decision variables of those stages: state stage i+1 for slice position i, input stage by its move-blocked column, expressed in the optimiser\'s scaled units. Stages outside the slice keep the bounds they had, an omitted slice means the whole horizon, an invalid slice is refused and changes nothing. Bounds never set are infinite, and the slack variable is pinned to zero exactly when hard constraints are requested.',
 ['inputs','configurations','histories'],'for '+DIMS+', every slice and every sequence of bound calls',
 'The tests set bounds over the full horizon of two or three fixed small systems; slices with start>0 or end<horizon, ch<ph and scaled variables are never asserted.',
 [N+'NLOptimizer.hpp',I+'NLMPC.hpp',I+'Types.hpp'],[('slice to stage placement','NLOptimizer::setStateBounds/setInputBounds'),('bounds sent to the solver','NLOptimizer::updateBounds')],['lower/upper bound vectors handed to the NLopt solver','bool result of the setter'])
p('C02','Linear-controller stage data land on exactly the requested stages',
 'Bounds, objective weights, references and exogenous inputs given to the linear controller for a horizon slice determine the data of exactly those stages of the quadratic program, and every other stage keeps what it had. An omitted slice means the whole horizon, and an invalid slice is refused and changes nothing.',
 ['inputs','configurations','histories'],'for '+DIMS+', every slice and sequence of setter calls',
 'The linear controller is not even compiled by the tests that run here, and the upstream tests only use full-horizon data.',
 [L+'ProblemBuilder.hpp',L+'LOptimizer.hpp',I+'LMPC.hpp'],[('per-stage setters','ProblemBuilder::set*Bounds/setObjective, LOptimizer::setReferences/setExogenousInputs')],['P, q, A, l, u handed to OSQP','bool result of the setter'])
p('C03','Move blocking holds the last control move to the end of the horizon',
 'With control horizon ch and prediction horizon ph, the input applied by the nonlinear problem at stage k is the decision move min(k, ch-1), and the terminal row repeats stage ph-1. The inverse map used for guesses and results returns each decision move from its own stage, so that mapping moves to stages and back is the identity.',
 ['inputs','configurations'],'for all dimensions nu, horizons 1<=ch<=ph, all move values',
 'The mapping unit test samples three systems; nothing checks ch<ph at every stage.',
 [N+'Mapping.hpp'],[('input maps','Mapping::computeMapping'),('expansion','Mapping::unwrapVector')],['input trajectory seen by user callbacks','optimal input sequence'])
p('C04','Decision vector and trajectories correspond one to one',
 'The state trajectory given to every user callback starts with the measured initial state and continues with the (state-scaled) decision states in stage order; the input trajectory is the input-scaled expanded moves, and the slack is the last decision variable. No scaling is applied to the measured initial state.',
 ['inputs','configurations'],'for '+DIMS+' and positive scalings',
 'Unit tests use unit scalings and one vector per system; scaled variables are never observed from the callbacks.',
 [N+'Mapping.hpp'],[('unwrap','Mapping::unwrapVector')],['arguments of objective and constraint callbacks'])
p('C05','Dynamics equality constraints encode the model at every stage',
 'For every decision vector the equality residual of stage k compares the next decision state with the user model evaluated at the trajectory: x(k+1) minus f(x(k),u(k),k) in discrete time, and x(k)+Ts/2(f(x(k),u(k),k)+f(x(k+1),u(k),k))-x(k+1) in continuous time, divided by the state scaling. Each state of each stage has exactly one residual.',
 ['inputs','programs','configurations'],'for all user models, '+DIMS,
 'The tests compare one residual vector for two fixed systems against stored numbers.',
 [N+'Constraints.hpp'],[('state equality','Constraints::getStateEqConstraints')],['values returned by the equality constraint callback given to NLopt'])
p('C06','Dynamics equality Jacobian is the derivative of the residuals',
 'The gradient returned with the dynamics residuals is the derivative of those residuals with respect to every scaled decision variable, including blocked moves and the slack, up to the error of the finite differences taken of the user model.',
 ['inputs','programs','configurations'],'for all differentiable user models and '+DIMS,
 'Existing tests check a single point of fixed systems, never scaled variables or ch<ph Jacobian columns.',
 [N+'Constraints.hpp'],[('dynamics Jacobian','Constraints::computeStateEqJacobian / getStateEqConstraints')],['gradient returned by the equality constraint callback given to NLopt'])
p('C07','User constraints are evaluated on the unwrapped trajectory',
 'The inequality and equality values handed to the solver are exactly what the user functions return on the trajectory, outputs and slack described by the decision vector, at the sizes and tolerances the user configured. Without a user function the corresponding values and gradients are zero or no such constraint is registered.',
 ['inputs','programs','configurations'],'for all user constraint functions and '+DIMS,
 'Tests use one constraint function per fixed system at one point.',
 [N+'Constraints.hpp',N+'NLOptimizer.hpp'],[('user inequality','Constraints::evaluateIneq'),('user equality','Constraints::evaluateEq')],['values returned by the constraint callbacks given to NLopt'])
p('C08','User constraint Jacobians are derivatives of the constraint values',
 'The gradients returned for user inequality and equality constraints are the derivatives of the returned values with respect to every scaled decision variable: states, blocked moves (summing all the stages a move drives) and slack, up to finite-difference error; the outputs recomputed from perturbed states and inputs are part of that derivative.',
 ['inputs','programs','configurations'],'for all differentiable user functions and '+DIMS,
 'Stored-number tests cover unit scaling and one point; the sum over blocked stages and the scale factors are not observable there.',
 [N+'Constraints.hpp'],[('inequality Jacobian','Constraints::computeIneqJacobian'),('equality Jacobian','Constraints::computeEqJacobian')],['gradients returned by the constraint callbacks given to NLopt'])
p('C09','Objective value and gradient are the user cost and its derivative',
 'The objective given to the solver returns the user cost on the trajectory, outputs, inputs and slack of the decision vector, and its gradient is the derivative of that cost with respect to every scaled decision variable up to finite-difference error.',
 ['inputs','programs','configurations'],'for all differentiable user costs and '+DIMS,
 'One stored-number test at a single unscaled point.',
 [N+'Objective.hpp'],[('cost and gradient','Objective::evaluate/computeJacobian')],['value and gradient returned by the objective given to NLopt'])
p('C10','The output trajectory is the user output map applied stage by stage',
 'Row k of the output trajectory used by callbacks and returned as the optimal output sequence is the user output function at the state and input of row k and the stage index k; it is zero when no output function was given.',
 ['inputs','programs','configurations'],'for all output maps and '+DIMS,
 'Tests use the identity output on tiny horizons.',
 [N+'Model.hpp'],[('output map','Model::getOutput')],['Y argument of callbacks','optimal output sequence'])
p('C11','Nonlinear result reports what the solver returned, or a clean failure',
 'After a successful solve the reported command, sequences, cost and raw solver status are those of the returned decision vector: command = input of stage 0, sequences = its unwrapped trajectory. When the solver throws, the result holds infinite cost, an error status with a message naming the failure, the command of the previous step, zero sequences and no feasibility claim; nothing escapes to the caller.',
 ['inputs','fault_sequences','histories'],'for all solver answers and all solver failures, over sequences of solves',
 'Tests only see the answer of the real solver on easy problems and never a solver exception.',
 [N+'NLOptimizer.hpp'],[('run','NLOptimizer::run')],['result of optimize and of the sequence getters'])
p('C12','Initial guess: first solve constant, then warm start shifted one step',
 'The first guess of a nonlinear solve (and every guess with warm start off) holds the measured state and the last input along the horizon in scaled units; with warm start on, later guesses are the previous optimum shifted one stage, repeating the last, with the previous slack.',
 ['inputs','histories','configurations'],'for '+DIMS+' and every sequence of solves',
 'No test looks at the starting point given to the solver.',
 [N+'NLOptimizer.hpp'],[('guess','NLOptimizer::run')],['starting point handed to the NLopt solver'])
p('C13','Nonlinear solver settings are forwarded faithfully',
 'Every parameter given by the user (relative/absolute function and variable tolerances, evaluation limit, time limit) reaches the solver as given, for every accepted value including those that switch a limit off, and constraint tolerances reach the matching constraint blocks.',
 ['inputs','configurations','histories'],'for all parameter values and call orders',
 'The tests set parameters but never look at what the solver received.',
 [N+'NLOptimizer.hpp'],[('setParameters','NLOptimizer::setParameters')],['calls on the NLopt solver object'])
p('C14','The feasibility flag is exactly constraint satisfaction within tolerance',
 'The reported feasibility of a nonlinear result is true exactly when every user inequality is at most the inequality tolerance and every user equality is within the equality tolerance at the returned point.',
 ['inputs','programs','configurations'],'for all constraint functions, tolerances and returned points',
 'No test returns an infeasible point.',
 [N+'Constraints.hpp',N+'NLOptimizer.hpp'],[('isFeasible','Constraints::isFeasible')],['is_feasible of the result'])
p('C15','Solver statuses translate to the documented result categories',
 'Every status code of either solver maps to the documented result status: optimal codes to success, iteration or time limits to their category, infeasibility certificates (accurate or not) to infeasible, failures to error and anything else to unknown.',
 ['inputs','fault_sequences'],'for every status code the solvers can return',
 'Tests see only the success code.',
 [N+'NLOptimizer.hpp',L+'LOptimizer.hpp'],[('convertToResultStatus','both optimisers')],['status of the result'])
p('C16','Linear objective equals the weighted tracking cost',
 'The quadratic program minimised by the linear controller has, up to a constant, the cost sum over stages of the output error weighted by the output weights, of the input error weighted by the input weights and of the input increment error weighted by the increment weights, with the output error including the disturbance feed-through.',
 ['inputs','configurations'],'for '+DIMS+', all weights, references and disturbances',
 'The LMPC code is not compiled by the runnable tests; upstream tests only compare one optimum.',
 [L+'ProblemBuilder.hpp'],[('QP cost','ProblemBuilder::buildTITerms/get')],['P and q handed to OSQP'])
p('C17','Linear dynamics rows encode the augmented model from the measured state',
 'The equality rows of the quadratic program are satisfied exactly by the trajectories x(k+1)=A x(k)+B u(k)+Bd d(k), u(k)=u(k-1)+du(k), started at the measured state and last input, and inputs increments beyond the control horizon are pinned to zero.',
 ['inputs','configurations'],'for '+DIMS+' and all model matrices',
 'Not compiled by the runnable tests.',
 [L+'ProblemBuilder.hpp'],[('QP equality rows','ProblemBuilder::buildTITerms/get')],['A, l, u handed to OSQP'])
p('C18','Linear inequality rows encode bounds on states, inputs, outputs and scalars',
 'At every stage the remaining rows bound the state, the applied input, the output including disturbance feed-through and the scalar combination of state and input by exactly the configured limits, infinite where none was configured.',
 ['inputs','configurations'],'for '+DIMS+' and all configured bounds',
 'Not compiled by the runnable tests.',
 [L+'ProblemBuilder.hpp'],[('QP inequality rows','ProblemBuilder::buildTITerms/get')],['A, l, u handed to OSQP'])
p('C19','Linear result is read off the solver solution; settings are forwarded',
 'The reported command, state, input and output sequences of the linear controller are the corresponding parts of the solver\'s primal solution, with cost, status and feasibility from the solver; settings reach the solver as given and a stored solution is used as warm start only when warm start is enabled. If the solver cannot be set up, the result is a clean error keeping the previous command.',
 ['inputs','fault_sequences','histories','configurations'],'for every solver answer or set-up failure over sequences of solves',
 'Not compiled by the runnable tests, which have no OSQP.',
 [L+'LOptimizer.hpp'],[('run','LOptimizer::run')],['result of optimize','settings and warm start given to OSQP'])
p('C20','Sparse matrices given to the solver equal the assembled dense matrices',
 'The compressed-column arrays given to the QP solver describe exactly the assembled matrices: every non-zero once at its row and column, ordered within columns, the Hessian by its upper triangle only.',
 ['inputs','configurations'],'for all dimensions and matrix values, including explicit zeros',
 'Not compiled by the runnable tests.',
 [L+'LOptimizer.hpp'],[('createOsqpMatrix','LOptimizer::createOsqpMatrix / setup')],['csc structures handed to OSQP'])
p('C21','Discretization is the zero-order-hold solution',
 'Discretising a continuous linear model returns the state, input and disturbance matrices of the zero-order-hold solution, i.e. the corresponding blocks of the exponential of the augmented matrix times the sample time, for every combination of sizes.',
 ['inputs','configurations'],'for all dimensions, matrices and sample times',
 'One stored example.',
 [I+'Utils.hpp'],[('discretization','mpc::discretization')],['output matrices'])
p('C22','The integrator is classic fourth-order Runge-Kutta',
 'Each integration step advances the state by the classic RK4 combination of four slopes taken at t, t+h/2, t+h/2 and t+h, and n steps advance time by n h.',
 ['inputs','programs'],'for all vector fields, dimensions, start points and step counts',
 'No test uses a time-dependent field.',
 [I+'Integrator.hpp'],[('RK4','mpc::RK4')],['state returned'])
p('C23','Profiler statistics match the recorded solutions',
 'Minimum, maximum, average and standard deviation of the solution times, the total count and the number of solutions per status are those of exactly the solutions recorded since the last reset, for every recorded sequence including the empty one.',
 ['histories','inputs'],'for every sequence of recordings and resets of any length',
 'Tests record a handful of solutions.',
 [I+'Profiler.hpp'],[('ProfilingInfo','Profiler.hpp')],['statistics getters'])
p('C24','Logger emits exactly the messages allowed by the level',
 'A message is written to the configured stream, with the configured prefix, exactly when its level is at least the configured level; raising and lowering the level or re-targeting takes effect for the following messages only.',
 ['inputs','histories'],'for every sequence of level, prefix and message calls',
 'Logger tests sample three levels.',
 [I+'Logger.hpp'],[('log filter','Logger.hpp')],['stream contents'])
p('C25','Dimension arithmetic agrees between static and dynamic sizes',
 'Sums, products and comparisons of sizes give the mathematical result whether each operand is known at compile time or at run time, and a result depending on a run-time operand is treated as run time.',
 ['inputs'],'for all operand values and both kinds',
 'Tests sample a few constants.',
 [I+'Dim.hpp'],[('size operators','Dim.hpp')],['value of the result'])
p('C26','No configuration drives an access outside its matrix',
 'For every valid dimension choice and every public call sequence covered by the other properties, all block, row, column and element accesses stay inside their matrices and all matrix operands have matching sizes, with no unsigned wrap-around in an index.',
 ['inputs','configurations','histories'],'for all dimensions including zero outputs, disturbances and constraints, ch=ph, ch=1 and ph=1',
 'Tests run a handful of dimension combinations.',
 [N+'Mapping.hpp',N+'Constraints.hpp',N+'Objective.hpp',N+'NLOptimizer.hpp',L+'ProblemBuilder.hpp',L+'LOptimizer.hpp',I+'Utils.hpp'],[('all index expressions','whole library')],['Eigen bounds'])
p('C27','Solver resources are created, used and released exactly once',
 'Over any history of linear solves, including failed set-ups and re-configurations, solver workspaces and matrices are never used after release nor released twice, and all are released when the controller is destroyed.',
 ['histories','fault_sequences'],'for every sequence of configuration, solve, failure and destruction',
 'Not compiled by the runnable tests.',
 [L+'LOptimizer.hpp',I+'LMPC.hpp'],[('workspace ownership','LOptimizer')],['calls of the OSQP C interface'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
