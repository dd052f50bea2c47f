NOTES['C13'] = ('explicit-state enumeration of all NLP-solver outcome histories up to a length, replayed on the real homotopy loop', 'model_checking',
                'All words over the outcome alphabet up to the listed length for every update rule and limit combination listed; the NLP solver is a script '
                'and every history is executed on the real code.')
NOTES['C12'] = ('explicit-state enumeration of all set/solve call sequences up to a depth, each replayed on the real solver', 'model_checking',
                'All operation sequences up to the listed depth over the listed alphabet and problems; a reference store model predicts each NLP call.')
NOTES['C17'] = NOTES['C12']
NOTES['C16'] = ('explicit-state enumeration of all per-step outcome histories of the simulation loop, each replayed on the real code', 'model_checking',
                'All histories up to the listed length over the outcome alphabet; scripted NLP solver.')
NOTES['C18'] = ('exhaustive interleaving of the atomic steps of independent user programs, each schedule executed on the real code', 'model_checking',
                'All interleavings (three programs: bounded number of switches) at the granularity of API calls; compared with each program run alone.')
NOTES['C19'] = ('exhaustive enumeration of all schemes, stage numbers, order conditions and rooted trees up to a bound', 'exploration',
                'Floating-point tables are compared with 60-digit reference values to 1e-9.')
NOTES['C10'] = ('exhaustive enumeration of switching specifications, sign patterns and active sets; each decided on the NLP the code builds', 'exploration',
                'Complete over the listed specifications; within one active set the system is affine, so one point per pattern decides it.')
NOTES['C11'] = ('exhaustive enumeration of sign patterns x multiplier selections, and of all update words up to a length, on the real solver object', 'exploration',
                'Which parameter slot belongs to which multiplier is read off the NLP; the NLP solver is a script.')
NOTES['C20'] = ('exhaustive enumeration of a grammar of right-hand sides up to a depth, evaluated on one point per sign combination', 'exploration',
                'Smooth sub-expressions are identified by their values on a 64-point grid.')
NOTES['C21'] = ('exhaustive enumeration of every single corruption of every input field over a family of base problems, executed on the real constructors', 'exploration',
                'Each corruption changes one field of a consistent problem (dimension, missing part, option combination); an accepted corruption is a violation, '
                'a refused consistent problem too.')
NOTES['C22'] = ('explicit-state enumeration of the runs and of all mode words of hybrid automata, each replayed on the real NLP', 'model_checking',
                'Automata are executed exactly (constant and quadratic flows); every run, element assignment and mode word within the bounds is decided on the '
                'NLP the code builds, at zero relaxation.')
NOTES['C24'] = ('exhaustive enumeration of initial sign patterns and of classes of final multipliers, each executed on the real solver object', 'exploration',
                'The NLP solver is a script whose last iterate takes every listed class per multiplier; all combinations only on the smallest problems, one at a '
                'time on the others.')
NOTES['C25'] = ('exhaustive enumeration of switching specifications, sign patterns, smoothing parameters and layouts, on the real functions and NLP start values', 'exploration',
                'Complete over the listed specifications and grids; the smoothed flow is integrated independently with the reference fields.')
NOTES['C27'] = ('explicit-state enumeration of all set / solve histories up to a length and of configuration deviations; dump and load executed on the real code', 'model_checking',
                'Complete over the listed histories and configurations; functions are compared at four points.')
NOTES['C23'] = ('bounded exhaustive enumeration of initial states and configurations; every simulation executed with the real IPOPT and compared with an exact event-driven automaton', 'exploration',
                'Complete over the listed grid; only steps that report success are judged; tolerance 1e-4 (observed errors are below 1e-7).')
NOTES['C29'] = ('exhaustive enumeration of switching matrices, sign patterns and smoothing parameters, each decided on the function the solver creates', 'exploration',
                'Complete over the listed specifications; within 30 sigma of a surface and for small sigma only membership in the convex hull of the adjacent fields '
                'is decided (the root finding problem is ill-conditioned there).')
NOTES['C30'] = ('explicit-state enumeration of all option-assignment / construction words up to a length against a model of the options object', 'model_checking',
                'Every word is executed on the real options object and solver constructor; the NLP solver is a script that never becomes complementary.')
NOTES['C31'] = ('explicit-state enumeration of all operation words with every inspection inserted at every position, each executed on the real code', 'model_checking',
                'Complete over the listed words, configurations and print levels; figures are drawn with the Agg back end; the NLP solver is a script.')
NOTES['C32'] = ('bounded exhaustive enumeration of optimal control problems and configurations; every problem solved with the real IPOPT and judged by an exact Filippov oracle', 'exploration',
                'Complete over the listed problems; only solves that report success are judged; tolerance 1e-4 (square root of the complementarity tolerance at '
                'biactive pairs is 3e-5).')
