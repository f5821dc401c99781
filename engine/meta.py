"""The properties and the manifest (properties.jsonl and MANIFEST.json are written by `python3 engine/meta.py`)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'measures-distributions/src/distributions/'
B = 'measures-combinators/src/measures/'
X = 'measures-exponential-family/src/exponential_family/'
K = 'measures-core/src/core/'
INP = ['inputs']
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note=''):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}})
    NOTE[id] = note


NOTE = {}
prop('C01', 'Continuous log-densities equal their textbook formulas',
     'For every continuous distribution the library provides, every valid parameter and every point, the log-density with respect to Lebesgue measure is the textbook value: the normalised formula on the support and minus infinity off it. The same value comes out of the direct method and out of the density builder.',
     INP, 'all valid parameters (positive parameters in [1e-6, 1e6], real ones in [-1e6, 1e6]) and all points in [-1e6, 1e6]',
     'The unit tests compare a few parameter/point pairs per distribution, mostly standard ones where wrong scale factors and wrong constants cancel.',
     [D + 'continuous'], [('log_density_wrt_root of each distribution', D + 'continuous/*.rs'), ('exponential family formula for the families without one of their own', X + 'traits.rs')], ['log_density().at(x)', 'log_density_wrt_root(x)'])
prop('C02', 'Discrete log-densities equal their textbook formulas',
     'For every discrete distribution, every valid parameter and every count, the log-density with respect to its root measure plus that of its base measure is the textbook log-probability, and minus infinity off the support. Probabilities of finite supports sum to one and consecutive probabilities have the textbook ratio.',
     INP, 'all parameters in (0,1) or [1e-6, 1e6], counts symbolic up to 1e6 where the computation is closed-form and up to small stated bounds where it loops over the count',
     'Tests evaluate a handful of counts with fixed parameters, so a wrong normalising constant that depends on the count or on the parameter is not seen.',
     [D + 'discrete'], [('log_density_wrt_root', D + 'discrete/*.rs'), ('factorial and binomial base measures', B + 'derived')], ['log_density().at(k)', 'log_density_wrt_root(k)'])
prop('C03', 'A point is in the support exactly where the density is positive',
     'For every distribution, parameter and point, the membership test answers true exactly when the log-density is finite, including at the end points of the support.',
     INP, 'all valid parameters and all points, the boundary points included',
     'The tests probe two or three points on each side of a boundary, never the relation between the two functions at all points.',
     ['measures-distributions/src', 'measures-core/src/core/measure.rs'], [('in_support', D + '*/*.rs'), ('log_density_wrt_root', D + '*/*.rs')], ['in_support(x)', 'log_density().at(x)'])
prop('C04', 'Constructors accept exactly the valid parameters',
     'Constructing a distribution succeeds exactly when its documented parameter conditions hold, for every floating-point parameter including NaN, infinities, negative zero and subnormal numbers.',
     INP, 'every 64-bit floating-point value of every parameter (decided in the floating-point theory)',
     'Tests try one or two bad values per constructor; NaN and the infinities slip through comparisons written one way and not the other.',
     ['measures-distributions/src'], [('assertions in new', D + '*/*.rs')], ['Distribution::new'])
prop('C05', 'Relative densities form a consistent calculus',
     'The log-density of one measure relative to another is the difference of their log-densities with respect to the shared root; it is antisymmetric, transitive and zero for a measure against itself, whether the two measures are the same object, equal objects or different types.',
     INP, 'all parameters of the measures involved and all points of the common support',
     'Tests compare two fixed normals at a few points; identity shortcuts and sign errors on other pairs are outside what they reach.',
     [K + 'density.rs', K + 'measure.rs'], [('log_density_wrt and the identity shortcut', K + 'density.rs'), ('wrt of the builder', K + 'density.rs')], ['log_density().wrt(other).at(x)'])
prop('C06', 'Cached, batched and shared evaluation equal direct evaluation',
     'For every sequence of evaluations, a cached log-density returns what direct evaluation returns and computes each distinct point once; a batch returns the pointwise values in order.',
     ['inputs', 'histories'], 'histories of up to four (thorough: six) evaluations at symbolic points, coinciding or not, absolute and relative densities, one or two caches alive',
     'Tests call a cache twice with the same point; histories that mix coinciding and different points, or two caches, are not covered.',
     [K + 'density.rs', K + 'measure.rs'], [('caching wrapper', K + 'density.rs'), ('batch evaluation', K + 'density.rs')], ['cached().at(x)', 'log_density_batch'])
prop('C07', 'The exponential-family form equals the density',
     'For every exponential-family distribution, natural parameters times sufficient statistics minus log-partition plus the base measure\'s log-density equals its log-density at every point of the support, for all valid parameters.',
     INP, 'all valid parameters and all points of the support',
     'Tests check the identity for a few families at fixed parameters; two compensating errors, or an error in a family not listed, pass.',
     [X + 'traits.rs', X + 'implementations.rs', D], [('to_natural, log_partition, sufficient_statistic', D + '*/*.rs'), ('the generic formula', X + 'traits.rs')], ['exp_fam_log_density(x)', 'log_density().at(x)'])
prop('C08', 'Natural parameters round-trip',
     'Converting a distribution to its natural parameters and back gives the same distribution, and converting natural parameters to a distribution and back gives the same natural parameters, for every valid value.',
     INP, 'all valid parameters and all natural parameters in the natural parameter space, within the stated ranges',
     'Tests convert one or two fixed distributions.',
     [X + 'traits.rs', D], [('to_natural and from_natural', D + '*/*.rs')], ['to_natural()', 'from_natural(eta)'])
prop('C09', 'The density of independent samples is the sum of the marginals',
     'The log-density of n independent draws from a distribution is the sum of the individual log-densities, whatever route computes it (the joint measure, sufficient statistics, the natural-parameter form), and membership holds exactly when it holds for every coordinate.',
     INP, 'samples of zero to five symbolic points from each exponential family, all valid parameters',
     'Tests sum a fixed small sample for two families.',
     [X + 'iid.rs', X + 'traits.rs'], [('compute_iid_exp_fam_log_density', X + 'iid.rs'), ('sums of sufficient statistics', X + 'traits.rs')], ['iid().log_density().at(xs)'])
prop('C10', 'A decomposed log-density adds up to the log-density',
     'Splitting a log-density into terms depending on the data only, the parameters only, both, or neither preserves its value, each part depends only on what its name says, and the parts that are reused over many points or parameters give the same total.',
     INP, 'all data points, all valid parameters, batches of up to four points',
     'Tests evaluate one normal at one point.',
     [K + 'log_density_decomposition.rs', D + 'continuous/normal.rs'], [('evaluate over the terms', K + 'log_density_decomposition.rs')], ['log_density_decomposition().evaluate'])
prop('C11', 'Base measures have the density they stand for',
     'Lebesgue, counting, Dirac, weighted and factorial base measures report exactly their defining log-density (zero, zero, minus infinity off the point, the log of the weight, minus the log of the factorial) at every point, and the factorial one stays within its stated accuracy for every count.',
     INP, 'every count up to 1e6 (symbolic) and every real point in range',
     'Tests look at a few counts below 20, while the implementation switches method by size.',
     ['measures-core/src/primitive', B + 'derived', B + 'primitive'], [('log-factorial by size', B + 'derived/factorial.rs')], ['log_density().at(k)'])
prop('C12', 'Moments, parameters and log-partition agree',
     'Means, variances and derived parameters reported by a distribution are those of its density: for an exponential family they are the derivatives of the log-partition (checked as convexity and supporting-line inequalities), and equivalent parametrisations give equal results.',
     INP, 'all valid parameters, pairs of parameters for the inequalities',
     'Tests compare a few closed-form moments.',
     [D, X + 'traits.rs'], [('mean, variance, accessors', D + '*/*.rs'), ('log_partition', D + '*/*.rs')], ['mean()', 'variance()', 'log_partition()'])
prop('C13', 'Product measures add log-densities and intersect supports',
     'The log-density of a product of measures is the sum of the factors\' log-densities at the coordinates, also for nested products and products that mix continuous, discrete and weighted factors, and its support is the product of the supports.',
     INP, 'all parameters and coordinates of two- and three-factor products',
     'Tests evaluate one product of two fixed measures.',
     [B + 'combinators/product.rs'], [('log_density_wrt_root, in_support', B + 'combinators/product.rs')], ['product(...).log_density().at((x, y))'])
prop('C14', 'Mixture densities are the weighted sums of component densities',
     'The density of a mixture is the weight-averaged density of its components at every point, stays finite and accurate where the component densities underflow, ignores components of weight zero, and mixtures are accepted exactly when the weights are non-negative, match the components and sum to one.',
     INP, 'mixtures of one to three (thorough: four) components with symbolic weights, parameters and points',
     'Tests check one two-component mixture at one point.',
     [B + 'combinators/superposition.rs'], [('log-sum-exp', B + 'combinators/superposition.rs'), ('weight checks', B + 'combinators/superposition.rs')], ['mixture(...).log_density().at(x)'])
prop('C15', 'Pushforward densities follow the change-of-variables formula',
     'The density of the image of a measure under a differentiable bijection is the base density at the preimage times the Jacobian of the inverse, and zero outside the range; the provided transformations are inverse pairs with correct log-Jacobians.',
     INP, 'the log, exp, linear and logit transformations and a user-supplied one, all parameters and points, one and two transformations in a row',
     'Tests evaluate a log-normal at a few points.',
     [B + 'combinators/pushforward.rs'], [('log_density_wrt_root', B + 'combinators/pushforward.rs'), ('the transforms module', B + 'combinators/pushforward.rs')], ['pushforward(...).log_density().at(y)'])
prop('C16', 'Weighted, integral and point measures scale densities as stated',
     'Weighting a measure by a log-weight adds it, an integral measure adds the log of its density function, the point measure has all its mass on the point, and supports follow accordingly.',
     INP, 'all log-weights, density functions from a parametric family, parameters and points',
     'Tests use one weight and one function.',
     [B + 'derived', B + 'primitive'], [('WeightedMeasure, IntegralMeasure, Dirac', B + 'derived')], ['log_density().at(x)'])
prop('C17', 'Every evaluator of a symbolic expression gives the same value',
     'For every expression and every assignment, the general, single-variable, linear, smart, cached and batch evaluators return the mathematical value of the expression, report a missing variable as an error, report a division by zero or a logarithm or root outside its domain as an error, and agree with each other. A product with a literal zero may be zero even if its other factor has no value.',
     ['inputs', 'programs'], 'all expressions up to a stated depth over the constructors, with symbolic constants and symbolic variable values, batches of up to three points',
     'Tests evaluate a few expressions at fixed points; the evaluators have separate fast paths per expression shape.',
     ['symbolic-math/src/expr.rs'], [('evaluate and the evaluate_* fast paths', 'symbolic-math/src/expr.rs')], ['Expr::evaluate', 'evaluate_single_var', 'evaluate_batch'])
prop('C18', 'Simplification preserves the value of an expression',
     'Simplifying an expression, once or repeatedly, cached or not, gives an expression with the same value at every assignment where the original, with real powers of positive bases or literal whole exponents, has a value. Recorded findings: squares and repeated factors of negative values under a logarithm, root or power.',
     ['inputs', 'programs'], 'all expressions up to a stated depth over the constructors with symbolic constants, all variable values',
     'Tests pin the output of single rewrite rules; whether a rule is valid for every value, or fires on the wrong shape, is not tested.',
     ['symbolic-math/src/expr.rs'], [('simplify', 'symbolic-math/src/expr.rs')], ['Expr::simplify', 'Expr::simplify_cached'])
prop('C19', 'Symbolic log-densities evaluate and specialise consistently',
     'Building a symbolic log-density, fixing some of its parameters and evaluating it gives the value the full expression has under the combined assignment, whatever the order of fixing; and what the builders (operators, methods, conversions, the expr! macro, the density and function templates) build has the value their name says.',
     INP, 'the symbolic densities the library builds, all parameter values and points, every subset of fixed parameters',
     'Tests evaluate one expression.',
     ['symbolic-math/src/expr.rs', 'symbolic-math/src/lib.rs'], [('SymbolicLogDensity', 'symbolic-math/src/expr.rs'), ('builders and templates', 'symbolic-math/src/lib.rs')], ['SymbolicLogDensity::evaluate'])
prop('C20', 'The printed form of an expression denotes the expression',
     'The text an expression prints to (plain, pretty-printed, Python and LaTeX), read with the ordinary operator precedence of that notation, denotes the same function as the expression.',
     ['inputs', 'programs'], 'all expressions up to a stated depth; the printed text is parsed and compared for all variable values by the solver',
     'Tests compare a few printed strings.',
     ['symbolic-math/src/expr.rs', 'symbolic-math/src/final_tagless.rs'], [('Display', 'symbolic-math/src/expr.rs'), ('pretty printer', 'symbolic-math/src/final_tagless.rs')], ['to_string()'])
prop('C21', 'The interpreters of the symbolic layer agree',
     'A program written once against the interpreter interface has the value of the formula it spells in the direct interpreter, in the tree the compiling interpreter builds, and in the text the pretty printer prints, for all inputs; the tree reports its own variables, constants and cost.',
     ['inputs', 'programs'], 'programs covering every operation of the interface up to two (three) operations deep, symbolic constants and inputs',
     'Tests run two programs at one point.',
     ['symbolic-math/src/final_tagless.rs'], [('MathExpr implementations', 'symbolic-math/src/final_tagless.rs')], ['DirectEval', 'JITEval', 'PrettyPrint', 'StatisticalExpr'])
prop('C22', 'The polynomial and math library functions equal their definitions',
     'Evaluating a polynomial from coefficients, evaluating it from roots, its derivative and the provided numeric helpers give their mathematical definitions in every interpreter, for all coefficients and points.',
     INP, 'polynomials of degree up to five with symbolic coefficients, roots and points',
     'Tests evaluate fixed polynomials at integers.',
     ['mathjit/src/final_tagless.rs', 'mathjit/src/lib.rs'], [('polynomial module', 'mathjit/src/final_tagless.rs'), ('DirectEval', 'mathjit/src/final_tagless.rs')], ['polynomial::horner', 'DirectEval'])
prop('C23', 'The equality-saturation optimiser preserves the value of an expression',
     'Optimising an expression with the equality-saturation optimiser returns an expression with the same value at every assignment where the original has a value (powers taken of positive bases, or with literal whole exponents), to the precision of doubles: constants are kept exactly and no variable is introduced; the answer does not depend on the expressions given to the same optimiser before. Recorded: sqrt(x^2) and (x^2)^0.5 become x, wrong for negative x.',
     ['inputs', 'programs', 'histories'], 'a family of expressions covering every rewrite rule, its neighbours and every pair of constructors, all variable values in the stated ranges, 22 awkward constants, 12 x 8 histories of two expressions',
     'Tests check that optimising does not fail and that the result is not larger.',
     ['symbolic-math/src/optimization.rs'], [('rewrite rules', 'symbolic-math/src/optimization.rs'), ('conversion to and from the engine', 'symbolic-math/src/optimization.rs')], ['optimize_with_egglog'])
prop('C24', 'Compiled code computes the value of the expression',
     'Machine code generated for an expression returns, for every input, the value of the expression: its arithmetic is that of the expression, its ln is within 1e-11 of the logarithm for every positive double, its exp within 5e-12 relative on [-708, 709], its sin and cos within 1e-11 on [-1000, 1000], and infinities, NaN, zero and negative arguments give what the standard library gives; arguments, constants and data reach the code in the order the signature states.',
     ['inputs', 'programs'], 'expressions covering every code generation case, executed symbolically from the compiler\'s intermediate code for all inputs in the stated ranges; sin and cos to 1e4 (thorough)',
     'Tests compare a few inputs.',
     ['symbolic-math/src/jit.rs'], [('code generation', 'symbolic-math/src/jit.rs')], ['GeneralJITCompiler::compile_expression'])
prop('C25', 'Compiled and specialised distribution densities equal the direct ones',
     'The compiled, specialised and inlined forms of a distribution\'s log-density return its log-density for every point of the support and every parameter.',
     INP, 'all parameters and points in the stated ranges',
     'Tests compare a few points.',
     [X + 'jit.rs', X + 'auto_jit.rs'], [('zero-overhead and static inline compilers', X + 'jit.rs'), ('automatic derivation', X + 'auto_jit.rs')], ['zero_overhead_optimize()', 'auto_jit()'])
prop('C26', 'Bayesian expressions add up likelihood and prior',
     'A posterior expression is the sum of the log-likelihood and log-prior expressions it is built from, and the provided likelihood, hierarchical and mixture builders denote the textbook log-densities for all parameter values.',
     INP, 'all parameter values and data values of every builder',
     'Tests check variable names and a single value.',
     ['measures-bayesian/src'], [('builders', 'measures-bayesian/src/bayesian/mod.rs'), ('posterior_log_density', 'measures-bayesian/src/bayesian/mod.rs')], ['posterior_log_density(...)'])
prop('C27', 'Interpreter-generic density patterns equal the distribution objects',
     'The log-density formulas written against the interpreter interface have the same values as the distribution objects, in every interpreter, for all parameters and points.',
     INP, 'all parameters and points of every pattern',
     'Tests compare one point.',
     [D + 'final_tagless.rs'], [('patterns', D + 'final_tagless.rs')], ['patterns::*_log_density'])
prop('C28', 'Interpreter-generic exponential families equal the direct ones',
     'The interpreter-generic exponential-family formulas, for single points and independent samples, have the value of the direct computation for all natural parameters, statistics and points.',
     INP, 'all parameters, samples of up to four points',
     'Tests compare one point.',
     [X + 'final_tagless.rs'], [('exponential family patterns', X + 'final_tagless.rs')], ['patterns::*'])
prop('C29', 'Vector utilities and numeric conversions are exact',
     'Dot products, sums of statistics, array products and numeric conversions return the mathematical result for every input, and report a failed conversion where the target cannot hold the value.',
     INP, 'arrays of up to five symbolic entries, every value of the source type where it is finite',
     'Tests use two small arrays.',
     ['measures-core/src/traits/dot_product.rs', K + 'utils.rs', X + 'array_utils.rs'], [('dot product', 'measures-core/src/traits/dot_product.rs'), ('conversions', K + 'utils.rs')], ['dot_product', 'safe_convert'])
prop('C30', 'Symbolic caches never change an answer',
     'For every sequence of cached simplifications and evaluations, interleaved with clearing the caches, each answer equals that of the uncached operation.',
     ['inputs', 'histories', 'programs'], 'histories of up to four cached operations over expressions with symbolic constants and values that may coincide',
     'Tests call one cached operation twice.',
     ['symbolic-math/src/expr.rs'], [('cache keys', 'symbolic-math/src/expr.rs')], ['evaluate_cached', 'simplify_cached'])

LEVEL_NOTE = ('The library is compiled with its floating-point and integer operations replaced by recording ones and explored over all paths of each scenario; '
              'the solver discharges each claim for all inputs within the bounds of the scenario (harness/src). Values are compared in exact real arithmetic up to a tolerance; '
              'overflow, division by zero, domains of ln/sqrt and NaN are tracked, rounding is not. Sizes of collections are fixed by the scenario. '
              'Trusted: the instrumentation (validated against native runs on every check), the term algebra, z3. A violation is reported only with a native replay.')
TECH = 'symbolic execution of the compiled source, claims discharged by an SMT solver (z3), counterexamples replayed natively'


def done():
    """the properties with scenarios"""
    import re
    ids = set()
    h = os.path.join(ROOT, 'harness', 'src')
    for f in os.listdir(h):
        ids |= set(re.findall(r'"(C\d\d)\.', open(os.path.join(h, f)).read()))
    return ids


def main():
    have = done()
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
    for p in P:
        i = p['id']
        if i in have and i not in NA:
            m['checks'].append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                                'technique': TECHS.get(i, TECH), 'level': 'model_checking', 'level_note': (NOTE[i] + ' ' if NOTE[i] else '') + LEVEL_NOTE})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'the check of this property is not finished')})
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')


NA = {}
TECHS = {'C04': 'symbolic execution of the compiled source, claims discharged by z3 in the theory of IEEE floating point, counterexamples replayed natively'}
if __name__ == '__main__':
    main()
