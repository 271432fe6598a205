"""property -> analyses"""
from . import specrun, setalg, compiler, measure, equality, dists, export, polys, algebra, sampling, commands, construct, interface, purity

SPEC = [specrun.run]
VFLOW = ('abstract interpretation of the current source (trace partitioning over the branch conditions, gated value-flow '
         'terms in normal form), compared on every control path with reference definitions of the operations')
ORDER = ('abstract interpretation of src/sets.py over order types: endpoints are abstract numbers known only by their order, and the result of every '
         'operator is compared position by position with the pointwise definition')
SHAPE = ('abstract interpretation of the compiler over program shapes (names and constants uninterpreted), the emitted module compared as a syntax tree with '
         'the structural definition of the translation')
ANALYSES, LEVEL, TECH = {}, {}, {}


def reg(props, analyses, tech, text):
    for p in props.split():
        ANALYSES[p] = analyses
        TECH[p] = tech
        LEVEL[p] = text


VF = 'value-flow abstract interpretation vs reference definitions'
WORLD = ('abstract interpretation of src/spe.py (with the sets, events and transforms it uses) on a family of abstract models: numbers known only by their order, '
         'probabilities formal sums of formal cell masses; each answer is compared with the measure the model denotes')
MW = 'abstract interpretation over order types with formal measures'
EQ = ('abstract interpretation of __eq__ and __hash__ of every class on pairs of abstract values (equivalence laws, agreement of hash with equality, '
      'distinction by every constructor argument), numbers and library objects uninterpreted')
m = measure
reg('C01', [setalg.run_algebra], 'abstract interpretation over order types', ORDER)
reg('C02', SPEC + [m.run_relational], VF + '; ' + MW, VFLOW + '; ' + WORLD)
reg('C03', SPEC + [m.run_events], VF + '; ' + MW, VFLOW + '; ' + WORLD)
reg('C04', SPEC + [m.run_events], VF + '; ' + MW, VFLOW + '; ' + WORLD)
FIELD = ('abstract interpretation of src/transforms.py on expressions built by its own operators, numbers being elements of a field of rational functions with uninterpreted '
         'exp, log and roots (normal forms as fingerprints, order fixed by witnesses): the value of what is built, substituted or inverted is compared with the same arithmetic on values')
reg('C05', SPEC + [algebra.run_arith], VF + '; symbolic abstract interpretation of the operators', VFLOW + '; ' + FIELD)
reg('C07', SPEC + [algebra.run_subs], VF + '; symbolic abstract interpretation of substitution', VFLOW + '; ' + FIELD)
DRAWS = ('abstract interpretation of the sampling methods on abstract models, the discrete choices of a recording generator enumerated exhaustively with formal probabilities, '
         'draws from laws fresh indeterminates: the law of the list of samples is compared with the one the model denotes')
reg('C15', SPEC + [sampling.run_sampling], VF + '; exhaustive symbolic enumeration of random choices', VFLOW + '; ' + DRAWS)
KIND = ('resolution of every query of the interface on every instantiable class along the inheritance order and the methods it calls on itself (none may end in an abstract stub), '
        'and abstract interpretation of every query and every dispatch over kinds on abstract instances of each kind and pair of kinds (each answer of the sort the interface promises, '
        'sizes, variables and renderings as the model has them)')
reg('C25', SPEC + [interface.run_stubs, interface.run_kinds, interface.run_nodes, interface.run_render], 'method resolution along the class hierarchy; abstract interpretation over kinds', KIND)
REG = ('abstract interpretation of src/distributions.py with symbolic parameters (rational functions, order fixed by witnesses): the leaf each constructor builds is compared '
       "with scipy's declaration of the law (read from scipy's source) and the parameters given")
BUILD = ('abstract interpretation of the model-building operators and constructors on terms with formal weights: the ill-formed must be refused, the others denote '
         'the weighted sum or product they are written as')
reg('C16', SPEC + [dists.run, construct.run_construct], VF + '; abstract interpretation of constructions with formal weights', VFLOW + '; ' + REG + '; ' + BUILD)
reg('C22', [dists.run], 'symbolic abstract interpretation of the registry vs the declarations in the scipy source', REG)
WRITER = ('abstract interpretation of the exporter (and reader) on a family of abstract models built by the current constructors, every number an indeterminate: '
          'what is read back, or what the exported program denotes when evaluated symbolically, is compared with the model part by part')
reg('C23', [export.run_dict], 'abstract interpretation of writer and reader on abstract models', WRITER)
reg('C24', [export.run_sppl], 'abstract interpretation of the exporter, symbolic evaluation of its output', WRITER)
POLY = ('abstract interpretation of src/poly.py, src/timeout.py and Poly.invert on abstract polynomials (the order in which they meet levels), the solver, root finder and alarm '
        'replaced by what they promise; the solution must be the set where the comparison holds, on every route, and no alarm or handler may be left behind')
reg('C06', SPEC + [m.run_preimage, m.run_indicator, polys.run, algebra.run_invert], VF + '; ' + MW, VFLOW + '; ' + WORLD + '; ' + POLY + '; ' + FIELD)
reg('C27', [polys.run], 'abstract interpretation on abstract polynomials, typestate of the alarm', POLY)
reg('C08', SPEC + [setalg.run_algebra, m.run_logprob], VF + '; ' + MW, VFLOW + '; ' + ORDER + '; ' + WORLD)
reg('C09 C12', SPEC + [m.run_bayes], VF + '; ' + MW, VFLOW + '; ' + WORLD)
reg('C10', SPEC + [m.run_null], VF + '; ' + MW, VFLOW + '; ' + WORLD)
reg('C11', SPEC + [m.run_density], VF + '; ' + MW, VFLOW + '; ' + WORLD)
reg('C13', [m.run_caching], MW, WORLD + '; the operation with memoisation, without it, and after other queries must give the same answer')
reg('C14', [m.run_purity, purity.run_operands], MW, WORLD + '; every object reachable from the arguments must be structurally what it was before the call')
reg('C17', [equality.run, setalg.run_equality], 'abstract interpretation of __eq__/__hash__ on abstract pairs', EQ)
reg('C18', SPEC + [m.run_simplify, m.run_sharing], VF + '; ' + MW, VFLOW + '; ' + WORLD)
reg('C26', SPEC + [m.run_mi], VF + '; ' + MW, VFLOW + '; ' + WORLD)
PROGRAMS = ('abstract interpretation of src/compilers/ast_to_spe.py on a family of abstract programs (draws, transforms, conditions, alternatives, switches, loops): the probabilities the '
            'model gives are compared, as rational functions of the masses, with running the program on the cells of the outcome space')
reg('C19', SPEC + [compiler.run, commands.run_commands], VF + '; abstract interpretation over program shapes and over formal measures', VFLOW + '; ' + SHAPE + '; ' + PROGRAMS)
reg('C20 C21', SPEC + [compiler.run], 'abstract interpretation over program shapes; ' + VF, SHAPE + '; ' + VFLOW)

NOTE = {'*': 'Decides, for every input, that the listed functions of the current source denote the reference definitions '
             'on every control path the analysis can model (abstract interpretation; library calls uninterpreted up to stated laws). '
             'Undecided paths are reported in the evidence and are not alarmed on. Trusts the model of Python and of the library functions in sa/.',
        'C01': 'Exhaustive over order types of two simple operands (up to 4 finite endpoints, all flags, infinities, finite sets up to 3), sampled order types for '
               'unions of up to 3 pieces; numbers are known only by order, so constants and arithmetic on endpoints leave a case undecided. Trusts the model of Python in sa/absint.py.',
        'C20': 'Bounded grammar of program shapes (all statement kinds in all contexts to nesting depth 3); names and constants uninterpreted. Trusts the model of Python and of ast in sa/absint.py.',
        'C21': 'Bounded grammar of condition shapes (all comparison kinds under all Boolean operators to depth 3); names and constants uninterpreted.'}


def key(fn, prop):
    """what an analysis does, up to the properties for which it does the same"""
    if fn is compiler.run:
        return fn, prop == 'C21'
    if fn is dists.run:
        return fn, prop == 'C22'
    if fn is setalg.run_algebra:
        return fn, prop == 'C01'
    return fn, True


def vouchers(mods):
    """[(analysis, property)] that decide the answers computed by these modules, cheap ones first"""
    spe = [(m.run_logprob, 'C08'), (construct.run_construct, 'C16'), (m.run_simplify, 'C18'), (m.run_sharing, 'C18'), (m.run_density, 'C11'), (equality.run, 'C17'),
           (sampling.run_sampling, 'C15'), (m.run_null, 'C10'), (m.run_mi, 'C26'), (m.run_bayes, 'C09'), (commands.run_commands, 'C19'), (m.run_purity, 'C14'), (m.run_caching, 'C13')]
    tr = [(equality.run, 'C17'), (polys.run, 'C27'), (m.run_relational, 'C02'), (m.run_preimage, 'C06'), (m.run_indicator, 'C06'), (algebra.run_arith, 'C05'), (algebra.run_subs, 'C07'), (algebra.run_invert, 'C06'),
          (m.run_events, 'C03')]
    sets = [(setalg.run_equality, 'C17'), (setalg.run_algebra, 'C01'), (setalg.run_algebra, 'C08')]
    table = {'spe': spe, 'math_util': spe, 'sym_util': spe + tr[-1:], 'transforms': tr + spe, 'dnf': [tr[-1]] + spe, 'sets': sets + tr + spe, 'poly': tr[1:2], 'timeout': tr[1:2],
             'distributions': [(dists.run, 'C22'), (dists.run, 'C16')], 'compilers.ast_to_spe': [(commands.run_commands, 'C19')],
             'compilers.sppl_to_python': [(compiler.run, 'C20'), (compiler.run, 'C21')], 'render': [(interface.run_render, 'C25')], 'compilers.spe_to_dict': [(export.run_dict, 'C23')], 'compilers.spe_to_sppl': [(export.run_sppl, 'C24')]}
    out = []
    for mod in sorted(mods):
        out += [x for x in table.get(mod, []) if x not in out]
    return sorted(out, key=lambda x: x[0] is m.run_caching)
