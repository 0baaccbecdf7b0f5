"""Which witnesses, type-level cases and source rules decide which property."""
TRUSTED = [
    'rustc front end (type checking, borrow checking, code generation to LLVM IR)',
    'LLVM opt as a semantics-preserving normaliser (inlining, SROA, GVN, unrolling)',
    'tools/domain.py, tools/residual.py, tools/typestate.py: the dataflow analyses',
    'the witness functions and their claims in wit/src',
]
ASSUME = [
    'x86_64, release semantics (wrapping integer arithmetic), allocation succeeds',
    'the feature "nightly" is out of scope: it does not compile with the installed toolchain',
]
W = 'IR witnesses: every claim and every panic call of the listed witness functions is shown unreachable in the ' \
    'normalised LLVM IR of /repo (optimiser normalisation, then partitioned guard-fact dataflow over polynomial value numbers). '

L = 'Life-cycle witnesses: typestate automata of all elements and allocations in product with constant propagation, over the inlined ' \
    'control-flow graph of each witness including the unwinding edge of every call into user code. '

T = 'Type-level witnesses: functions generic in element type, dimension types and layout that the compiler must accept with exactly the ' \
    'expected result types (computed by an independent oracle), and functions it must reject, each with an accepted twin. '

PROPS = {
    'C01': dict(wit=['index', 'idx', 'copy'], level='proof', how=W + L, drop=True),
    'C02': dict(wit=['index', 'view', 'sub', 'idx'], types=['C02'], level='proof', how=W + L + T, drop=True),
    'C03': dict(wit=['view', 'sub', 'idx', 'copy'], level='proof', how=W + L, drop=True),
    'C04': dict(wit=['layout', 'conv', 'big'], level='proof', how=W + L, drop=True),
    'C05': dict(wit=['sub', 'layout', 'iter', 'lanes', 'zip', 'elem', 'big'], types=['C05'], level='proof', how=W + L + T, drop=True),
    'C06': dict(wit=['iter', 'elem', 'copy', 'big', 'zst'], level='proof', how=W + L, drop=True),
    'C07': dict(wit=['lanes', 'zip', 'copy', 'big'], level='proof', how=W + L, drop=True),
    'C08': dict(wit=['zip', 'elem', 'ops', 'copy', 'big'], level='proof', how=W + L, drop=True),
    'C09': dict(wit=['own', 'tensor', 'conv', 'de', 'big', 'zst'], level='proof', how=L, drop=True),
    'C10': dict(wit=['own', 'tensor', 'conv', 'de', 'elem', 'big', 'zst'], level='proof', how=L, drop=True),
    'C11': dict(wit=['tensor', 'own', 'elem', 'big', 'zst'], level='proof', how=L, drop=True),
    'C12': dict(types=['C12'], level='proof', how=T),
    'C13': dict(wit=['layout', 'lanes', 'zip', 'tensor', 'conv', 'de', 'big'], level='proof', how=W + L, drop=True),
    'C14': dict(wit=['eq', 'big'], level='proof', how=L, drop=True),
    'C15': dict(wit=['ops', 'big'], level='proof', how=L, drop=True),
    'C16': dict(wit=['conv', 'big', 'zst'], level='proof', how=L, drop=True),
    'C17': dict(wit=['de'], level='proof', how=L, drop=True),
    'C18': dict(types=['C18'], level='proof', how=T),
    'C19': dict(wit=['ovf'], level='proof', how=L, drop=True),
    'C20': dict(wit=['conv'], level='proof', how=L, drop=True),
}
SYM = 'Symbolic in all strides, base addresses, index and bound values and in dimensions up to 65535; the ranks, layouts and ' \
      'dimension kinds are the enumerated witness families listed in the evidence. '
FIX = 'Symbolic in all strides, base addresses and element values; the shapes are an enumerated set of small ones (every rank, ' \
      'with unit, zero and unequal dimensions), since the loops have to normalise to straight-line code. '
LIFE = 'Element values are opaque (parametric in the element type), every call into user code may return or panic; the shapes are an ' \
       'enumerated set of small ones over all ranks, layouts and dimension kinds, listed in the evidence. '
TYPES = 'Generic in element type, dimension types and layout; ranks 0 to 6 and dynamic rank, all index, axis and permutation kinds are enumerated. '
NOTES = {
    'C12': TYPES, 'C18': TYPES,
    'C09': LIFE, 'C10': LIFE, 'C11': LIFE, 'C14': LIFE, 'C15': LIFE, 'C16': LIFE, 'C17': LIFE + 'The input is one of the enumerated nestings. ',
    'C19': 'The dimensions are enumerated: products that wrap to zero, to a small number, to the length at hand, at each position of the '
           'multiplication, for every creating operation, rank and dimension kind. ',
    'C20': LIFE,
    'C01': SYM, 'C02': SYM, 'C03': SYM, 'C04': SYM,
    'C05': SYM + 'Iteration: ' + FIX, 'C06': FIX, 'C07': FIX, 'C08': FIX + 'The shape check is symbolic in the dimensions.', 'C13': SYM,
}
for _k, _v in PROPS.items():
    _v['note'] = NOTES.get(_k, _v.get('note', SYM))

NA = {
    'N01': 'A statement about run time and allocation counts: static analysis of the IR can describe one compilation, not bound cost '
           'over all shapes; no sound argument in reach.',
    'N02': 'The feature does not compile with the installed nightly toolchain, so there is no type-checked program to analyse.',
}


def technique(c):
    t = []
    if c.get('wit'):
        t.append('unreachability of violation sites in normalised LLVM IR by value numbering and guard-fact dataflow')
    if c.get('drop'):
        t.append('typestate dataflow over the IR control-flow graph with unwinding edges')
    if c.get('types'):
        t.append('type-level witnesses and compile-fail cases decided by the compiler')
    return '; '.join(t)
