"""Which specification modules decide which property."""
from .spec.types import ALL, REPR, TYPES

MODULES = {
    'A01': ['arrays'], 'V01': ['vector'], 'Q01': ['deque'], 'N01': ['nums'],
    'Q02': ['hydra'], 'Q03': ['hydra'],
    'B01': ['bi'], 'B02': ['bi'],
    **{'K0%d' % i: ['heap'] for i in range(1, 5)},
    'I01': ['snow'], 'I02': ['snow'], 'S01': ['sort'], 'S02': ['sort'],
    'G01': ['deque', 'vector', 'hash', 'hydra'], 'T01': ['stores'], 'T02': ['stores'],
    **{'C0%d' % i: ['prims'] for i in range(1, 7)}, 'H08': ['prims'],
    **{'H0%d' % i: ['hash'] for i in range(1, 8)},
    'H01': ['hash', 'prims'], 'H04': ['hash', 'prims'], 'K01': ['heap', 'prims'], 'S01': ['sort', 'prims'],
}


def specs(prop, tier):
    out = []
    for m in MODULES[prop]:
        mod = __import__('vc.spec.' + m, fromlist=['specs'])
        if hasattr(mod, 'tier_specs'): s = mod.tier_specs(tier, prop)
        else: s = mod.specs(ALL)
        out += [x for x in s if prop in x.props]
    return out


ASSUME_ALL = [
    'single-threaded use of collections (only the Snowflake generator is checked for concurrent callers)',
    'memory suffices: OutOfMemoryError and StackOverflowError are outside the contracts',
    'caller-supplied functions terminate and do not touch the private state of the collection they are called from, except as the property states',
]
HASH = ['domain: capacity 1..2^29; the load factor and floating point keys are not NaN; add is called while entries can still be handed out',
        'domain: key equality is an equivalence and equal keys have equal hashes (for the built-in ones H08 proves it)',
        'domain: removeAtAndReserve on a live entry, freeReservedEntry on a reserved one, iterator remove after a next that returned true, copyFrom from another object',
        'the change counter does not run through all 2^32 values between a reset of an iterator and its use']
REL = ['domain: keys 0..2^31-3 (any int for the right keys of a one-to-many); removeAt and removeAtAndReserve on live entries; iterators are reset after the last change; consumers do not change the relation',
       'the contract of LongIndexedSet is used as H01-H03 prove it']
HEAP = ['domain: initial capacity 1..2^29; resetKey and setValueAt on live entries',
        'the comparator is a total preorder; on the finitely many keys of a history it is represented by real numbers']
ASSUME = {
    **{'H0%d' % i: HASH for i in range(1, 8)}, 'G01': HASH, **{'K0%d' % i: HEAP for i in range(1, 5)}, 'B01': REL, 'B02': REL,
    'Q01': ['domain: initial capacity up to 2^29'],
    'Q02': ['domain: list ids 0..2^31-3, initial capacity up to 2^30'], 'Q03': ['domain: list ids 0..2^31-3, initial capacity up to 2^30'],
    'T01': ['domain: the cells and one more chunk of them fit an int; multiplication of two variables is an uninterpreted function with the facts the lemma "products and quotients" proves'],
    'T02': ['domain: row * fields + field fits an int; multiplication of two variables is an uninterpreted function with the facts the lemma "products and quotients" proves'],
    'S01': ['domain: the two arrays are distinct objects', 'the comparator is a total preorder; on the finitely many elements of an array it is represented by real numbers'],
    'S02': ['domain: the two arrays are distinct objects'],
    'I01': ['the clock readings lie within 41 bits after the epoch; the loop that waits for the clock ends when the clock advances (termination is not claimed)',
            'mutual exclusion: nextId runs under the monitor of the generator (the monitor and its object are checked; the state is arbitrary at each acquisition)'],
    'I02': ['the clock readings lie within 41 bits after the epoch; the default node name supplier is trusted'],
    'C05': ['years 0..9999; java.time constructs a date or time exactly when its fields are valid'],
    'C06': ['parsing and formatting of numbers and dates is that of the JDK'],
    'H08': ['equal object keys have equal hash codes (the contract of Object.hashCode)', 'floating point keys are not NaN'],
}
NOTE_ALL = ('every obligation generated from the compiled classes of this run is discharged for all inputs and histories; '
            'a bounded search with the real classes runs besides to supply failing inputs and is not counted')
NOTE = {}
NA = {}
