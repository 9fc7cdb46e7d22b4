"""Which families of contracts and which bounded harnesses decide each property."""
# property -> (contract families, bounded harnesses)
PROPS = {
    'C18': (['algo'], ['algo', 'big']),
    'C19': (['algo'], ['algo', 'big']),
    'C20': (['algo'], ['algo', 'big']),
    'C21': (['algo'], ['algo', 'big']),
    'C22': (['algo'], ['algo', 'big']),
    'C01': (['vector'], ['vector', 'big']), 'C02': (['vector'], ['vector', 'big', 'life']),
    'C03': (['fixed_vector'], ['fixed_vector', 'big']), 'C04': (['fixed_vector'], ['fixed_vector', 'big', 'life']),
    'C05': (['list'], ['list', 'big']), 'C06': (['list'], ['list', 'big', 'life']),
    'C07': (['slist'], ['slist', 'big', 'life']), 'C08': (['slist'], ['slist', 'big', 'life']), 'C09': (['slist'], ['slist', 'big', 'life']),
    'C10': (['tree'], ['tree', 'big']), 'C11': (['tree'], ['tree', 'life']), 'C12': (['tree'], ['tree', 'big']), 'C13': (['tree'], ['tree', 'big', 'life']), 'C24': (['tree'], ['tree', 'life']),
    'C14': (['svm'], ['flatmap', 'big', 'life']), 'C15': (['vector_map'], ['flatmap', 'big', 'life']),
    'C16': (['bitset'], ['bitset', 'big']), 'C17': (['bitset'], ['bitset', 'big']),
    'C23': (['vector', 'fixed_vector', 'list', 'slist', 'svm', 'vector_map', 'tree', 'bitset', 'algo'], ['vector', 'fixed_vector', 'list', 'slist', 'tree', 'flatmap', 'bitset', 'algo', 'big']),
}
CXX = ['g++', '-std=gnu++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-lifetime-dse',
       '-fno-strict-aliasing', '-w']
ASSUMPTIONS = [
    'clang 18 parses the headers as the compilers of the users do; templates are proved for an abstract element type E (copyable, == and < pure, copies do not throw or fail), so an instantiation with another type is covered as far as it behaves like E',
    'the translation of the clang AST of the instantiated functions into Verus (lib/xlate.py) preserves their meaning; it is mechanical, runs on every check, and drops only: casts between pointer types of one hierarchy, constness, value categories, and the operations of E itself, which are replaced by the contracts in contracts/eops.rs',
    'addresses are mathematical integers, one unit per element (no address wraps around); operator new returns fresh storage and does not fail',
    'evaluation order of operands is the one clang shows in the AST',
]
NOTES = {
    'bounded': 'Bounded only, nothing is proved: enumerated small histories and seeded random histories of the real templates under AddressSanitizer and UBSan, compared with a reference model after every operation.',
    '': 'Proof for all inputs: every function listed in the evidence is extracted from the current source, translated to Verus and all its obligations (pre- and postconditions, loop invariants, termination, no unsigned/signed overflow, no access outside of live elements) are discharged. Assumes the translation and the contracts of the element type and of operator new (listed in the evidence). A bounded replay of the real templates runs as well; it is not counted as proved.',
}
