COMMON = 'Random search: no violation among the generated cases, no proof. Trusts CPython, Hypothesis, zope.interface, plumber, odict and the reference model in vt/.'
DEFAULT = ('property-based testing (Hypothesis) against a reference model', COMMON, 'exploration')


def _n(tech, note=''):
    return ('property-based testing: ' + tech, (note + ' ' if note else '') + COMMON, 'exploration')


NOTES = {
    'P01': _n('model-based operation histories against a dict'),
    'P02': _n('random behavior compositions, model-based operation histories against a dict',
              'Compositions are drawn in the documented plumbing order.'),
    'P03': _n('model-based histories of ordering operations against a list'),
    'P04': _n('model-based histories on a forest, location invariant of every contained node after each step',
              'One genuine defect (ghost parent) is a known finding and excluded by construction.'),
    'P05': _n('generated values and ways of writing against an accept/reject oracle, state comparison after refusals'),
    'P06': _n('fault injection at every storage access of generated histories, state comparison with the model before the operation'),
    'P07': _n('model-based histories on forests of referencing nodes, index compared with the model from every node',
              'Overwriting assignments are a known finding and excluded by construction.'),
    'P08': _n('generated collisions of uuids in histories on forests, state comparison after each refusal'),
    'P09': _n('generated trees and copy histories against a reference of who gets a new uuid'),
    'P10': _n('copy and pickle round trips of generated trees, metamorphic independence under later changes'),
    'P11': _n('round trip of generated trees and attribute values'),
    'P12': _n('differential comparison with a projection of the generated tree specification'),
    'P13': _n('generated interface and class hierarchies and registrations, call log against a reference dispatcher'),
    'P14': _n('interleaved model-based histories on children, attributes and nodespaces'),
    'P15': _n('model-based histories mixing attribute and item access'),
    'P16': _n('inversion laws and an independent reference for generated aliasers and keys'),
    'P17': _n('model-based histories under aliased keys, storage compared with the unaliased model'),
    'P18': _n('model-based histories with an instrumented source that rejects redundant loads'),
    'P19': _n('model-based histories with invalidations'),
    'P20': _n('model-based histories with recorded factory calls'),
    'P21': _n('generated attempts to write, every read compared with the state at construction'),
    'P22': _n('generated trees and fallback keys against an iterative reference search'),
    'P23': _n('model-based histories, recorded events against the expected ones'),
    'P24': _n('generated event scripts, call log against a model running the same script'),
    'P25': _n('generated event attribute scripts, call log and values against a model'),
    'P26': _n('generated scripts of nested suppression contexts against a model'),
    'P27': _n('generated scripts in threads under a deterministic scheduler owned by the harness, differential with running alone',
              'Thread switches happen at generated source lines or bytecodes of the library, so that schedules are replayable; switches within C code are not explored.'),
    'P28': _n('generated lock scripts in threads under a deterministic scheduler owned by the harness, owner bookkeeping as invariant',
              'Locks of the library are replaced by scheduler aware ones; switches happen at generated source lines or bytecodes.'),
    'P29': _n('generated nested structures against a reference and as round trip'),
    'P30': _n('model-based histories of the mapped mapping against the exchanged mapping'),
    'P31': _n('generated trees against lines derived from the tree specification'),
    'P32': _n('generated class and interface hierarchies against a search over the specification'),
    'P33': _n('interleaved histories on several instances, each against its own model'),
    'P34': _n('generated broken mappings with known verdicts, generated tester classes',
              'Three genuine gaps of the tester are known findings and excluded by construction.'),
    'P35': _n('model-based histories of moves on a forest with a conservation invariant'),
    'P36': _n('generated accesses and calls, counted evaluations'),
    'P37': _n('generated import orders, differential against the usual '
              'order'),
    'P38': _n('generated compositions and histories, verified interfaces'),
    'P39': _n('model-based operation histories with texts and byte strings '
              'against a dict of texts'),
    'P40': _n('generated class hierarchies, arguments and settings, recorded '
              'constructor calls'),
    'P41': _n('generated histories run twice, with and without reads in '
              'between, compared in everything observable'),
    'P42': _n('generated histories with weak references to everything '
              'created, compared with what the model still uses after '
              'garbage collection'),
    'P43': _n('generated compositions with recording behaviors and own '
              'storages, model-based histories'),
    'P44': _n('generated histories on several trees, nested at generated '
              'points of each other or in threads under a deterministic '
              'scheduler, each against its own model'),
    'P45': _n('generated compositions cut into chains of subclasses, '
              'model-based histories and comparison with the class plumbed '
              'at once'),
    'P46': _n('generated histories with handlers that change the trees, '
              'compared with the same changes one after the other'),
}
