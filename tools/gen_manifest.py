"""Writes MANIFEST.json from properties.jsonl and the levels below"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification of the real code (pyvc, z3); bounded run-time oracle for failing inputs and as stand-in'
PROOF = {
    'C01': 'Every pack*/unpack* method of every serializer class and of Structured discharged against one encoding per class, unbounded; round trips of the leaves discharged on the real code. Bounded: text of the generated constructor (up to 4 arguments). Abstract: floats, struct on unknown formats.',
    'C02': 'pack, pack_into, pack_write of every serializer class and of Structured, all inputs, buffers, offsets, streams and histories.',
    'C03': 'unpack, unpack_from, unpack_read of every serializer class and of Structured, bytes/bytearray/memoryview, all contents, offsets, positions and histories.',
    'C04': 'size after every pack*/unpack* method of every serializer class, all inputs and histories.',
    'C05': 'All units under every byte order, on the original and on the result of with_byte_order; class definition hands the order to every field.',
    'C06': 'fold_overlaps, StructSerializer, StructActionSerializer (pack*/unpack*, +, *, @) for formats with unknown counts; chains of parts of any length (right-hand chains of 2 or 3 parts: bounded).',
    'C07': 'Both basic array classes and ArraySerializer for any item serializer, count, order and data size; array[] and Header[].',
    'C08': 'The four string serializers, fixed strings and char[] for all contents, lengths, terminators, orders.',
    'C09': 'UnicodeSerializer over an arbitrary inner serializer and codec; unicode[]. Codec lookup by name: stand-in.',
    'C10': 'Both deciders over arbitrary maps, decider results and inner serializers; containers prepare each part with the object of the operation.',
    'C11': 'ConditionalSerializer over arbitrary conditions, defaults and inner serializers; containers prepare each part after the earlier values are set.',
    'C14': 'Class definition: conflicts, OVERRIDE, base untouched, more than one base, for any number of annotations and bases.',
    'C16': 'Every unit starts from an arbitrary history and lets sub-serializers run other operations. lru_caches: stand-in.',
    'C17': 'unpack* of every class raises iff there is no complete encoding.',
    'C18': 'StructActionSerializer and arrays with actions for any number of values.',
    'C20': '__eq__ and __str__ for any number of fields.',
}
PARTLY = {
    'C12': 'Additions of chains of any length, tuples, get_final of every class and class definition are discharged; one listed known finding (recursive field before a final one).',
    'C13': '__init_subclass__ discharged for any number and kind of annotations; generated constructor and padding names bounded; typing.get_type_hints assumed (run by the oracle).',
    'C15': 'StructuredAlias.resolve, _get_specialization_hints and the specialized base in __init_subclass__ discharged; whole specialized classes against hand-written ones: stand-in.',
    'C19': 'Hint factories, constructors and chains discharged for the enumerated kinds of arguments (integers unbounded); other kinds: stand-in.',
}
checks = []
for l in open(here + '/properties.jsonl'):
    i = json.loads(l)['id']
    level, note = ('proof', PROOF[i]) if i in PROOF else ('exploration', PARTLY[i])
    checks.append(dict(property=i, quick_cmd=f'python3-vt -B check.py {i}', thorough_cmd=f'python3-vt -B check.py {i}', technique=T, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[]), open(here + '/MANIFEST.json', 'w'), indent=1)
