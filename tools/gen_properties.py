"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
S='structured/serializers/'; H='structured/hint_types/'
def P(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
L=[]
L.append(P('C01','Packing then unpacking gives the same values back',
 'For every class built from the supported hints and every instance whose values its hints can represent, unpacking the packed bytes yields an instance of the same class with equal values in every serialized field. This holds whether or not further bytes follow the packed data, for every way of packing combined with every way of unpacking, and at any buffer offset or stream position.',
 ['inputs','programs'],'all class definitions over the supported hints (any nesting, any byte order), all representable values (exact-length fixed strings, terminated strings without their terminator, text not ending in NUL), all trailing data and offsets',
 'Tests round-trip about 25 hand-written classes with one or two values each; nesting, empty values, offsets and byte orders are an unbounded product.',
 [S+f for f in('api.py','structs.py','strings.py','arrays.py','tuples.py','unions.py','conditional.py','structured.py','self.py')]+['structured/structured.py'],
 [('pack/unpack pair of every serializer class',S),('value distribution over chained serializers',S+'api.py CompoundSerializer')],
 ['Structured.pack*','Structured.create_unpack*','Structured.unpack*']))
L.append(P('C02','The three ways of packing produce the same bytes and write nothing else',
 'For every instance, packing to bytes, into a writable buffer at an offset, and to a writable stream all produce the same bytes, and all three reject the same values. Packing into a buffer changes only the bytes from the offset to the end of the packed data: every other byte and the buffer\'s length stay the same, and if the data does not fit it raises instead of resizing the buffer. Packing to a stream only appends those bytes at the current position.',
 ['inputs','programs'],'all classes, values, buffers, offsets and prior stream contents',
 'Tests compare the three calls only into an exactly sized buffer at offset 0 and an empty stream.',
 [S+f for f in('api.py','structs.py','strings.py','arrays.py','tuples.py','unions.py','conditional.py','structured.py')]+['structured/structured.py'],
 [('pack / pack_into / pack_write of every serializer',S)],['bytes returned by pack','buffer after pack_into','stream after pack_write']))
L.append(P('C03','The three ways of unpacking agree and consume exactly the encoded bytes',
 'On the same bytes, unpacking from a bytes-like object, from a buffer at an offset and from a stream give the same field values (or all reject the data), into a new instance or an existing one. Bytes before the offset and bytes after the encoded data never influence the values, and a stream is left positioned exactly after the encoded data. Any bytes-like input (bytes, bytearray, memoryview) gives the same values.',
 ['inputs','programs'],'all classes, all byte contents (well-formed or not), all offsets, all trailing data',
 'Tests unpack exactly sized well-formed data at offset 0 only.',
 [S+f for f in('api.py','structs.py','strings.py','arrays.py','tuples.py','unions.py','conditional.py','structured.py')]+['structured/structured.py'],
 [('unpack / unpack_from / unpack_read of every serializer',S)],['values returned','stream position']))
L.append(P('C04','The reported size equals the bytes produced or consumed',
 'Right after any successful pack or unpack call, the size reported by the serializer that performed it equals exactly the number of bytes that call produced or consumed, independent of offset, of trailing data and of which variant was called. This holds for a class\'s own serializer and for every serializer nested in it, including inside arrays, tuples, unions, conditions and recursive fields.',
 ['inputs','programs','histories'],'all classes, values, data, offsets, call variants',
 'Tests look at the size only at offset 0, mostly for fixed-size classes.',
 [S+f for f in('api.py','strings.py','arrays.py','tuples.py','unions.py','conditional.py','structured.py')],
 [('size bookkeeping in each operation',S)],['serializer.size after each call']))
L.append(P('C05','A byte order applies to every multi-byte value and to nothing else',
 'In a class declared with a byte order, every multi-byte number - fields, string length prefixes, array counts and sizes, and anything inside tuples, arrays, unions, text and conditional fields - is packed and unpacked in that order; nested classes keep their own declared order. Making a copy of a serializer or instance with another byte order changes only the byte order: the same values, actions, conditions, defaults and structure are kept, and the original is left unchanged.',
 ['inputs','programs','configurations'],'all six byte orders x all hints x all nestings x all values',
 'Tests use a non-default byte order on one-field or flat classes only.',
 [S+f for f in('api.py','structs.py','strings.py','arrays.py','tuples.py','unions.py','conditional.py')]+['structured/structured.py','structured/base_types.py'],
 [('with_byte_order of each serializer',S),('class creation applies the order','structured/structured.py __init_subclass__')],['bytes packed','values unpacked']))
L.append(P('C06','Runs of basic fields behave as one struct format',
 'A run of consecutive basic fields (numbers, booleans, fixed strings, padding) packs and unpacks exactly as Python\'s struct module does with the concatenation of their format specifiers under the class byte order, native alignment included, whatever the widths, counts and order of the fields. Adding, multiplying or matrix-multiplying basic serializers gives the serializer of the concatenated (repeated, or string-widened) format with the same number of values, and combining different byte orders is refused.',
 ['inputs','programs','configurations'],'all format strings of the supported grammar on both sides, all repeat counts, all byte orders',
 'Tests check six hand-picked formats; format strings are unbounded.',
 [S+'structs.py',S+'api.py',H+'basic_types.py'],
 [('format folding',S+'structs.py fold_overlaps'),('serializer algebra',S+'structs.py __add__/__mul__/__matmul__')],['serializer.format','bytes packed','num_values']))
L.append(P('C07','Arrays store the declared header and exactly the counted items',
 'A fixed-length array packs exactly its declared number of items, in order and with no count, and refuses a list of any other length; a counted array is preceded by the number of items in the declared header type, and unpacking yields exactly that many items. When a header declares a data-size field, packing writes the byte length of the items there and unpacking raises ValueError when the items used a different number of bytes; this holds for every item type and every call variant.',
 ['inputs','programs'],'all header kinds x item types x list lengths (zero included) x declared sizes',
 'Tests cover lists of 0, 3 and 5 items; size checks only for one nested item class.',
 [S+'arrays.py',H+'arrays.py'],[('header values',S+'arrays.py _header_pack_values/_header_unpack_values'),('size check',S+'arrays.py _check_data_size')],['bytes packed','list unpacked','ValueError']))
L.append(P('C08','Byte strings keep every byte in each length form',
 'Fixed byte strings occupy exactly their width; length-prefixed strings store their byte length in the declared type followed by all their bytes; terminated strings store the bytes with one terminator appended unless the value already ends with it, and reading stops at the first terminator, which is consumed but not returned; .NET strings use one length byte below 128 and two from 128 to 32767; consuming strings take all remaining bytes. Every length is supported including zero, lengths the prefix cannot hold are refused, and a missing terminator raises ValueError.',
 ['inputs'],'all byte contents and all lengths (0, 127/128, 255/256, 32767/32768, 65535/65536 ...), all terminators, all read-chunk boundaries',
 'Tests use strings of about five bytes and one of 200.',
 [S+'strings.py',H+'strings.py'],[('length prefix',S+'strings.py DynamicCharSerializer'),('terminator scan',S+'strings.py TerminatedCharSerializer'),('variable length mark',S+'strings.py NETCharSerializer')],['bytes packed','bytes unpacked']))
L.append(P('C09','Text fields are the byte-string form plus encode and decode',
 'A text field packs exactly as the byte-string field of the same length form would pack the encoded text, and unpacks to the decoded bytes with only trailing NUL characters removed, for every codec or custom encoder/decoder, length form, byte order and call variant. The encoder and the decoder are applied once per value, and encoding or decoding errors are raised rather than swallowed.',
 ['inputs','configurations'],'all texts, codecs, length forms, call variants and input buffer types',
 'Tests use two short texts with utf8 at exact lengths.',
 [S+'strings.py',H+'strings.py'],[('wrapping of a byte-string serializer',S+'strings.py UnicodeSerializer')],['bytes packed','str unpacked']))
L.append(P('C10','Unions use exactly the serializer their decider selects',
 'A union field packs and unpacks with exactly the serializer mapped to the decider\'s result, the default when the result is unmapped, and raises ValueError when there is no default. A look-back decider sees the object with every field serialized before the union already set, both packing and unpacking; a look-ahead decider reads its key from the bytes that follow without consuming them, so the selected serializer starts at the same position. Every call variant makes the same choice.',
 ['inputs','programs'],'all decision maps, deciders, results (mapped, unmapped), positions of the union and offsets',
 'Tests use constant deciders or maps of two entries at offset 0.',
 [S+'unions.py',S+'api.py','structured/structured.py'],[('selection',S+'unions.py get_serializer'),('partial object passed down',S+'api.py'),('proxy','structured/structured.py _Proxy')],['bytes packed','values unpacked','ValueError']))
L.append(P('C11','Conditional fields are present exactly when their condition holds',
 'When the condition is true for the object (as built so far when unpacking) the field packs and unpacks exactly as it would without the condition; when false it writes and reads no bytes, leaves buffer and stream untouched, and the field unpacks to its default. The condition sees every earlier field, any truthy or falsy result counts, and this holds for every serializable hint the condition wraps.',
 ['inputs','programs'],'all conditions, field hints, values and positions',
 'Tests use one class with two number fields.',
 [S+'conditional.py',H+'condition.py',S+'api.py'],[('choice of real or skipping serializer',S+'conditional.py prepack/preunpack')],['bytes packed','values unpacked','stream position']))
L.append(P('C12','Nothing can follow a field that consumes the rest of the input',
 'Defining a class, tuple or chain of serializers in which any serialized field follows one that is, or contains at any depth (nested class, tuple, union choice or default, text, condition), a read-to-end field raises TypeError, as does using such a hint as an array item; definitions where it comes last are accepted. A serializer reports itself as final exactly when it is or contains such a field.',
 ['programs'],'all class definitions and serializer additions at any nesting depth',
 'Tests check five single definitions.',
 [S+f for f in('api.py','unions.py','tuples.py','conditional.py','structured.py','strings.py')]+[H+'arrays.py'],[('finality propagation','get_final / is_final of each serializer'),('refusal',S+'api.py __add__')],['TypeError at class definition']))
L.append(P('C13','Fields, constructor and order follow the class definition',
 'The serialized fields are exactly the attributes with serializable hints, in declaration order with base-class fields first; redefining a hint in a subclass replaces it in place and redefining it as None removes it; class variables and unserializable hints are ignored, and padding takes part in the layout but not in the fields. The generated constructor takes exactly those fields in that order, by position or keyword, stores each argument in the attribute of that name, and then runs the post-init hook.',
 ['programs'],'all class definitions and inheritance chains',
 'Tests check a handful of class bodies and one level of inheritance.',
 ['structured/structured.py','structured/type_checking.py',H+'basic_types.py'],[('hint filtering','structured/structured.py filter_typehints'),('constructor generation','structured/structured.py gen_init'),('assembly','structured/structured.py __init_subclass__')],['attrs','__init__','bytes packed']))
L.append(P('C14','Conflicting inheritance is refused',
 'Deriving from a class with a different byte order raises ValueError unless overriding is requested, and when overriding is requested every inherited and new field uses the new order; deriving from two serializable bases raises TypeError. Equal byte orders are always accepted, and the base class is never changed by deriving from it.',
 ['programs','configurations'],'all pairs of byte orders, both modes, all base-class shapes',
 'Tests check one conflicting pair.',
 ['structured/structured.py'],[('conflict check','structured/structured.py __init_subclass__'),('single base','structured/structured.py get_structured_base')],['ValueError','TypeError','bytes packed']))
L.append(P('C15','A specialized generic class equals its hand-written counterpart',
 'Subclassing a generic class with concrete arguments, or using the fully specialized generic as a field, array item or union choice, gives the same fields, order, byte order and bytes as the class written out with the arguments substituted - through several levels of generic inheritance and inside arrays, strings, tuples, headers and nested generic classes. Fields the subclass redefines itself keep the subclass\'s hint, and different arguments never share a specialization.',
 ['programs'],'all generic class graphs, argument assignments and nesting of type variables',
 'Tests specialize five generic classes.',
 ['structured/structured.py','structured/utils.py',S+'structured.py',H+'arrays.py',H+'strings.py',H+'tuples.py'],[('substitution','structured/structured.py _get_specialization_hints'),('alias resolution','structured/utils.py StructuredAlias.resolve'),('specialization cache',S+'structured.py _transform')],['attrs','bytes packed','values unpacked']))
L.append(P('C16','An operation\'s result depends only on its own inputs, never on history',
 'The bytes or values an operation gives depend only on the class, the instance\'s values and the input bytes: not on earlier successful or failed operations, not on other classes sharing the same hints, and not on operations on nested or recursively contained instances performed in the course of it. In particular self-containing structures of any depth and branching give the same result as if every level had serializers of its own, and packing never modifies the instance.',
 ['histories','inputs','programs'],'all sequences of operations over classes sharing hints, and all recursive instance trees',
 'Tests run each operation on fresh data; recursion to depth two with one shape.',
 [S+f for f in('api.py','arrays.py','tuples.py','unions.py','self.py','structured.py','conditional.py')],[('per-operation serializers and late size updates',S+'api.py _SpecializedCompoundSerializer'),('context stored by prepack/preunpack',S)],['bytes packed','values unpacked','size'],
 [('stored context object','context of the current operation on a shared serializer',S)]))
L.append(P('C17','Truncated input is rejected, never returned as a short value',
 'If the available bytes end before the encoding of every field is complete, every way of unpacking raises an error; none returns an instance with shortened, missing or default values. No number of missing bytes and no cut position is an exception, apart from fields that by definition read to the end of the input.',
 ['inputs','fault_sequences'],'all classes, all encodings, all cut positions, all call variants',
 'Tests cut only the terminator of one string.',
 [S+'strings.py',S+'structs.py',S+'arrays.py',S+'api.py'],[('length checks in every unpack variant',S)],['exception raised']))
L.append(P('C18','Custom value types are converted exactly once, in their own position',
 'A field hinted with a custom type passes each unpacked value through that field\'s own factory exactly once, in every call variant and byte order and when combined with neighbouring fields, repeated in arrays or put in tuples; other fields\' values are not touched. Packing uses the value as its basic type, so the bytes equal those of the plain basic field.',
 ['inputs','programs'],'all mixes of plain and custom fields, all factories, repeat counts, byte orders',
 'Tests use one class of three fields and one array.',
 [S+'structs.py',H+'serialize_as.py'],[('per-value actions kept aligned under +, * and byte order',S+'structs.py StructActionSerializer')],['values unpacked','bytes packed']))
L.append(P('C19','Malformed hints are refused when the class or hint is made',
 'Negative or non-uint array lengths, non-uint size fields, wrong argument counts, unserializable array items, union choices that do not hold exactly one value, terminators that are not a single byte, unknown length kinds, a missing codec, conditions on unserializable hints or with the wrong number of defaults, custom types on anything but a one-value basic type, and hints used without their required index are each refused with TypeError or ValueError when the hint or class is created, regardless of what was created before. Valid arguments are always accepted.',
 ['inputs','programs'],'all hint arguments and all orders of hint creation',
 'Tests check about twenty single arguments.',
 [H+f for f in('arrays.py','strings.py','condition.py','serialize_as.py','basic_types.py')]+[S+'unions.py',S+'conditional.py',S+'strings.py','structured/base_types.py'],[('argument checks','class_getitem of each hint')],['TypeError','ValueError']))
L.append(P('C20','Equality compares class and every serialized field',
 'Two instances are equal exactly when they are of the same class and all serialized fields compare equal; differing in any single field makes them unequal, and an instance of a subclass or another type is never equal by this rule. The text form lists every serialized field once, in order, with its current value.',
 ['inputs','programs'],'all classes and all pairs of instances',
 'Tests compare five instances of one class.',
 ['structured/structured.py'],[('comparison','structured/structured.py __eq__'),('text','structured/structured.py __str__')],['==','str()']))
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
print(len(L))
