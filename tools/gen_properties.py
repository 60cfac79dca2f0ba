"""Writes /verif/properties.jsonl (kept as code so wording stays in one place)."""
import json, os
C='asn1crypto/core.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(title,len(title))
    P.append(d)

p('S01','Identifier registries translate one-to-one in both directions',
 'For every object-identifier, enumeration and named-bit registry, translating an identifier to its name and that name back yields an identifier with that same name, and every name the registry can produce is accepted when assigning a value. This holds for registries extended by another module or restricted in a subclass, whatever order modules are imported in and whatever lookups were made before the extension.',
 ['programs','histories'],'every entry of every registry, every extension site, every import order and every lookup before or after an extension',
 'Tests translate a handful of names; there are over five hundred entries, several hand-written reverse tables, and the import-order dependence only shows in particular histories.',
 [C,'asn1crypto/algos.py','asn1crypto/keys.py','asn1crypto/x509.py','asn1crypto/cms.py','asn1crypto/pdf.py','asn1crypto/tsp.py','asn1crypto/pkcs12.py','asn1crypto/ocsp.py','asn1crypto/crl.py'],
 [('reverse table construction','core.ValueMap._setup'),('registry literals','every _map / _reverse_map'),('lookups','core.ObjectIdentifier.map/unmap')])
p('S02','Published identifiers keep the names and numbers their standards assign',
 'Every object identifier, enumerated code point, named bit, class number and universal tag that the library recognises is attached to the name its defining standard assigns, and none of the recognised ones is missing, mistyped or attached to another name.',
 ['programs'],'all recognised identifiers and code points in all modules',
 'Each entry matters only to data that contains it; the fixtures contain a small fraction of them.',
 [C,'asn1crypto/algos.py','asn1crypto/keys.py','asn1crypto/x509.py','asn1crypto/cms.py','asn1crypto/crl.py','asn1crypto/ocsp.py','asn1crypto/tsp.py','asn1crypto/pdf.py','asn1crypto/pkcs12.py','asn1crypto/csr.py'],
 [('registry literals','every _map'),('universal tags','core.<Type>.tag'),('tables of classes and methods','core.CLASS_NUM_TO_NAME_MAP')])
p('S03','Structure definitions match the ASN.1 modules of their standards',
 'Every structure, choice and collection type the library defines has the components, component order, component types, tagging (class, number, implicit or explicit), optionality and default values that the ASN.1 module of its standard gives it.',
 ['programs'],'all components of all structure, choice and collection types in all modules',
 'A wrong tag, missing OPTIONAL or wrong default only shows on data that uses that component; most components never occur in the fixtures.',
 ['asn1crypto/algos.py','asn1crypto/keys.py','asn1crypto/x509.py','asn1crypto/cms.py','asn1crypto/crl.py','asn1crypto/ocsp.py','asn1crypto/tsp.py','asn1crypto/csr.py','asn1crypto/pkcs12.py','asn1crypto/pdf.py'],
 [('schema tables','_fields, _alternatives, _child_spec')])
p('S04','Open types are decoded as the type their identifier stands for',
 'Wherever the type of a component depends on an identifier elsewhere in the same structure, each identifier selects the type its standard defines for it, every entry of the selection table can actually be reached through a recognised identifier, and the selection never depends on anything but the identifier\'s own structure.',
 ['programs','inputs'],'every entry of every identifier-to-type table, every selection callback, every identifier value',
 'A dead or wrong entry is only visible on data carrying that identifier.',
 ['asn1crypto/algos.py','asn1crypto/keys.py','asn1crypto/x509.py','asn1crypto/cms.py','asn1crypto/crl.py','asn1crypto/ocsp.py','asn1crypto/tsp.py','asn1crypto/csr.py','asn1crypto/pkcs12.py','asn1crypto/pdf.py'],
 [('tables','_oid_pair, _oid_specs'),('callbacks','_spec_callbacks and the functions they name'),('selection','core.Sequence._determine_spec')])
p('S05','Every structure can be decoded unambiguously from its leading tags',
 'In every structure definition the decoder can tell from the next element\'s class and tag alone which component or alternative it belongs to: alternatives of a choice are pairwise distinct, members of a set are pairwise distinct, an optional or defaulted component is distinct from every component that could follow it, and no choice or open type is implicitly tagged.',
 ['programs','inputs'],'all structure, choice and set definitions; all subsets of optional components present',
 'The clash only shows for one particular combination of absent optional components.',
 ['asn1crypto/core.py','asn1crypto/x509.py','asn1crypto/cms.py','asn1crypto/keys.py','asn1crypto/tsp.py','asn1crypto/crl.py','asn1crypto/ocsp.py'],
 [('identification of a component by class and tag','core._build_id_tuple, core.Choice.validate, core.Sequence._parse_children')])
p('S06','Algorithm accessors report what each algorithm is defined to be',
 'For every recognised signature, digest and encryption algorithm, and every recognised key type and named curve, the derived properties (hash, signature scheme, key length, cipher, mode, block size, key derivation function, key size) give the values that follow from the algorithm\'s definition, and raise ValueError for an algorithm the property is not defined for; no recognised algorithm makes them fail in any other way.',
 ['programs','inputs'],'every recognised algorithm name crossed with every derived property',
 'The tests check some algorithms per accessor; the tables and string dissections have a case per algorithm.',
 ['asn1crypto/algos.py','asn1crypto/keys.py'],
 [('accessors','algos.SignedDigestAlgorithm.signature_algo/hash_algo/cms_hash_algo, algos.EncryptionAlgorithm.*'),('curves','keys.NamedCurve.key_size'),('key types','keys.PrivateKeyInfo._private_key_spec, keys.PublicKeyInfo._public_key_spec')])
p('S07','Each extension accessor returns the extension it is named after',
 'For certificates, CRLs, revoked-certificate entries, OCSP requests and OCSP responses, each per-extension accessor returns the parsed value of exactly the extension with that name, or nothing when it is absent, whichever accessor is used first; the set of critical extensions holds exactly the names of the extensions marked critical.',
 ['inputs','histories'],'all extension kinds, all orders of first access',
 'The fixtures carry some extensions and read them in one order.',
 ['asn1crypto/x509.py','asn1crypto/crl.py','asn1crypto/ocsp.py'],
 [('dispatch','x509.Certificate._set_extensions, crl.*._set_extensions, ocsp.*._set_extensions'),('accessors','*_value properties, critical_extensions')])
p('A01','Accessors treat absent optional components as absent',
 'No convenience property or method fails with an attribute or type error because an optional component of the decoded structure, or of a structure nested in it, is absent: it reports absence, falls back, or raises ValueError.',
 ['inputs'],'every combination of absent optional components, every accessor',
 'Each combination of absent components is a separate input; fixtures are complete, well-formed objects.',
 ['asn1crypto/x509.py','asn1crypto/crl.py','asn1crypto/ocsp.py','asn1crypto/keys.py','asn1crypto/algos.py','asn1crypto/cms.py','asn1crypto/tsp.py','asn1crypto/pkcs12.py'],
 [('optional components decode to a placeholder','core.VOID'),('guards','`.native is None` tests and truth tests in accessors')])
p('A02','Accessors only name components and members that exist',
 'Every component name used to index a structure, and every attribute used on a component, in the library\'s own accessors and decoding callbacks, is defined by the type of the structure being indexed on every path that reaches it, and every name an identifier or enumeration is compared with is one its type can have.',
 ['inputs','programs'],'every indexing and attribute use on a statically known structure type',
 'A wrong name only fails when that accessor is run on data that takes that branch.',
 ['asn1crypto/x509.py','asn1crypto/crl.py','asn1crypto/ocsp.py','asn1crypto/keys.py','asn1crypto/algos.py','asn1crypto/cms.py','asn1crypto/tsp.py','asn1crypto/pkcs12.py'],
 [('component names','_fields of the indexed type')])
p('S08','Shortcut accessors give the component or function of components they name',
 'On certificates, CRLs, revoked-certificate entries, OCSP responses, distribution points, names, public keys, PKCS#12 files and compressed data, each shortcut (issuer, subject, validity, key identifiers, issuer-and-serial, addresses, valid domains and host matching, CA flags, self-issued and self-signed, contents, digests) gives exactly the component, or the documented function of the components, it is named after, whatever other shortcut was read before.',
 ['inputs','histories'],'all structures with components present, absent, repeated and of every kind; all orders of reading the accessors',
 'Accessors cache and share helpers, so a mistake shows only for a particular mix of entries or after another accessor was read.',
 ['asn1crypto/x509.py','asn1crypto/crl.py','asn1crypto/ocsp.py','asn1crypto/keys.py','asn1crypto/pkcs12.py','asn1crypto/cms.py'],[('accessors','properties of x509.Certificate, x509.Name, x509.DistributionPoint, crl.CertificateList, crl.RevokedCertificate, ocsp.OCSPResponse, keys.PublicKeyInfo, pkcs12.Pfx, cms.CompressedData')])
p('S09','Algorithm identifiers whose parameters must be NULL get NULL',
 'Constructing an algorithm identifier, or assigning its algorithm, with an algorithm for which the standards require NULL parameters (RSA and the RSA signature algorithms with SHA-2, SHA-1 and SHA-2 digests) makes the parameters NULL when none are given. Parameters that are given are kept, removing them makes them absent, and other algorithms never gain parameters.',
 ['inputs','histories'],'every algorithm identifier structure, every algorithm it knows, parameters absent or present, constructed or edited in any order',
 'The rule is spread over a list of identifiers, an assignment override and the constructor, and only shows for particular algorithms.',
 ['asn1crypto/algos.py','asn1crypto/keys.py','asn1crypto/cms.py'],[('_null_algos and __setitem__','algos._ForceNullParameters'),('structures','algos.DigestAlgorithm, algos.SignedDigestAlgorithm, algos.EncryptionAlgorithm, algos.AnyAlgorithmIdentifier, keys.PrivateKeyAlgorithm, keys.PublicKeyAlgorithm, cms.KeyEncryptionAlgorithm')])
p('S10','Builders of names and key containers produce what their arguments describe',
 'Building a name from attributes gives one relative name per attribute, in the preferred order whatever order they are given in, each with its identifier and the string type its attribute and the chosen form prescribe, a ready-made value being used as it is. Wrapping a private or public key gives the version, algorithm, parameters and untagged key the standards prescribe for that kind of key, from a value or from bytes alike, without changing the key passed in. Unknown attributes and algorithms and arguments of other types are refused.',
 ['inputs'],'every attribute and combination and order of attributes, both string forms, ready-made values; every kind of key, as a value (tagged or not) or as bytes',
 'Each attribute and each kind of key takes its own path through the builder.',
 ['asn1crypto/x509.py','asn1crypto/keys.py'],[('builders','x509.Name.build, keys.PrivateKeyInfo.wrap, keys.PublicKeyInfo.wrap'),('order of attributes','x509.NameType.preferred_order, preferred_ordinal')])
p('M01','Assigning a new value leaves nothing of the old one behind',
 'After a value is successfully assigned to an object, its encoding and every later read are computed from the new value alone: the content bytes are replaced, cached header bytes, trailing bytes and indefinite-length form of the old encoding are dropped, and every cached decoded view is either refreshed or discarded.',
 ['histories'],'every value type that can be assigned to, every prior state (parsed, built, indefinite-length, already read), every successful path through the assignment',
 'Tests assign to fresh objects; staleness needs decode, read, assign, read or dump in sequence on each type.',
 [C,'asn1crypto/x509.py','asn1crypto/keys.py','asn1crypto/ocsp.py'],
 [('assignment','every set() method')],
 [('_header/_trailer/_indefinite/method','cached encoding parts','core.Asn1Value, core.Constructable'),('_native/_unicode/_bytes/_parsed/_dotted/_unused_bits','cached decoded views','core.*, x509.*')])
p('M02','A rejected assignment leaves the object unchanged',
 'When assigning a value fails with an exception, the object still encodes and reads exactly as it did before the attempt.',
 ['histories','inputs'],'every value type, every rejected value, every point at which the assignment can fail',
 'Tests assert that the exception is raised and stop there.',
 [C,'asn1crypto/x509.py','asn1crypto/keys.py'],
 [('validate and convert before storing','every set() method, core.Sequence.__setitem__/__delitem__, core.SequenceOf.__setitem__/append')])
p('M03','Editing a container is reflected in its encoding and its native view',
 'After a component or element is assigned, deleted or appended, or a structure nested in it (directly or as the chosen alternative of a choice) is edited in place, the container\'s next encoding is rebuilt from its current components, and the native view, if already computed, shows the edit; rebuilding discards the cached header and trailer.',
 ['histories'],'all container types, all edit operations, all prior states (parsed lazily, parsed fully, built, native view cached or not)',
 'Needs parse, read, edit, dump sequences per operation; tests cover a few.',
 [C],[('mutation flag','core.Sequence._mutated, core.Sequence._is_mutated, core.SequenceOf._mutated'),('rebuild','_set_contents of Sequence, SequenceOf, Set, SetOf'),('native view','__setitem__/__delitem__/append')])
p('M04','Copies and retagged values are complete and independent',
 'A copy, retagged, untagged or cast value carries everything that determines the value and encoding of the original (content, element type, chosen alternative, parsed view, width and bit-count information, tagging), making it never modifies the original, and a deep copy shares no mutable part with it.',
 ['histories'],'every value type, every copying operation, every prior state',
 'Tests copy a few types freshly built; lost state shows only for values in a particular state.',
 [C,'asn1crypto/x509.py','asn1crypto/keys.py','asn1crypto/crl.py','asn1crypto/ocsp.py'],
 [('copying','__copy__, __deepcopy__, copy, _new_instance, _copy'),('retagging','retag, untag, core._fix_tagging'),('casting','core.Castable.cast')])
p('M05','Reading or comparing a value never changes what it encodes',
 'Reading the native value, comparing, hashing, printing, iterating, measuring, testing membership or using any convenience accessor never changes the bytes a value (or anything reachable from it or from the other operand) encodes to or what a later read of it returns, and never discards or replaces its components.',
 ['histories'],'all read-only operations, all types, both operands',
 'Tests rarely dump after reading, and never dump the right operand of a comparison.',
 [C,'asn1crypto/x509.py','asn1crypto/keys.py','asn1crypto/crl.py','asn1crypto/ocsp.py','asn1crypto/algos.py','asn1crypto/cms.py'],
 [('read-only entry points','native, __eq__, __ne__, __hash__, __str__, __repr__, debug, accessors'),('allowed writes','decode caches only')])
p('M06','A lazily computed result is only remembered once it is complete',
 'If computing a cached result fails part-way, nothing partial is remembered: the next request fails the same way or computes the full result, and never returns a truncated, empty or half-filled answer.',
 ['histories','inputs'],'every lazily computed view, every point at which its computation can fail',
 'Needs two requests around a failure on malformed data; tests stop at the first exception.',
 [C,'asn1crypto/x509.py','asn1crypto/crl.py','asn1crypto/ocsp.py','asn1crypto/keys.py'],
 [('lazy views','properties that store on first use'),('roll-back','except clauses that reset the cache')])
p('M07','Values share no mutable state with their inputs or with type definitions',
 'Building, decoding, editing or reading a value never modifies a container the caller passed in and never stores it as the value\'s own state, and never modifies the definitions (fields, defaults, registries) that other values of the type rely on.',
 ['histories','inputs'],'every constructor and assignment argument, every class-level definition, every sequence of operations on other values',
 'Contamination shows only when a second value is used after the first was edited.',
 [C,'asn1crypto/x509.py','asn1crypto/cms.py','asn1crypto/keys.py','asn1crypto/algos.py'],
 [('arguments','constructors, set(), parse(), retag()'),('defaults','_fields params'),('class setup','_setup()')])
p('P01','Parsing reads only inside the data and rejects malformed input with ValueError',
 'Whatever bytes they are given, the element parser and its public wrappers read only within the data supplied and either return or raise ValueError (TypeError for non-bytes); every length the data claims is compared with what is available before it is used.',
 ['inputs'],'all byte strings, all truncation points, all claimed lengths',
 'Truncations and over-long lengths at each position form an unbounded set.',
 ['asn1crypto/parser.py'],[('bound checks','parser._parse'),('type checks','parser.parse, parser.peek, parser.emit')])
p('P02','Decoding always terminates within a fixed nesting budget',
 'On every input the element parser terminates: every loop consumes at least one byte per iteration, and nested indefinite-length elements are followed only to a fixed depth, after which ValueError is raised.',
 ['inputs'],'all byte strings, all nesting depths',
 'Needs adversarial nesting and loops; tests use one sample depth.',
 ['asn1crypto/parser.py','asn1crypto/core.py'],[('depth limit','parser._MAX_DEPTH, parser._parse'),('progress','child_pointer loops in core')])
p('P03','Malformed headers and trailing data are refused everywhere',
 'A non-minimal or malformed tag, an indefinite length on a primitive element, and, in strict mode, any byte after the element are refused with ValueError on every path; header emission refuses out-of-range class, method and tag values; elements are handed on with exactly the bytes of their header, content and trailer.',
 ['inputs'],'all headers; all strict-mode entry points; all emission arguments',
 'Each refusal has to hold for all encodings, and for each entry point.',
 ['asn1crypto/parser.py','asn1crypto/core.py','asn1crypto/ocsp.py'],[('refusals','parser._parse, parser.emit, parser.parse(strict), core._parse_build(strict), core.Concat')])
p('P04','A value is only accepted under the class, method and tag its type declares',
 'When an element is decoded as a given type, its class, its primitive/constructed form, its tag and each layer of its explicit tagging are all compared with what the type declares, and a mismatch raises ValueError; the only tolerated deviations are the declared alternate tags and constructed indefinite-length strings.',
 ['inputs','programs'],'every type, every class/method/tag combination in the data, every layer of explicit tagging',
 'The mismatch space is large and the checks are on separate branches per kind of type.',
 [C],[('comparison','core._build, core.Choice.validate, core.Set._parse_children')])
p('P05','Decoded elements are matched to their components in order',
 'When a sequence, set or collection is decoded, each element becomes the component it belongs to in the definition (by position, in a set by tag), with that component\'s type and tagging. An absent optional component reads as absent and an absent defaulted one as its default; a missing mandatory component or an unknown or repeated set member raises ValueError; and the length and the native view list exactly these components.',
 ['inputs','programs'],'every definition of the library and every pattern of present and absent components',
 'The patterns of present and absent components are exponential per definition, and mismatches show only for definitions with neighbouring optional components.',
 [C,'asn1crypto/cms.py'],[('matching','core.Sequence._parse_children, core.Set._parse_children, core.SequenceOf._parse_children, _lazy_child, _make_child')])
p('P06','A value placed in a component takes the type and tagging of that component',
 'Whether set by assignment, append or constructor, a value placed in a component of a sequence, set or collection is stored with that component\'s type, class, tag and explicit tagging, or refused with TypeError or ValueError. Setting nothing to an optional component makes it absent and to a defaulted one restores the default; a name that is not a component is refused.',
 ['inputs','histories'],'every definition of the library, every component, every form of value and every way of placing it',
 'Definitions, value forms and taggings multiply, and a wrong tag shows only when somebody else decodes the result.',
 [C],[('placing','core.Sequence.__setitem__, __delitem__, __init__, _make_value, core.SequenceOf.__setitem__, append, _make_value, core._fix_tagging')])
p('D01','Rebuilt encodings are canonical',
 'Whenever the library computes an encoding itself, elements of a set-of are ordered by their encodings, members of a set by tag, components equal to their default are left out, booleans use FF, integers and object identifiers the fewest octets, named-bit strings have no trailing zero bits, times are written in UTC with a Z, and headers use the shortest length form; the result does not depend on insertion order.',
 ['inputs','histories'],'all values and edit orders of all types',
 'Canonical form has to hold for all values; tests compare a few encodings.',
 [C,'asn1crypto/parser.py'],[('canonicalisation','_set_contents of each container; set() of Boolean, BitString, UTCTime, GeneralizedTime; parser._dump_header')])
p('E01','Comparison accepts anything, is symmetric and agrees with hashing',
 'Comparing a value with any object for equality returns a boolean and never raises because the other operand is of an unrelated type; the two operands are put through the same normalisation before being compared, a value equals itself, inequality is the negation of equality, types that define a hash hash only what equality compares, and sets compare and hash alike in any order.',
 ['inputs'],'all pairs of operands of all types that define equality',
 'Pairs are quadratic and tests compare like with like.',
 [C,'asn1crypto/x509.py','asn1crypto/crl.py','asn1crypto/keys.py','asn1crypto/util.py'],[('comparison','every __eq__, __ne__, __hash__')])
p('E02','Public entry points reject wrongly typed arguments with TypeError',
 'Every loading, parsing, PEM, URI, address, identifier-translation and key-wrapping function, and every constructor and assignment of a primitive type, that needs bytes, text or integers verifies this before using or storing the argument and raises TypeError otherwise. Errors raised while decoding or constructing are re-raised to the caller with their type and never swallowed.',
 ['inputs'],'all entry points, all argument types; all exception handlers',
 'Wrong types are open-ended and each handler needs its own failing input.',
 [C,'asn1crypto/parser.py','asn1crypto/pem.py','asn1crypto/x509.py','asn1crypto/keys.py','asn1crypto/_iri.py','asn1crypto/util.py'],[('type checks','load, set, parse, emit, armor, unarmor, detect, build, ...'),('handlers','except clauses')])
p('F01','The library has no side effects beyond its own values',
 'Importing and using the library performs no file, network, process, environment or clock access and no dynamic code execution, prints only from debug output, and changes no process-wide or module-wide state except its declared registration points and caches keyed by their input, restoring temporary settings on every exit.',
 ['programs','histories'],'all code of all modules',
 'Absence of an effect cannot be sampled.',
 ['asn1crypto/*.py'],[('effects','every call and global write')])
p('F02','Module loading order and layering are complete and acyclic',
 'The published load order names every module exactly once with each module after everything it imports at load time; the module import graph is acyclic; every name a module uses is defined or imported on the supported Python versions.',
 ['programs','configurations'],'all modules, all imports, both language branches',
 'One process imports modules in one order on one version.',
 ['asn1crypto/__init__.py','asn1crypto/*.py'],[('order','__init__.load_order'),('imports','import statements')])
p('F03','PEM armour that is written is exactly the armour that is recognised',
 'The begin and end markers, header syntax, line structure and type label (capitals, digits, spaces) that armouring writes are those that detection and unarmouring recognise. Every block of a text is returned once, with exactly its own label, headers and data; a text without a complete block is refused with ValueError, and non-bytes input with TypeError.',
 ['inputs'],'all labels, header maps and bodies; all armoured inputs',
 'Unbounded inputs; malformed armours are not sampled.',
 ['asn1crypto/pem.py'],[('writer','pem.armor'),('reader','pem.detect, pem._unarmor, pem.unarmor')])
p('M08','An unmodified decoded value encodes to the bytes it was decoded from',
 'A value that was decoded from a definite-length encoding and not modified since encodes to exactly the header and content bytes it was decoded from, at every nesting level and whichever components were read in between; only a forced or indefinite-length re-encoding is recomputed.',
 ['inputs','histories'],'every value type, every header form, every order of reads before the encoding',
 'Needs unusual header forms (long-form lengths, lengths whose last octet looks like the indefinite marker) for each type.',
 [C],[('kept encoding','core.Asn1Value.dump and its overrides, Sequence/SequenceOf.contents, _build')])
# not decided here
p('N01','Decoding then encoding reproduces the original bytes',
 'For every valid encoding, decoding and re-encoding without modification yields identical bytes; for every native value, encoding and decoding yields an equal native value.',
 ['inputs'],'all encodings and native values','Unbounded input space.',
 [C],[('codec','core.load/dump')])
p('N02','Integer, bit-string, OID, time and text conversions are numerically exact',
 'Conversions between native integers, bit tuples, dotted identifiers, date-times and text and their content bytes are exact inverses with the values the encoding rules define.',
 ['inputs'],'all values','Unbounded numeric ranges.',
 [C,'asn1crypto/util.py','asn1crypto/_teletex_codec.py'],[('conversions','util.int_to_bytes/int_from_bytes, core.*.set/native')])
p('N03','Name comparison and hashing follow the standard string preparation',
 'Two distinguished names compare equal exactly when their prepared forms under the standard matching rules are equal.',
 ['inputs'],'all names','Unbounded text.',
 ['asn1crypto/x509.py'],[('preparation','x509.NameTypeAndValue._ldap_string_prep')])
p('N04','Key sizes and other numbers derived from keys have their defined values',
 'Bit and byte sizes and other numbers computed from the content of a key equal the values their definitions give.',
 ['inputs'],'all keys','Numeric results over unbounded inputs.',
 ['asn1crypto/keys.py'],[('sizes','bit_size, byte_size, key_size')])
p('N05','URI, e-mail and host name encodings round-trip',
 'Converting internationalised URIs, e-mail addresses and host names to their ASCII form and back is lossless.',
 ['inputs'],'all identifiers','Unbounded text.',
 ['asn1crypto/_iri.py','asn1crypto/x509.py'],[('conversion','_iri.iri_to_uri/uri_to_iri')])
p('N06','Decoding cost is linear in the input size',
 'Time and memory for decoding grow at most linearly with the size of the encoding.',
 ['inputs'],'all encodings','Timing.',
 [C,'asn1crypto/parser.py'],[('lazy decoding','core.Sequence._lazy_child')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
