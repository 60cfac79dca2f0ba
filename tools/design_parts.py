"""Hand-written parts of DESIGN.md; tools/gen_design.py combines them with the rules themselves."""

HEAD = '''# Static verification of asn1crypto

Every check parses `/repo/asn1crypto/*.py` afresh on each run and decides its property from the source: nothing of asn1crypto is imported or
executed, no solver explores paths, no test is run. A check prints each violation with the construct it is about (file, line, function) and
writes `evidence/<ID>.json` with what was analysed (types, functions, paths, cases), samples of it, the rule and anything left undecided.

Run one check with `python3 -m sa.check <ID> quick|thorough` from `/verif`. Only the Python standard library is used.
`properties.jsonl` is written by `tools/gen_properties.py`, `MANIFEST.json` by `tools/gen_manifest.py`, this file by `tools/gen_design.py`.

## Machinery

| module | what it does |
|---|---|
| `sa/model.py` | module, class and function model; selection of the Python 3 (or Python 2) branch of version tests; C3 resolution order; constant evaluation of module bodies, so that `_fields`, `_map`, `_oid_specs`, registrations made by other modules ... are known as they stand after import |
| `sa/flow.py` | path-sensitive abstract interpreter: typestate of objects, conditional constant propagation, facts per path, implicit exceptions, inlining of resolved callees, joins for loops; budgets make it give up (`TooComplex`) rather than run on |
| `sa/fold.py` | extension of the interpreter in which buffers, sorting, formatting, comprehensions and header arithmetic fold to constants when every input is fixed by the rule |
| `sa/typed.py` | interpreter over typed components: reading a component forks into absent/present, open components into the types their identifier selects, choices into alternatives |
| `sa/objsem.py`, `sa/effects.py`, `sa/reading.py`, `sa/accessors.py` | semantics of the library's value objects, the state an encoding is computed from (derived per class from what `dump` loads), what counts as reading, editing, copying |
| `sa/arith.py`, `sa/elements.py` | linear integer facts (Fourier-Motzkin), inferred loop invariants, byte provenance, the recursive summary of the element parser |
| `sa/schema.py`, `sa/selector.py`, `sa/build.py` | normal forms of schemas, first sets, open-type selection, decoder set-up, all by constant propagation |
| `sa/check.py` | runs a rule on all cores, applies `known_findings.txt`, writes evidence, exit codes |
| `sa/oracle/*.json` | the reviewed tables S02, S03 and S04 compare with |

Why this reaches what the tests cannot: the tests sample inputs and histories. Here the quantifiers are discharged structurally - every type
(grouped by the code it runs), every path of the function, every exceptional exit, every registry entry, every order of table preparation,
every automaton state under every class of line - and the entry state of an object is an arbitrary symbol rather than a particular history.

What makes the verdicts robust against rewriting: the rules judge what an interpreted path returns, stores or raises, not its text. When the
interpreter cannot follow something it says *undecided* in the evidence; undecided is not an alarm. `ctx.need` thresholds make a check fail
(exit 2) only if it finds next to nothing to analyse.

Levels: every check is registered with level `other`. The rules are exhaustive over the named domains (types, paths, cases), but rest on the
stated assumptions and on the interpreter's model of Python, so they are not presented as proofs. `quick` and `thorough` run the same rules;
thorough raises the state and path limits and, where a rule enumerates representatives, enumerates more of them.
'''

# per property: (bounds and cost, why tests cannot settle it, notes)
P = {
 'S01': ('all registries and entries; all relevant orders of preparing and extending the tables; about 20 s',
         'an entry that translates wrongly, or only after a particular import order, is not touched by any sample'),
 'S02': ('every registry entry, class number and universal tag; below 1 s', 'several hundred identifiers, of which tests touch a few dozen'),
 'S03': ('every component of every structure; below 1 s', 'most structures never occur in the fixtures; a wrong tag or a missing OPTIONAL shows only on data that has the component'),
 'S04': ('every open component crossed with every identifier and an unknown one; 1 s', 'the fixtures cover a fraction of the identifiers'),
 'S05': ('all schemas; 1 s', 'ambiguity shows only for particular combinations of absent components'),
 'S06': ('every algorithm name crossed with nested algorithms; 1 s', 'tests query a handful of algorithms'),
 'S07': ('every accessor of the five structures; none, each, all extensions in two orders, critical or not, whichever is read first; 1 s',
         'the fixtures have few of the extensions, hardly any alone or in another order'),
 'A01': ('every public accessor, callback, constructor of library types; every presence combination that reaches a use; 45 s',
         'the number of combinations of absent components is exponential; fixtures are complete structures'),
 'A02': ('same paths as A01; 45 s', 'a misspelt name fails only when its path is taken'),
 'M01': ('every type, every normal exit of set() followed by every reader; 2 min', 'what was left behind shows only in a particular sequence of reads, assignments and dumps'),
 'M02': ('every mutator, every exceptional exit; 10 s', 'quantifies over every failing input and the state before it'),
 'M03': ('every container mutator, the mutation test on enumerated shapes, dump after each; 30 s', 'depends on what was read, decoded or cached before the edit'),
 'M04': ('every copying operation of every type group; originals tagged, untagged, decoded, edited, indefinite; 40 s', 'depends on the state the original is in and on what is done to which of the two afterwards'),
 'M05': ('every read of every type; 35 s', 'a write in a read shows only if something is encoded afterwards'),
 'M06': ('every read of every type with each operation failing; 65 s', 'needs a failure in the middle of a computation and a second request'),
 'M07': ('every public function, constructor and method; 55 s', 'sharing shows only when the caller later changes its container, or a second value of the type is used'),
 'M08': ('decoder and encoder of every type group; plain, implicit, explicit, choice, indefinite; 45 s', 'quantifies over all encodings, including those that are not canonical'),
 'P01': ('all paths of the element parser and its callers; 20 s', 'quantifies over all byte strings'),
 'P02': ('every loop and recursion of the parser and its callers; 20 s', 'non-termination and stack depth are not observable by samples'),
 'P03': ('all paths; the first octet for all 256 values; all strict entry points; 12 s', 'quantifies over all malformed headers'),
 'P04': ('every type crossed with every single deviation in class, method, tag, explicit layer; 10 s', 'tests try a few deviations on a few types'),
 'P05': ('about 270 definitions, element lists with each component present or absent, 12500 component reads; 10 s', 'patterns of absence are exponential, tests use the common ones'),
 'P06': ('8256 assignments, 30 constructions, 324 element assignments over all definitions; 28 s', 'forms of value times components times ways of placing them'),
 'S08': ('45 accessors and host matching for 27 hosts, 55 structures, 5100 pairs of accessors; 3 s', 'mixes of entries and orders of reading, tests read each accessor once on fixtures'),
 'S09': ('7 structures, about 80 algorithms each: 1710 assignments, 558 constructions; 1 s', 'depends on the algorithm and on what was set before'),
 'S10': ('174 calls of the three builders: every attribute, 7 orders of attributes, 4 kinds of private and 2 of public key, 14 refusals; 1 s', 'each attribute and kind of key has its own path'),
 'D01': ('4 container encoders with over 1000 member lists (order, tagging, defaults, decoded from other encodings), 36 value types with about 400 values; 6 s',
         'canonical form depends on combinations of order, tagging and defaults'),
 'E01': ('every equality and hash definition, 12 kinds of unrelated operand; 1 s', 'symmetry relates two executions'),
 'E02': ('the listed entry points and all primitive types, each wrong built-in type; all handlers of the package; 1 s', 'types times arguments, and a swallowed error is invisible'),
 'F01': ('every function and module body; 3 s', 'absence of an effect cannot be shown by samples'),
 'F02': ('every module and scope, Python 2 and 3 branches; 2 s', 'tests import in one order on one version'),
 'F03': ('all reader states under all line classes, all paths of the writer; 2 s', 'quantifies over all texts'),
}

TAIL = '''
## Findings in asn1crypto

`known_findings.txt` lists every genuine defect that the checks found, repaired ones with the commit (`fixed:`) and those left in place
(`known:`). Left in place:

* M02, three places: `_ForceNullParameters.__setitem__`, `ECPrivateKey.__setitem__` and `PrivateKeyInfo.__setitem__` store the component and
  then do dependent work that can fail (decode the existing parameters, derive a key size). Repairing this means validating before storing
  across two classes with a cooperative `super()` chain; it is not a small patch.
* S06: the PKCS#12 RC4 schemes report mode "cbc"; RC4 is a stream cipher without a mode. The documented return values of the property do not
  include "none", and users switch on it, so it was not changed.

* P05, three places, each in a kind of definition the library itself does not contain: an open type selected by an identifier inside a set
  (decoding raises TypeError), an absent explicitly tagged open type followed by another component (takes that component's element), and an
  untagged choice as a member of a set (never recognised). Each needs a change in how elements are matched, not a small patch.

Found by reading, outside what the claimed properties state, and left alone:
`_ECPoint.from_coords`, `ECDomainParameters.key_size` use floating-point logarithms; a bit string with empty contents raises `IndexError`;
`Enumerated.native` raises `KeyError` for an unlisted number; `Real`, `ObjectDescriptor`, `InstanceOf` have no native form; `Seq().dump()` of
an unset value raises `TypeError`; `NameTypeAndValue` keeps its prepared value after an edit of its components;
`authority_issuer_serial` writes ":None" for an absent serial number; `NoValue` lacks `__ne__` (Python 2 only).

## False alarms met while building, and what was done

* P04 first demanded that extra elements after the last component of a SEQUENCE be refused. X.680 extension markers make the tolerance
  deliberate; the property does not claim it.
* P04: the v1/v2 attribute-certificate alternatives of `cms.CertificateChoices` share a tag by history; the redirection in the code is accepted.
* S03 leniencies accepted in the oracle because they are deliberate: the attributes of a CSR are optional; the value of a PKCS#12 secret bag is
  an octet string; `DirectoryString` has an `ia5_string` alternative; the `cert_identifier` of `PreferredSignatureAlgorithm`; misspelt API names.
* M01 flagged the survival of a native value that an assignment recomputes on the next read; the rule now looks at what readers return, not at fields.
* M05 took the re-encoding done by `dump` for a write in a read; encodings and copies are judged by M04 and M08. `Any.parse` is opaque there.
* M06 assumed that iterating the result of a library function, or looking a key up in a table the function filled itself, can fail; it does not.
* M07 reported the one-time normalisation of legacy `tag_type` definitions, done in place by class set-up: idempotent and not observable.
  Values of the library that are passed in become components by design. Module-level state is the subject of F01.
* S06: `encryption_iv` of a mode that has none may be None; `bit_size` of dh, x25519 and Edwards keys may raise ValueError.
* E01: Python asks the derived operand first, so an asymmetry between a class and its subclass cannot be observed. Inequality defined through
  another comparison than `__eq__` is only reported when it compares something `__eq__` does not.
* E02 was narrowed to loaders, parsers, PEM, URI, address and key functions and primitive assignment; the algorithm argument of key wrapping
  raises ValueError for a wrong type, which is accepted.
* D01: an empty dict for a structure without fields is not an encoding question; the `empty` case is only asked of types without defaults.

## Not applicable

'''
