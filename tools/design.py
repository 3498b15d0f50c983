import json,re,sys
V='/verif/'
props=[json.loads(l) for l in open(V+'properties.jsonl')]
head='''# Verification design

Technique: property-based testing and fuzzing, for all 33 properties in `properties.jsonl`. Each property is an
executable check over generated inputs, histories, command lines or injected faults, decided by an explicit
oracle: an independent reference codec, an independent interpretation of meshes as primitives, a model of a
history, a metamorphic relation, a round trip, or an independent reader/validator. Nothing is listed as not
applicable (see "What this family does not settle" for the limits within the properties).

## 1. The code under test

| part | what it guarantees | properties |
|---|---|---|
| `lib/.../VertexValue`, half/packed float code | decoding and encoding of every element format | V01-V05 |
| `VertexFormat`, `VertexElement`, `PrimitiveType`, `IndexData`, enum/name tables | layouts, names, sizes, index access | F01-F04 |
| `Converter` (streams, transforms, bounds, deduplication, index buffers, restarts, splitting) | same mesh out as in | C01-C13 |
| `tool/` (`ConfigFile`, `ResultFile`, `Base64`, `FilePath`, `main`) | the `vfc` command line and its JSON documents | T01-T11 |

The harness takes `/repo`'s sources as they are (all `lib/src/**/*.cpp` and `tool/**/*.cpp` but tests, so new files
and moved functions are picked up) and uses only the public headers (the tool's classes through their headers;
T01-T04, T10 and T11 only through the program). No hooks are needed, so no commit in `/repo` is a hook.

## 2. Machinery (`harness/`, `check.py`)

* `core.h`, `runner.cpp`: own engine with integrated shrinking. A case is a pure function of a list of choices
  (at most 2^17) drawn from a PRNG seeded by `VERIF_SEED`, property and case number, from a recorded list, or
  from fuzzer bytes; choice 0 is always the simplest alternative. Up to eight forked workers search in parallel;
  a crash, sanitizer report, failed assertion or more than 25 s of CPU time in a case is a failure of that case.
  A failing choice list is shrunk (deleting blocks, zeroing, halving, lowering), **replayed three times**, and only
  then printed as `VIOLATION property=<id> replay=<path>`; `./check.py <id> quick --replay <path>` runs it again,
  without generator or engine choices. Properties with an enumerated part run it first; the random part
  always gets at least half the budget.
* A budget that ends is no verdict: what was explored up to there counts, and evidence states how many cases
  that was. Cases that could not be run (no memory, process or disk for the harness) are counted apart; over 5 %
  of these give exit 3, never a violation.
* Memory errors: everything is compiled with AddressSanitizer and UBSan (no recovery) and with the repository's
  assertions; inputs lie in exactly sized heap blocks at every alignment.
* `props_threads.cpp` (C13) is built with ThreadSanitizer instead (gcc); every case runs in a forked child, so a report names its case,
  is replayed and shrunk like any other failure.
* `ref.cpp`: reference codec for all layouts and types, written from the documentation of the formats: what a code
  means (long double), and for a value the set of acceptable codes. It shares no code or tables with `/repo`.
* `mesh.cpp`: generator of whole meshes (formats, split into streams, index widths, repeated values, restarts,
  NaN/infinite/denormal bytes, transforms, maximum indices, medium and huge sizes), and the oracle that reads both
  sides back as lists of primitives with corner values.
* `json.cpp`, `mutate.cpp`, `process.cpp`: independent strict JSON reader, JSON writer in random style,
  validator of configurations, structure/text mutations, and running the tool (unprivileged where needed, in a
  scratch directory that is removed, with limits on time, memory and file size).
* `check.py <id> quick|thorough`: builds from the current tree of `/repo` into `/verif/build` (cached by content),
  runs, writes `evidence/<id>.json`. In the thorough tier C01-C05, C09, C10, C12, V01, V02, T05-T07 and T09 additionally run
  a **coverage-guided libFuzzer** campaign (clang, ASan+UBSan, 7 processes) over the same generators fed from fuzzer
  bytes, so with the same oracle; a failing input is handed to the runner, which confirms, shrinks and reports it.
* Quick budgets: V/F 20 s, V05 15 s, C 35 s, T05-T09 25 s, T01-T04 and T10 45 s, T11 20 s (about 30 s of build the first time). Thorough:
  3-7 min of search and as much fuzzing.

Evidence per run: number of cases, number of distinct non-trivial ones by the stated rule (distinct by hash of the
case), labels with the distribution of the interesting classes, three written-out samples, and the assumptions.

## 3. The properties
'''
why={
'C01':'Unit tests have a handful of meshes of one or two streams. A defect usually needs a certain combination of stream split, index width, sharing and maximum index.',
'C02':'Restarts and splits interact (position in the strip, parity, stream with the restart); tests have one strip and one fan.',
'C03':'Limits matter at the last free index of a buffer, for each primitive size.',
'C04':'Sharing depends on hash and comparison over all streams and sizes; tests have equal vertices of one shape only.',
'C05':'A metamorphic relation over all arrangements needs no expected values, so meshes can be arbitrary.',
'C06':'Transforms are looked up by stream and position; confusion shows only with several elements, streams and orders of calls.',
'C07':'Needs unreferenced vertices, restarts, NaN, other elements in front; tests have none of these.',
'C08':'Quantization error bounds need arbitrary ranges and formats, far from zero, tiny or one-sided.',
'C09':'The rules for acceptance interact; errors arise at limits (2^16-1, 2^32-1, one primitive, last vertex).',
'C10':'Quantifies over histories; tests use each object once.',
'C11':'State left behind by an earlier conversion shows only when memory is used again with other contents.',
'C12':'Out-of-bounds access shows only at the very end of exactly sized memory and with hostile indices.',
'C13':'A schedule property: a lazily built table or a scratch buffer that outlives a call shows only when two threads meet in it.',
'V01':'Tests look at a few codes per format; all codes up to 16 bits are enumerated here for every component of every format.',
'V02':'Rounding and saturation go wrong between codes and at limits; middles and the doubles beside them are enumerated.',
'V03':'Exact inverse over all codes of all formats.',
'V04':'All pairs of numbers, not only the valid enumeration values.',
'V05':'The portable code is never run by the tests on a processor with half-float instructions.',
'F01':'Quantifies over histories of additions, failed ones included.',
'F02':'All near-misses of all names, not samples.',
'F03':'Full 32-bit range of counts, all pairs of layout and type.',
'F04':'All positions and values, byte by byte.',
'T01':'The repository has no end-to-end test of the tool with random meshes; the document is interpreted from scratch.',
'T02':'Compares ways of passing data with one another, including stale files and odd paths.',
'T03':'Anything at all may be passed to a program; tests have one case per message.',
'T04':'Needs injected faults at every output file and at standard output.',
'T05':'Writing style, defaults and reuse of the object; tests have one style.',
'T06':'Independent validator over mutated configurations instead of one example per message.',
'T07':'Short strings are enumerated, long ones random.',
'T08':'All short paths are enumerated.',
'T09':'Arbitrary numbers and strings; tests have one document.',
'T10':'Reader and writer of the tool are tested apart, never on each other.',
'T11':'The command line has no test at all.'}
oracle={
'C01':'reference interpretation: primitives of input and output as lists of corner values, compared in order through the reference codec',
'C02':'the same with restarts: both sides expanded to single lines/triangles, winding as orientation-preserving rotation',
'C03':'validity predicate over every index buffer, minimality of the number of buffers included',
'C04':'byte comparison with the same mesh converted as unindexed points; no duplicates within a buffer',
'C05':'metamorphic: arranged and rearranged mesh give equal results',
'C06':'formula of each transform over the reference decoder; set/get model',
'C07':'minimum and maximum over the reference decoder',
'C08':'round trip through the reported bounds with half-step tolerance',
'C09':'model of the acceptance rules',
'C10':'model of the history, and comparison with the accepted calls alone',
'C11':'differential: two runs; idempotence: converting the result again',
'C12':'sanitizers, unchanged inputs, readable outputs, CPU limit',
'C13':'differential: each job alone afterwards in the same process; ThreadSanitizer over the concurrent run',
'V01':'reference decoder','V02':'reference set of acceptable codes, monotonicity, independence of components','V03':'round trip',
'V04':'reference table of usable pairs, untouched memory','V05':'differential between both builds, reference decoder',
'F01':'list model','F02':'table','F03':'definition in 64-bit arithmetic, table of pairs','F04':'byte model',
'T01':'independent JSON and base64 reader plus the mesh oracle','T02':'metamorphic over ways of passing data; snapshot of the directory tree',
'T03':'independent validator: must fail, must succeed or either','T04':'expected failure for each injected fault, control run without',
'T05':'the configuration that was written','T06':'independent JSON reader and validator','T07':'independent encoder and strict decoder',
'T08':'definition on strings','T09':'independent JSON reader, field by field',
'T10':'idempotence through the program: first result and converted result byte for byte',
'T11':'metamorphic over spellings and orders of options; vocabulary of the help; snapshot of the directory tree'}
tail_known='''
## 4. Defects found and repaired

%s

One finding is recorded and not repaired:

%s

It is pinned by the repository's own test `TrinagleStripWithMaxIndexValue`, so a repair would break an existing test. The
C02 oracle computes, per split, whether this finding may turn the winding (`mayReverse`: odd number, three or more, of
indices in the current run at a split); only then, and only consistently until the next restart or such split, is the
opposite winding accepted. Any other reversal, loss or repetition is a violation. C02 enumerates the finding's smallest input
and prints the KNOWN-FINDING line when it still fails.

## 5. Decisions on what is specified (false alarms avoided)

Each of these came up as an alarm or a doubt, and was decided by documentation and callers; the weaker reading is taken.

* Restarts: a position of a strip or fan is a restart if any stream *in use* has its type's restart index there. In lists
  0xFFFF/0xFFFFFFFF is an ordinary index. Where only some streams restart, bounds with or without the other streams'
  values at that position are accepted (C07); C05 uses restarts on all streams.
* A maximum index equal to the restart value together with strips that reach it is excluded (the result would be ambiguous by
  the caller's own choice).
* Bounds of components with only NaN (or no) values are unspecified; bounds are read after success only.
* Bounds transform: extents up to the double epsilon count as none; infinite extents are skipped; tolerance of transforms is
  four epsilon.
* Zero-count streams that supply nothing: whether they fix the count for later streams is left open.
* One element name in several output formats: each is converted; access by name means the first.
* C11's second conversion only when names are unique (else the input would supply an element twice).
* NaN to integer and normalized formats: any code. Packed unsigned floats: finite overflow gives the largest value, infinity
  either. Halves may be rounded twice (by way of float). Normalized decode tolerance 1e-14, exact at -1 and 1.
* 32/64-bit normalized types: refused by formats, left open for `VertexValue`.
* F01: names without NUL; a moved-from format is cleared before it is used again. F03: patch size 0 is open.
* T03: empty vertex or index data is left open; infinite bounds must fail. T05/T06: repeated members, unpaired surrogates,
  numbers or exponents too large for a double, NUL in strings, null as transforms and patch counts beyond 2^31-1 or written with a fraction or exponent are open; the
  position of a syntax error must lie within the offending token (one before its start to the reader's error offset).
* T07: nonzero unused bits of the last character are open. T08: paths without NUL.
* Messages are only required to exist (and to name the file, line and column where the property says so); wording, JSON
  formatting, member order and the names of output files are free.

## 6. What this family does not settle

* It explores; it never shows absence. Spaces that are small enough are enumerated completely (codes of components up to 16 bits,
  enumerations, short strings and paths, 2^32 floats for V05 in the thorough tier), and evidence says so.
* Big-endian hosts, other file systems and Windows paths cannot be run here. The portable half-float code is run by building a second copy
  of the library that is told the processor has no such instructions.
* Meshes beyond 300000 distinct vertices (2^32 limits of 32-bit indices) are reached by configuration (maximum index, base vertices, counts passed to
  `ResultFile`), not by data of that size.
* Vertex or index counts of 2^32 and more in the files the tool reads aren't tested.
* Use of the library before `main` (order of static initialization) isn't tested.
* Running out of memory inside the tested code is not injected: the library promises nothing about it.

## 7. Planted bugs

`seeded/<id>/` holds %d changes, each confirmed to compile, to pass all stable tests, and to fail its own demonstration, which passes on the unchanged tree.
They were written in several rounds from the property texts; `tools/plant.py` confirms and stores them, `tools/hunt.py` runs checks against them. Misses and what they
led to:

* first rounds: reused memory (C11), indexed points without output indices (C04), streams over the same memory (C05), far offsets beyond
  32 bits (C01, C07; sparse 4 GB mappings), patches of more than 32 points, formats of more than 64 KB, strips/fans of hundreds of vertices
  split many times (medium meshes), element names repeated over streams, odd file names, stale and longer output files;
* fifth round: bases of more than 65535 (c03-short-base: many distinct vertices over several buffers), zeros of both signs (c04-signed-zero), maximum
  indices over the whole 32-bit range (c09-max-limit), patch sizes beyond 255 (t01-patch-byte), names with blanks (t02-blank-name), options after an
  unknown option (t03-help-later), strides of more than 64 KB in documents (t09-short-stride), reuse of configuration objects (T05; this found a real
  defect, d1e0222), starved random phase (v02-shared-write);
* sixth round: unindexed patches beyond 65536 vertices (c01-unindexed-cap), messages made in several threads (c13-message), more than ten output
  streams (t01-digit-files), files of the same name in several directories and one file for vertices and indices (t02-name-cache, t02-same-file),
  values in another shape than asked for (t06-inner-object), input and output in different directories (t11-short-output);
* seventh round: empty index buffers after the last primitive (c03-last-empty), 64 missing elements (c09-error-count) and 256 (t03-error-count),
  converters without a function for messages (c12-null-function), formats that differ in the middle (f01-equal-ends), index arrays of gigabytes
  (f04-huge-offset), equal data in two of three streams (t01-data-in-place), output over its own earlier output (t02-append), data two directories
  up (t02-prefix-spaces), a few bytes too many after wide vertices (t03-trailing-group), more than sixteen transforms (t05-duplicate-input), names
  repeated between later formats (t06-cross-stream-names). Two planted changes turned out not to break any property (a consistent other order of the
  vertices; other initial bounds that give the same bounds) and were dropped.

Caught by the check of the property each was planted against (quick tier, seed 1):

%s
'''
out=[head]
for p in props:
    i=p['id']; e=json.load(open(V+f'evidence/{i}.json')); c=e['coverage']
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n* Oracle: {oracle[i]}.\n* Generated: {c['rule']}\n")
    if c.get('enumerated_rule'): out[-1]+=f"* Enumerated completely: {c['enumerated_rule']}.\n"
    if e.get('assumptions'): out[-1]+="* Assumed or left open: "+' '.join(e['assumptions'])+"\n"
    out[-1]+=f"* Beyond the tests: {why[i]}\n"
kf=open(V+'KNOWN_FINDINGS').read().splitlines()
fixed='\n'.join('* '+re.sub(r'^fixed: property=(\w+) (\w+)',r'\1, `\2`:',l) for l in kf if l.startswith('fixed'))
known='\n'.join('> '+l[7:] for l in kf if l.startswith('known'))
import os,collections
seeds=sorted(os.listdir(V+'seeded'))
res={}
for l in open(V+'tools/caught.txt'):
    m=re.match(r'(\S+) (\w+): (\w+)',l)
    if m: res[m[1]]=(m[2],m[3])
t=collections.defaultdict(list)
for s in seeds:
    pr,r=res.get(s,(json.load(open(V+f'seeded/{s}/meta.json'))['property'],'not run'))
    t[pr].append(s+('' if r=='CAUGHT' else f' (**{r.lower()}**)'))
table='| check | caught |\n|---|---|\n'+'\n'.join(f'| {k} | {", ".join(v)} |' for k,v in sorted(t.items()))
out.append(tail_known%(fixed,known,len(seeds),table))
open(V+'DESIGN.md','w').write('\n'.join(out))
