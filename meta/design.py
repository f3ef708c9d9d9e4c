"""The text of DESIGN.md; meta/gen.py puts it together with the bounds from the harnesses and the planted bugs."""

INTRO = """# How the properties of sldrtools are decided

(Written by `python3-vt meta/gen.py` from `meta/design.py`, `meta/catalogue.py`, the harnesses in `props/` and the
`meta.json` of the planted bugs.)

## The technique

Every claimed property is decided by **bounded symbolic execution of the real Python source of /repo**. Nothing of the
code under test is rewritten by hand into a model. At every run

1. the modules of `/repo/lib/sldr` (and, where a property needs them, scripts of `/repo/scripts`, the pure Python
   ElementTree of the standard library, the text extraction of odfpy) are read again, their AST is instrumented (`symx/rewrite.py`: every call, test,
   membership test, subscript, comparison, display and format goes through `symx/runtime.py`) and they are imported under
   their own names;
2. a harness `props/<id>.py` makes symbolic inputs (characters over all of Unicode as integers, strings of symbolic
   characters, unbounded integers, reals, lazy booleans and choices), calls the real functions, and states the property as
   `x.check(condition, label)` against an oracle that is written from the documentation and the statement, never from
   the implementation;
3. `symx/engine.py` explores all paths: every branch on a symbolic condition is decided by z3 (both sides are explored
   when both are satisfiable; witnesses and interval reasoning on code points save most of the queries), and at every
   `check` z3 is asked for a value of the inputs that satisfies the path condition and violates the property;
4. a counterexample is replayed by `symx/replay.py` with the repository's own interpreter (`/opt/venv`) on the
   **uninstrumented** code, with real files; only when the real code fails as well a `VIOLATION` is reported, with a file
   that replays it. If it does not reproduce, it is counted in the evidence and warned of, and it is no violation;
5. every completed path is replayed too with a model of its path condition (all in thorough runs and in quick runs up to
   a limit), and all that the harness observed is compared with what the symbolic run computed: a disagreement between the
   symbolic semantics and CPython is an error of the machinery: it is counted in the evidence, and there are none on the
   current tree;
6. each harness names situations (`COVERS`) that must have been reached by some path, so that a property cannot hold
   vacuously; one that is missing is warned of and listed in the evidence.

The evidence file names the functions that were executed, the bounds, paths, queries, solver time, obligations, and
whatever was left undecided (nothing is left on the current tree).

What is modelled: `str`, `int`, `bool`, `float` (as reals where a harness asks for it), containers keyed by symbolic values, `re` (an
interpreter of the parse tree that `re` itself makes; the character classes are tabulated from the real `re`), formatting,
`codecs`, `csv`, files (in memory), expat for documents with symbolic contents (concrete documents go to the real
expat). Character properties of ICU and `unicodedata` are tabulated over all code points at run time from the
installed libraries, so that they are exact. `icu.Normalizer2` is a stub (identity); harnesses restrict the texts so that this
is exact.

What the bounds mean: inside them the verdict is for *every* value: all characters of Unicode, all integers, all
combinations of the alternatives. Beyond them nothing is claimed. Lengths and numbers (of siblings, keystrokes, records)
are the usual bounds; they are given per property below and in the evidence.

Why solver-based checking reaches what the tests cannot: the code is text processing with special characters, order and
priorities. The tests run a few dozen chosen texts. What goes wrong is one character among 1.1 million (a backslash
before a brace, a tab in an attribute, a supplementary character), or one combination of a few parts (an alternative
added on both sides, a missing parent between two others, a cell in the middle of a run). The solver decides the former
by character classes, the latter by exploring all combinations.

Cost: a quick check takes 3 to 120 s on 8 cores, a thorough one up to about 15 minutes. All of them have a budget
and a path that was not explored makes the evidence say `exhaustive: false` rather than being forgotten. Only a
replay-confirmed counterexample makes a run fail: a change of the code that the machinery cannot follow leads to an
incomplete run, not to an alarm.

### Commands

`python3-vt run.py <id> --tier quick|thorough` decides a property; `-v` prints progress, `--only '<case>'` restricts it to one
case. `python3 symx/replay.py --file <replay.json>` run with `/opt/venv/bin/python` shows a counterexample on the real code.
`python3-vt meta/gen.py` writes `properties.jsonl`, `MANIFEST.json` and this file.

No hooks in /repo are needed; all commits there are repairs (`fix:`), listed in `known_findings.txt`.

### Soundness against refactorings

The harnesses call documented entry points (module functions, methods of public classes, the `main` part of scripts) and
compare results, not intermediate steps. What is stubbed is outside of `/repo/lib/sldr` (ICU normalisation, langtag
package, argument parsing, odf writing of styles) with these exceptions: %(stubs)s
"""

STUBS = "the statistics of scripts in `ldml_exemplars` (E01 to E03), the cached DUCET table that `collation` reads (K04 to K08), the directories where SLDR files are looked for (M04, N01). Where a script is run whole (A, C, F and Z properties), it runs as `__main__` with its arguments, in an empty directory in memory; packages and programs from outside that it calls (langtag, cssutils, requests, urllib, git, hg, the pool of processes) are stand-ins that each harness makes."

HOW = {
'Z01': "The script `zonetab` is run whole on a generated file of zones with symbolic digits; the numbers printed are compared with sign times (degrees + minutes/60 + seconds/3600).",
'A01': "The script is run whole on a directory of generated files; texts of names and letters symbolic. `langtag` is a stand-in that gives generated entries.",
'A02': "The script is run whole; the list of keyboards (JSON) and the files are generated. `langtag` and `requests` are stand-ins.",
'A03': "The script is run whole; table of fonts (CSV), style sheet, settings and files are generated. `langtag`, `cssutils` (gives the rules of a generated sheet) and `urllib` (records the addresses asked for) are stand-ins.",
'A04': "The script is run whole on generated rules with symbolic values and a symbolic tag; a reference finds the first rule that fits.",
'C01': "The script is run whole with `--single` on generated directories; `langtag` and the program `hg` are stand-ins. References, alternatives and the texts of each part are symbolic or chosen in all combinations.",
'F01': "The script is run whole on generated directories; documents have their items in any order, decided by symbolic letters. `--validate` (lxml) is outside.",
'F02': "The script is run whole, up to three times in a row (flatten, unflatten, flatten), on generated directories with symbolic texts, in one process or with a stand-in for the pool that runs one after the other; the nearest value is computed by the harness.",
'F03': "The script is run whole on three generated files, as M01; with `--git` a stand-in for git hands out the versions, and the harness computes the flat values of all of them.",
'C02': "The script is run whole with `--single` on generated directories, supplemental data and a symbolic date of today (`datetime.date.today` and `langtag` are stand-ins); the harness computes the shares of items that it made itself.",
'B05': "The script is run whole on generated keyboards and recordings with symbolic outputs and texts; the virtual keys are laid out by the rows of a keyboard in the harness.",
'G01': "The script is run whole with a stand-in for `icu` that keeps the rules it is given and breaks at chosen places, counted in UTF-16 as ICU does; names, texts and numbers are symbolic.",
'F04': "The script is run whole on generated old files with every status, region and orientation, symbolic codes and names; the result is read again and compared with what the harness wrote. The pool of processes is a stand-in.",
'P01': "The script is run whole; comments with symbolic names, values and spaces are put at every place of a document; what is written is parsed by the standard library and compared with the tree the harness expects. `--reverse` does nothing yet.",
'K09': "The script is run whole on generated tailorings (every shape of resets and levels up to 4 elements); what it prints is read again and both are placed into ordered lists by a reference insertion in the harness, independent of sort keys. The table of characters is a small one. `--alphabet` is outside (it leaves elements out on purpose, by a heuristic).",
'U01': "Strings are made of symbolic characters, written by `list2us` and read by `us2list`; the oracle is identity (as a set).",
'U02': "The text written by `list2us` is read by a small reference reader in the harness that knows only the rule of the statement; categories are tabulated from ICU.",
'U03': "The pattern is generated together with its meaning (a grammar of members with symbolic characters); `parse` must give the meaning.",
'U04': "The product is computed by the harness with nested loops over symbolic members; compared as a list without repetition.",
'U05': "Tokens with symbolic characters and hex digits are written together with what they stand for; `struni` must give this.",
'U06': "As U03 but for `UnicodeSet`s as objects (ranges, strings, negation, reversal) as the keyboard code uses them.",
'E01': "The reference clusterer in the harness is the documentation of `Exemplars` written as a left-to-right scan over the kinds of characters (tabulated from ICU). Outside: normalisation by ICU itself, script statistics.",
'E02': "The harness scans the text with the longest known exemplar at every position; counts are compared.",
'E03': "Sums of counts per character before and after, and membership of every exemplar in the set that its kind asks for.",
'E04': "A reference in the harness computes, from the clusters of the text alone, which marks qualify by each rule, in rounds as documented; the exemplars and counts after analysis are compared. Combining classes are those of ICU.",
'E05': "The harness counts the clusters itself and sorts them into the sets for a limit chosen from five; the index and the list of graphemes are compared, ties in any order.",
'E06': "The set properties (`ldml_write`) of an analysed text with a collator that orders characters arbitrarily (by symbolic weights); the patterns written are read back. Script of a character tabulated from ICU.",
'K01': "The order axioms are checked on three symbolic keys with unbounded weights, and against a reference comparison that pads with zeros.",
'K02': "Identity of unescaping after escaping, and a scan of the escaped text for bare syntax. Characters are any Unicode scalar values.",
'K03': "Tailorings are generated with their meaning; the elements of the `Collation` are compared.",
'K04': "The sort keys that `Collation` gives are compared with those of table entries whose weights are symbolic integers, before and after the place. Outside: table entries with several collation elements around the place, groups (`[reorder`), contexts (|).",
'K05': "`asICU` of a collation with symbolic characters is parsed again and the order relations are compared. Wrapping positions are covered by the length of the lines. Outside: `asSimple` (what it gives cannot always be read back).",
'K06': "Longest match is defined in the harness over all divisions; weights are symbolic.",
'K08': "The items are put into every arrangement and the order of the table entries is symbolic: the resulting sort keys must be in the order listed.",
'D01': "Reference comparison with zero weights taken out; all weights symbolic.",
'D02': "The file is generated with symbolic hex digits and weights; the table must have exactly the entries. Both readers (`ducet`, `collation`) are checked; the reader in `collation` cuts supplementary code points, which is a known finding.",
'X01': "Documents are built with symbolic characters in texts, attributes and comments, written by `ETWriter`/`Ldml.serialize_xml` into memory and read with the model of expat, whose white space and escape rules are those of XML 1.0.",
'X02': "Documents are generated with declarations of symbolic prefixes for three namespaces at the root, the parent or the element; read, written and read again by the model of expat with namespaces; the expanded names are compared.",
'X03': "Pairs and triples of siblings from the DTD, in every order; attribute values enumerated in the DTD or symbolic, also differing in case only; comparison with the order computed from the text of the DTD (read by the harness itself).",
'X04': "A reference matcher of names and attribute values over the elements in document order; attribute values, also those in quotes in the path, are symbolic. XPath beyond what the SLDR uses (axes, functions) is outside.",
'X05': "A reference that keeps the best of each name by the documented order of draft statuses; documents are read, changed, written and read again.",
'X06': "Documents are put together as text by the harness, which knows the tree, texts and comments they stand for (text in parts: characters, references, CDATA, comments); the document read must have just those. Pairs of elements that differ in any one attribute by which the DTD tells siblings apart are both kept.",
'M01': "Every text is absent or a symbolic letter in base, ours and theirs; the harness takes for each path the side that differs from the base. Outside: removal of elements with changes inside, comments inside merged elements; the option `winner` is in F03.",
'M02': "As M01, with one text or one attribute that both sides change; the comment and the remaining value are examined. "
       "The attribute also comes with only one side changing or removing it, and in small trees where one side removes an element of which the other changes the text, an attribute or a child.",
'M03': "Contents of a document are the set of (path, attributes, text); union and difference are computed on it. A collation with its rules stays whole.",
'M04': "The chain is generated with files present or missing; the nearest value is computed by the harness. `flattenlocale` (both ways), which the script `ldmlflatten` calls (F02), is run. Outside: the option to import collations when several are flattened at once (it is ignored there).",
'L01': "Tags are generated from parts with symbolic letters; reference canonical form (case by part, extensions by letter).",
'L02': "The forms are enumerated by the harness from the parts.",
'L03': "The table is generated text with symbolic letters; the line of the language is looked up by the harness, the canonical text among its tags.",
'L04': "The XML of likely subtags (or the same as extras) and the registry are generated; the table is compared with what they say.",
'L05': "The supplemental data are generated with symbolic languages, scripts and territories, after a registry or likely subtags; all entries of the table are compared with those the statement gives.",
'I01': "Registries are generated with symbolic texts; the records are compared field by field.",
'B01': "Keyboards are generated as XML text with symbolic outputs and modifiers; a reference picks the map.",
'B02': "A reference that rewrites the whole text from the left with the longest match is compared after every keystroke with the incremental implementation.",
'B03': "A reference that sorts whole runs (stable sort by order with tertiaries attached) is compared after every keystroke.",
'B04': "A reference with the longest match at the end of the output.",
'S01': "Sheets are generated cell by cell, with their headings and paths, attribute values in headings with quotes and spaces too; the elements expected are computed from the cells.",
'S02': "As S01 the other way, over templates whose cells are blank or not; all cells of all rows (after expanding runs) are compared with the template.",
'N01': "The table of entries is symbolic (each shorter tag may be missing, have any script, region and file).",
}

OUTSIDE = """## What is not claimed, and why

* Minimising a collation (`Collation.minimise`) is a heuristic against the default table and has no guarantee to check;
  `asSimple` gives a text for people.
* `hunspell.py` does not run under Python 3 (it imports what does not exist), `fontrules` does not run with the
  installed scikit-learn; `ucdScan` and others only format tables for people.
* `xmltemplate.py` works in the XPath engine of lxml (C code that cannot be encoded here), and nothing in the repository uses it.
* `ldmlmerge` with two files only (no "other") takes what both have in common for removed; what is meant is not documented.
* In merges the fonts (a known finding) are outside.
* Nested Unicode sets and set operators are documented as unsupported in `UnicodeSets.py`.
* Groups in set sequences, `transformFailure`/`fallback` settings and `from` texts of several characters with
  repetition are outside of the keyboard properties.
* Extended languages with private use languages (`x-...`, `i-...`) are outside of the tags.
"""

MISSED = set()
FIRST = set("""m03-overlay-alias-empty x04-path-attr-empty m02-clash-order l03-script-conflict l02-hidden-variant
s01-heading-gap u04-four-sets b02-before-partial b03-order-short b04-backspace-settings
d01-third-element x05-fourth-alternate x04-before-suffix m02-removed-or-attribute e02-composed-length
e04-first-of-base e05-whole-average e05-no-case e01-nukta-after-zwj e03-split-lost-after k03-comment-later k04-expansion-inherit u06-hyphen-after-string
e05-tatweel-mark e06-last-char c02-prefix z01-alias-first a01-auxiliary a02-dryrun-missing a03-last-region x02-parent-prefix""".split())
