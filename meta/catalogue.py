NOTE = """Exhaustive up to the bounds written in the evidence: every path of the real code over the symbolic inputs
is explored and the property discharged by z3 on each; nothing is claimed beyond the bounds. Trusted: the symbolic
model of the Python builtins and regular expressions in symx (every completed path is also replayed on the unmodified
code with a model of its path condition and the observations compared), z3, and the stubs listed in the evidence."""

PROPS = []


def P(id, title, statement, for_all, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, for_all=for_all, why=why, files=files, mech=mech, **kw))


US = "lib/sldr/UnicodeSets.py"
EX = "lib/sldr/ldml_exemplars.py"
CO = "lib/sldr/collation.py"
DU = "lib/sldr/ducet.py"
LD = "lib/sldr/ldml.py"

P("U01", "Unicode set text survives being written and read back",
  """Writing a list of strings as a Unicode set pattern and reading that pattern back gives exactly those strings,
  whatever characters they contain: set syntax characters, backslashes, spaces,
  control, format, private use, combining and supplementary characters included.""",
  "every list of non-empty strings of Unicode scalar values",
  "The tests round-trip a few dozen chosen strings; a string with, say, a backslash before a brace is not among them.",
  [US], [("list2us, us2list, struni, escapechar", US)])
P("U02", "Invisible and isolated characters are hex-escaped in a Unicode set",
  """A written Unicode set pattern shows every format, private use, default ignorable or space separator character,
  and every mark that starts a string or follows a space, as a hex escape of its code point (four digits, or eight
  above U+FFFF); every other character is written as itself, with a backslash only before set syntax.""",
  "every string of Unicode scalar values, with the character categories as ICU reports them",
  "The tests look at a handful of characters out of 1.1 million.",
  [US, EX], [("struni, escapechar, UCD.need_hex_escape, UCD.is_pua, isolated marks", US + " " + EX)])
P("U03", "A sequence of Unicode sets parses to the sets it denotes",
  """Parsing a sequence of Unicode sets gives, in order, one set per bracketed set or bare member, holding exactly the
  characters and strings written in it: literal and escaped characters, hex escapes of each form, ranges with both
  ends, strings in braces; negation is kept and blanks between members are ignored.""",
  "every well-formed sequence of non-nested sets",
  "The tests have one example for each piece of syntax and no combinations.",
  [US], [("parse, UnicodeSet, _findclose", US)])
P("U04", "Flattening a sequence of Unicode sets yields the whole product",
  """Flattening a sequence of sets yields every string that takes one member from each set in order, each once, and
  nothing else, however many members each set has and whatever their lengths.""",
  "every sequence of non-empty sets",
  "The tests never flatten anything.",
  [US], [("UnicodeSetSequence.flatten", US)])
P("U05", "A string with escapes is read as the characters it names",
  """Unescaping a string that mixes plain characters, backslash-escaped characters and hex escapes gives exactly the
  characters named, each escape being consumed once; an escaped backslash never starts another escape.""",
  "every mixture of plain characters and escapes",
  "The tests hold a few examples, none with two escapes in a row.",
  [US], [("struni, escape regular expressions", US)])
P("E01", "Text is divided into exemplar clusters as documented",
  """Analysing text divides it into clusters: a base together with the nuktas right after it, followed by its marks and
  joiners (a non-joiner ends the cluster); upper case is counted as its lower case, punctuation on its own, and
  characters that cannot be exemplars are left out. Each different cluster is counted as often as it occurs.""",
  "every text in NFD",
  "The tests analyse some forty short texts of a few scripts.",
  [EX], [("Exemplars.process, Exemplars.get_base..", EX), ("UCD character predicates", EX)])
P("E02", "The longest exemplar already known is taken at every position",
  """When exemplars of several characters are already known (from any of the exemplar sets), analysing a text takes at
  every position the longest known exemplar that the text continues with, and a single cluster where there is none;
  nothing of the text is lost or counted twice.""",
  "every set of known exemplars and every text",
  "The tests have two known multigraphs and never two in a row.",
  [EX], [("Exemplars.process, known multigraph trie", EX)])
P("E03", "Exemplar analysis conserves counts and classifies everything",
  """Splitting clusters into separate exemplars neither creates nor loses an occurrence of any character, and ends;
  after analysis every exemplar is in the main, auxiliary, punctuation or digits set, dependent vowel signs stand
  alone, punctuation is in the punctuation set, digits in the digits set, and ignorable letters are auxiliary.""",
  "every text in NFD and every threshold for productive marks",
  "The tests compare the final sets for a few texts; they never count.",
  [EX], [("find_*, parcel_*, split_exemplar", EX)])
P("E04", "A mark is an exemplar of its own exactly if it is productive",
  """A mark becomes an exemplar of its own, wherever it occurs, exactly if it is on the same bases as another mark, on
  more bases than the limit for productive marks, a dependent vowel sign or ignorable, or comes after a mark of its own
  combining class. All other marks stay with their bases, and every exemplar keeps its number of occurrences.""",
  "every text in NFD and every limit for productive marks",
  "The tests have one or two texts for each of the rules, none where two of them meet.",
  [EX], [("find_marks_on_same_bases, find_productive_marks, find_second_marks, find_indic_matras_and_viramas", EX)])
P("E05", "Frequent exemplars are main, their capitals the index",
  """Letters and marks more frequent than the limit are main exemplars, the others (and tatweel) auxiliary; the index
  is the capitals of the main exemplars that are not marks. Graphemes are listed once each with their counts, the most
  frequent first, and letters that occur in one case only are told.""",
  "every text in NFD and every limit of frequency",
  "The tests look at the sets of a few texts with one limit.",
  [EX], [("parcel_frequency, make_index, analyze, save_graphemes", EX)])
P("E06", "Exemplar sets are written in collation order, for the script of the text",
  """Each exemplar set is written in the order of the collator, every exemplar once, leaving out exactly the exemplars
  that belong to a specific script other than the one most frequent in the text.""",
  "every text and every order of the collator",
  "The tests have no text of two scripts of which one wins narrowly.",
  [EX], [("ldml_write, main/auxiliary/... properties, most frequent script", EX)])

P("K01", "Sort keys are totally ordered by level",
  """Sort keys compare by their primary weights first, then secondary, then tertiary, trailing zero weights not
  counting: the order is total, equality agrees with it, and equal keys hash alike. Adding keys concatenates them level
  by level, leaves the operands as they were and gives a sort key.""",
  "every pair or triple of sort keys of three levels",
  "The tests compare three pairs of letters.", [CO], [("SortKey, diffLevel, stripzero", CO)])
P("K02", "Escaping text for a tailoring is undone by unescaping",
  """Text escaped for a tailoring, with or without hex escapes for marks, unescapes to the same text, whatever its
  characters; the escaped text holds no bare tailoring syntax.""",
  "every text", "The tests escape a handful of characters.", [CO], [("escape, unescape", CO)])
P("K03", "A tailoring is parsed into the elements that are written",
  """Parsing a tailoring gives one element per relation, with the key, strength, expansion and position written, based
  on the element before it or on what was reset to, [before n] applying to the first. Escaped characters (backslash,
  hex, doubled quote) are never syntax, white space is free, comments are ignored whatever they hold.""",
  "every tailoring of resets, relations, expansions, escapes and comments",
  "The tests parse one tailoring.", [CO], [("Collation.parse", CO)])
P("K04", "Tailored elements sort where the tailoring places them",
  """A tailored element sorts right after its base (or, with [before n], right before it), differing from it at the level
  written: after everything of the table that is before that place, before everything after it. Elements of a chain
  keep the order written, two of them differing at the strongest level between them; an expansion is appended to the
  element's sort key.""",
  "every chain of relations, every weight of the base and of the other entries of the table",
  "The tests look only at the text of the tailoring that is written, never at the order it gives.",
  [CO], [("CollElement.sortkey, Collation._setSortKeys", CO)])
P("K05", "A collation written as a tailoring keeps its order",
  """Writing a collation as an ICU tailoring and parsing that gives the same keys, with the same expansions, in the same
  order, each two differing at the same level as before, whatever characters they are made of and wherever the lines
  are wrapped. (Keys do not end in white space, and expansions are not made of tailored characters.)""",
  "every collation of one or two resets, every key text", "The tests compare output text for a few cases.",
  [CO], [("Collation.asICU, escape, Collation.parse", CO)])
P("K06", "The sort key of a text is made of its longest known pieces",
  """The sort key of a text is the concatenation, level by level, of the keys of the longest entries (tailored ones
  first, then the default table) that it divides into from the left, without zero weights; a character that has no entry
  is skipped. The key of a single character keeps its zero weights.""",
  "every text and every table", "The tests compare three pairs of strings.",
  [CO], [("ducetSortKey, Collation.sortKey", CO)])
P("K08", "A simple collation puts its items in the order they are listed",
  """Converting a simple list (lines, items of a line separated by blanks, variants separated by slashes) to a collation
  gives an order in which each item follows the one before it, differing at the primary level at a new line, the secondary
  after a blank and the tertiary after a slash, however the default table orders the items.""",
  "every list of items, every default order",
  "The tests compare the tailoring text of about ten lists.",
  [CO], [("Collation.convertSimple, _insertBefore", CO)])
P("D01", "Entries of the default table compare at the level they differ",
  """Comparing two entries of the collation table gives the first level at which their non-zero weights differ, positive
  if the first entry sorts first, negative if it sorts last and zero if they are equal; sort keys limited to a level
  order accordingly, differences at weaker levels not counting.""",
  "every pair of entries", "The tests do not compare entries at all.",
  [DU], [("ducetCompare, keyfn, _generateSortKey", DU)])
P("D02", "The collation table file is read completely and exactly",
  """Reading a collation table file gives an entry for every line that defines one, keyed by exactly the characters of
  its code points, with exactly the weights of its elements in order, variable or not; comments, directives and blank
  lines give nothing.""",
  "every file of entries, comments and directives", "The tests read one file and look at three entries.",
  [DU, CO], [("readDucet", DU), ("readDucet", CO)])
P("X01", "A document that is written and read again is the same",
  """Writing an LDML document and reading what was written gives the same elements, attributes, texts and comments,
  whatever XML characters texts, attribute values and comments hold, in ordinary, CDATA and sil: elements, with
  namespaces declared at the top or low down, and writing it twice gives the same. (White space around lines of text
  is normalised; a comment holds no --.)""",
  "every document, every text, attribute value and comment",
  "The tests write a few documents with no characters that need care.",
  [LD], [("serialize_xml, _protect, _nsprotectattribs, save_as; reading in Ldml.__init__", LD)])
P("X02", "The namespaces of a document survive being written",
  """Reading a document and writing it keeps the namespace of every element and attribute, whatever prefixes stand for
  it in the document: a default namespace, one prefix for two namespaces in different places, two prefixes for one
  namespace, declared at the root or lower down. The same holds for elements that are added before it is written.""",
  "every document that is well formed with namespaces",
  "The tests use the sil: prefix, declared at the root, only.",
  [LD, "lib/sldr/py3xmlparser.py"], [("ETWriter.serialize_xml, add_namespace, _nsprotectattribs, etwrite", LD), ("Parser namespace events", "lib/sldr/py3xmlparser.py")])
P("X03", "Normalising gives one order whatever order a document has",
  """Normalising a document puts the children of every element into the order in which the DTD has their names, children
  of the same name into the order in which the DTD enumerates the values of their attributes (alphabetical, ignoring
  case, where it does not; zones in the order of the table of time zones), whatever their order was; a text loses only spaces, tabs and line ends at the ends of its
  lines. Normalising again changes nothing.""",
  "every set of siblings in every order, every text",
  "The tests normalise a few documents that are already in order.",
  [LD], [("normalise, ReadDTD, _sortedattrs", LD)])
P("X04", "A path finds what it describes and makes what is missing once",
  """Looking up a path gives exactly the elements whose names and attribute values it describes, in document order,
  whatever characters the quoted values hold, and changes nothing; ensuring a path makes one such element, at its end
  or at the place asked for, only if there is none, and removing a path removes exactly those elements. The path given
  for an element finds that element.""",
  "every document and every path with attribute values",
  "The tests use about ten fixed paths, none with a slash or bracket in a value.",
  [LD], [("ensure_path, find, findall, remove_path, as_xpath, addnode", LD)])
P("X05", "The best alternative of an element comes first and none is lost",
  """When alternatives of an element are added, read or given another draft status, the element itself is the one with
  the best draft status (in a document that is read: the one that is no alternative, if any), and one alternative of
  every other name remains, the best of its name. Writing, reading and normalising again keep them as they are. Looking
  for those of a draft status, of a name or of both finds just these, or makes one if asked.""",
  "every set of alternatives with draft statuses, in every order",
  "The tests have two or three alternatives in a fixed order.",
  [LD], [("addnode, _add_alt_leaf, _promote, change_draft, normalise, serialize_xml", LD)])
P("X06", "Reading a document loses nothing of it",
  """A document that is read has all elements, attributes and comments of the file, the comments in their order, and the whole text of every
  element, however it is written: with references, CDATA sections and comments in the midst of it. Only elements whose text is
  the mark of inheritance (three arrows) are left out, and those that are empty without them, unless they are asked for.""",
  "every document",
  "The tests read a few well-formed files with comments between elements.",
  [LD], [("__init__, normalise", LD)])
ME = "lib/sldr/ldml_merge.py"
P("M01", "A three-way merge applies the changes of both sides",
  """Merging two versions of a document against the version both come from gives a document in which every text and
  attribute that one side changed, added or removed (or both alike) is as that side has it, everything else is as it
  was, and no clash is reported; with and without draft statuses, also inside elements that both sides added. Alternatives
  that one side added or changed are as that side has them.""",
  "every three documents without conflicting changes",
  "The tests merge two or three fixed triples.",
  [ME, LD], [("merge, _align, _merge_with_alts", ME), ("_calc_hashes, _copynode", LD)])
P("M02", "Conflicting changes in a merge are not lost and are reported",
  """When both sides of a merge changed the same text or attribute differently, ours stays and a comment on it holds all three;
  a change is kept against a removal, and of two different additions one stays. Ours with a worse draft status than
  that of the base is kept, as the text or as an alternative of it. Changes elsewhere are merged as usual.""",
  "every three documents with a conflict in one text", "The tests have one conflict.",
  [ME], [("merge, clash_text, _merge_with_alts", ME)])
P("M03", "Overlaying fills in what is missing, and the difference undoes it",
  """Overlaying a document with another adds exactly what it does not have (a collation only as a whole, an alias only where nothing is) and changes
  nothing that it has, apart from texts of arrows, which stand for the other's. The difference takes out exactly what is
  the same in the other, attributes and alternatives included, and overlaying after that gives the full document again; fonts of a
  document stay when another is overlaid.""",
  "every two documents", "The tests overlay and subtract one fixed pair.",
  [ME], [("overlay, difference, _overlay_external_resources", ME)])
P("M04", "A flattened locale has the nearest value in its chain of parents",
  """Flattening a locale gives it, for everything it does not have itself, the value of the nearest document in its chain
  (given by a fallback element, the table of parent locales or its name, then root) that exists and has no other script;
  aliases stand for what the flattened locale has, imports of collations for the collations. Unflattening takes out what
  is the same in the nearest parent, and flattening again brings it back; locales without a changed parent can be left.""",
  "every chain of documents, some of them missing", "The tests do not flatten anything.",
  [ME, LD], [("flattenlocale, getldml, overlay, difference", ME), ("get_parent_locales, resolve_aliases, flatten_collation", LD)])
LT = "lib/sldr/langtags_full.py"
IA = "lib/sldr/iana.py"
P("L01", "A language tag is split into its parts and put together again",
  """Parsing a well formed language tag, in any case and with - or _ between its subtags, gives its language (with the
  extended language), script, region, variants, extensions and private use, each with its subtags in order. Its full text
  is the same tag in canonical form (case of each part, extensions by letter, private use last), reads back as the same
  tag and matches it.""",
  "every well formed language tag", "No test parses a language tag.",
  [LT], [("LangTag.parse, __repr__, __str__, _extensions, matches", LT)])
P("L02", "The forms of a language tag are all the ways to write it",
  """The forms of a tag are, each once, the tag with and without the script and the region that may be hidden, with its
  variants and extensions in order; the full and the canonical text, which has nothing that may be hidden, are among them.
  The tag matches every one of them, and no tag that differs from it in some part.""",
  "every language tag with any of its parts hidden", "No test lists the forms of a tag.",
  [LT], [("LangTag.allforms, matches, __str__", LT)])
P("L03", "A table of equivalent tags gives the full tag for each, and only fills in",
  """Every tag on a line of the table of equivalent tags stands for the full tag at the end of that line, whose canonical
  text is on the line too, and analysing it gives that. Analysing any other tag keeps its language and the script, region (other than ZZ), variants and
  extensions it has, and fills in only what the line of its language says, nothing if it has another script or region,
  the same with variants and extensions as without.""",
  "every table of equivalent tags and every tag", "No test reads the table.",
  [LT], [("LangTags.readAlltags, LangTag.analyse, merge_equivalent", LT)])
P("L04", "Likely subtags and the subtag registry give the table of tags",
  """After reading the likely subtags, of CLDR or of extra files, with or without suppressed scripts of the registry, each tag stands for its likely
  full tag and a full tag for itself, whatever the order of the entries. The registry gives each language (an extended
  one by its prefix) with its own description, suppressed script and preferred value, and each variant by its prefixes.""",
  "every list of likely subtags that agree and every registry", "No test makes the table.",
  [LT], [("LangTags.readLikelySubtags, readExtras, readIana, add, LangTag.analyse, merge_equivalent, allforms", LT)])
P("L05", "A language counted in one territory has it as its default region",
  """A language that the supplemental data of CLDR counts in a single territory, with no other region known for it, has this as its default, and so
  its script if just one is listed. A language with another default region keeps it and gets a tag of its own for the territory;
  all others stay as they are. The tags written from the table have every form once, with the others of the same full tag, which comes last.""",
  "every supplemental data", "No test reads supplemental data.",
  [LT], [("readSupplementalData, add, generate_alltags, allforms", LT)])
P("I01", "Every record of the subtag registry has its own fields",
  """Reading the registry gives every record, of subtags and of whole tags, under its type and subtag, with exactly its
  own fields: the whole text of a field that is continued on the next lines, and all texts, in order, of a field that is
  repeated.""",
  "every registry", "No test reads the registry.",
  [IA], [("Iana.parse", IA)])
P("U06", "A set pattern stands for exactly the characters, ranges and strings in it",
  """Reading a pattern gives, for each set or single character of the sequence in order, exactly the characters, the
  ranges with both ends, the escapes as the characters they stand for and the strings in braces that are written in it;
  it is negated if it is written so. Spaces between are ignored, and a hyphen first or last in a set is itself. Reversing
  a sequence gives the same sets in reverse, and a normal form that is asked for changes the members and nothing else.""",
  "every pattern of sets without sets inside", "The tests read a few patterns with ASCII letters.",
  [US], [("parse, parseitem, _findclose, UnicodeSetSequence.reverse", US)])
KB = "lib/sldr/ldml_keyboard.py"
P("B01", "A key of a keyboard gives what the map for its modifiers says",
  """Pressing a key with a set of modifiers, in any order and case, adds the text that the key map for just these modifiers
  has for it, its escapes resolved, or nothing if there is none. A key map is for each of the alternatives in its
  modifiers, with any choice of the optional ones; one without modifiers is for the plain keys. The key maps are those of
  the file and of the files that it imports, whose names are relative to the file that imports them.""",
  "every keyboard of key maps, every key and set of modifiers", "No test reads a keyboard.",
  [KB, US], [("Keyboard.parse, parse_modifiers, map_key, process, process_string", KB), ("struni", US)])
P("B02", "Keyboard transforms replace the longest match, however the text was typed",
  """After every keystroke the output is that of the whole text typed so far: from the left, the longest simple transform
  whose contexts fit (one with a context before one without) is replaced once, everything else is copied, and final
  transforms follow. A keystroke that makes an error is rejected and leaves no trace; if partial matches are hidden, an
  end of the text that may still become a longer match is not shown.""",
  "every set of transforms and sequence of keystrokes", "No test reads a keyboard.",
  [KB], [("Keyboard._process_simple, process, Rules.append, match, Rule.merge, context_match, Context.results", KB)])
P("B03", "Keyboard reorders put the characters of every run in order",
  """After every keystroke, the text is made of runs of prebases, a base and what follows it, each in the order that the
  reorders give: base first, then by order, in order of typing if equal, tertiaries after what carries them. A run
  without a base gets a dotted circle, nothing is lost or added otherwise, and the runs stay in place.""",
  "every set of reorders and sequence of keystrokes", "No test reads a keyboard.",
  [KB], [("Keyboard._process_reorder, _get_charcodes, _sort, _padlist, Context.results", KB)])
P("B04", "Backspace takes away what its transforms say, or one character, for good",
  """A backspace replaces the longest match of a backspace transform at the end of the output, or takes away the last
  character; what is typed afterwards is added to what is left. A backspace that is an error is rejected and takes
  nothing away, and one on an empty output does nothing.""",
  "every set of backspace transforms and sequence of keystrokes", "No test reads a keyboard.",
  [KB], [("Keyboard._process_backspace, process, Context.clone, settle, Rules.append", KB)])
SH = "lib/sldr/sheet.py"
UT = "lib/sldr/utils.py"
P("S01", "A filled-in spreadsheet becomes an LDML document of just its cells",
  """Every cell with a value in the value columns of a data sheet (TSV or ODS) is the text of the element, or the value of
  the attribute, that the path of its row describes, with $row and $col replaced by the headings of its row and column.
  Nothing else gets into the document: empty cells, rows without a path, rows that end early and other sheets give nothing.""",
  "every spreadsheet whose paths describe elements", "No test reads a spreadsheet.",
  [SH, LD], [("Sheet.process, _nexttsvrow, _odssetup, _writeldmlitem, _action_ldml, _action1d_ldml, _action2d_ldml, _action2dr_ldml, _action2dx_ldml", SH), ("ensure_path", LD)])
P("S02", "Filling a spreadsheet from a document puts every value in its own cell",
  """Filling in a template from an LDML document puts the value that the path of a row (with the headings of row and column)
  describes into the cell for it, and leaves every other cell, row and column as it was however its cells are run-length
  coded. Reading the filled-in sheet gives these values back; what the document lacks stays as the template has it.""",
  "every template sheet and LDML document", "No test writes a spreadsheet.",
  [SH], [("Sheet.process, _odssetup, _writeodsitem, _find, _action_ods, _action1d_ods, _action2d_ods, _action2dr_ods, _action2dx_ods", SH)])
P("N01", "The parents of a locale are the shorter tags of other entries that qualify",
  """The parents found for a tag are its shorter forms, nearest first, each standing for another entry than the tag and those
  before it, with the same script or region if asked, and with an SLDR file if asked. Only the nearest is given unless all
  up to the root are asked for; a tag that has none is its own root. The nearest of a tag that is not in the table is the
  entry of which it is a variant, its form for the world (001) or for private use.""",
  "every tag, table of entries and choice of options", "The tests do not look for parents.",
  [UT], [("find_parents", UT)])
S_ = "scripts/"
P("Z01", "Coordinates of time zones become signed degrees",
  """The table of time zones gives for each zone of the input its country and its coordinates in degrees: degrees plus minutes
  and seconds as fractions, all of them negative for south and west. Zones that CLDR knows by another name are given under that,
  every zone once, and the lines come in the order of countries, coordinates and names.""",
  "every zone and coordinate", "The scripts have no tests.",
  [S_ + "zonetab"], [("the script as a whole", S_ + "zonetab")])
P("A01", "Names of languages are filled in only where they are missing",
  """Filling in names gives a locale file the English name of its language and its name in the language itself as the table of
  language tags has them, an apostrophe being the letter that the alphabet has, but only where it has no such name. Files
  that come from CLDR, have no identity of the SLDR or nothing else, or whose tag is unknown stay as they are.""",
  "every set of locale files", "The scripts have no tests.",
  [S_ + "sldrautonames", LD], [("the script as a whole", S_ + "sldrautonames"), ("ensure_path, serialize_xml", LD)])
P("A02", "Every keyboard of a language gets its entry in the file of the language",
  """Adding keyboards gives the file of each language that a keyboard names an entry with the identifier and address of the
  keyboard, once, with tags corrected by the table of corrections. Other files and what a file had before stay as they are,
  a dry run writes nothing, and the report has every keyboard of every tag with its fonts.""",
  "every list of keyboards and set of locale files", "The scripts have no tests.",
  [S_ + "sldraddkeymans", LD], [("the script as a whole", S_ + "sldraddkeymans"), ("ensure_path", LD)])
P("A03", "A locale gets the fonts for its script, its region and its style sheet",
  """Adding fonts gives a locale the fonts that the table has for its script and region (or for its script) and those of its
  style sheet, ignored ones left out and replaced ones replaced. Fonts in both come first, the first font is the default, a
  Noto Sans font is for user interfaces; features are those of the style sheet that the font does not imply, addresses are
  those given or found.""",
  "every table of fonts, style sheet and locale file", "The scripts have no tests.",
  [S_ + "sldraddfonts", LD], [("the script as a whole", S_ + "sldraddfonts"), ("ensure_path", LD)])
P("A04", "The first font rule that fits a language tag is used",
  """Looking for the font of a language tag prints the result of the first rule whose script, language and region (as far as
  it has them, each a value or a list of values) are those of the full tag, and none if no rule fits. A tag that is not in
  the table of tags stands for itself.""",
  "every list of rules and every tag", "The scripts have no tests.",
  [S_ + "fontmatch"], [("match1 and the script as a whole", S_ + "fontmatch")])
P("C01", "The parts of a CLDR locale become one file with an identity",
  """Importing from CLDR gives for each locale one file with everything that its parts (main, collation, casing, segments) have,
  the earlier part winning, and without references. Its identity tells the source, the script and region of the tag and, if
  asked, the revision. Files of locales that the source does not have are removed if asked, and nothing else is.""",
  "every set of CLDR files", "The scripts have no tests.",
  [S_ + "cldrimport", ME, LD], [("the script as a whole", S_ + "cldrimport"), ("LdmlMerge.overlay", ME), ("add_silidentity, normalise", LD)])
P("F01", "Every document of a directory is normalised in its own place",
  """Normalising a directory writes every document (.xml or .ldml) in it and in its directories, in normal form and with all its
  contents, to the same place under the output, or over itself. A document that cannot be read is reported and does not keep
  others from being written; other files are left as they are.""",
  "every directory of documents", "The scripts have no tests.",
  [S_ + "ldmlnormalize", LD], [("the script as a whole", S_ + "ldmlnormalize"), ("Ldml, save_as", LD)])
P("F02", "A directory of locales is flattened and unflattened without loss",
  """Flattening directories writes one file for each locale in them (or each one asked for), at its place, with the nearest
  value for everything; copying leaves the values alone. Unflattening what was flattened takes out what the parent gives,
  and flattening again brings it back. Stubs are skipped and revisions put in exactly if asked; locales that cannot be
  read are reported; the results do not depend on the number of processes.""".replace("""
  read are reported; the results do not depend on the number of processes.""", """
  read are reported, whatever the number of processes."""),
  "every set of locale files", "The scripts have no tests.",
  [S_ + "ldmlflatten", ME], [("the script as a whole", S_ + "ldmlflatten"), ("flattenlocale, getldml, overlay, difference", ME)])
P("F03", "The merge program writes the merge, and with git finds the versions itself",
  """Merging three files writes, to the file asked for or the standard output, what each side has changed and everything that
  is the same; the files merged are left alone, and with a winner its removals win. With git the base is the version of
  the revision in the identity and theirs the last version; what the parents give is taken out again, as are revision and user.""",
  "every three files", "The scripts have no tests.",
  [S_ + "ldmlmerge", ME], [("the script as a whole", S_ + "ldmlmerge"), ("merge, flattenlocale", ME)])
P("C02", "The coverage counts what a locale has of what English has at each level",
  """The table has a row for every locale asked for, or found in the directories, that has something of a level, with its source and for each
  level the share of the paths of English that match the level which the locale has, the best covered locale first. Variables, targets for
  the language, script and territory, currencies in use today and conditions of the levels are taken into account; white space does not matter.""",
  "every locale and table of levels", "The script has no tests.",
  [S_ + "sldrcoverage"], [("the script as a whole", S_ + "sldrcoverage")])
P("B05", "The keyboard tester reports exactly the events that go wrong",
  """For each recorded event the key is typed with its modifiers, and the event is printed, with what the text is and what it should be,
  when the text after it is not the recorded one, which may be empty; otherwise nothing is printed. The exit status is 0 exactly when
  no event fails, however many do; each virtual key is at its place on the keyboard.""",
  "every keyboard and every recording", "The script has no tests.",
  [S_ + "kbdtest", KB], [("the script as a whole", S_ + "kbdtest"), ("Keyboard.process", KB)])
P("G01", "Text is broken where ICU says, with the segmentation rules of the locale",
  """The rules given to ICU are the variables of the segmentation asked for, each after those that it uses, and then its rules in the order of their
  numbers; they are those of the locale or, unless not flattened, of its parents. Every line of the text is written with a bar at each
  break that ICU finds, whatever characters it has; without rules nothing is broken.""",
  "every locale, set of rules and text", "The script has no tests.",
  [S_ + "icubreaktext", ME], [("the script as a whole", S_ + "icubreaktext"), ("getldml, flattenlocale", ME)])
P("F04", "Old files are brought up to date",
  """Every file asked for, or in the directories, is written to the output directory with its orientation in the layout without the usual
  orders, its region as the default region of the identity, a status on hold as not used, and the exemplars of drafts unconfirmed unless they
  say otherwise. Language and script are given by type without a name, with the English name in a comment; everything else is kept.""",
  "every old file", "The script has no tests.",
  [S_ + "fixsldr", LD], [("the script as a whole", S_ + "fixsldr"), ("ensure_path, normalise, serialize_xml", LD)])
P("P01", "Comments with an @ become attributes of the element they follow",
  """Of a comment that is just `@NAME` or `@NAME:value` (with spaces before or after) proccldrcomments makes an attribute
  `cldr:name`, with the value or `true`, on the element that ended last before it. The document it writes, to the file asked for
  or the standard output, has all elements, texts and attributes of the one it read, and no comments.""",
  "every document and comment", "The script has no tests.",
  [S_ + "proccldrcomments"], [("the script as a whole", S_ + "proccldrcomments")])
P("K09", "A tailoring printed by icupretty means the same",
  """The tailoring that is printed, to the file asked for or the standard output, has the same elements and expansions as the one read, each
  in the place that the one read gives it, with lines broken between elements. With --adddot every key that ends in an asat
  gets beside it a key with a dot below before the asat, the same as the key followed by a dot.""",
  "every tailoring", "The script has no tests.",
  [S_ + "icupretty", CO], [("the script as a whole", S_ + "icupretty"), ("parse, asICU", CO)])
