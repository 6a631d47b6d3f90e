#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

U = "UnicodeData/"
SET = U + "UnicodeSet.py"
LST = [("list", "ascending range boundaries, ending with 0x110000; even positions start a range, odd positions end it", SET + ":UnicodeSet")]

prop("S01", "Set algebra is exact for any two code point sets",
     "For any two code point sets, union, intersection, difference and symmetric difference - as named methods, as binary operators, as in-place operators and as bulk mutators - produce a set that contains exactly the code points the mathematical operation prescribes. The non-mutating forms leave both operands unchanged and share no state with them; the mutating forms change only, and return, the receiver.",
     ["inputs", "histories"], "every pair of sets (any number and position of ranges, up to U+10FFFF), every operation and every form of it, including a set combined with itself",
     "The tests combine a few fixed pairs of ranges; the merge loops have 4 polarity states x 3 orderings whose interaction depends on the relative order of all boundaries of both sets.",
     [SET], [("list merges by polarity", SET + ":_addList,_retainList,_exclusiveOrList"), ("operators", SET + ":__or__..__ixor__")], ["UnicodeSet.union/intersection/difference/symmetric_difference", "| & - ^ |= &= -= ^="], LST)
prop("S02", "Sets stay canonical: equal exactly when they hold the same code points",
     "After any sequence of operations a set's reported ranges are ascending, non-empty, non-adjacent and within U+0000..U+10FFFF. Consequently two sets compare equal if and only if they contain the same code points, however each was built, and inequality is the negation of equality.",
     ["inputs", "histories"], "every set reachable through the public constructors and operations; every pair of such sets",
     "Equality compares representations; tests compare a few sets built in the same way, never the same contents reached by different histories (overlapping, adjacent, ending at U+10FFFF).",
     [SET], [("inversion list invariant", SET + ":UnicodeSet"), ("equality", SET + ":__eq__,__ne__")], ["UnicodeSet.__eq__", "UnicodeSet.getRanges"], LST)
prop("S03", "Point and range add/remove/retain/complement change exactly their targets",
     "For any set and any code point or inclusive range, adding makes exactly those code points members, removing makes them non-members, retaining removes everything else and complementing flips exactly those (complementing without argument flips all code points); every other code point keeps its membership. Arguments outside U+0000..U+10FFFF act as the nearest legal code point, a range that ends before it starts adds, removes and flips nothing, and every mutator returns the set itself so that calls can be chained.",
     ["inputs", "histories"], "every set, every integer argument or pair of arguments, every mutator; histories of any length by induction over one step from an arbitrary canonical set",
     "Tests call each mutator on a handful of fixed values; single-point, adjacent, overlapping, last-code-point and out-of-range positions relative to the existing ranges are not covered.",
     [SET], [("add and its fast paths", SET + ":add,addRange"), ("remove/retain/complement", SET + ":removeRange,retainRange,complementRange,complement"), ("argument pinning", SET + ":_pinCodePoint")], ["UnicodeSet mutators"], LST)
prop("S04", "A new set holds exactly what it was built from and is independent of it",
     "A set constructed from nothing, from one code point, from a contiguous range of code points or from another set contains exactly those code points. Later changes to either the copy or the original never show in the other, clearing a set empties it and nothing else, and any other argument type is refused with a type error.",
     ["inputs"], "every legal code point, every range with bounds in 0..0x110000 (also empty ones and ones that reach the last code point), every source set",
     "Tests build sets from one or two interior ranges; empty ranges, U+10FFFF and aliasing after later mutation are not exercised.",
     [SET], [("constructor", SET + ":__init__"), ("clear", SET + ":clear")], ["UnicodeSet(arg)"], LST)
prop("S05", "Membership queries answer for any integer and any range",
     "For any set, asking whether an integer is contained is true exactly if it is a code point inside one of the set's ranges, and false without error for every integer that is not a code point. Asking for a non-empty range is true exactly if every value of the range is a code point of the set; the in operator gives the same answers and other argument types raise a type error.",
     ["inputs"], "every set and every integer (negative, beyond U+10FFFF) or contiguous non-empty range",
     "Tests probe fixed values in fixed sets; binary-search boundaries and integers outside the code space are not covered.",
     [SET], [("binary search", SET + ":_findCodePoint"), ("contains", SET + ":contains,__contains__")], ["UnicodeSet.contains", "in"], LST)
prop("S06", "Size, ranges, iteration and indexing of a set describe the same members",
     "For any set, the size is the number of its code points, the range list and the range count/start/end accessors describe exactly its members in ascending order, and iteration yields each member once in ascending order. The code point at index i is the i-th smallest member and the index of a member is that same i; any index outside 0..size-1 and any non-member give no result.",
     ["inputs"], "every set, every index and every integer code point",
     "Tests check size and iteration on one or two sets; index/code point inversion and the end of the code space are not covered.",
     [SET], [("views", SET + ":size,getRanges,getRangeCount,getRangeStart,getRangeEnd,__iter__"), ("indexing", SET + ":indexOf,charAt")], ["UnicodeSet.size/getRanges/indexOf/charAt/__iter__"], LST)

UT = U + "Utrie2.py"; CP = U + "CPTrie.py"
prop("S07", "The printed form of a set spells its canonical boundaries",
     "For every set, its printed form is the bracketed, comma-separated list of its canonical range boundaries in hexadecimal with at least four upper-case digits, ending with 0x110000. So two sets print alike exactly if they are equal, and a set that was changed prints as a fresh set of its members.",
     ["inputs", "histories"], "every set within the size bound; print-change-print histories",
     "One or two printed sets are compared in the tests.",
     [SET], [("printing", SET + ":UnicodeSet.__str__")], ["str()"], LST)
prop("T01", "Property trie lookup finds the stored value of every code point",
     "For any well-formed two-stage property table, looking up a code point returns the value stored for it by the table format: direct blocks for the basic plane, the separate lead-surrogate blocks, the three-stage path for supplementary code points below the high limit, and the shared high value up to and including U+10FFFF. Every integer above U+10FFFF yields the table's error value.",
     ["inputs", "configurations"], "every code point and every integer above, for arbitrary table contents consistent with the format",
     "Tests look up a few characters in the shipped tables; plane boundaries, surrogates, the last code point and table shapes that the shipped data do not have are never looked up.",
     [UT], [("index computation", UT + ":indexRaw,indexFromSupp,indexFromCodePoint"), ("lookup", UT + ":get")], ["UTrie2.get"])
prop("T02", "Enumerating a property trie covers the range with maximal constant runs",
     "Enumerating a property table over [start, limit) yields consecutive, non-empty ranges that begin at start, end at limit and do not overlap, each paired with a value. Every code point inside a yielded range has, by direct lookup (followed by the caller's mapping function, if any), exactly that value, and neighbouring ranges have different values.",
     ["inputs", "configurations"], "every start and limit, aligned or not, for the shipped tables and for arbitrary table contents; with and without a mapping function",
     "The tests enumerate three or four hand-picked sub-ranges, all inside one table block layout.",
     [UT], [("block-skipping enumeration", UT + ":enumerator"), ("lookup it must agree with", UT + ":get")], ["UTrie2.enumerator"])
prop("T03", "Code point trie lookup finds the stored value of every code point",
     "For any well-formed code point table of the fast or the small kind, looking up a code point returns the value stored for it by the table format: directly indexed blocks below the fast limit, the multi-stage path with 16-bit or packed 18-bit block numbers above it, and the shared high value from the high limit to U+10FFFF. Integers above U+10FFFF yield the error value.",
     ["inputs", "configurations"], "every code point and every integer above, both table kinds, both block-number packings, arbitrary contents",
     "The test module for users of this table cannot run here, and the shipped table contains only the fast kind with 16-bit block numbers.",
     [CP], [("index computation", CP + ":fastIndex,internalSmallIndex,smallIndex,cpIndex"), ("lookup", CP + ":get")], ["CPTrie.get"])
prop("T04", "A serialized code point trie is read back with all its parameters",
     "Reading a code point table from its binary form recovers the kind, value width, null offsets, high limit, index array and data array that its header and body encode, for every header value and for 8, 16 and 32 bit values. Lookups on the reloaded table then return the values that were stored.",
     ["inputs", "configurations"], "every header field value and every body content for bounded index and data lengths",
     "Only files of the ICU release would exercise this; there is no test of the reader and the data file is absent.",
     [CP], [("header and body decoding", CP + ":createFromData")], ["CPTrie.createFromData"])
prop("T05", "Enumerating a code point trie covers the range with maximal constant runs",
     "Enumerating a code point table over [start, limit) within the code space terminates and yields consecutive, non-empty ranges from start to limit, each paired with a value. Every code point in a yielded range has exactly that value by direct lookup, and neighbouring ranges have different values.",
     ["inputs", "configurations"], "every start and limit, both table kinds and packings, the shipped table and arbitrary contents",
     "No test of this enumeration can run here; the shipped table has one of the possible shapes.",
     [CP], [("block-skipping enumeration", CP + ":enumerator"), ("lookup it must agree with", CP + ":get")], ["CPTrie.enumerator"])

CHP = U + "CharProps.py"; CD = U + "CharPropsData.py"
prop("P01", "General category is the Unicode 13 category for every code point",
     "For every code point the reported general category, named through the package's category names, is the one Unicode 13.0 assigns, with unassigned code points reported as Cn.",
     ["inputs"], "all 1,114,112 code points",
     "Ten characters are tested.", [CHP, CD, U + "UCDTypeDictionaries.py", U + "GeneralCategories.py"], [("category extraction", CHP + ":getGeneralCategory,generalCategoryFromProps"), ("data", CD + ":propsTrie_index")], ["getGeneralCategory"])
prop("P02", "Character class predicates follow from category and code point",
     "For every code point each character-class predicate (letter, case, digit, hex digit, alphanumeric, control, space variants, blank, printable, graphic, punctuation, identifier start/part/ignorable, Java identifier variants, base, defined) answers exactly as its ICU definition in terms of general category, binary properties and the fixed lists of special code points prescribes.",
     ["inputs"], "all code points and all predicates",
     "Only hex digit, alphabetic and white space are sampled.", [CHP], [("predicates", CHP + ":isLower..isJavaIDPart")], ["is* functions"])
prop("P03", "Script, block and East Asian width match Unicode 13 for every code point",
     "For every code point the reported script, block and East Asian width, named through the package's names, are those of Unicode 13.0. Code points outside every block report the no-block value and unassigned ones the documented defaults.",
     ["inputs"], "all code points", "A handful of characters per property are tested.",
     [CHP, CD, U + "Scripts.py", U + "Blocks.py", U + "EastAsianWidth.py", U + "UCDTypeDictionaries.py"], [("field extraction", CHP + ":scriptFromVecIndex,blockFromVecIndex,eastAsianWidthFromVecIndex"), ("data", CD + ":propsVectorsTrie_index,propsVectors,scriptExtensions")], ["getScript", "getBlock", "getEastAsianWidth"])
prop("P04", "Line, word, sentence and grapheme break values match Unicode 13",
     "For every code point the reported line, word, sentence and grapheme cluster break values, named through the package's names, are those of Unicode 13.0.",
     ["inputs"], "all code points", "These accessors have no runnable tests.",
     [CHP, CD, U + "Boundaries.py", U + "UCDTypeDictionaries.py"], [("field extraction", CHP + ":lineBreakFromVecIndex,sentenceBreakFromVecIndex,wordBreakFromVecIndex,graphemeClusterBreakFromVecIndex"), ("data", CD + ":propsVectors")], ["getLineBreak", "getWordBreak", "getSentenceBreak", "getGraphemeClusterBreak"])
prop("P05", "Age and decomposition type match Unicode 13 for every code point",
     "For every code point the reported age is the Unicode version that first assigned it (no age for unassigned ones), and the reported decomposition type is that of its Unicode 13.0 decomposition mapping, with none for characters that do not decompose.",
     ["inputs"], "all code points", "A few characters per property are tested.",
     [CHP, CD, U + "DecompositionType.py"], [("field extraction", CHP + ":ageFromProps,decompTypeFromVecIndex")], ["getAge", "getDecompType"])
prop("P06", "Numeric type, value and digit value match Unicode 13 for every code point",
     "For every code point the numeric value is the one Unicode 13.0 gives (none for non-numeric characters), whichever compact form encodes it: decimal, digit, small integer, fraction, large power of ten, sexagesimal, or twentieth/thirty-second fraction. The digit value is the decimal digit of decimal characters and -1 otherwise, and the numeric type tells decimal, digit, other numeric and non-numeric apart.",
     ["inputs", "configurations"], "all code points of the shipped data, and every value of the encoded 10-bit field",
     "About twenty characters are tested; the compact forms overlap at boundaries that tests do not sit on.",
     [CHP, CD, U + "uprops_h.py"], [("decoding", CHP + ":numericValueFromProps,digitValue,getNumericType")], ["getNumericValue", "digitValue", "getNumericType"])
prop("P07", "Binary and emoji properties match Unicode 13 for every code point",
     "For every code point and every binary property that the package can report (alphabetic, white space, identifier, pattern, grapheme, emoji and the others), the answer is the Unicode 13.0 value. Asking for a property number that does not exist answers false.",
     ["inputs"], "all code points and all 38 binary properties", "Eight of the properties are sampled on a few characters.",
     [CHP, CD, U + "uprops_h.py"], [("bit extraction", CHP + ":binaryPropFromVecIndex,getBinaryProp,isEmoji..isEmojiModifierBase,isAlphabetic,isUWhiteSpace")], ["getBinaryProp", "isEmoji*"])
prop("P08", "Property lookups never fail on any non-negative integer",
     "Every property accessor returns a value for every non-negative integer: integers beyond U+10FFFF report the unassigned category, no script, no block, no numeric value, no age, false for binary properties and the default for the others. A property column that does not exist reads as zero for every code point.",
     ["inputs"], "every integer from 0 to 2^32 and every column number", "Out-of-range arguments are never tested.",
     [CHP, U + "BidiProps.py", UT], [("range handling", UT + ":indexFromCodePoint"), ("column check", CHP + ":getUnicodeProperties"), ("script range check", CHP + ":getScript")], ["CharProps getters", "BidiProps getters"])

CAP = U + "CaseProps.py"; CAD = U + "CasePropsData.py"
prop("K01", "Simple case mappings match Unicode 13 for every code point",
     "For every code point the simple lowercase, uppercase and titlecase mappings are those of Unicode 13.0, and a code point without a mapping maps to itself.",
     ["inputs"], "all code points x three mappings", "About thirty characters are tested.",
     [CAP, CAD], [("delta and exception decoding", CAP + ":toLower,toUpper,toTitle,getSlotValue,slotOffset")], ["toLower", "toUpper", "toTitle"])
prop("K02", "Full case mappings match Unicode 13 for every code point",
     "For every code point the full lowercase, uppercase and titlecase mappings are the language-independent, unconditional full mappings of Unicode 13.0, including those that expand to several characters. A code point without any mapping yields the one-character string of itself.",
     ["inputs"], "all code points x three mappings", "About thirty characters are tested.",
     [CAP, CAD], [("full mapping decoding", CAP + ":toFullLower,toUpperOrTitle,toFullUpper,toFullTitle")], ["toFullLower", "toFullUpper", "toFullTitle"])
prop("K03", "Case mappings are mutually consistent for every code point",
     "For every code point each simple mapping result is a code point that the same mapping leaves unchanged. Where the full mapping is a single character without a special rule it equals the simple mapping; otherwise it is non-empty and consists of code points only.",
     ["inputs"], "all code points", "The relations between the mappings are not tested at all.",
     [CAP, CAD], [("mappings", CAP + ":toLower..toFullTitle")], ["CaseProps mapping functions"])
prop("K04", "Case exception records are decoded right for any flag combination",
     "For any exception record - any combination of optional slots, single or double width, positive or negative delta, with or without full mapping strings of any length - each simple and full mapping returns what the record encodes, with the documented fallbacks when a slot is absent.",
     ["inputs", "configurations"], "every 16-bit property word and exception word, slot contents arbitrary",
     "The shipped data use a small part of the flag combinations; tests touch a few records.",
     [CAP], [("slot addressing", CAP + ":hasSlot,slotOffset,getSlotValue,flagsOffset"), ("delta decoding", CAP + ":getDeltaFromProps")], ["CaseProps mapping functions"])

BP = U + "BidiProps.py"
prop("B01", "Bidi class, mirrored flag and control flags match Unicode 13",
     "For every code point the reported bidirectional class (named through the package's names), mirrored flag, bidi-control flag and join-control flag are those of Unicode 13.0.",
     ["inputs"], "all code points", "A few characters per property are tested.",
     [BP, U + "BidiPropsData.py", U + "CharDirection.py"], [("field extraction", BP + ":getCharDirection,isMirrored,isBidiControl,isJoinControl")], ["BidiProps getters"])
prop("B02", "Mirroring matches Unicode 13 and is an involution",
     "For every code point the mirror image is the Bidi_Mirroring_Glyph of Unicode 13.0, or the code point itself if there is none. Mirroring twice returns the original code point, and only mirrored characters have a different mirror image.",
     ["inputs"], "all code points", "Some brackets are tested; the escaped long-distance table is hardly touched.",
     [BP, U + "BidiPropsData.py"], [("delta and escape table", BP + ":getMirrorFromProps,getMirrorDeltaFromProps,getMirror")], ["getMirror"])
prop("B03", "Paired brackets match Unicode 13 and pair up symmetrically",
     "For every code point the paired-bracket type and the paired bracket are those of Unicode 13.0, non-brackets pairing with themselves. The pair of an opening bracket is a closing bracket whose pair is the original, and vice versa.",
     ["inputs"], "all code points", "Some brackets are tested.",
     [BP, U + "BidiPropsData.py"], [("bracket lookup", BP + ":getPairedBracketType,getPairedBracket")], ["getPairedBracket", "getPairedBracketType"])
prop("B04", "Joining type and joining group match Unicode 13 for every code point",
     "For every code point the reported Arabic joining type and joining group, named through the package's names, are those of Unicode 13.0; code points outside the joining scripts report no joining group.",
     ["inputs"], "all code points", "A few letters are tested.",
     [BP, U + "BidiPropsData.py", U + "JoiningTypesAndGroups.py"], [("joining lookups", BP + ":getJoiningType,getJoiningGroup")], ["getJoiningType", "getJoiningGroup"])

NO = U + "Normalizer2.py"
prop("N01", "Full canonical decomposition matches Unicode 13 for every code point",
     "For every code point the full decomposition reported by the canonical normalizer is the complete recursive canonical decomposition of Unicode 13.0, and none if the code point does not decompose. No reported decomposition contains a character that itself decomposes further.",
     ["inputs"], "all code points", "The normalizer's test module cannot run here and samples a few characters.",
     [NO, U + "Norm2NFCData.py"], [("decomposition lookup", NO + ":getDecomposition,mapAlgorithmic,stringFromData")], ["nfcTrie.getDecomposition"])
prop("N02", "Raw canonical decomposition matches Unicode 13 for every code point",
     "For every code point the raw (one-step) decomposition is the canonical decomposition mapping field of Unicode 13.0, none if there is none. Expanding raw decompositions repeatedly yields the full decomposition.",
     ["inputs"], "all code points", "The normalizer's test module cannot run here and samples a few characters.",
     [NO, U + "Norm2NFCData.py"], [("raw mapping recovery", NO + ":getRawDecomposition")], ["nfcTrie.getRawDecomposition"])
prop("N03", "Hangul syllables decompose arithmetically and losslessly",
     "Every Hangul syllable decomposes fully into its leading, vowel and (if present) trailing jamo, and raw into either two jamo or its LV syllable plus trailing jamo, by the arithmetic of the Unicode standard. Recomposing the parts gives the original syllable.",
     ["inputs"], "all 11,172 syllables", "Not tested here.",
     [NO], [("Hangul arithmetic", NO + ":hangulDecomposition,rawHangulDecomposition,isHangulLV,isHangulLVT")], ["Normalizer2.getDecomposition", "Normalizer2.getRawDecomposition"])
prop("N04", "Normalization data of any content and origin is decoded right",
     "For any normalization data that follows the format - loaded from the data file or built in - decompositions are decoded as the format prescribes: algorithmic one-character mappings, variable-length mappings with or without combining-class words, explicit and abbreviated raw mappings, and surrogate pairs. Data written to the data file and loaded back behaves like the built-in data.",
     ["inputs", "configurations"], "every 16-bit lookup value and every mapping content within bounded lengths; built-in data serialized and reloaded",
     "The data file is absent, so file loading and compatibility data never run in tests.",
     [NO, CP, U + "ICUDataFile.py"], [("file loading", NO + ":createFromFileData"), ("decoding", NO + ":getDecomposition,getRawDecomposition,stringFromData")], ["Normalizer2"])

CN = U + "CharNames.py"
prop("M01", "Algorithmic character names are generated exactly",
     "For any algorithmic name range, the name of each code point in it is the range's prefix followed by its upper-case hexadecimal code with at least the stated number of digits, or by the combination of name parts that its mixed-radix offset selects. Different code points of a range get different names, and only Unicode or extended name choices produce an algorithmic name.",
     ["inputs", "configurations"], "every code point of a range, every digit count and bounded factor/element configuration (the real Hangul, CJK and Tangut shapes included)",
     "The names test module cannot run here; it samples single characters.",
     [CN], [("algorithmic names", CN + ":AlgorithmicRange.getName,factorSuffix,charInRange")], ["CharNames.getCharName"])
prop("M02", "Compressed name lengths and tokens expand exactly",
     "For any group of 32 name strings the packed length nibbles expand to the 32 encoded lengths and running offsets, and each string expands by replacing one- and two-byte tokens by their text and stopping at the field separator. Choosing another name field selects that field of the string.",
     ["inputs"], "every packed length sequence and every token table/string content within bounded sizes",
     "Needs the absent data file; only end results of a few names are ever compared.",
     [CN], [("length expansion", CN + ":Group.expandGroupLengths"), ("token expansion", CN + ":Tokens.expandString"), ("fields", CN + ":Group.expandName")], ["CharNames.getCharName"])
prop("M03", "Name lookup, reverse lookup and iteration agree",
     "For any name data, looking up a code point finds its name in the group that holds it or in its algorithmic range and nothing otherwise; iterating yields every named code point exactly once, in ascending order within the data, with that same name. Looking a name up in reverse gives the first code point that has it, or the not-found value.",
     ["inputs", "configurations"], "every code point against bounded sets of groups (any ascending group numbers) and algorithmic ranges",
     "Needs the absent data file; sampled by a few characters.",
     [CN], [("group search", CN + ":CharNames.getGroup"), ("iteration", CN + ":CharNames.nameIterator"), ("reverse lookup", CN + ":CharNames.charFromName")], ["CharNames.getCharName/nameIterator/charFromName"])
prop("M04", "Extended names label every unnamed code point by its category",
     "For every code point outside the algorithmic ranges the extended name is its category label and hexadecimal code in angle brackets, where noncharacters and lead and trail surrogates have labels of their own and all others use the label of their general category. Hexadecimal codes have at least four upper-case digits.",
     ["inputs"], "all code points", "Needs the absent data file; a few labels are sampled.",
     [CN, U + "Utilities.py"], [("category names", CN + ":getCharCat,getCharCatName,charCatNames,getCharName")], ["CharNames.getCharName(c, extended)"])

prop("D01", "The data package directory locates every item for any layout",
     "For any data package with a valid header and table of contents, every listed item is found under its name without the package prefix, at the position the table gives relative to the package header, with its own header decoded. Raw data access returns exactly the requested bytes.",
     ["inputs", "configurations"], "every header length, item count, offset and name content within bounded sizes",
     "The data file is absent; no test of the package reader exists.",
     [U + "ICUDataFile.py"], [("directory parsing", U + "ICUDataFile.py:ICUData._populateData,getName,getString,getDataOffsetAndHeader")], ["ICUData"])
prop("D02", "Layout properties come from the right table of the data file",
     "For any layout data item, the Indic positional, Indic syllabic and vertical orientation lookups of every code point return the value stored in the first, second and third of the item's tables respectively, whatever the sizes of the tables and of the item's header and index.",
     ["inputs", "configurations"], "every code point; bounded variations of header length, index length and table contents",
     "The data file is absent, so the module cannot even be imported in tests.",
     [U + "LayoutProps.py", CP], [("table location", U + "LayoutProps.py:indices,trieOffset,trieLimit")], ["getInPC", "getInSC", "getVO"])
prop("L01", "Every reported property code has its one right short name",
     "For every enumerated property, each code that a lookup can report for any code point has a name, distinct codes have distinct names, and the names are the official short aliases of Unicode 13.0 wherever one exists. Where two name tables exist for a property they agree on every code.",
     ["inputs"], "every code of category, bidi class, script, block, width, joining, break, decomposition and layout properties",
     "Tests use the names of a few dozen codes.",
     [U + "UCDTypeDictionaries.py", U + "GeneralCategories.py", U + "Scripts.py", U + "Blocks.py", U + "Boundaries.py", U + "JoiningTypesAndGroups.py", U + "EastAsianWidth.py", U + "CharDirection.py", U + "DecompositionType.py", U + "LayoutTypes.py"],
     [("name tables", U + "UCDTypeDictionaries.py")], ["*Names dictionaries"])

prop("X01", "UCD record fields prefer the character and fall back to its group",
     "For any pair of character and group elements each text field is the character's own attribute if it has one, otherwise the group's, otherwise empty, and each yes/no field is true exactly if that text is Y. This holds for every field of the character record and of its nested records, under the field's own attribute tag.",
     ["inputs"], "every presence combination and every Y/other value of the attributes of both elements",
     "The record classes are only used against the full UCD download, which tests here cannot fetch.",
     [U + "UCDProperties.py", U + "CharacterData.py", U + "BinaryProperties.py", U + "BidiProperties.py", U + "DecompProperties.py", U + "IndicProperties.py", U + "CaseProperties.py"],
     [("lookup with fallback", U + "UCDProperties.py:getCharProperty,getBooleanProperty"), ("field lists", U + "BinaryProperties.py:propsList")], ["CharacterData"])
prop("X02", "Code point fields of UCD records become the characters they list",
     "Every case mapping, folding, decomposition, mirrored glyph and paired bracket field of a record is the character or string spelled by its list of hexadecimal code points. The self marker and a missing case mapping stand for the character itself, and a missing decomposition for none.",
     ["inputs"], "every list of up to three code points of 4 to 6 hexadecimal digits, the self marker and the missing attribute, for every such field",
     "The record classes are only used against the full UCD download, which tests here cannot fetch.",
     [U + "UCDProperties.py", U + "CaseProperties.py", U + "DecompProperties.py", U + "BidiProperties.py"],
     [("string conversion", U + "UCDProperties.py:getCodePointsProperty"), ("decompositions", U + "DecompProperties.py:dmToString")], ["CaseProperties", "DecompProperties", "BidiProperties"])
UTI = U + "Utilities.py"
prop("U01", "Surrogate arithmetic is a bijection and the predicates classify exactly",
     "Every supplementary code point converts to a lead and a trail surrogate that convert back to it, and every lead/trail pair converts to the supplementary code point that converts back to the pair. The surrogate, lead, trail and noncharacter predicates are true for exactly the code points the standard defines so.",
     ["inputs"], "every code point (predicates), all supplementary code points and all 1024 x 1024 pairs",
     "A handful of values are tested.",
     [UTI], [("conversion", UTI + ":surrogatesFromChar,charFromSurrogates"), ("predicates", UTI + ":isSurrogate,isLead,isTrail,isUnicodeNoncharacter")], ["Utilities"])
prop("U02", "Bit helpers are exact on their whole documented domain",
     "The high-bit helper returns the position of the highest set bit of every value of up to 64 bits and nothing for zero. The field helper returns the two's complement value of the top bits of every word, for every word size up to 32 bits and every field size, and the code list helper prints every code in upper-case hexadecimal of at least four digits.",
     ["inputs"], "every 64-bit value; every word, word size and field size up to 32; lists of up to three codes",
     "A few dozen values are tested.",
     [UTI], [("helpers", UTI + ":highBit,arithmeticShift,listOfCodes")], ["Utilities"])
prop("G01", "The module builder translates ICU headers and data faithfully",
     "Constants and tables that the module builder extracts from ICU headers and source files evaluate in Python to the values the C source gives them.",
     ["inputs", "programs"], "every header and data file of the supported kind",
     "There are no tests; the inputs (ICU sources) are downloaded from the network.",
     ["module_builder/HeaderToPtyhon.py", "module_builder/ModuleBuilder.py"], [("regular-expression translation", "module_builder/HeaderToPtyhon.py")], ["generated modules"])

MBR = "module_builder/UCDReader.py"
prop("G02", "The module builder turns alias records into dictionary entries",
     "For any alias records of the ICU property file, the generated module has, per property and in order, one entry for each record: the ICU constant named by the property's prefix and the upper-cased long name (or its listed replacement) with the property's form of the short name as its value. Official alias records of groups without a constant have none, and every other official alias gets the constant that means it; other records, comments and blank lines change nothing, and the reported Unicode version is the one in the file.",
     ["inputs"], "every record of the supported properties with symbolic names, sequences of records of symbolic kinds, every official alias of Unicode 13.0",
     "The module builder has no tests; its input is part of the ICU sources.",
     [MBR], [("record translation", MBR + ":UCDReader.generateDictionaries"), ("mappings", MBR + ":UCDReader.__init__"), ("output", MBR + ":UCDReader.writeFile")], ["UCDTypeDictionaries.py"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
