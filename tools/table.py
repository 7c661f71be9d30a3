HOOK_COMMITS = ["7c1cd98d0cc803e78f1da220e5fbdb7367c8e582", "3d776a9c5ea07a55cc9c564fb06e02aa7fc442ff", "4e8fa1d94d86d76acef9c292c66852a6d710b7c1", "53c882555c0f9e425a637c93b22182be5b91ea98", "92ea8e8638ecc45df01f0799ecc45d2836919b86"]
NA = []

prop("P01", "Identifiers survive printing and parsing",
 "For every article, paragraph, point, subpoint, letter and act identifier, parsing any printed form of it (plain, with slash, upper case, compact, range, or the act's full name) gives back the same identifier, and printing never fails. Number and letter texts are accepted exactly when they follow the identifier grammar (digits, then optionally one letter or Hungarian digraph after an optional slash; one or two latin letters for subpoints) and then denote that identifier.",
 "all identifier values; all short texts over the identifier alphabet",
 "The domain is tens of thousands of numbers times 35 suffixes times books; the unit tests try about 30 strings.",
 ["src/identifier/numeric.rs", "src/identifier/alphabetic.rs", "src/identifier/article.rs", "src/identifier/paragraph.rs", "src/identifier/prefixed_alphabetic.rs", "src/identifier/act.rs", "src/identifier/range.rs"],
 [("Display / FromStr / CompactString impls, split_suffix", "src/identifier/")],
 MIX, "other", "Round trips of letters, numbers and paragraphs are proved for all values; article and act round trips are proved in the thorough tier and checked on enumerated and random values in the quick one; full act names (regex) are a bounded stand-in.")

prop("P02", "Identifier and reference ordering is document order",
 "Comparing two identifiers or references is a total order that agrees with equality and is the order in which the elements stand in a document: by number, a suffixed number after the plain one, a digraph right after its base letter, books first, and level by level for references, a missing level first. A range of identifiers contains exactly the identifiers between its ends, both included, in that order.",
 "all pairs of identifiers of one kind, all pairs of references, all ranges with all members",
 "Order laws quantify over all pairs; tests compare about ten.",
 ["src/identifier/alphabetic.rs", "src/identifier/numeric.rs", "src/identifier/article.rs", "src/identifier/range.rs", "src/reference/mod.rs"],
 [("Ord for HungarianIdentifierChar via ord_helper, derived Ord elsewhere", "src/identifier/alphabetic.rs"), ("IdentifierRange::contains", "src/identifier/range.rs")],
 KANI, "proof", "Every obligation is discharged for all values, no bound. Trusts Kani/CBMC, the spec functions and the accessor hooks.")

prop("P03", "Identifier succession accepts exactly the next element",
 "An identifier is accepted as following another exactly when it is the next one in legal numbering: the next number, the first suffix of the same number or the next letter after a suffix (with the digraphs, and with the tolerated jump from p to r), the first article of the next book; never itself, never something earlier, never after a wrap-around. 'First' holds exactly for 1, 1:1 (first book), a, and prefixed a; only an unnumbered paragraph is empty.",
 "all pairs of identifiers of one kind",
 "The interesting cases are at suffix, digraph, book and maximum-number transitions; tests try about 25 pairs.",
 ["src/identifier/alphabetic.rs", "src/identifier/numeric.rs", "src/identifier/article.rs", "src/identifier/paragraph.rs", "src/identifier/prefixed_alphabetic.rs"],
 [("IdentifierCommon::is_next_from / is_first / is_empty", "src/identifier/")],
 KANI, "proof", "Every obligation is discharged for all pairs of values, no bound.")

prop("P04", "References are always well formed",
 "No public operation (checked construction, the builder in any order of setting parts, parent, resolving relative references, making ranges, taking range ends, dropping the act, conversions) ever yields a reference with a gap between its parts (only the paragraph may be missing) or with a range anywhere but in its last part. Construction and building succeed exactly on the well-formed combinations, setting a part drops all lower parts and keeps the upper ones, and the accessors report exactly the parts that were put in.",
 "all combinations of the five reference parts, each a single identifier or a range, and all single-step operations on them",
 "There are 2^5 part combinations times range shapes times kinds; tests use about 20 hand-written references.",
 ["src/reference/mod.rs", "src/reference/unchecked.rs", "src/reference/builder.rs", "src/reference/parts.rs"],
 [("UncheckedReference::check_part_combination / check_ranges", "src/reference/unchecked.rs"), ("ReferenceBuilderSetPart resetting lower parts", "src/reference/builder.rs")],
 KANI, "proof", "Every obligation is discharged for all part combinations, no bound; the builder is proved as an invariant over one arbitrary step from an arbitrary state.")

prop("P05", "Resolving a relative reference keeps its own parts",
 "Resolving a reference relative to a base yields the base's parts above the topmost part the reference names and the reference's own parts from there on, and fails exactly when that combination is not well formed. A reference that names an act resolves to itself, and the empty reference resolves to the base.",
 "all pairs of well-formed references",
 "All 32x32 part combinations with range shapes; tests resolve about 15 pairs.",
 ["src/reference/mod.rs", "src/reference/unchecked.rs"],
 [("Reference::relative_to", "src/reference/mod.rs")],
 KANI, "proof", "Every obligation is discharged for all pairs of well-formed references, no bound.")

prop("P06", "Parents and containment follow the document hierarchy",
 "The parent of a reference is the reference without its last part, and a reference is the parent of another exactly when both are in the same act and the other is the same reference extended by lower parts. A reference contains another exactly when everything the other denotes, both ends of its range, is denoted by the first or lies below it (for ranges that do not run backwards).",
 "all pairs of well-formed references",
 "Containment quantifies over all pairs including ranges and missing paragraphs; tests try about 30.",
 ["src/reference/mod.rs"],
 [("Reference::parent / is_parent_of / contains", "src/reference/mod.rs")],
 KANI, "proof", "Every obligation is discharged for all pairs of well-formed references, no bound. Containment assumes ranges that do not run backwards.")

prop("P07", "Reference ranges span exactly from first to last",
 "Making a range of two references succeeds exactly when they name the same act, share all parts but the last and have last parts of the same kind (or are equal), and the range then starts at the first one's first element and ends at the second one's last element, keeping all shared parts. The first and last elements of any reference are that reference with its range replaced by its start or its end.",
 "all pairs of well-formed references",
 "All pairs of references and shapes of range; tests try about 20.",
 ["src/reference/mod.rs", "src/reference/builder.rs"],
 [("Reference::make_range / first_in_range / last_in_range", "src/reference/mod.rs")],
 KANI, "proof", "Every obligation is discharged for all pairs of well-formed references, no bound.")

prop("P08", "References survive their compact form, and their name names every part",
 "Reading the compact string of any well-formed reference gives back the same reference; a compact text is accepted exactly when it has five underscore-separated fields, each empty or a valid identifier or range of its level, that together are well formed. The printed Hungarian name of a reference contains every part and both ends of every range, in document order, with the possessive ending on the last part only.",
 "all well-formed references; all texts of up to seven fields and mutations of printed ones",
 "The codec is the key of every stored reference; tests try three.",
 ["src/reference/string.rs", "src/reference/parts.rs", "src/util/compact_string.rs", "src/identifier/range.rs"],
 [("CompactString for Reference / Option / RefPart*, Display for Reference", "src/reference/string.rs")],
 MIX, "other", "Printing is checked by the verifier for one-character parts; reading (string splitting is beyond the verifier's memory here) is a bounded stand-in over enumerated, random and mutated texts.")

prop("P09", "Slicing and joining lines neither loses nor moves characters",
 "Cutting a line at any character or byte position and putting the pieces back together gives the same text, boldness and positions; each character of a slice keeps the absolute horizontal position it had; negative and out-of-range positions count from the end and are clamped, and never panic. A line is bold exactly when more than two thirds of its characters are, and its indentation is the position of its first character.",
 "all lines over a character menu that includes multi-byte characters, with all positions and boldness, and all slice boundaries",
 "Off-by-one and byte/character confusions appear only at particular boundaries of particular lines; tests try about 25 slices.",
 ["src/util/indentedline.rs"],
 [("IndentedLine::slice / slice_bytes / from_multiple / indent_at / from_parts", "src/util/indentedline.rs")],
 MIX, "other", "Verifier checks within the stated line lengths (any boldness, any boundary), plus a bounded stand-in on longer lines.")

prop("P10", "Joining lines into text keeps every word, separated as printed",
 "Joining lines appends each line's text unchanged and in order: one space between lines, no space after a hyphenation except where the hyphen is one of a dangling compound, nothing for empty lines; no character of any line is lost, duplicated or reordered.",
 "all sequences of up to four lines over a menu of line texts and any single extra ASCII character",
 "Every text of the parsed act is made by this operation; tests try about six joins.",
 ["src/util/indentedline.rs"],
 [("IndentedLine::append_to / join", "src/util/indentedline.rs")],
 MIX, "other", "One verifier check within the stated bound, plus a bounded stand-in over longer sequences.")

prop("P11", "Quotation marks are balanced exactly",
 "After any sequence of lines the quote level is the number of opening marks minus the number of closing marks so far; a line's beginning is quoted exactly when the level before it is positive and its end exactly when the level after it is positive; a line that closes more than is open is an error, and so is ending with an open quotation, and nothing else is.",
 "all sequences of lines over both opening marks, the closing mark and other text, from any starting level",
 "Everything that must not look inside quotations depends on it; tests try one sequence of seven lines and two errors.",
 ["src/util/mod.rs"],
 [("QuoteCheck::update / check_end", "src/util/mod.rs")],
 MIX, "other", "The step is checked by the verifier for any quote level over a menu of lines; longer sequences are a bounded stand-in.")

prop("P12", "A fixup changes exactly the line it names",
 "Applying a fixup succeeds exactly when its context and old line stand at exactly one place of the text and it would change something; then that one line reads exactly the new text (kept characters keep their boldness and positions, new ones are as bold as the line was, positions never run backwards, set_bold makes all of it bold), and every other line is untouched. If it fails, no line is changed. A list of fixups is applied in order and stops at the first that does not apply.",
 "all texts and fixups within the stated bounds, including repeated lines, repeated contexts, insertions, deletions, and replacements",
 "Ambiguous contexts, overlapping prefixes and suffixes and positions of inserted characters are combinatorial; tests try about 15 fixups.",
 ["src/fixups.rs", "src/util/indentedline.rs"],
 [("Fixup::apply / apply_to_line, Fixups::apply", "src/fixups.rs")],
 MIX, "other", "Finding the place, refusing and emptying are verifier checks on a two line text; the text edit itself is a bounded stand-in.")

prop("P13", "Edits made in the fixup editor are recorded so that they replay",
 "What is edited in the fixup editor is refused exactly if the number of lines changed or a changed line can not be told from the others by at most ten lines before it; nothing is saved then. Otherwise one fixup for every changed line is recorded after the ones already there, and replaying the new ones in order on the original lines succeeds and gives the edited text, with lines marked <BOLD> bold and the marker removed. Saved fixups are read back unchanged, separately for every act, and a save that fails or is interrupted at any point leaves either the old or the new ones. The editor is given the lines of the text as they are, and opened at the first line closing a quote that is not open, or else after the last line that ends outside of quotes. No edit makes the editor panic.",
 "all texts, edits of them, and earlier fixups; all acts; all points of interruption of a save",
 "Later fixups see the text as changed by the earlier ones, so the context must be chosen against the changing text; tests make a dozen edits and never replay them.",
 ["src/bin/hun_law/fixup_editor.rs", "src/fixups.rs", "src/util/singleton_yaml.rs"],
 [("update_fixups", "src/bin/hun_law/fixup_editor.rs"), ("run_fixup_editor", "src/bin/hun_law/fixup_editor.rs"), ("Fixups::load_from / save", "src/fixups.rs"), ("Fixup::apply", "src/fixups.rs")],
 STAND, "other", "Strings of symbolic length and the file system are beyond the verifier: a bounded stand-in, with a scripted editor for the whole run.")

prop("P14", "Walking an act visits every element once, in order, at its reference",
 "Walking an act, article or element calls the visitor on entering and on leaving every paragraph, point and subpoint exactly once, parents around their children, in document order, each time with the full reference of that element, and never inside quoted blocks or amendments. An error from the visitor stops the walk at once and is reported; walking itself changes nothing.",
 "all elements over all base references and all contents of their children, by induction over the levels; random acts",
 "A walk is a fold over arbitrary trees; tests walk one act.",
 ["src/util/walker.rs", "src/reference/to_element.rs", "src/reference/mod.rs"],
 [("WalkSAE / WalkSAEMut", "src/util/walker.rs"), ("ReferenceToElement", "src/reference/to_element.rs")],
 MIX, "other", "One level of the walk and every element's own reference are proved for all values, over the contract of the level below; lists are checked up to length three, whole acts by a bounded stand-in.")

prop("P15", "Exactly the acts of the gazette are extracted, complete",
 "From the pages of a Magyar Közlöny, exactly the acts of its section 'II. Törvények' are extracted, in order: each with its identifier, its subject, the publication date on the cover, and every line of its body from after the subject to before the signatures, in order, with page breaks as empty lines, never two empty lines in a row, and only the adoption footnote left out. Pages without the gazette's title or a valid date, or without a second page, are refused.",
 "all gazettes of the layout: any number of acts, any line contents, page breaks anywhere",
 "Which line ends what depends on combinations of page breaks, footnotes, headers and empty lines; tests use two gazettes.",
 ["src/parser/mk_act_section.rs"],
 [("parse_mk_pages_into_acts, parse_mk_cover_page, ActExtractor, remove_double_empty_lines", "src/parser/mk_act_section.rs")],
 MIX, "other", "Merging empty lines is a verifier check on a three line body; the extractor (regular expressions) is a bounded stand-in on generated gazettes.")

prop("P16", "Structural parsing loses, invents and reorders nothing",
 "Whatever the lines of an act are, parsing its structure either fails with an error or gives an act whose preamble, structural headings, article numbers, titles, element identifiers, texts, quoted lines and wrap-ups are, read in order, exactly the characters of the lines (spaces and end-of-line hyphens apart). One level of elements begins exactly at the headers that are in sequence, not quoted and not deeper than the first one, and each element has exactly the lines up to the next. It never panics.",
 "all sequences of lines, however unlike a well-formed act",
 "Dropped lines appear only in unusual combinations of headers, quotes and wrap-ups; tests parse about a dozen acts.",
 ["src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/parser/structure/sae.rs", "src/parser/structure/quote.rs", "src/parser/structure/subtitle.rs", "src/parser/structure/structural_element.rs"],
 [("parse_complex_body", "src/parser/structure/act.rs"), ("SAEParser::parse / extract_multiple", "src/parser/structure/sae.rs"), ("QuotedBlockParser", "src/parser/structure/quote.rs"), ("ArticleParser", "src/parser/structure/article.rs")],
 MIX, "other", "When a header begins the next element is proved over the contract of recognising one, for all indentations; the whole parser (regular expressions, vectors of lines) is a bounded stand-in on all short and random longer lines.")

prop("P17", "The structure of an act in the gazette's layout is recovered exactly",
 "Parsing the lines of an act that is laid out the way the gazette does (article headers in sequence, paragraphs, points and subpoints in sequence with hanging indentation, wrap-ups at the indentation of the headers, subtitles and structural headings in their form, quoted blocks with optional intros and wrap-ups) gives back exactly that act: the same elements, identifiers, titles and texts. Quoted text is opaque: headers inside of it start nothing.",
 "all acts of the layout, with any combination of elements at any level",
 "Ambiguities arise from particular combinations of levels, suffixes and quotations; tests parse about a dozen acts.",
 ["src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/parser/structure/sae.rs", "src/parser/structure/quote.rs", "src/parser/structure/subtitle.rs", "src/parser/structure/structural_element.rs", "src/util/indentedline.rs"],
 [("parse_act_structure", "src/parser/structure/act.rs"), ("the header regexes and parse_header", "src/parser/structure/sae.rs")],
 STAND, "other", "Regular expressions and unbounded text are beyond the verifier: a bounded stand-in on generated acts.")

prop("P19", "Numbers, dates and headings in words are read and written consistently",
 "Every number up to 100 has one Hungarian ordinal, read back (in any letter case) as the same number, and nothing else is read as a number; every month name is read as its month and nothing else is; every valid date in gazette form is read as that date and every invalid one is refused; roman numerals with suffixes and the heading of every book, part, title and chapter are read back as what they were written from, and writing them never fails.",
 "all ordinals, months and special parts; all days of ten years; all heading kinds and numbers up to 100",
 "The tables are large and a wrong or duplicated entry is invisible until that number occurs; tests try about ten.",
 ["src/util/hun_str.rs", "src/structure.rs", "src/identifier/numeric.rs", "build.rs"],
 [("ToHungarianString / FromHungarianString", "src/util/hun_str.rs"), ("StructuralElement::header_string, StructuralElementType::parse_identifier", "src/structure.rs")],
 MIX, "other", "Ordinals, months and special parts are proved for all values; reading (regular expressions, case folding) is a bounded stand-in over the whole table.")

prop("P20", "Text output shows everything, at any width",
 "Printing an act as text at any width and in any text format succeeds and shows every heading, identifier, title and text of it, in document order, with nothing lost, duplicated or reordered by wrapping, indentation or colouring; every header begins its own line, an article's 5 columns in, a paragraph's 15, and 5 more for every level below, and wrapped text keeps to the width. Coloured text marks exactly the references; plain text has no colours. Raw text and pages show every line, indented by a fifth of its position, bold and unjustified lines marked in the test format. An output that cannot be written whole is an error.",
 "all acts, widths 0 to 100000, all text formats",
 "Losses appear at particular widths, nesting levels and reference positions; tests print one act.",
 ["src/output/text.rs", "src/output/mod.rs"],
 [("TextOutput", "src/output/text.rs"), ("split_string_at_references", "src/output/text.rs"), ("CliOutput", "src/output/mod.rs")],
 MIX, "other", "Cutting at references is a verifier check on an eight character text; printing (formatting machinery) is a bounded stand-in on generated acts.")

prop("P21", "Converting block amendments changes only what it recognises, and completely",
 "Converting block amendments turns a paragraph with exactly one quoted block and a block amendment phrase into the elements quoted, in sequence from the amended position's first element, with intro, wrap-up and every quoted character kept; if the quoted lines are not that, it fails with an error and leaves the quoted block as it was; every other paragraph is untouched. It does so in every paragraph of every article, and it never panics.",
 "all quoted lines, positions and phrases",
 "Each kind of position has its own parser and its own ways to lose a line; tests convert about ten blocks.",
 ["src/parser/structure/block_amendment.rs", "src/parser/structure/sae.rs", "src/parser/structure/act.rs"],
 [("Paragraph::convert_block_amendments and its helpers", "src/parser/structure/block_amendment.rs")],
 STAND, "other", "Regular expressions and recursive element types are beyond the verifier: a bounded stand-in on generated amendments.")

prop("P22", "Saved acts are read back unchanged",
 "Writing an act, or any element, reference or semantic information, as JSON or YAML succeeds and reading it back gives an equal value; that includes what the program itself prints in those formats.",
 "all acts with every kind of content",
 "Every optional, untagged and renamed field is a way to lose or change a value; tests save about five.",
 ["src/structure.rs", "src/semantic_info.rs", "src/identifier/", "src/reference/", "src/util/singleton_yaml.rs", "src/output/mod.rs"],
 [("derived and manual Serialize / Deserialize", "src/structure.rs"), ("singleton_yaml", "src/util/singleton_yaml.rs")],
 STAND, "other", "serde, serde_json and serde_yaml are beyond the verifier: a bounded stand-in on generated values.")

prop("P23", "The lines of a PDF page show exactly what is drawn on it",
 "Parsing a PDF gives one page of lines for every page of the document. They show exactly the characters drawn inside the crop box by the page and the forms it uses, whatever text operators, font kinds and order of drawing it uses, also when it saves and restores its graphics state or other pages use other fonts. A code is decoded by the font in effect: ToUnicode first, then the encoding's differences, then its base (with õ and û, in both cases, read as ő and ű); a code without a meaning is an error, and so is a font, form or state that does not exist. Text under an ActualText is replaced by that. Characters of the same height (within half a point) make one line, left to right, with one space exactly where the gap is more than half of the font's space or an opening quote „ follows; lines come top to bottom, with an empty line where they are more than 16 points apart. Every character keeps the place it was drawn at and is bold exactly if its font's name says so; a line is justified if it ends at the page's right margin (within 0.8 of a space). (ActualText spans are not nested; transformations of the whole page are not used.)",
 "all documents in that form",
 "Text state, fonts and positions interact; the tests look at a dozen excerpts of one producer's documents.",
 ["src/parser/pdf/"],
 [("parse_pdf", "src/parser/pdf/mod.rs"), ("PageRenderer", "src/parser/pdf/page.rs"), ("FastFont, FontCache", "src/parser/pdf/font.rs"), ("TextState", "src/parser/pdf/textstate.rs"), ("CharCollector, ActualTextCollector", "src/parser/pdf/collector.rs"), ("PageOfLines::try_from", "src/parser/pdf/page_of_lines.rs")],
 MIX, "other", "Only the character quirks and the order of characters are discharged for all inputs; the pdf crate and vectors of floats are out of reach, so the rest is a bounded stand-in on generated documents.")

prop("P24", "Gazette issues are fetched whole or not at all, and read from the cache, each from its own place",
 "A gazette issue that is in the cache (MK/YEAR/ISSUE.pdf under the cache folder) is returned byte for byte without using the network, whatever other issues are there, and the cache is left as it was. An issue that is not there is fetched from its own address, returned byte for byte and cached; if fetching or saving it fails or is interrupted at any point, nothing incomplete is ever returned, then or later. An issue descriptor is accepted exactly if it is YEAR/ISSUE in numbers, and means that year and issue.",
 "all issues, cache contents, answers of the server, points of interruption, and descriptors",
 "Tests never touch the downloader.",
 ["src/mk_downloader.rs"],
 [("download_mk_issue", "src/mk_downloader.rs"), ("MkIssue::from_str", "src/mk_downloader.rs")],
 STAND, "other", "File system and network: a bounded stand-in, against a loopback server and a disk that fails at chosen points.")

prop("P25", "Articles are found by their identifier, emptiness means nothing is left, and headers read as in the gazette",
 "The articles of an act are exactly its article children, in order. Looking one up gives the first article with that identifier, or none if there is none, whether to read or to change it, and changing it changes nothing else. A part of an article is empty exactly if its text is empty, or, where it has children, all of them are (a quoted block or a structural amendment: it has none). Semantic information is empty exactly if it holds no reference, no abbreviation and no special phrase. The header of an element is its identifier as it is printed in the gazette: 1., a), aa), (1), 1:2/A. §. The parent of a structural position, taken as a position itself, is of the same kind and has the same identifier.",
 "all acts, elements and identifiers",
 "Tests build acts by parsing and never look articles up or empty elements.",
 ["src/structure.rs", "src/semantic_info.rs", "src/reference/structural.rs"],
 [("Act::article", "src/structure.rs"), ("Act::articles", "src/structure.rs"), ("SubArticleElement::is_empty", "src/structure.rs"), ("SemanticInfo::is_empty", "src/semantic_info.rs"), ("From<StructuralReferenceParent> for StructuralReferenceElement", "src/reference/structural.rs")],
 MIX, "other", "Elements are proved empty over the contract of their children, and conversions are proved; lookups and lists of children are proved for bounded lengths; whole trees and headers are a bounded stand-in.")

prop("P18", "References, abbreviations and amendments in the text are recognised exactly",
 "Adding semantic information to an act finds, in every sentence written in the gazette's phrasing, exactly the references in it, each with the bytes of the text it stands at and everything it names (a relative reference relative to the one before it, an abbreviation standing for the act it was defined for, the longest known one where several fit), exactly the abbreviations it defines, which are then known in the rest of the act, and what it does: amend texts, blocks or structural elements, repeal, or come into force. Cutting a sentence into an intro, points and a wrap-up changes nothing of that, except that the intro itself can only be an amendment of a block. Whatever the text, a reference found in it is well formed, stands inside the text, between characters, after the one before it. An identifier in a reference that is too large to be one is an error, never left out. Nothing but the semantic information and the known abbreviations is changed, of one article only if only that article is asked for, and whether the abbreviations have changed is reported.",
 "all sentences in that phrasing, all cuts of them, all texts for the sentence about whatever text",
 "The grammar has hundreds of alternatives that combine; tests sample a few of each.",
 ["src/parser/semantic_info/", "hun_law_grammar/"],
 [("Act::add_semantic_info", "src/parser/semantic_info/mod.rs"), ("SemanticInfoAdder", "src/parser/semantic_info/sae.rs"), ("OutgoingReferenceBuilder", "src/parser/semantic_info/reference.rs"), ("AbbreviationCache", "src/parser/semantic_info/abbreviation.rs"), ("hun_law_grammar", "hun_law_grammar/grammar.ebnf")],
 STAND, "other", "A bounded stand-in on generated sentences. The parser generator (peginator) is not in the sandbox: the grammar of the repository is compiled by a generator of our own, which is trusted.")

NA = []
