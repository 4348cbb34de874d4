#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when it changes)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["observe_at"] = observe or ["the crate's public API"]
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), note))

EV, RAW, MOD, UT, PE = ["src/parser/"+x for x in ("events.rs", "raw.rs", "mod.rs", "util.rs", "error.rs")]
ENT, TXT, MS, LIB, FRAG = ["src/"+x for x in ("entities.rs", "text.rs", "marked_sections.rs", "lib.rs", "fragment.rs")]
NET, TR, DE, BUF = "src/transforms/normalize_end_tags.rs", "src/transforms/transform.rs", "src/de/mod.rs", "src/de/buffer.rs"
IN, CF, HI, PR = "inputs", "configurations", "histories", "programs"

# ---------------------------------------------------------------- parsing
prop("P01", "Parsing any text under any configuration ends in a result, never a crash",
 "Parsing returns events or an error for every text under every parser configuration: it never panics, overflows the stack, overflows arithmetic or fails to finish. Every error it returns can be displayed, in its short form and in the detailed description, without panicking either.",
 [IN, CF], "every text, including multi-byte and control characters, unterminated and deeply nested or repeated constructs, under every combination of settings",
 "tests parse some tens of well-formed documents and a few rejected ones; whether any of the unbounded texts panics can only be settled by exploring them",
 [EV, RAW, UT, PE, MOD, ENT], [("document grammar", EV+": document_entity"), ("literal grammar", RAW), ("error description", PE+": describe_to, LocatedLine")],
 "Enumerates all texts over several alphabets to a length bound under several configurations, each parsed by the crate with debug assertions and overflow checks on and every error displayed; repetition and depth probes up to 100000. Texts with constructs outside the alphabets, and lengths between the bounds and the probes, are not covered.")
prop("P02", "The accepted language, and the events of each document, are as documented",
 "A document is accepted exactly if it follows the supported grammar: optional leading comments, declarations and processing instructions, then at least one tag or stretch of text in content made of tags, text, comments, processing instructions and marked sections. Its events are then exactly the ones its markup and text denote, in document order: names, attributes with or without values (quoted either way or bare), tag ends, text, declarations, instructions and sections, with nothing added, lost, split or merged.",
 [IN, CF], "every document built from any of the supported constructs in any order, under every combination of settings",
 "tests pin some documents of the language; agreement with the grammar concerns every sequence of constructs and their boundaries",
 [EV, RAW, MOD, UT], [("document grammar", EV+": document_entity, prolog, content, content_item"), ("literal grammar", RAW), ("event iterators", EV+": EventIter")],
 "Enumerates token sequences to a length bound and compares accept/reject and the full event list with an independently written reference parser (mc/src/refparse.rs). Trusts the reference parser, which is itself tied to the code by every one of these comparisons.")
prop("P03", "Events always have the documented shape",
 "In the events of any accepted document, each opened start tag is followed by its attributes and then exactly one close or XML-style close, and attributes and closes appear nowhere else. Element and attribute names follow the name grammar as written, before any change of case (empty only for minimized empty tags, which carry no attributes), and marked sections, declarations and processing instructions appear only when the configuration keeps them.",
 [IN, CF], "every accepted document under every combination of settings",
 "tests look at concrete event lists; the invariant is over all event lists the parser can produce",
 [EV, RAW, LIB], [("start tags", EV+": start_tag, attribute, empty_start_tag"), ("filters", EV+": markup_declaration, processing_instruction, marked_section_body")],
 "Checks the invariant as a monitor over the event lists of every enumerated document; no reference parser involved.")
prop("P04", "Text is told apart from markup exactly, and none is lost or duplicated",
 "Within content, `<` begins markup exactly when what follows can begin a tag, declaration, comment, marked section or processing instruction; otherwise it is literal text. Each text event holds precisely the source characters up to the next markup, so nothing of the text is lost, repeated or moved, and neighbouring markup is not swallowed.",
 [IN, CF], "every text in content, with `<` followed by any character, before and after any markup",
 "tests sample a handful of characters after `<`; the rule must hold for every character and position",
 [RAW, EV], [("text up to markup", RAW+": text, plain_text, name_start"), ("text event", EV+": text")],
 "Enumerates character sequences around `<` and the markup delimiters to a length bound, and every character of several planes after `<`, against the reference parser and a rule written directly from the property.")
prop("P05", "Comments vanish without a trace wherever they are allowed",
 "A comment declaration between items of a document changes nothing but the text boundary it stands on: the events are those of the same document with an ignored processing instruction in its place. A comment ends at the first `--`, nothing within it is interpreted, a declaration may hold any number of comments separated by white space or none at all, and comments inside other declarations belong to them.",
 [IN, CF], "every comment text and every position in every document",
 "tests put comments at a few positions with simple text; the claim is over all positions and comment contents",
 [RAW, EV, UT], [("comments", RAW+": comment_declaration, comment"), ("comments between items", UT+": comments_and_spaces"), ("text", RAW+": text")],
 "Enumerates comment bodies and positions to a bound; compares with the same document with another construct in place of the comment, and with the reference parser.")
prop("P06", "Truncated or malformed constructs are errors, never silently dropped",
 "Cutting a document anywhere inside a tag, quoted value, comment, declaration, processing instruction or marked section, once enough of it is there to tell what it is, makes parsing fail: parsing never succeeds by dropping, skipping or reinterpreting the rest. Only input that could be read in full yields events.",
 [IN, CF], "every document cut at every character position",
 "tests cover a few unterminated constructs; there is one truncation for each position of each document",
 [EV, RAW, MOD], [("complete input", MOD+": parse_with_detailed_errors"), ("terminators", UT+": take_until_terminated"), ("cut points", RAW)],
 "Enumerates documents as token sequences, cuts each at every character, and requires an error for cuts inside a construct and the reference parser's events at all others.")
prop("P07", "Marked section keywords select the section's status by priority",
 "The status of a marked section is decided by its keywords in any letter case and order with repetitions, IGNORE over CDATA over RCDATA over INCLUDE, TEMP or no keyword at all counting as INCLUDE, and parameter entities expanded first. An unknown keyword is an error naming it, and each handling mode accepts and expands exactly the sections it documents.",
 [IN, CF], "every list of keywords, spelling, spacing, parameter entity content and handling mode",
 "tests check single keywords and two combinations; priority concerns all combinations, spellings and modes",
 [MS, MOD, EV, RAW], [("priority", MS+": from_keywords, from_str"), ("modes", MOD+": parse_keywords"), ("section start", RAW+": marked_section_start_and_keywords")],
 "Enumerates keyword lists to a length bound, spellings, separators, parameter entities and all handling modes, against a table written from the documentation.")
prop("P08", "CDATA sections are literal; RCDATA sections only replace references",
 "A CDATA section yields exactly its characters up to the first `]]>`, with no reference or markup in it recognized. An RCDATA section yields the same except that references in it are replaced; trimming, where it is on, is all else that affects either.",
 [IN, CF], "every section content up to its first terminator, in every position and setting",
 "tests use a few contents; overlap with terminators, references, nested starts and trimming need all contents",
 [EV, RAW, MOD], [("section end", RAW+": marked_section_body_character_data"), ("section body", EV+": marked_section_body"), ("references", MOD+": parse_rcdata")],
 "Enumerates section contents over an alphabet of brackets, markup, references and white space to a length bound against direct oracles.")
prop("P09", "IGNORE sections vanish whole, nested sections balanced",
 "An IGNORE section produces nothing, whatever it contains: it extends to the `]]>` that balances its start, counting nested section starts and ends at any depth, and nothing in it is otherwise interpreted, so references, quotes, comments and malformed markup in it cannot matter.",
 [IN, CF], "every content and nesting depth of ignored sections, in every position and setting",
 "tests have a few nested sections; balance must hold for every arrangement of brackets at every depth",
 [RAW, EV], [("balanced end", RAW+": marked_section_body_ignore"), ("section body", EV+": marked_section_body")],
 "Enumerates contents over brackets, delimiters and markup to a length bound, with depth probes, against a counting oracle.")
prop("P10", "INCLUDE sections mean exactly what their content means outside",
 "With marked sections expanded, the content of an INCLUDE (or TEMP, or unlabelled) section gives the events that the same content gives without the section around it, including nested sections, comments, instructions, references and partial elements. Content that could not be parsed makes the whole document an error, and the section ends at the first `]]>` that belongs to no construct or section within.",
 [IN, CF], "every content of included sections, nested to any depth, in every position and setting",
 "tests have a few contents; equivalence is between every pair of document with and without the section",
 [EV, RAW], [("section content", EV+": marked_section_body, marked_section_content"), ("text in sections", RAW+": text, plain_text")],
 "Enumerates token sequences as section content to a bound, compared with the unwrapped document (metamorphic) and the reference parser.")
prop("P11", "Sections that are kept are verbatim and can be parsed again",
 "When marked sections are kept unmodified, each is one event with its keywords (parameter entities expanded, surrounding space removed) and its body exactly as written, for every status, ending where it would end if it was expanded. Writing the event out and parsing that again gives the same event.",
 [IN, CF], "every section of every status and content under the mode that keeps sections, with every other setting",
 "tests keep a few sections; verbatim preservation is over all contents and statuses",
 [EV, LIB, RAW], [("kept sections", EV+": marked_section_declaration, marked_section_body"), ("writing", LIB+": Display for SgmlEvent")],
 "Enumerates keywords and contents to a length bound; compares with the source text and parses the written form again.")
prop("P12", "References are replaced exactly where documented, once, in order",
 "Entity and character references are replaced in text, quoted attribute values, RCDATA and included sections, and nowhere else: not in bare attribute values, CDATA, declarations, instructions, comments or names. Replacement text is inserted verbatim, never scanned again for references or markup and never trimmed, and the expansion function is called exactly once per reference, in document order.",
 [IN, CF], "every document with references in every position, and every expansion function including ones that return markup or references",
 "tests have references in a few positions with harmless values; the claim is over all positions and all returned values",
 [EV, ENT, MOD], [("replacement", MOD+": parse_rcdata, parse_markup_declaration_text"), ("attribute values", EV+": attribute"), ("expansion", ENT+": expand_entities_with")],
 "Enumerates token sequences with references, with recording expansion functions whose values hold markup, references and white space, against the reference parser and the recorded call lists.")
prop("P13", "Undefined entities are errors that name the entity and its line",
 "A reference that the expansion function does not define, or a numeric reference to no character, makes parsing fail, wherever references are replaced and whichever entry point is used. The error names the entity, and the line it reports is the line of that reference.",
 [IN, CF], "every document with one or more undefined references at any position",
 "tests check one undefined entity in one place; the claim holds for all positions, constructs and entry points",
 [MOD, EV, ENT, PE], [("error conversion", MOD+": into_nom_failure"), ("expansion", ENT+": expand_entities_with"), ("failures", EV+": into_failure, content")],
 "Enumerates documents with undefined references in every position; checks the error, its name and its line against the reference parser.")
prop("P14", "White space is trimmed from text events only, before references are replaced",
 "With trimming on, leading and trailing SGML white space (space, tab, carriage return, line feed, and nothing else) is removed from each text in content and in CDATA and RCDATA sections, before references in it are replaced, so white space from references stays; blank text in content gives no event. Attribute values and kept sections are never trimmed, inner white space is never touched, and with trimming off text is verbatim.",
 [IN, CF], "every text and white space combination, including Unicode spaces and references to white space, in every position",
 "tests trim a few strings; the claim is over all characters and positions",
 [MOD, EV, TXT], [("trim", MOD+": ParserConfig::trim"), ("text event", EV+": text"), ("white space", TXT+": is_sgml_whitespace")],
 "Enumerates texts over white space, look-alikes and references to a bound, and every Unicode scalar value as a single character, against a direct oracle.")
prop("P15", "Name normalization changes the case of names and nothing else",
 "Lowercase or uppercase normalization converts element names (start and end tags) and attribute names to the full Unicode lowercase or uppercase of each, and leaves values, text, declarations, instructions, section keywords and entity names as written; unchanged keeps names verbatim. Names are recognized by the documented character classes, for every Unicode character.",
 [IN, CF], "every name over every Unicode character, under each normalization, in each position",
 "tests normalize a few names; the claim quantifies over a million characters and all their case mappings",
 [MOD, RAW, EV], [("normalize", MOD+": NameNormalization::normalize"), ("name characters", RAW+": is_name_start_char, is_name_char"), ("uses", EV+": open_start_tag, end_tag, attribute")],
 "Complete over single characters (all 1.1 M scalar values in several positions), and over name token sequences to a bound, against the standard library's case mapping and the reference parser.")
prop("P16", "Ignoring declarations or instructions removes exactly those events",
 "Ignoring markup declarations, or processing instructions, gives the events of the same document with those kept, minus exactly the declarations or the instructions, and the same errors; what they contain is kept verbatim otherwise. The two settings are independent of each other and of every other setting.",
 [IN, CF], "every document, under every combination of settings",
 "tests try single documents with the flags; the claim relates all documents under both values of each flag",
 [EV, MOD, RAW], [("filters", EV+": markup_declaration, processing_instruction"), ("declarations", RAW+": markup_declaration, declaration_subset")],
 "Enumerates documents and declaration contents to a bound, comparing runs that differ in the flag, and with the reference parser.")
prop("P17", "Error descriptions point at the right line and column",
 "A detailed error description gives, for every context, the true line number and column, counted in characters, of the place where that construct begins or failed, quotes an excerpt of that line of at most 80 characters, and puts the caret under exactly that column. It says which character was expected there and what is there instead, or what else is wrong; where a markup declaration or marked section is not accepted, it may just point at that construct. This holds for lines of any length and any characters before, in and after the place.",
 [IN], "every failing document: any lines before the failure, any line length, multi-byte characters",
 "tests check a few ASCII descriptions; offset arithmetic must hold for every position and every mix of characters",
 [PE, MOD], [("location", PE+": LocatedLine::locate, Display"), ("description", PE+": describe_to"), ("contexts", PE+": add_context")],
 "Enumerates line prefixes, lengths around the excerpt limit and characters of all widths around failures; compares the whole description with a renderer written from the property.")
prop("P18", "Parser settings are independent, and the last call for each wins",
 "A parser built by any sequence of builder calls behaves as one where each setting has the value of its last call and every other keeps its default: text is trimmed, names are kept as written, only CDATA and RCDATA sections are accepted, only character references are expanded, and declarations and instructions are preserved. All ways of making the same settings (new, builder, convenience calls, parsing straight from the builder) give the same results.",
 [PR, CF], "every sequence of builder calls followed by any document",
 "tests use single builder chains; independence concerns all call sequences",
 [MOD], [("builder", MOD+": ParserBuilder"), ("defaults", MOD+": Default for ParserConfig")],
 "Enumerates builder call sequences to a length bound; each parser is run on a probe document that tells every setting apart, against the reference parser under the folded settings.")
prop("P19", "Parsing is repeatable and the same through every entry point",
 "The result of parsing depends on the text and settings alone: a parser used for any number of documents, in any order, gives each the result it would give alone. All entry points (simple function, parser, builder, detailed errors with any error type) agree on the events and on success or failure.",
 [HI, IN], "every history of parses on one parser, and every document through each entry point",
 "tests parse one document with each parser; the claim is over histories and over pairs of entry points",
 [MOD, EV], [("entry points", MOD+": parse, Parser::parse, ParserBuilder::parse, parse_with_detailed_errors")],
 "Enumerates documents through all entry points and error types, and histories of documents on one parser to a length bound.")
# ---------------------------------------------------------------- entities and escaping
prop("E01", "Expanding references in text follows the documented rules exactly",
 "Expanding a text replaces each general entity reference and each decimal or hexadecimal character reference, with or without its `;`, by its value and leaves every other character as it is, including `&` that begins no reference; function names like `&#SPACE;` and numbers of no character are looked up by name, with their `#`. Names are looked up once per reference, in order, and the first one undefined makes it fail with that name and its exact position.",
 [IN], "every text and every expansion function",
 "tests expand a handful of strings; boundary rules between names, digits, `;` and text concern all strings",
 [ENT], [("expansion", ENT+": expand_entities_with, expand_characters, expand_entities"), ("references", ENT+": entity_or_char_ref, char_ref, entity_ref")],
 "Enumerates texts over a reference alphabet to a length bound against an independent reference, with result, error position, lookups and borrowing compared.")
prop("E02", "Numeric references denote exactly the Unicode character of that number",
 "A character reference in decimal, or in hexadecimal after `#x` with digits of either letter case, gives the Unicode scalar value of that number, with any leading zeros. Numbers that denote no scalar value (surrogates, too large for the code space or for any integer) are undefined, never wrapped, truncated or replaced.",
 [IN], "every number, in every notation",
 "tests try a few numbers; the claim is over all 1.1 million values and everything beyond",
 [ENT], [("character references", ENT+": char_ref")],
 "Complete enumeration of all code points and beyond the end of the code space in each notation, plus boundary values of every integer width.")
prop("E03", "Parameter entity expansion replaces `%name;` and nothing else",
 "Expanding parameter entities replaces each `%` name reference, with or without its `;`, by its value, once, in order and without rescanning, and leaves everything else alone, including general entity and character references and `%` that begins no reference. An undefined name fails with that name and position.",
 [IN], "every text and every expansion function",
 "tests expand two strings; boundary rules concern all strings",
 [ENT, MOD], [("expansion", ENT+": expand_parameter_entities, expand_entities_with, entity_ref")],
 "Enumerates texts over a reference alphabet to a length bound against an independent reference.")
prop("E04", "Escaped text reads back as the original, whatever it contains",
 "Escaping replaces exactly `<`, `>`, and `&` (unless told to leave that) by their character references and leaves every other character as it is; iterating, at any point, and displaying what remains give the same characters, with size hints that hold. Expanding the references of the escaped text, or parsing it as content, gives back the original.",
 [IN], "every text, every state of the iterator, and both settings",
 "tests escape a few strings; round trip and size hints are over all strings and iterator states",
 [TXT, ENT], [("escape", TXT+": Escape::next, size_hint, fmt"), ("expansion", ENT)],
 "Enumerates texts to a length bound, stepping the iterator through every state, plus every Unicode scalar value, against a direct oracle and the round trip.")
# ---------------------------------------------------------------- writing, transforms
prop("F01", "What is written out parses back to the same events",
 "Writing any fragment obtained from parsing, and parsing that text again with marked sections kept and references expanded, gives back the same events, for text, attribute values and names of every kind (names that normalization leaves with characters no name may have aside). Each event is written as the markup it stands for, with text and attribute values escaped and attribute quotes never broken by the value.",
 [IN], "every document, and every event list a program can build from well-formed events",
 "tests write a few events; round trip is over all events and all neighbours",
 [LIB, FRAG, TXT], [("writing events", LIB+": Display for SgmlEvent"), ("writing fragments", FRAG+": Display for SgmlFragment"), ("escaping", TXT)],
 "Enumerates documents and event lists to a length bound: written form against a renderer written from the property, and the round trip through the parser.")
prop("F02", "Owned copies and container views of a fragment show the same events",
 "Making a fragment owned, taking it as a list or slice, iterating it in each way, counting it, and building it from a list never changes the events or their order, for every kind of event. Owned fragments equal the borrowed ones they were made from.",
 [IN], "every fragment",
 "tests convert few events; the claim is over every event kind and fragment",
 [FRAG, LIB], [("owned", LIB+": SgmlEvent::into_owned"), ("containers", FRAG)],
 "Enumerates event lists over every event kind to a length bound.")
prop("T01", "Normalizing end tags closes every element correctly, or reports why not",
 "Normalizing end tags makes every start tag have its end tag: an omitted one goes before the next tag, after the element's text but before blank text leading to that tag, and an XML-style empty element becomes a start and end tag; nothing else is added, removed, changed or moved. It fails exactly if an end tag is left without a start tag, naming it, or if an empty tag (`<>` or `</>`) is there; and it changes nothing in fragments that have all their end tags, such as its own results.",
 [IN], "every event list, from parsing or built by a program",
 "tests normalize a few documents; balance and preservation are over all arrangements of tags",
 [NET, TR], [("normalization", NET+": normalize_end_tags"), ("edits", TR)],
 "Enumerates documents and arbitrary event lists to a length bound against an independently written forward model; also checks idempotence and balance directly.")
prop("T02", "A set of insertions and removals is applied exactly",
 "Applying a set of insertions and removals gives the original events with each insertion placed before the event at the index it names, in the order they were passed for the same index (and after all events, in the order of the indices, for indices beyond), and each event named by a removal gone, in whatever order the edits were made. Indices always mean the original list, removing twice or out of range does no more, and everything else stays, in order.",
 [PR, IN], "every sequence of edits on every fragment",
 "tests apply a few edits; the claim is over all edit sequences and their interleavings",
 [TR], [("apply", TR+": Transform::apply"), ("edits", TR+": insert_at, remove_at")],
 "Enumerates edit sequences to a length bound over fragments to a size bound against a naive list model.")
prop("T03", "Documents with omitted end tags carry the same data as complete ones",
 "For every document whose end tags can be restored, the data read after normalizing is the data of the same document with the end tags written out. Restored end tags go where the documented rule puts them, so values never move between elements.",
 [IN], "every document with any of its end tags omitted",
 "tests read one document with omitted tags; the claim is over all documents and all omissions",
 [NET, DE], [("normalization", NET), ("reading", DE)],
 "Enumerates documents with every subset of end tags left out, to a bound, comparing the data read with that of the model's completed document.")
# ---------------------------------------------------------------- building blocks
prop("R01", "Each low-level parser takes exactly one construct off the input",
 "Each parser of single constructs (`parser::raw` and `parser::util`: comments, declarations, section parts, instructions, text, tags, attributes, values, names, spaces, anything up to a delimiter) succeeds exactly if the input starts with a complete such construct. It then gives the documented parts of it, verbatim, and the rest of the input right after it; otherwise an error in the input, from which other parsers can still be tried if the construct does not begin there at all.",
 [IN, PR], "every input, for every parser of the kind, including delimiters and closures of a program's own",
 "tests call each with a handful of inputs; the claim is over all inputs and what follows the construct in them",
 [RAW, UT], [("grammar", RAW), ("delimiters and spaces", UT)],
 "Enumerates character and token sequences to a length, each given to all parsers, against a reference scanner; what is left and the parts are compared as slices of the input.")
prop("R02", "Parsers of parts of a document give the events of just that part",
 "The parsers of `parser::events` (tags, attributes, text, declarations, sections and their bodies, instructions, single items, runs of content with or without `]]>` as their end, what precedes content, whole documents) take exactly that part off the input under any settings, however these were made, and give exactly its events. The iterators they give hold these events once each, in order, always tell how many remain, show them, and stay finished.",
 [IN, CF], "every input and configuration, for every parser of the kind, and every way of taking events out",
 "tests only look at whole documents and a few tags; the claim is over all parts, inputs, settings and iterator states",
 [EV], [("parts", EV), ("iterator", EV+": EventIter")],
 "Enumerates token sequences under several or all settings, each given to all parsers, against the reference parser's parts, unrolling every iterator step by step.")
prop("R03", "Settings and keywords mean the same used directly as in parsing",
 "Used on their own, the settings do what they do in parsing: trimming removes SGML white space from both ends if on; reference and parameter entity expansion replace references or point at the undefined one; name normalization gives the full lowercase or uppercase of the name or the name itself; section keywords give the status of highest priority, with statuses ordered by it, or the keyword that is not accepted in the mode.",
 [IN, CF], "every text, name and keyword list, for every setting",
 "tests try a few texts and keywords; the claim is over all of them, including every Unicode character",
 [MOD, MS, TXT], [("settings", MOD+": ParserConfig, NameNormalization, MarkedSectionHandling"), ("keywords", MS)],
 "Enumerates texts, names and keyword lists to a length, and every Unicode scalar value in several positions, against direct rules.")
# ---------------------------------------------------------------- deserialization
prop("D01", "Struct fields come from the attributes and child elements of that name",
 "Reading an element into a struct takes each field from the attribute or child element of its name, in any order, ignores attributes and children without a field at any depth, and gives absent optional fields none and absent required ones an error naming the field. A name given twice is an error, never a silent choice, and nested structs and sequences of structs take only what is inside their own element.",
 [IN], "every arrangement of attributes, child elements, text and unknown content, nested",
 "tests read a few documents; the claim is over all arrangements and depths",
 [DE], [("fields", DE+": MapAccess::next_key_seed, next_value_seed"), ("skipping", DE+": pop_elt")],
 "Enumerates elements with all sequences of attributes and children to a bound, read into several struct types, against an oracle over the document tree.")
prop("D02", "Booleans follow HTML attribute rules and nothing else",
 "A boolean is true for an attribute without value, with an empty value, or with its own name as value (ASCII letters in any case); else it is the text of the attribute or element, true for `1` or `true` and false for `0` or `false` in any letter case, and an error for any other text. The same holds within options, newtypes, lists and maps.",
 [IN], "every text, in every position a boolean can be read from",
 "tests try some spellings; the claim is over all texts and positions",
 [DE], [("booleans", DE+": deserialize_bool")],
 "Enumerates texts over an alphabet of spellings, prefixes and white space in every position against a table from the documentation.")
prop("D03", "Numbers and characters are read exactly or rejected",
 "An integer of up to 64 bits, float or character is read from the text of an attribute or element exactly if Rust's own parsing of that type accepts the text, and then with the same value. Out of range, empty, padded, or malformed text is an error; never a wrapped, truncated or default value.",
 [IN], "every text, for every numeric type, in every position",
 "tests read a few numbers; boundaries concern all types and positions",
 [DE], [("numbers", DE+": forward_parse")],
 "Enumerates texts over a numeric alphabet and the boundary values of each type in every position, against the standard library's parsing.")
prop("D04", "Sequences take exactly their run of elements; tuples exactly their length",
 "A sequence field holds, in order, every one of a single unbroken run of child elements of its name, and nothing else; a second run of the same name is an error. A tuple or array takes exactly as many as its length, a shorter or longer run being an error, and what follows is read as if the sequence were not there.",
 [IN], "every arrangement of repeated, interrupted and nested child elements",
 "tests read a few lists; the claim is over all arrangements",
 [DE], [("sequences", DE+": SeqAccess::next_element_seed, deserialize_seq, deserialize_tuple")],
 "Enumerates child lists to a length bound, read as vectors, tuples, arrays and sets of several item types, against an oracle over the tree.")
prop("D05", "Enums select their variant by name and read only their own data",
 "An enum is read from an attribute or text that names a unit variant, or from an element named as the variant, whose own attributes and content alone give the data of unit, newtype and struct variants (tuple variants take consecutive elements of that name), with enums nested in each other to any depth. A name that is no variant, or text naming a variant that needs data, is an error, and elements that follow are left for whatever they belong to.",
 [IN], "every value of every kind of variant, in every place an enum can be, nested and next to others",
 "tests read a few variants; the claim is over all variant kinds times contexts times neighbours",
 [DE], [("enums", DE+": deserialize_enum, EnumAccess")],
 "Enumerates enum values nested to depth 3 in all written forms, in every context and pair, against the value each was made from.")
prop("D06", "The `$value` field takes the content that no other field claims",
 "A field named `$value` receives the content of its element: all of its text for a text-like target, or its child elements, of any names, as a sequence, tuple, enum or single value, while the other fields come from attributes only. An element without content gives empty text or an empty sequence, whether it is written as a pair of tags or in XML style.",
 [IN], "every arrangement of attributes, text and children, for each type such a field can have",
 "tests have a few such structs; the claim is over all content arrangements",
 [DE], [("content strategy", DE+": ContentStrategy, MapAccess")],
 "Enumerates element contents to a bound, read into structs whose special field has each kind of type, against an oracle over the tree.")
prop("D07", "Reading any events into any type ends in a value or an error",
 "Reading any fragment, well-formed or not, into any type returns a value or an error whose description works: it never panics, recurses without bound or fails to finish. This includes event lists no parser would produce, every depth of unneeded content and every amount of text.",
 [IN, PR], "every event list and every target type",
 "tests read well-formed documents into matching types; the claim is over all lists and types, matching or not",
 [DE, BUF], [("cursor", DE+": advance, peek, normalize_at_cursor"), ("skipping", DE+": pop_elt")],
 "Enumerates documents and arbitrary event lists to a length bound, each read into a menu of about 50 types covering every kind; depth and size probes.")
prop("D08", "Events that data cannot hold are reported, not misread",
 "A declaration, processing instruction, kept marked section or empty tag among the events being read is an error saying that it is not supported, always if it comes first or within text being read. Where it is in content that is skipped it may go unnoticed, but in no case does it alter, drop or move any value.",
 [IN], "every fragment with such events inserted at every position, for every target type",
 "tests insert none; the claim is over all positions and types",
 [DE], [("unsupported events", DE+": normalize_at_cursor, peek_content_type, advance")],
 "Enumerates documents, inserts each such event at every position, reads into the menu of types, and compares with the plain document.")
prop("D09", "Mismatched or unfinished elements are errors for every type",
 "Reading a fragment whose root element is not properly closed, or in which an end tag does not match the element it closes, is an error for every target type, even if the offending part is skipped. No value is ever made from such an element.",
 [IN], "every unbalanced fragment, for every target type",
 "tests check two mismatches; the claim is over all unbalanced arrangements and types",
 [DE], [("closing", DE+": pop_elt"), ("end of input", DE+": advance")],
 "Enumerates event lists that are unbalanced in every way to a bound, read into the menu of types.")
prop("D10", "XML-style empty elements read as elements without content",
 "For every document and target type, reading an element written `<x/>`, with any attributes, gives the same value or failure as `<x></x>`. Everything after it is read the same as well.",
 [IN], "every document with any element written either way, for every target type",
 "tests read one such element; equivalence is over all documents, positions and types",
 [DE], [("closing", DE+": pop_elt, advance_to_content"), ("content", DE+": ContentStrategy::detect")],
 "Enumerates documents in all combinations of the two spellings, read into the menu of types, comparing the results.")
prop("D11", "Text is read whole: all its pieces, in order",
 "Text read into a string, bytes, character, number, boolean or option is the concatenation, in order, of all the text in the element, including that of elements within it, however it is split between plain text, marked sections, comments, references and tags. Attributes and markup add nothing to it, and what follows the element is read from the right place.",
 [IN], "every split of text into pieces, for every target type",
 "tests read a few pieces; the claim is over all splits and types",
 [DE, BUF], [("text", DE+": consume_text"), ("buffer", BUF)],
 "Enumerates piece lists to a length bound for each of 14 target types against the concatenation.")
prop("D12", "Data can be read without knowing its type, and nothing is invented",
 "Reading into self-describing targets (maps, untagged and internally tagged enums, flattened structs, any-value types) shows an element with attributes or children as a map of these under their names, in document order, with its text under `$value` if it has attributes but no children; an element with neither is its text, or nothing if empty. Nothing else appears, and nothing of that is lost.",
 [IN], "every document, for every self-describing target",
 "tests read one map; the claim is over all document shapes and targets",
 [DE], [("any", DE+": deserialize_any, do_map")],
 "Enumerates documents to a bound, read into each self-describing target, against an oracle over the tree.")
prop("D13", "Data does not depend on the way it is reached, and text is borrowed unchanged",
 "For every fragment and target type, all ways of reading give the same value or failure: `from_fragment`, `SgmlFragment::deserialize`, `SgmlDeserializer`, a detached (`into_owned`) copy, and reading through a newtype, `Box` or `Option`. Targets that borrow (`&str`, `Cow<str>`) get the text that owned ones get; a `&str` is always part of the document itself, and can be had from any text written there in one piece without references.",
 [IN], "every document, every target type, and every way to read it",
 "tests use one way each; the claim is over all documents, types and ways",
 [DE, BUF], [("entry points", DE+": from_fragment, SgmlDeserializer"), ("borrowing", BUF)],
 "Enumerates documents to a bound, read into the menu of types in 11 ways, and into borrowing targets compared with owned ones by value and by address.")
prop("D14", "Errors say what was wrong, and keep it when passed on",
 "Reading all text of an element fails with its first fault: an unsupported event, shown as it is written; a mismatched end tag, naming it and the one expected; the end of the content; or no start tag. Numbers that cannot be read keep the standard parser's own error as their source, and booleans and characters the text. Normalization and entity errors name what they concern. As a `sgmlish::Error`, every error keeps its variant, message and source, and a parse error is the detailed description.",
 [IN, PR], "every faulty fragment, and every text that is no value of its type",
 "tests compare a few messages; the claim is over all faults, at all places, and all texts",
 [DE, "src/error.rs"], [("errors", DE+": DeserializationError, pop_elt, normalize_at_cursor"), ("conversions", "src/error.rs: Error")],
 "Enumerates event lists, texts and documents to a bound; the error is compared, by variant, fields, message and source, with the first fault found by a forward scan and with the standard library's own errors.")
prop("D15", "Logging changes nothing that is read",
 "With every log level enabled, and a logger that writes out each message, reading any fragment into any type gives the value or failure it gives without logging: no message panics, loops, or alters what is read. Reading the same fragment once more gives the same again.",
 [IN, CF], "every fragment and target type, with and without a logger",
 "tests run with one setting of the logger and compare few values; the claim is over all fragments and types",
 [DE], [("messages", DE+": trace!, debug!")],
 "Enumerates documents and event lists to a bound, read into the menu of types and by two reads from one deserializer, first without a log and then with one; all results are compared.")

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p, _ in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": "explicit-state model checking: bounded exhaustive enumeration of executions of the real crate against a reference model",
   "level": "model_checking", "level_note": n} for p, n in P],
 "not_applicable": [],
 "notes": "All checks drive the public API of /repo's crate; no hooks were needed in /repo. Bounds, oracles and limits per property are in DESIGN.md; each run writes its spaces, sizes and samples to evidence/<id>.json."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P))
