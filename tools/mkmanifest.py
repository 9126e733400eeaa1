"""Rewrite MANIFEST.json from the table below (run after adding a check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'Lexer.tla explored exhaustively for short inputs; recorded token streams of all short strings over an adversarial alphabet under 9 catcode tables plus seeded random longer inputs/tables/catcode changes are accepted or rejected by TLC.',
 'C02': 'MiniTeX.tla (token-list expansion machine) agrees with direct argument substitution for every combination of parameter text, arguments, body and way of calling (MC_Macro); those programs and seeded random macro programs run on plasTeX and TLC judges the text, context depth and counters.',
 'C03': 'MiniTeX.tla agrees with a big-step meaning on every conditional tree up to depth 2 (3 in thorough) over eight kinds of condition (MC_Cond); those programs and seeded random ones run on plasTeX and TLC judges the outcome.',
 'C04': 'The frame stack of MiniTeX.tla refines a stack of complete snapshots for every sequence of openings, closings, definitions, aliases and category code changes up to length 5 (7 in thorough); sequences up to length 3 (4) and seeded random programs run on plasTeX and TLC judges text, category codes and context depth.',
 'C15': 'Filenames.tla explored exhaustively over a small template language and every binding sequence (uniqueness, numbering, reset, error only when nothing fresh); model-enumerated and seeded random templates with request/bind sequences run on Filenames and TLC accepts or rejects every recorded answer.',
 'C16': 'Config.tla (option table, files, command line, assignment, interpolation) agrees with the direct definition of precedence for every option in every layering of three files and a command line; those layerings and seeded random ones run through plasTeX.client.main and TLC judges every value read back.',
 'C06': 'Dom.tla (list-of-lists tree with attribute-held fragments) keeps a tree with consistent derived views under every operation (exhaustive over small pools); every path of operations up to length 5 over those pools is walked with the DOM classes and compared with the states TLC reports, and seeded random histories to length 40 are recorded and judged by TLC.',
 'C19': 'IfThen.tla: a stack machine over test tokens equals the denoted boolean for every expression up to 9 (12) tokens; every expression shape up to 8 (10) tokens with atoms of every kind, and random programs with nested \\\\ifthenelse/\\\\whiledo, run on plasTeX and TLC judges the words.',
 'C20': 'Persist.tla (what a label file may give back after saves, faults, foreign content) is refined by the cells-plus-digest protocol for every history of saves and single faults; every history of length 3 (4), every bit flip and truncation of saved files, foreign files, and random multi-document projects rendered with HTML5 and XHTML are recorded from plasTeX and judged by TLC.',
 'C18': 'Index.tla: sort by a total order and merge of common prefixes gives the declared index (every path once, its pages in document order, siblings in collation order) for every document of up to 3 (4) entries over 23 spelled entries, and the column split is an ordered partition; those documents and random ones with entries in every kind of place are processed, DOM index and HTML5 page are judged by TLC.',
 'C08': 'Numbering.tla (counters with transitive resets, formats of \\\\the..., sections, equations, rows, captions, theorems, lists, appendix) equals the value given by the counter\'s history for every event sequence up to length 4 (5) in article and book, items count 1, 2, 3, ... in every list nesting; those sequences, random documents and all representations 1..4999 / 1..26 are run on plasTeX and TLC judges every number, printed counter and final counter value.',
 'C09': 'The table of pending references patched at each label equals resolution over the whole document for every sequence of labels, references and objects up to length 6 (7); those sequences and random documents (labels on every kind of object, groups, dangling references, citations), each also with all references moved to the front or end, run on plasTeX (part rendered to HTML5/XHTML) and TLC judges target identity, identifier and printed number.',
 'C05': 'Args.tla (how a signature consumes its invocation; TeX\'s integer, dimension and glue scanners in exact scaled arithmetic) is checked for every invocation of 6 signatures up to 5 (6) tokens and every literal up to 3 (4) symbols: frame, round trip, signs, notations, units; those cases and random signatures of up to 6 arguments of all types with arbitrary following tokens are read by the real parser and judged by TLC.',
 'C10': 'Tables.tla (a stack machine that reads a document token by token and builds the tree of lists, items, tables, rows, cells, spans, rules and formats) is checked on every token sequence up to 8 (9) and every table up to 7 (9) tokens against an independent reading by depth counting; those documents and random ones (lists nested to depth 4, tables of 1-5 columns with all column specifications, spans, rules, nested tables, math) are parsed by plasTeX and TLC compares the trees, spans, borders and formats.',
 'C07': 'Digest.tla (a machine reading document tokens: units by level, environments, commands, groups, lists, tables, math, paragraphs, character substitution) is checked on every token sequence up to 6 (7) tokens against a reading by counting, and the substitution of quotes and dashes against pattern-by-pattern replacement on every string up to length 6 (7); those documents and random ones are parsed by plasTeX and TLC compares every word and its chain of containers, uniqueness of nodes, parent links, nesting of units and paragraphs.',
 'C11': 'Verbatim.tla (a scanner character by character: content up to the first complete end marker, reading afresh behind it) is checked on every body of up to 5 (6) pieces after every opening; MathSrc.tla (lexing, macro expansion, node-by-node writing) agrees with whole-formula expansion on every formula up to 5 (6) tokens; all bodies up to 3 (4) characters, every delimiter, the model formulas and random documents and formulas (depth 4, macros, arrays, text boxes, every place) are read by plasTeX, part rendered, and TLC judges contents, following text, node source, MathJax source and page token by token.',
 'C12': 'Escaping.tla (how text is put into elements and attributes, a reader of HTML after the tokenizer of the standard, what LaTeX text displays): for every text up to length 4 (5) over an adversarial alphabet the reader finds exactly that text and no other token, also with high characters as references; random documents with an adversarial text in every text position (31 kinds of position) are rendered by HTML5 (default, minimal) and XHTML (4 themes), high-character escaping on/off, three output encodings, and once with harmless words: TLC reads both pages, checks every text against what it displays and compares all tokens.',
 'C13': 'Split.tla (walk over a document with the stack of open units, names from Filenames.tla) puts every piece of text in exactly the file of the nearest unit at or above the split level, in order, notes apart, under distinct clean names, for every document of up to 5 (6) events, every split level and four templates; those documents and random ones under random split levels, templates, character settings, renderers and themes are rendered and TLC compares file names, the order in which they are given, and the marked words of every file.',
 'C14': 'Links.tla (over Split.tla and Numbering.tla: the file and the element every reference, citation, note mark, index entry, contents and navigation entry has to lead to) is checked on every document of up to 4 (6) pieces, split level, contents depth and filter: targets exist, addresses of different objects differ, contents and chain of next links reach every file; documents of the model and random ones with every kind of link are rendered under random split levels, file names, base URLs, contents settings, renderers and themes, and TLC judges every link, identifier, printed number, note and reachability.',
 'C17': 'Histories.tla (what a document shows is decided by its own actions: registers, definitions, packages, classes, counters, labels, category codes, things left open; machine of shared and own classes) is checked for every history of up to 2 (3) documents of 2 actions: every document shows what it shows alone and the process is left as it was; histories of 1 to 6 documents (pairs of the model, random programs, structured and deliberately messy documents, three renderings) run in one process and each alone in its own, and TLC judges what they show, their trees and files, and every class attribute, module variable and place of work of the process.',
}
TECH = 'TLA+ specification checked with TLC; recorded executions validated against it by TLC'
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in NOTE:
        m['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'model_checking',
                            'level_note': NOTE[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check under construction'})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
