#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Plural expressions are evaluated with C semantics",
 "For every plural expression built from n, decimal constants, parentheses and the gettext operators (?: || && == != < > <= >= + - * / % !), and every n >= 0, plural evaluation returns the value the same C expression has, with C precedence, associativity and truth values (zero is false, every non-zero value is true). The other operators the grammar accepts (unary + and -, ~, <<, >>, &, ^, |) yield C's value too, and ++ and -- yield their operand plus or minus one. Evaluating the same expression twice, or after other expressions, gives the same answer.",
 ["inputs","programs"],"every n in 0..2^63-1 and every expression of the grammar (checked: operator/operand shapes up to three operators, all n and all constants symbolic)",
 "exp_test.go evaluates a dozen published rules for n<215 and each operator at one point (n in {0,1,100}); truth values other than 0/1, operator pairs and large n are never reached",
 ["plurals/exp.go","plurals/plural.g4","plurals/parser/plural_parser.go","plurals/stack.go"],
 [("listener that evaluates the parse tree on an operand stack","plurals/exp.go"),("grammar alternatives order = precedence","plurals/plural.g4")],
 observe=["plurals.Eval"])
p("C02","Published plural rules give their published form for every n",
 "For each plural rule published in the GNU gettext manual (one form; n!=1; n>1; Latvian, Irish, Romanian, Lithuanian, Russian, Czech, Polish, Slovenian, Arabic), in any spacing of its tokens, plural evaluation returns exactly the form index the rule defines, for every 64-bit n. In particular the answer does not depend on whether the rule is recognised as a well-known one or evaluated as a general expression.",
 ["inputs"],"every n in 0..2^63-1 (for the shortcut-vs-general agreement: every int64), each published rule, several spacings/parenthesisations",
 "the tests sample n<215 and one spacing per rule; they cannot show agreement of the shortcut table and the general evaluator over 2^63 values",
 ["plurals/common.go","plurals/exp.go"],
 [("table of precompiled common expressions keyed by space-stripped text","plurals/common.go"),("fallback to the parser","plurals/exp.go")],
 observe=["plurals.Eval"])
p("C03","Bad plural expressions are reported, never crash",
 "Plural evaluation never panics and always terminates, whatever text it is given and whatever n. Text that is not a well-formed plural expression, constants that do not fit 64 bits, division or remainder by zero and negative shift counts produce an error; a well-formed expression without such a fault never does.",
 ["inputs"],"every byte string up to the stated length as expression, every int64 n",
 "only the empty expression and `nn` are tried by the tests",
 ["plurals/exp.go","plurals/err.go"],
 [("recover around evaluation","plurals/exp.go"),("error listener collecting lexer/parser errors","plurals/err.go")],
 observe=["plurals.Eval"])
p("C04","Plural lookup picks the translated form or falls back, never crashes",
 "For a plural message, any count n and any catalogue, the lookup returns the translation whose index the catalogue's Plural-Forms rule gives for n when that index is below nplurals and that form is present and non-empty; otherwise it returns the source singular when n is 1 (or when no source plural is given) and the source plural for any other n. A message translated without plural forms returns its single translation. No combination of nplurals, number of translated forms, rule result and n makes it panic.",
 ["inputs"],"every int64 n; nplurals 0..9 and malformed headers; 0..4 translated forms, each empty or not; rules with every possible result value",
 "file_test.go has seven fixed header/entry combinations with n in {1,2}; a catalogue with fewer translated forms than nplurals is never looked up",
 ["translator/file.go","translator/plural.go","f/format.go"],
 [("index range check before using the form","translator/file.go"),("Plural-Forms header parser","translator/plural.go"),("English default rule","f/format.go")],
 observe=["translator.File.XN64","Translations.N/XN"])
p("C05","Lookups return exactly the entry for (context, msgid), else the source text",
 "Looking up a message with context c (which contains no EOT byte) and id m returns the non-empty translation stored for exactly that pair, and the source text m (formatted with the arguments) when there is no such entry or its translation is empty. Entries with another context or another id never influence the result, and an empty context is distinct from every non-empty one.",
 ["inputs"],"all byte-string contexts/ids/translations up to the stated lengths (no EOT byte), catalogues of up to three entries, in memory, from PO text and from MO bytes",
 "tests use single-entry catalogues with an empty context; no test confronts entries that share an id or a context",
 ["translator/file.go","translator/util.go","translator/entry.go"],
 [("composite key context+EOT+id","translator/util.go"),("lookup with fallback","translator/file.go")],
 observe=["translator.File.X","translator.File.XN64"])
p("C06","Domain and locale routing: only the selected catalogue answers",
 "A lookup through a translation set answers from the catalogue of its current domain and current locale only; when that domain is not loaded, or has no catalogue for that locale, the result is the source text (or the default singular/plural choice) formatted with the arguments. The reported used locale is the current locale when such a catalogue exists and the source-code locale otherwise, and the list of supported locales is the sorted, duplicate-free set of the source-code locale and the domain's catalogue locales.",
 ["inputs","configurations"],"all assignments of up to two domains x three locales being loaded or not, all current domain/locale selections, symbolic message ids and translations",
 "tests load one directory with one language and check a few selections",
 ["translations.go","translaton.go","translator.go"],
 [("GetOrNoop for unknown domain / language","translations.go"),("no-op translator","translator.go")],
 observe=["Translations.T/N/X/XN","Translations.UsedLocale","Translations.Locales"])
p("C07","All lookup entry points agree",
 "Every short-hand lookup is equivalent to the general one: no-context forms equal the context forms with an empty context, int forms equal the 64-bit forms, single-form (N1) calls equal plural calls with an empty source plural, and the package-level functions equal the same call on the global translation set. The marking helpers return their arguments unchanged, in order.",
 ["inputs"],"all message ids/contexts up to the stated length, all int64 counts, hit and miss cases",
 "the examples call each function once with fixed arguments; a swapped argument or truncated count on one entry point can go unnoticed",
 ["gettext.go","translations.go","mark.go"],
 [("delegation to X / XN64","translations.go"),("package-level delegation","gettext.go")],
 observe=["package t lookup functions","t.Mark"])
p("C08","Formatting equals Sprintf with surplus arguments ignored",
 "Formatting with no arguments returns the text unchanged even if it contains verbs or '%'. With arguments that satisfy the text's verbs, the result is what fmt.Sprintf gives for the arguments the text uses: surplus arguments add nothing and explicit argument indexes are honoured. Formatting never modifies memory the caller owns, including spare capacity of an argument slice.",
 ["inputs"],"all format strings up to the stated length over all bytes; up to three string/int arguments; argument slices with spare capacity",
 "format_test.go has ten literal formats; no text with a literal '%' in an unusual place or shared argument slice",
 ["f/format.go"],
 [("sentinel empty argument consumed by an explicit index","f/format.go")],
 observe=["f.Format","any lookup with args"])
p("C09","Derived translation sets are isolated from their origin",
 "Selecting a domain or a locale for one use (D, L, taking the global set, or deriving from a context) returns a new handle that differs from its origin only in that selection, and leaves the origin unchanged. Whatever is done afterwards to either handle - switching domain or locale, binding, removing or clearing domains - does not change what the other one returns.",
 ["histories","inputs"],"every sequence of up to three mutating operations applied to either handle after derivation, symbolic choice of operations and names",
 "tests never mutate a derived handle and re-query the origin (or the reverse)",
 ["translations.go","init.go","context.go"],
 [("clone copies the domain map","translations.go"),("context values under private keys","context.go")],
 observe=["Translations.D/L","t.Global","t.WithContext"])
p("C10","The domain registry follows its operation history",
 "After any sequence of bind, remove, clear and set-current-domain operations, the set of loaded domains, the answer to 'is it loaded', and the current domain are what the sequence dictates: a bind that loads something adds or replaces exactly its domain, a remove deletes exactly its domain and reports whether it was there (the empty name is never removed), and removing the current domain or clearing resets the current domain to the default. Locale and source-code locale are never affected.",
 ["histories"],"all operation sequences up to length 4 over three domain names (incl. the default and the empty one), binds that succeed or fail",
 "two fixed sequences are tested",
 ["translations.go","init.go"],
 [("RemoveDomain/ClearDomains/BindFS","translations.go")],
 state=[("domains","loaded catalogues by domain","translations.go"),("domain","current domain","translations.go")],
 observe=["Translations.Domains/HasDomain/Domain"])
p("C11","Every well-formed MO file is read completely and exactly",
 "For every well-formed MO image, little- or big-endian, with its tables and strings anywhere in the file and in any order, reading yields exactly its messages: context and id split at the first EOT, singular and plural id split at NUL, translations split at NUL for plural messages, and no other entries. Every later lookup returns those strings.",
 ["inputs"],"images of up to two messages plus header with symbolic string bytes and lengths up to the stated bounds, both byte orders, symbolic table/string placement",
 "one msgfmt-produced little-endian file is read by the tests; big-endian and unusual layouts never",
 ["translator/mo.go"],
 [("MO reader","translator/mo.go")],
 observe=["translator.ReadMo"])
p("C12","Reading arbitrary MO bytes never crashes or over-allocates",
 "Reading any byte string as an MO file terminates with either a catalogue or an error: it never panics, never loops forever and never allocates a block out of proportion to the input because of a length or count it claims. Images whose magic number, revision, tables or strings are invalid or lie outside the file are refused with an error.",
 ["inputs"],"every byte string up to the stated length (header fields, table entries and lengths fully symbolic 32-bit values)",
 "no malformed MO file is tested at all",
 ["translator/mo.go"],
 [("error returns on short reads and bad magic/version","translator/mo.go")],
 observe=["translator.ReadMo"])
p("C13","Saving as MO and reading back preserves the catalogue",
 "For every catalogue (plural messages having a plural id), saving it in MO format and reading the result back yields the same messages: same contexts, ids, plural ids and translations (every plural form), the same header fields, language and plural rule. Only comments are lost.",
 ["inputs"],"catalogues of up to three messages (header, singular, plural, with/without context) with symbolic bytes and lengths up to the stated bounds; strings without NUL/EOT as the format requires",
 "one catalogue is round-tripped by the tests",
 ["translator/mo.go"],
 [("offset computation and writer","translator/mo.go")],
 observe=["translator.File.SaveAsMo","translator.ReadMo"])
p("C14","Saved MO files obey the MO file format",
 "Every MO file this library writes is valid for any GNU gettext reader: magic number, revision 0, count, table offsets inside the file, every string inside the file and NUL-terminated, strings not overlapping the tables, and the ids in ascending byte order with the translations in the same order.",
 ["inputs"],"catalogues of up to three messages with symbolic contexts, ids, translations and source references",
 "the tests only read the file back with this library, which does not rely on order or terminators",
 ["translator/mo.go","translator/file.go"],
 [("SaveAsMo layout","translator/mo.go"),("entry order","translator/file.go")],
 observe=["bytes written by translator.File.SaveAsMo"])
p("C15","Saving as PO and reading back preserves the catalogue",
 "For every catalogue of translated messages (plural messages having a plural id, comments being single lines that start with '#'), saving it as PO text and reading it back yields the same messages with byte-identical contexts, ids, plural ids, translations and plural forms, the same comments, and the same header fields, whatever bytes the strings contain (quotes, backslashes, newlines, control characters, non-UTF-8 bytes) and however long they are.",
 ["inputs"],"catalogues of up to three messages with symbolic bytes; strings around the line-wrapping threshold with symbolic blanks and newlines",
 "po_test.go compares a few literal outputs; wrapping and escaping are tested on ASCII digits only",
 ["translator/po.go","translator/pot.go","translator/wrap.go","translator/util.go"],
 [("quoting with %q and Unquote","translator/pot.go"),("line splitting","translator/wrap.go")],
 observe=["translator.File.SaveAsPo","translator.ReadPo"])
p("C16","Reading arbitrary PO/POT text never crashes",
 "Reading any byte string as a PO or POT file terminates with either a catalogue or an error and never panics. Looking up anything in a catalogue so obtained, and saving it in any format, does not panic either.",
 ["inputs"],"every byte string up to the stated length, and every sequence of up to five PO line kinds with symbolic content",
 "a handful of malformed texts are tested for ReadPo, none for ReadPot",
 ["translator/po.go","translator/reader.go","translator/util.go"],
 [("line state machine","translator/po.go"),("line reader","translator/reader.go")],
 observe=["translator.ReadPo","translator.ReadPot"])
p("C17","PO text is read according to the PO format",
 "Reading PO text (valid UTF-8) yields exactly the entries written in it: continuation lines are concatenated to the field they follow, escapes are decoded, comments attach to the following entry, entries need no blank line between them, blank lines and CR characters at line ends are irrelevant, entries without translation are skipped, and a later entry with the same context and id replaces an earlier one. A line that is none of these is an error, not silently dropped.",
 ["inputs","programs"],"all sequences of entries/line kinds up to the stated length with symbolic string content and symbolic layout (blank lines, CRLF, splits)",
 "the tests parse fixed texts with conventional layout",
 ["translator/po.go"],
 [("readEntry state machine with one-line push-back","translator/po.go")],
 observe=["translator.ReadPo"])
p("C18","Template (POT) output keeps every message and blanks translations",
 "Saving as a template writes every message once with its comments, context, id and plural id, an empty translation (two empty forms for plural messages), and the header's value intact; reading that template back yields exactly the same messages and header. A template can be read back even when it ends in comments.",
 ["inputs"],"catalogues of up to three messages with symbolic strings",
 "five literal outputs are compared; no template is read back and compared",
 ["translator/pot.go","translator/po.go"],
 [("SaveAsPot","translator/pot.go"),("ReadPot","translator/po.go")],
 observe=["translator.File.SaveAsPot","translator.ReadPot"])
p("C19","Catalogue output is deterministic, header first",
 "The bytes written for a catalogue (PO, POT or MO) depend only on its entries: not on the order in which they were added nor on map iteration order. The header entry always comes first, and in PO/POT the remaining entries are ordered by source reference (file name, then line numbers compared numerically) and then by context and id.",
 ["inputs","schedules"],"catalogues of up to three entries, all insertion orders and all map iteration orders, symbolic contexts/ids/references",
 "a test run sees one iteration order; ties in the order show up only sometimes",
 ["translator/file.go","translator/entry.go"],
 [("SortedEntry with sort key","translator/file.go"),("sort key from source references","translator/entry.go")],
 observe=["SaveAsPo/SaveAsPot/SaveAsMo output","translator.File.SortedEntry"])
p("C20","Header fields reflect the current header entry",
 "Looking up a header field returns the trimmed value of the first 'Name: value' line of the catalogue's header entry with that name, and nothing for absent names; the catalogue's language and plural rule are those fields. This holds whatever the order in which entries are added, queried and replaced: after a new header entry is added, its values are in force.",
 ["inputs","histories"],"symbolic header lines; every order of adding/replacing header and other entries and of querying in between (up to four steps)",
 "tests query a header once, after it was set once",
 ["translator/file.go","translator/entry.go","translator/plural.go"],
 [("header parsing, cached lazily","translator/file.go")],
 state=[("headers","cached header fields","translator/file.go"),("plural","cached plural rule","translator/file.go")],
 observe=["translator.File.GetHeader/Lang/XN64"])
p("C21","Loading a file system registers every readable catalogue, PO over MO",
 "Binding a domain to a file tree loads every .po and .mo file in it, at any depth, under the normalised language its header names; for the same language a PO file wins over an MO file. Files that cannot be opened, read or parsed are skipped without affecting the others; when nothing could be loaded, whatever was bound before stays in force.",
 ["inputs","fault_sequences"],"trees of up to three files in up to two directories, every assignment of kind/language/fault (open error, stat error, read error, malformed content) to each file",
 "tests load one healthy directory and one missing path",
 ["translaton.go","translations.go","fs.go"],
 [("two walks, MO first then PO","translaton.go"),("replace domain only if something loaded","translations.go")],
 observe=["Translations.BindFS","Translation.LoadFS"])
p("C22","Locale names are normalised consistently",
 "Normalising a locale name yields language_REGION, is idempotent (for names that do name a language, i.e. not private-use x-... names), and does not depend on '-' versus '_', on letter case or on an encoding suffix. A catalogue added under any spelling of a language is found when the locale is set with any equivalent spelling, and setting an empty locale selects the system default.",
 ["inputs"],"all 2-letter languages with optional 2-letter regions in symbolic case and separator, plus short arbitrary byte strings",
 "detect_test.go lists a dozen names; idempotence and case/separator independence are not tested",
 ["locale/detect.go","translaton.go","translations.go"],
 [("Normalize/NormalizeTag","locale/detect.go"),("normalisation on AddOrReplace and SetLocale","translaton.go")],
 observe=["locale.Normalize","Translations.SetLocale/Locale"])
p("C23","Language negotiation answers from the supported set of the right instance",
 "Language negotiation always returns one of the supported locales it was asked to choose from: the best-match locale of a translation set is chosen from that set's own supported locales for that set's own locale, and an HTTP request without the language cookie gets a member of the global set's supported locales, the exact one when the request's only accepted language is exactly supported. A request carrying the cookie gets the cookie's value. Cached tag parsing returns what direct parsing returns, whatever was parsed before.",
 ["inputs","configurations"],"several supported sets and requested languages (symbolic selection), arbitrary short Accept-Language/cookie bytes",
 "one request and the global set only are tested",
 ["http.go","matcher.go","tag.go","translations.go"],
 [("matcher over supported tags","matcher.go"),("cookie, then Accept-Language","http.go"),("tag cache","tag.go")],
 observe=["t.GetUserLang","Translations.MostMatchLocale","t.Match","t.Tag"])
p("C24","Concurrent lookups are independent of each other",
 "Any number of goroutines may look messages up in the same loaded catalogues at once (with D, L and context derivation, hits and misses, singular and plural): each gets the answer it would get alone, without data races. In particular a lookup, derivation or query writes no memory reachable by others outside a lock.",
 ["schedules","inputs"],"every interleaving of read-only operations (by showing that none of them writes shared memory outside synchronisation, for all inputs within the stated bounds)",
 "tests are single-goroutine; a race needs a schedule",
 ["translator/file.go","translations.go","plurals/exp.go","tag.go"],
 [("catalogues are fully initialised at load","translator/file.go"),("derivation by copy","translations.go"),("sync.Map tag cache","tag.go")],
 observe=["all lookup functions"])
p("C25","Keyword specifications are parsed exactly",
 "Parsing the extractor's keyword specification accepts exactly lists of 'name', 'name:id', 'name:id,plural', 'name:CTXc,id' and 'name:CTXc,id,plural' separated by ';' with optional blanks around names and positions, positions being decimal integers (optional sign, 64 bits), and returns them in order with exactly those positions (a name alone has its id at 1). Anything else is rejected with an error and no input makes it panic.",
 ["inputs"],"all byte strings up to the stated length; all well-formed specs of up to two keywords with symbolic digits and blanks",
 "param_test.go lists 23 strings",
 ["cmd/xtemplate/internal/keyword.go"],
 [("ParseKeywords","cmd/xtemplate/internal/keyword.go")],
 observe=["internal.ParseKeywords"])
p("C26","Template extraction finds every keyword call and nothing else",
 "Running the extractor on templates yields an entry for every call of a keyword (as function, method, field or variable, also through 'call') whose arguments at the positions the keyword declares are string literals, wherever it occurs - nested in control structures, defined templates, pipelines, parentheses or arguments of other calls, or receiving a literal through a pipe - taking context, id and plural id from those positions, contiguous or not. Text, comments, non-keyword calls, keywords that are only mentioned as an argument of another function, and calls whose arguments are not literals yield no entry.",
 ["inputs","programs"],"templates generated from a grammar of nesting positions x call forms x keyword shapes (symbolic choice), symbolic literal contents",
 "two template files are tested for presence of a few ids",
 ["cmd/xtemplate/internal/run.go"],
 [("AST walk","cmd/xtemplate/internal/run.go"),("argument selection","cmd/xtemplate/internal/run.go")],
 observe=["POT output of internal.Run"])
p("C27","Extractor output is a complete, reproducible template",
 "The file the extractor writes is a valid template holding one header and one entry per distinct (context, id), carrying all its source references file:line, a format flag when it contains a verb, and the keyword's plural; using an id both with and without plural keeps the first use (files and, within a file, templates in name order) and warns. The empty id stays reserved for the header. The same input gives the same output apart from the creation date, and any file that cannot be read or parsed makes the run fail.",
 ["inputs","schedules","fault_sequences"],"one or two template files with up to three calls with symbolic relations between ids/contexts, all map iteration orders, unreadable/malformed file faults",
 "the tests only check that a run succeeds",
 ["cmd/xtemplate/internal/param.go","cmd/xtemplate/internal/run.go","translator/pot.go"],
 [("Add merges entries","cmd/xtemplate/internal/param.go"),("pot/header/Write","cmd/xtemplate/internal/param.go")],
 observe=["file written by internal.Run","error of internal.Run"])
p("C28","Errors keep their causes",
 "An error returned by the wrapping helpers matches (errors.Is) every error it was built from, and its text contains the formatted message and the causes' texts. Reading failures of MO and PO data can be told from end-of-data by the same mechanism, and wrapping never modifies the caller's arguments.",
 ["inputs"],"all message texts up to the stated length, up to three format arguments, wrapping depth up to three",
 "no test inspects an error's chain",
 ["errors/errors.go"],
 [("fmt.Errorf with %w","errors/errors.go")],
 observe=["errors.Wrapf/WithSecondaryError/Is"])
p("C29","A domain keeps exactly the last catalogue of every language",
 "A translation domain holds, for every normalised language, exactly the translator added or loaded last under any spelling of that language. Adding returns the translator that was there before for that language, or nothing; a translator without language is not added. Loading PO or MO data, a file (read by what its name ends in) or a tree registers it in the same way and reports success; malformed data, data without language and files that fail are reported as an error and change nothing. A language or domain that is missing answers with the source text. What is added to a domain of a translation set answers from then on in that set and in every set derived from it, and in no other domain.",
 ["inputs","histories","fault_sequences"],"histories of up to five additions and loads over several spellings of languages, user-defined translators, every file fault, arbitrary file names of up to three bytes before the extension",
 "the tests add one translator and load good files only; nothing checks what a failed or repeated load leaves behind",
 ["translaton.go","translator.go","translations.go"],
 [("map from normalised language to translator","translaton.go"),("loading by file name","translaton.go"),("no-op translator","translator.go")],
 state=[("langs","catalogues by normalised language","translaton.go")],
 observe=["Translation.AddOrReplace/Get/GetOrNoop/LoadPo/LoadMo/LoadFile/LoadFS","Translations.Get/GetOrNoop"])
p("C30","Saving reports write failures and never changes the catalogue",
 "Saving a catalogue (PO, POT or MO) to a writer either returns no error and has given the writer the complete output, or returns the writer's error - whichever byte of the output the writer failed at, and also when it fails only once or after having taken everything. Until the failure the writer has received a prefix of the complete output. A save, failed or not, leaves the catalogue as it was: saving again gives the same complete output, whatever the writer did with the bytes it was given.",
 ["inputs","fault_sequences"],"a write failure after every number of bytes of the output, transient and permanent, for catalogues below and above the sizes of common buffers",
 "the tests save to memory buffers, which never fail",
 ["translator/po.go","translator/pot.go","translator/mo.go"],
 [("output is buffered, then written","translator/po.go"),("same for templates","translator/pot.go"),("same for MO","translator/mo.go")],
 observe=["error of SaveAsPo/SaveAsPot/SaveAsMo","bytes given to the writer"])
p("C31","Converting a catalogue between formats changes no answer",
 "For every catalogue of translated messages, every lookup (with context or without, singular and plural, for every count), the language and the header fields are the same in the catalogue itself and in what any sequence of saving as PO or MO and reading back makes of it; so is the output when it is saved again (in PO and templates, when there are no comments, which MO files cannot hold). It makes no difference whether a domain got the catalogue from PO data, from MO data, from a file tree or as it is.",
 ["inputs","histories"],"up to three conversions in any order, catalogues of every message shape with symbolic strings, arbitrary header texts, every int64 count",
 "the tests read and write each format separately on a few fixed files and never compare answers across formats",
 ["translator/po.go","translator/mo.go","translator/file.go","translaton.go"],
 [("PO writer and reader","translator/po.go"),("MO writer and reader","translator/mo.go"),("lookups","translator/file.go")],
 observe=["translator.File.X/XN64/Lang/GetHeader","bytes of SaveAsPo/SaveAsPot/SaveAsMo"])
p("C32","The extractor accepts exactly the templates Go accepts",
 "The extractor processes a file exactly when Go's template language accepts its text with the given delimiters, whatever functions and methods the text calls (also functions the extractor has never heard of, in any script, and those the language defines itself); anything else makes the run fail with an error and writes no template. One bad file among several makes the run fail wherever it is.",
 ["inputs","programs"],"every text of up to three characters of the template language in an action, an arbitrary byte in ten kinds of places, every sequence of up to three actions of a table, function names in several scripts, twelve pairs of delimiters",
 "two template files are parsed by the tests, both valid; whether other functions, delimiters and control structures are accepted is not tested",
 ["cmd/xtemplate/internal/run.go"],
 [("identifiers of the text are registered as functions","cmd/xtemplate/internal/run.go"),("html/template parses the text","cmd/xtemplate/internal/run.go")],
 observe=["error of internal.Run","file written by internal.Run"])
p("C33","Whatever its arguments, the extractor writes a template or reports an error",
 "Whatever file pattern, delimiters, keywords, additional function names and output file a run of the extractor is given, it ends with a complete template or with an error, never with a panic. Keyword lists that are malformed, and keywords or functions with a name that templates cannot call, are reported as errors before the output file is touched; usable ones are accepted, whatever their script and also when the template language has a meaning for the name. A malformed pattern and an output that cannot be opened are errors; a well-formed pattern reads exactly the files it matches. With debugging output turned on, the verdict and the template are the same.",
 ["inputs"],"function lists and patterns of up to three characters over the characters that matter, function names with an arbitrary byte, keywords with names of up to three characters, delimiters of up to two characters on either side",
 "the tests run the extractor with one good set of arguments; a bad function name was not tried",
 ["cmd/xtemplate/internal/param.go","cmd/xtemplate/internal/keyword.go","cmd/xtemplate/internal/run.go","cmd/xtemplate/internal/helper.go"],
 [("arguments become a run's context","cmd/xtemplate/internal/param.go"),("output is opened","cmd/xtemplate/internal/keyword.go"),("files are found and parsed","cmd/xtemplate/internal/run.go")],
 observe=["error of internal.Run","file written by internal.Run"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
