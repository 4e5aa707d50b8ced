"""Texts for MANIFEST.json."""
AI = ("Assumes the models of builtins and standard library calls; anything not modelled is 'unknown' and passes silently, "
      "so this finds violations it can see rather than proving absence of all. ")
TECH = {
    "C01": "effect analysis: abstract interpretation of every entry point plus an import-resolved scan of every function",
    "C02": "typestate and ownership of file handles: abstract interpretation with a caller-owned handle, plus escape rules on opens",
    "C03": "taint analysis of unordered iteration and ambient values over the abstract interpreter",
    "C04": "definite assignment by abstract interpretation (unset is a value)",
    "C05": "exception-flow and end-of-input obligations on the reader classes and every section reader",
    "C06": "progress analysis of loops over the input: net consumption per loop path",
    "C07": "effect and alias analysis: writes to caller's or load-time objects, escape of load-time objects into results",
    "C08": "evaluation of registries and dispatch by abstract interpretation, all file types and doors enumerated",
    "C09": "abstract interpretation of the main parser under each filter, against a table of keys and categories",
    "C10": "control-dependence of stream operations on filter tests",
    "C11": "dataflow of match objects against the groups of their patterns (optional groups carry absence)",
    "C12": "abstract interpretation of result shapes; type lattice against plain data; format preparation on abstract structures",
    "C13": "abstract interpretation of result schemas (fields and types), compared with a committed schema",
    "C14": "provenance dataflow (column, group, word of the source line) compared with a committed table",
    "C15": "regular-language inclusion of number forms in the number patterns, by automata from the parsed patterns",
    "C16": "exponential-ambiguity analysis of the automata of every pattern",
    "C17": "regular-language inclusion between alternatives of the same dispatch; emptiness",
    "C18": "abstract interpretation of the binary parsers: byte order, types, record sequence and displacement",
    "C19": "truth-test dataflow: numbers from the file reaching a truth test",
    "C24": "symbolic normal form: the stored expressions expanded to polynomials in the entries read and compared with the definition",
}
LEVEL = {
    "C01": AI + "The scan does not see effects hidden behind getattr or exec with computed names.",
    "C02": AI + "Ownership of opened files is decided from the construct around each open call; where a class closes one of its "
           "files, which one is not told apart.",
    "C03": AI + "The use of an order is followed through names and calls of the program, five hops deep; order kept inside a "
           "container and read back elsewhere is not followed.",
    "C04": AI + "Reads guarded by the condition (or a flag) that sets the name are not decided.",
    "C05": AI + "Decides that errors reach the caller, that a section without its end is refused where the committed table "
           "(ref/ends.json) says its end is mandatory, and that binary length marks are compared; content of a complete "
           "section is not judged.",
    "C06": AI + "Recursion is followed one call deep; movement through streams under other names is not followed; loops over "
           "finite collections are taken to end.",
    "C07": AI + "Caller's objects are two-level mappings, lists of frames and lists of paths.",
    "C08": "All registered file types and output formats are enumerated; which parser is right is taken from the committed "
           "table of exported names.",
    "C09": AI + "Fields of the run record (not of the records of steps within it, which are parsed by a preset of their own); "
           "single categories and presets in the quick check, all pairs in the thorough one. Reference: ref/filters.json.",
    "C10": AI + "Operations on the main file are compared by place, operation and known arguments, under all, no and each "
           "single category.",
    "C11": AI + "Patterns not known as text are not checked.",
    "C12": AI + "Format preparation is evaluated on 66 structures with leaves known by type.",
    "C13": AI + "Reference: ref/schema.json, generated from the repaired tree and reviewed; fields under unknown names pass.",
    "C14": AI + "Decides fields whose source is a literal column, group or word; arithmetic loses the source.",
    "C15": AI + "Matching of a whole line around a number is not decided (only the parts and the number patterns themselves); "
           "the forms a part must take come from ref/numbers.json, generated from the repaired tree and reviewed.",
    "C16": AI + "Exponential ambiguity only; polynomial blow-up and patterns with back references or unknown text are not "
           "decided.",
    "C17": AI + "Dispatches on patterns and literal text whose text is known; conditions on parser state are taken as free.",
    "C18": AI + "Records are told apart by the sequence of decodings before them (eight back, or to the head of the section); "
           "the sequence is compared with ref/records.json; movement of the reader is decided for every record size and "
           "every n.",
    "C19": AI + "Comparisons with literal zero are not decided.",
    "C24": "Exact for expressions of sums, products, constant ranges and helpers of the program; quantities put together in "
           "several stores, and values scaled elsewhere than where they are stored, are not decided and pass.",
}
NA = {
    "C20": "equality of two runs' results for every trajectory is a relation between run-time values (frame offsets are "
           "computed from file sizes); no static argument in reach bounds it",
    "C21": "equality of a converted value with its printed text is decided by run-time numbers; statically only its column "
           "(C14), type (C13) and the number language (C15) can be decided",
    "C22": "the oracle is the behaviour of CASTEP itself, which is not in the repository; nothing in the source states it",
    "C23": "equality after a round trip through external dump libraries depends on those libraries' run-time behaviour; the "
           "static part (only representable data reaches them) is C12",
}
