import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
PK="castep_outputs/"
p("C01","Parsing only reads: no writes, no output, no process-wide changes",
 "Reading data - through any parser, the one-file entry point, the lazy trajectory reader or the generated-file predictor - never creates, changes, renames or deletes a file, starts a process, opens a connection, writes to standard output or error itself (diagnostics go through the logging module), or changes process-wide settings (working directory, environment, locale, recursion limit, warnings, random state, other modules). Only the final dump writes, and only to the requested destination.",
 ["inputs","configurations"],"every input file, every branch of every parser, every option",
 "Tests assert on returned data for a few sample files; an effect in a branch no sample takes, or one nobody looks for (a stray print, a cache file), passes them.",
 [PK+"utilities/utility.py",PK+"parsers/castep_file_parser.py",PK+"cli/castep_outputs_main.py",PK+"utilities/dumpers.py",PK+"tools/md_geom_parser.py"],
 [("file_or_path opens with a read-only mode",PK+"utilities/utility.py:file_or_path"),("log_factory: diagnostics only through logging",PK+"utilities/utility.py:log_factory"),("parse_all is the only writer",PK+"cli/castep_outputs_main.py:parse_all")])
p("C02","Files opened for a caller are closed; a caller's open handle stays open",
 "When a parser is given a path it opens the file itself, read-only and in text or binary mode as the format needs, and the file is closed again by the time the call ends, also when it ends with an error; the result never needs the file to still be open. When a parser is given an already open handle it never closes or detaches that handle, neither during the call nor afterwards.",
 ["inputs","fault_sequences"],"every parser, both ways of passing the input, every exit including exceptions raised at any point of the parse",
 "Tests do not look at handles after a parse, nor at error exits.",
 [PK+"utilities/utility.py",PK+"utilities/filewrapper.py",PK+"tools/md_geom_parser.py",PK+"bin_parsers/fortran_bin_parser.py",PK+"parsers/__init__.py"],
 [("open inside a with statement around the parser call",PK+"utilities/utility.py:file_or_path"),("mode given per parser",PK+"parsers/*:@file_or_path(mode=...)"),("lazy reader owns and closes its own handle",PK+"tools/md_geom_parser.py:MDGeomParser.__del__")])
p("C03","The same input gives the same output in every process",
 "What a parse, a dump or a file prediction returns depends only on the content of the input and the arguments of the call. It does not depend on the iteration order of unordered collections, on hashing, object identity, time, randomness, the environment or directory listing order, nor on anything an earlier call left behind.",
 ["inputs","histories","schedules"],"every input, every hash seed, every sequence of earlier calls in the same process",
 "Tests run each input once per process under one hash seed and compare a handful of results; order and history are never varied.",
 [PK+"utilities/utility.py",PK+"parsers/castep_file_parser.py",PK+"parsers/cell_param_file_parser.py",PK+"tools/get_generated_files.py",PK+"cli/args.py"],
 [("results are built from ordered containers created per call",PK+"parsers/*"),("glob results are sorted",PK+"cli/args.py:parse_args"),("set of candidates reduced with min",PK+"tools/get_generated_files.py")])
p("C04","No parse fails on an internal name left unset",
 "Whatever sections a file contains, whichever are absent, repeated or in whatever order, and whatever subset of information is asked for, no code path reads a local name that the path has not set: a parse returns data or reports what is wrong with the input, it does not die with an unset-variable failure of its own.",
 ["inputs","configurations"],"every control-flow path of every function, thus every order and subset of sections, and every filter",
 "Samples contain the sections in the usual order; the paths on which an initialisation is skipped need an unusual order or an absent section.",
 [PK+"parsers/",PK+"bin_parsers/",PK+"tools/",PK+"utilities/"],
 [("names are initialised ahead of the loop which may set them",PK+"parsers/*")])
p("C05","Truncated or malformed input is reported, not silently accepted",
 "If the input ends inside a section that has a mandatory terminator, or a binary record is cut short or its length marks disagree, the parse raises an error instead of returning what it has; only the section kinds whose end may legitimately be the end of the file are exempt. An error raised while parsing always reaches the caller: nothing catches it and carries on.",
 ["inputs","fault_sequences"],"every prefix of every file, every section kind, every error raised below an entry point",
 "Tests use complete files; cutting each at every point, for each kind of section, is out of their reach.",
 [PK+"utilities/filewrapper.py",PK+"bin_parsers/fortran_bin_parser.py",PK+"parsers/castep_file_parser.py"],
 [("Block.from_re / Block.get_lines raise on unexpected end of file",PK+"utilities/filewrapper.py:Block"),("FortranBinaryReader checks data length and trailing length mark",PK+"bin_parsers/fortran_bin_parser.py:FortranBinaryReader.__next__"),("get_dtype_dict checks it got every record",PK+"bin_parsers/fortran_bin_parser.py:FortranBinaryReader.get_dtype_dict")])
p("C06","Every parse ends: each loop step makes progress through the input",
 "Parsing any finite file takes a finite number of steps: every loop iteration of a parser either moves forward in the input (a line it puts back is one it or the same iteration has read on top of its own) or advances a bounded counter, so no input makes a parser spin for ever.",
 ["inputs"],"every loop of every parser, every path through its body",
 "A hang needs the one line layout on which a loop puts back more than it read; tests only show the sample files end.",
 [PK+"utilities/filewrapper.py",PK+"parsers/castep_file_parser.py",PK+"parsers/md_geom_file_parser.py",PK+"parsers/cell_param_file_parser.py",PK+"bin_parsers/fortran_bin_parser.py"],
 [("rewind only after reading beyond the current line",PK+"parsers/castep_file_parser.py"),("rewind goes back one line",PK+"utilities/filewrapper.py:FileWrapper.rewind, Block.rewind")])
p("C07","Calls neither modify their arguments nor share state with their results",
 "A call to a parser, an entry point or the file predictor leaves the objects its caller passed in (option mappings, sequences of frames, filter sets) as they were. What a call returns is freshly built: changing a returned object afterwards cannot alter package-level tables, default arguments or what a later call returns. Within a result, no two entries are one and the same list or mapping which the parse went on filling after it had put it into the first.",
 ["inputs","histories"],"every call and every later mutation of its result",
 "Tests neither reuse the arguments nor mutate results and parse again.",
 [PK+"tools/get_generated_files.py",PK+"parsers/",PK+"bin_parsers/",PK+"utilities/utility.py"],
 [("copies before completing defaults",PK+"tools/get_generated_files.py:get_generated_files"),("containers created inside the call",PK+"parsers/*")])
p("C08","Every supported format is reachable the same way through every door",
 "Each supported file type resolves to one and the same parser by file extension, by name, by keyword of the multi-file entry point, by its command-line switches and by the function exported at the top level of the package; every file type offered on the command line has a parser and the reverse. Every output format offered on the command line or documented resolves to a dumper, which writes the data it is given to the destination it is given; what is read from the parsed command line is declared there; a file given by a switch is parsed as that type, an include switch looks for its type alone, and with none of them every type is looked for.",
 ["configurations"],"every file type, every way to name it, every output format",
 "Tests go through one door per type (the function itself); agreement of the tables is never enumerated.",
 [PK+"parsers/__init__.py",PK+"bin_parsers/__init__.py",PK+"cli/args.py",PK+"cli/castep_outputs_main.py",PK+"utilities/dumpers.py",PK+"__init__.py"],
 [("PARSERS / BIN_PARSERS / ALL_PARSERS",PK+"cli/castep_outputs_main.py"),("ALL_NAMES drives the switches",PK+"cli/args.py:get_parser"),("SUPPORTED_FORMATS",PK+"utilities/dumpers.py")])
p("C09","A filter selects exactly the sections it names",
 "Each kind of information in the main output file is reported when, and only when, one of the categories it belongs to is asked for; the run-wide numbers (energies and the like) are always reported, and the records of the steps within a run (molecular dynamics, geometry, transition state) are each read with the preset of their kind. The presets nest: none within low within medium within high within full, and full covers every category of result except the extra test data.",
 ["configurations","inputs"],"every result field and every filter value",
 "One sample file is parsed under a few presets; fields it lacks, and single categories, are never combined.",
 [PK+"parsers/castep_file_parser.py"],
 [("Filters enumeration and presets",PK+"parsers/castep_file_parser.py:Filters"),("guard in each branch of the section dispatch",PK+"parsers/castep_file_parser.py:parse_castep_file")])
p("C10","A filter changes what is kept, never how the file is divided",
 "Leaving a section out does not change what the rest of the file is read as: whether or not a category is asked for, a recognised section takes exactly the same lines from the input.",
 ["configurations","inputs"],"every section kind and every filter value",
 "A wrong amount of input skipped for an unwanted section shows only when what follows it matters; tests compare presets on one file.",
 [PK+"parsers/castep_file_parser.py"],
 [("each branch reads its block before it looks at the filter",PK+"parsers/castep_file_parser.py:parse_castep_file")])
p("C11","Pattern results are used only where the pattern provides them",
 "Whenever text matched by a pattern is used, the pattern in force has the named or numbered part being asked for, and a part which the pattern may leave out is not converted, measured or taken apart without allowing for its absence. So a line that a section's pattern accepts never fails on a part that was missing from it.",
 ["inputs"],"every pattern, every line it can match, every use of every part of the match",
 "Lines with the optional part missing are in few samples; most optional parts never vary in them.",
 [PK+"utilities/castep_res.py",PK+"parsers/",PK+"utilities/utility.py"],
 [("group names are shared between pattern and use",PK+"utilities/castep_res.py"),("None is tested before use",PK+"parsers/castep_file_parser.py")])
p("C12","Results are plain data which every dumper can write",
 "Parse results are made of plain data only - text, numbers, logicals, nothing, and mappings, lists and tuples of these - with no open files, iterators, sets, match objects or other library objects left inside. After preparation for an output format, only values and keys which that format can represent remain (for JSON: no complex numbers, only text keys).",
 ["inputs","configurations"],"every field of every parser's result and every output format",
 "Tests dump what the samples contain; a field outside them with an undumpable value passes.",
 [PK+"parsers/",PK+"bin_parsers/",PK+"utilities/utility.py",PK+"cli/castep_outputs_main.py",PK+"utilities/dumpers.py"],
 [("normalise and json_safe",PK+"utilities/utility.py"),("post-processing by format",PK+"cli/castep_outputs_main.py:parse_single")])
p("C13","Field names and value types of results are stable",
 "For every format, each documented piece of information is reported under its established name and nesting, with its established type: numbers as integers or reals (never as the text they were read from), logicals as logicals, vectors as sequences of numbers. No input makes a field change its type from one entry to another.",
 ["inputs"],"every field of every parser, on every path which can set it",
 "Tests compare with recorded results of sample files, so fields and branches without a sample (spin-polarised, optional columns, rarer tasks) can lose their conversion or name unnoticed.",
 [PK+"parsers/",PK+"bin_parsers/",PK+"utilities/type_conv.py",PK+"utilities/constants.py"],
 [("fix_data_types / to_type conversions",PK+"utilities/type_conv.py"),("literal keys",PK+"parsers/*")])
p("C14","Each reported value comes from its own column of the source line",
 "Where a value is taken from a numbered column of a table row or a labelled part of a line, each result field is filled from the column or part that carries that quantity, in every branch that fills it, and vector components keep their order. No two fields are exchanged and no field repeats a neighbour's column.",
 ["inputs"],"every field filled by column or part, in every branch",
 "Exchanged columns go unnoticed wherever the sample has equal or zero values in both, or no sample takes the branch.",
 [PK+"parsers/",PK+"utilities/castep_res.py",PK+"utilities/constants.py"],
 [("column labels of the patterns",PK+"utilities/castep_res.py"),("word and number positions used by the section functions",PK+"parsers/*")])
p("C15","Every number form CASTEP prints is recognised whole and can be converted",
 "Any integer or real as Fortran prints it - signed or not, with or without digits on either side of the point, with or without a one- to three-digit exponent introduced by E or e - is recognised as exactly one number, from its first to its last character. Everything that is recognised as a number can be converted to one.",
 ["inputs"],"all digit strings of every length, in all forms (an infinite language)",
 "Tests try a dozen literals; the language is infinite, and errors hide in rare forms (leading point, three-digit exponent, trailing point).",
 [PK+"utilities/castep_res.py",PK+"utilities/type_conv.py"],
 [("number patterns and their order of alternatives",PK+"utilities/castep_res.py:NUMBER_RE"),("conversion to Fraction/float/int",PK+"utilities/type_conv.py")])
p("C16","No line makes a pattern take exponential time",
 "No line of input, however crafted or unlucky, makes the recognition of a section, a table row, a number or a parameter take time exponential in the length of the line.",
 ["inputs"],"every pattern the package uses, every line",
 "A blow-up needs a long line that almost matches; sample lines all match or fail at once.",
 [PK+"utilities/castep_res.py",PK+"parsers/",PK+"utilities/utility.py"],
 [("unambiguous repetition in patterns",PK+"utilities/castep_res.py")])
p("C17","Every kind of section can be recognised: none is hidden behind another",
 "For every kind of section or line a parser handles there is input on which it is chosen: no earlier alternative of the same dispatch accepts everything the later one accepts, and no pattern is impossible to match.",
 ["inputs","programs"],"every alternative of every dispatch on the text of a line",
 "A section no sample contains can be made unreachable by a more general test placed ahead of it, without any test noticing.",
 [PK+"parsers/castep_file_parser.py",PK+"parsers/",PK+"utilities/castep_res.py"],
 [("order of the alternatives, special before general",PK+"parsers/castep_file_parser.py:parse_castep_file")])
p("C18","Binary files are decoded as the file format lays them down",
 "Records of the binary files are read big-endian, with 4-byte length marks before and after each record, 4-byte integers and logicals, 8-byte reals and 16-byte complex numbers, whatever the machine; each header and data record is decoded with the type and in the order the format defines. Skipping or stepping back over records moves by whole records.",
 ["inputs","configurations"],"every record of every file, every host byte order",
 "Sample files exercise one size of each record and no stepping back over several; native-order mistakes agree with the tests on one kind of host only by luck of the data.",
 [PK+"bin_parsers/fortran_bin_parser.py",PK+"bin_parsers/cst_esp_file_parser.py",PK+"bin_parsers/epme_bin_parser.py",PK+"utilities/type_conv.py"],
 [("struct formats with explicit byte order",PK+"utilities/type_conv.py:_BYTE_PARSERS"),("record framing",PK+"bin_parsers/fortran_bin_parser.py:FortranBinaryReader"),("typed record tables",PK+"bin_parsers/epme_bin_parser.py")])
p("C19","A value of zero is a value, not an absence",
 "A quantity which the file gives as zero is reported as zero: whether a number is present is never decided by whether it is different from zero, and likewise a step, index or count of zero is not taken for a missing one.",
 ["inputs"],"every number read from a file and every decision about its presence",
 "Sample quantities are mostly non-zero.",
 [PK+"parsers/",PK+"tools/",PK+"utilities/"],
 [("presence is tested with None or membership",PK+"parsers/castep_file_parser.py")])
p("C20","Lazy trajectory access and whole-file parsing agree",
 "Reading a frame of a trajectory lazily by index, by slice or in sequence gives the same data as the corresponding entry of the eagerly parsed file.",
 ["inputs","histories"],"every trajectory, every order of accesses",
 "Tests access one file in a few orders.",
 [PK+"tools/md_geom_parser.py",PK+"parsers/md_geom_file_parser.py"],
 [("one frame parser shared by both",PK+"parsers/md_geom_file_parser.py:parse_md_geom_frame")])
p("C21","Values equal the numbers printed in the file",
 "Every number reported equals the number printed in the file, to full double precision.",
 ["inputs"],"every number in every file",
 "Only sampled numbers are compared.",
 [PK+"utilities/type_conv.py",PK+"parsers/castep_file_parser.py"],
 [("conversion functions",PK+"utilities/type_conv.py")])
p("C22","Predicted output files are those CASTEP writes",
 "The files predicted from an input pair are those which the program would write for it, with each option adding its files under the documented condition.",
 ["inputs","configurations"],"every combination of cell and param options",
 "Tests cover a few dozen option sets.",
 [PK+"tools/get_generated_files.py"],
 [("option-to-file rules",PK+"tools/get_generated_files.py:_get_generated_files")])
p("C23","Dumped results read back equal",
 "Reading a dumped file back with the format's own reader gives data equal to the normalised result.",
 ["inputs","configurations"],"every result and format",
 "Only sample results are dumped.",
 [PK+"utilities/dumpers.py",PK+"utilities/utility.py"],
 [("dumpers",PK+"utilities/dumpers.py")])
p("C24","The invariants and fractions derived from what is read follow their definition",
 "For each Raman mode the invariants reported beside the tensor are those of that tensor, whatever its entries and whether or not it is symmetric: the trace is the sum of its three diagonal entries and the second invariant is the sum of its three principal two-by-two minors. A charge spilling, printed in per cent, is reported as a fraction of one; where populations are given by spin, the total is that of up plus that of down.",
 ["inputs"],"every tensor, every spilling, every population",
 "Sample tensors are symmetric, with zeros, and mistakes in one entry cancel or vanish; compared numbers are those of one file.",
 [PK+"parsers/castep_file_parser.py"],
 [("trace and ii of the Raman tensor",PK+"parsers/castep_file_parser.py:_process_raman"),("total of both spins",PK+"parsers/castep_file_parser.py:_process_mulliken"),("scale of the spilling",PK+"parsers/castep_file_parser.py:_process_ps_energy")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
