def c(exe, note="", **k):
    return dict(exe=exe, note=note or "Random search over generated cases against an explicit oracle; trusts the harness and that the MinGW build under Wine behaves as the shipped build.", **k)
CHECKS = {
    "C01": c("core_text.exe", technique="property-based testing: round trip and differential against an independent UTF converter"),
    "C02": c("core_text.exe", technique="model-based testing of operation sequences against std::string, guarded heap"),
    "C03": c("core_text.exe", technique="property-based testing against a reference splitter"),
    "C04": c("core_path.exe", technique="property-based testing: paths generated from their structure against a component-stack model and algebraic laws"),
    "C05": c("core_path.exe", technique="property-based testing against a reference matcher"),
    "C06": c("core_wild.exe", technique="property-based testing: patterns generated from elements against a reference matcher, plus fuzzing of malformed patterns at guard pages"),
    "C07": c("core_path.exe", technique="property-based testing against a folding reference, both argument orders"),
    "C08": c("core_wild.exe", technique="property-based testing over generated directory trees against the raw listing filtered by the generated attributes"),
    "C09": c("core_settings.exe", technique="model-based testing of operation sequences against a model of settings and settings file"),
    "C10": c("core_settings.exe", technique="property-based testing against reference parsers and print/parse round trips"),
    "C11": c("lib_history.exe", technique="model-based testing of operation sequences by several sessions against a model of the history"),
    "C12": c("lib_history.exe", technique="model-based testing with sessions killed between operations and before generated writes"),
    "C13": c("lib_history.exe", technique="property-based testing of generated schedules: sessions as coroutines preempted at generated file operations, invariants over the history"),
    "C14": c("lib_histexp.exe", technique="property-based testing: lines composed of designators of known meaning against a reference expander; fuzzing of any line at guard pages"),
    "C15": c("term_ecma.exe", technique="property-based testing: output composed of known elements, scanned whole and in chunks; metamorphic over chunkings; fuzzing of malformed input"),
    "C16": c("term_ecma.exe", technique="model-based and algebraic property-based testing of attribute states; SGR sequences against a reference interpreter"),
    "C17": c("lib_cells.exe", technique="property-based testing: texts composed of characters of known extent and width, plus widths against an independent Unicode table"),
    "C18": c("lib_cells.exe", technique="property-based testing against a reference truncation over characters of known width"),
    "C22": c("lib_matches.exe", technique="model-based testing: generated candidates, settings and needle sequences against a reference of filtering, ordering and common prefix"),
    "C24": c("lib_bind.exe", technique="model-based testing: generated binding sets and key streams against a longest-match model"),
    "C28": c("lib_colors.exe", technique="property-based testing: rule sets generated from their conditions against a reference evaluation, plus fuzzing of malformed rules"),
    "C27": c("lib_columns.exe", technique="property-based testing: generated matches, screens and options; computed columns against a brute-force layout and the drawn list against reference rows"),
    "C25": c("lib_doskey.exe", technique="structured generation of aliases and command lines against a constructive reference expansion; model-based queue histories; fuzzing"),
    "C20": c("lib_words.exe", technique="structured generation of command lines against constructively expected words; metamorphic cursor relations; fuzzing with invariants and guarded memory"),
    "C19": c("term_keys.exe", technique="property-based testing: console events generated with the bytes they stand for, fed through stand-ins of the console API, against the documented key tables; generated interleavings of arrival and reading"),
    "C23": c("lib_edit.exe", technique="stateful model-based testing: random key histories over the editing commands against a reference text, kill ring, mark, selection and clipboard model; undo checked against the history of texts"),
    "C26": c("lib_display.exe", technique="stateful property-based testing over the real editor, with a virtual terminal as the oracle: incremental redisplay against a plain rendering of the prompt and line"),
    "C34": c("lib_nav.exe", technique="stateful model-based property testing: random histories, edits, moves and searches in the real editor against a model of the list of edited lines"),
    "C21": c("lib_complete.exe", technique="random file sets, lines and completion commands; oracle: the resulting word parses back to one of the matches"),
    "C30": c("lua_api.exe", technique="property-based testing of the script-facing functions: reference models, native differential, round trips, any-typed arguments"),
    "C29": c("lua_args.exe", technique="model-based testing: generated argument matchers and lines, walked through by a model of the documented rules; matches and colors compared"),
    "C33": c("loader_autorun.exe", technique="model-based testing: generated autorun values and operation histories over a stand-in registry; the commands of the value compared with a reference parse"),
    "C32": c("loader_tools.exe", technique="stateful property-based testing: generated sequences of the real history and set commands (with their real argument parsing), each run as a process of its own would be, beside a running session, over generated files; compared with a list of lines and a map of values in what they print, return, write and what a session then loads"),
}
