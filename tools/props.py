# The table behind properties.jsonl.  See gen.py.
NOT_APPLICABLE = {}
def P(id, title, statement, over, quant, why, files, mech, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=list(observe))

PROPS = [
P("C01", "UTF-8 and UTF-16 conversion is lossless and never overruns its output",
  "Converting any valid Unicode text between UTF-8 and UTF-16 and back gives the original text, and code-point iteration yields exactly its code points with consistent positions. "
  "Ill-formed UTF-16 (unpaired surrogates) decodes to U+FFFD and never to anything that is not well-formed UTF-8. "
  "Converting into a fixed-size buffer never writes outside it and always NUL-terminates, and gives the full conversion whenever it fits.",
  ["inputs"], "every valid UTF-8 / any UTF-16 text, every output buffer size, every iterator length limit",
  "The unit tests convert a handful of literals; surrogate, boundary and truncation combinations are not enumerated.",
  ["clink/core/src/str_convert.cpp", "clink/core/src/str_iter.cpp", "clink/core/include/core/str_iter.h"],
  [("str_iter::next decoding", "clink/core/src/str_iter.cpp"), ("builder with end limit", "clink/core/src/str_convert.cpp")],
  ["to_utf8", "to_utf16", "str_iter", "wstr_iter"]),
P("C02", "String buffers behave like a bounded string under any operation sequence",
  "After any sequence of copy, append, formatted append, truncate, trim, move and conversion operations on a growable or fixed-size string buffer, its content, length and emptiness equal those of an ideal string; an append that does not fit a fixed buffer keeps the longest prefix that fits and reports truncation. "
  "No operation writes outside the buffer, and the content is always NUL-terminated.",
  ["histories", "inputs"], "all operation sequences over growable, fixed-size and moveable narrow and wide strings",
  "Unit tests exercise each operation once from a fresh string; cached-length and ownership bugs need sequences.",
  ["clink/core/include/core/str.h", "clink/core/src/str.cpp"],
  [("m_length cache / reserve / ownership", "clink/core/include/core/str.h")], ["str<>", "wstr<>", "str_moveable"]),
P("C03", "Tokenising splits at delimiters outside quotes and loses nothing",
  "Splitting a string with a set of delimiters and quote pairs yields exactly the maximal runs of non-delimiter characters, where delimiters inside a quoted region do not split, in order and with correct positions; each token is reported together with the delimiter that preceded it, and the end is reported once the input is exhausted.",
  ["inputs"], "every input string, delimiter set and up to four quote pairs, narrow and wide",
  "Unit tests cover about a dozen literals.",
  ["clink/core/src/str_tokeniser.cpp", "clink/core/include/core/str_tokeniser.h"],
  [("str_tokeniser_impl::next", "clink/core/src/str_tokeniser.cpp")], ["str_tokeniser", "wstr_tokeniser"]),
P("C04", "Path normalising, splitting and joining obey path algebra",
  "For any Windows path built of a prefix (none, drive, root, drive and root, UNC share, and their \\\\?\\ forms; either slash) and components, normalising is idempotent, resolves every '.' and '..' against the components before it without escaping the root, keeps every other component and the prefix, and leaves single, uniform separators. "
  "A path splits into a directory and a name that recombine to it, base name and extension split the name at its last dot, the drive, root and UNC prefix are recognised exactly. "
  "Joining gives the right-hand path alone when it has a root, drive or UNC prefix and otherwise adds a separator exactly when one is needed (none after a bare drive); going to the parent repeatedly returns the components last to first and terminates at the root, which is kept.",
  ["inputs"], "every path built from drives, UNC prefixes, device prefixes, separators runs, dots and names",
  "Unit tests list a few dozen literal paths; combinations of prefix kinds, separator runs and dot components are open-ended.",
  ["clink/core/src/path.cpp"], [("normalise/get_*/append/to_parent", "clink/core/src/path.cpp")], ["path::*"]),
P("C05", "Match-completion wildcards match exactly what the pattern denotes",
  "Matching a pattern with '*' and '?' against a completion accepts exactly the texts the pattern denotes: '?' matches one character that is not a separator, or nothing at the end of the text; '*' matches any run that does not cross a path separator (or anything, when asked to match everything, everywhere or at the end); "
  "other characters match under the active case and accent folding rules; slash, backslash and runs of them are equal; leading periods of the name may be skipped when requested. Holds for patterns with up to ten stars (a '?' directly after '*' adds nothing).",
  ["inputs"], "all pattern/text pairs in exact, caseless and relaxed modes, with or without fuzzy accents",
  "Unit tests sample several dozen pairs.",
  ["clink/core/include/core/match_wild.h", "clink/core/src/path.cpp"], [("path::match_wild backtracking", "clink/core/include/core/match_wild.h")], ["path::match_wild"]),
P("C06", "Gitignore-style pattern matching follows the documented glob semantics",
  "Matching a text against a gitignore-style glob gives the documented result for '*', '?', '**' as a whole path component, bracket expressions (ranges, negation, named classes), backslash escapes, slash folding, leading periods and case folding under every flag combination, including that '*' and '?' do not cross path separators in path mode. "
  "Matching terminates for every pattern including malformed ones (unterminated brackets, trailing backslash) and reads nothing outside the pattern and the text.",
  ["inputs"], "all pattern/text/flag combinations",
  "The imported tests are a fixed table.",
  ["wildmatch/wildmatch/wildmatch.c"], [("dowild recursion", "wildmatch/wildmatch/wildmatch.c")], ["wildmatch"]),
P("C07", "String comparison under case, slash and accent folding is consistent",
  "Under each comparison mode, comparing two strings reports equality exactly when they are equal after folding (case in caseless mode, also '-' and '_' in relaxed mode, slashes unless exact, accents when fuzzy), and otherwise reports the length of the longest common folded prefix; the result does not depend on the argument order when the strings have equal shapes.",
  ["inputs"], "all pairs of strings in every comparison mode",
  "Unit tests sample pairs of literals.",
  ["clink/core/src/str_compare.cpp", "clink/core/include/core/str_compare.h"], [("str_compare_impl", "clink/core/include/core/str_compare.h")], ["str_compare"]),
P("C08", "Directory globbing returns exactly the matching entries",
  "Globbing a wildcard pattern in a directory returns every existing entry that matches the pattern and the requested kinds (files, directories, hidden, system) exactly once, and nothing else; names keep their exact spelling and the directory part of the pattern, directories are marked with a trailing separator when requested, reported attributes are those of the entry, and '.' and '..' appear only when asked for.",
  ["inputs", "configurations"], "all generated directory trees, patterns and filter flags",
  "Unit tests use one fixture tree.",
  ["clink/core/src/globber.cpp", "clink/core/src/os.cpp"], [("globber::next filtering", "clink/core/src/globber.cpp")], ["globber"]),
P("C09", "Settings survive save and load without loss",
  "Saving settings and loading the file again restores the value of every setting; settings that were never set, or were cleared, are not written; settings unknown to this session and their comments are preserved across load and save; a settings file may be repeatedly loaded and saved without changing. "
  "Custom default values (from a defaults file) apply exactly to settings not set by the user; overlays and one-off changes made to a settings file (set, clear, overlay) change only what they name. Values are single-line texts without leading spaces.",
  ["histories", "inputs"], "all value assignments to settings of every type and all settings files, including unknown, malformed and commented lines",
  "Unit tests set one or two settings of each type.",
  ["clink/core/src/settings.cpp"], [("settings::load/save", "clink/core/src/settings.cpp")], ["settings::load", "settings::save"]),
P("C10", "Setting values parse and print consistently",
  "A setting accepts exactly the values documented for its type (booleans by their documented words, integers as decimal numbers, enumerations by caseless name or index, colors by description or SGR, any text for strings), rejects others leaving the old value in place, and the printed form of any accepted value parses back to the same value; color descriptions map to the SGR sequence they describe.",
  ["inputs"], "all value strings for every setting type, all color descriptions",
  "Unit tests parse a short list of literals.",
  ["clink/core/src/settings.cpp"], [("setting_*::parse, parse_color, format_color", "clink/core/src/settings.cpp")], ["setting::set/get"]),
P("C11", "History equals the model of its sessions under every configuration",
  "For any interleaving of add, remove, clear, reload, compact and session end by several sessions over one history file, each session sees exactly the lines the documented rules give: lines of other live sessions only when history is shared, duplicates added, ignored or erased as configured, pruned to the configured maximum; removing by line number or text removes exactly that line. After all sessions end cleanly, the history file contains every line that was not removed by a user action or by those rules, each in order of entry within its session, with its timestamp when timestamps are kept. (Lines are single lines not starting with '|'; a session keeps its shared and save settings while it runs.)",
  ["histories", "configurations"], "all operation sequences by 1-3 sessions, all history settings",
  "Unit tests walk a few fixed scripts per setting.",
  ["clink/lib/src/history_db.cpp", "clink/lib/include/lib/history_db.h"], [("history_db::add/remove/compact/reap", "clink/lib/src/history_db.cpp")], ["history_db", "history file content"]),
P("C12", "A killed session loses no accepted history and corrupts none",
  "If a session that saves history is terminated without cleanup, at any point between its operations or before any write while it adds a line, every line it had already accepted is present exactly once in the history after the next session starts, the history of other live sessions is intact, and no torn or merged line appears. (Kills inside compaction, which rewrites the file, are outside the guarantee.)",
  ["crash_points", "histories"], "every abrupt end between operations of a session, with any number of other live sessions, and crash images of the files at intermediate points",
  "The unit tests always end sessions cleanly.",
  ["clink/lib/src/history_db.cpp"], [("alive file + reap in initialise()", "clink/lib/src/history_db.cpp")], ["history files"]),
P("C13", "Concurrent sessions never lose, duplicate or tear shared history lines",
  "When several sessions start, add, read, remove, compact and end in the same history directory at the same time, preempted at any file operation, the resulting history contains every added and not removed line intact exactly as many times as the duplicate handling allows, with each session's lines in order, and every read during the run sees only whole lines that were added.",
  ["schedules", "histories"], "all schedules of concurrent adders, readers and compacters in separate processes",
  "The unit tests are single-process and single-threaded.",
  ["clink/lib/src/history_db.cpp"], [("bank_lock file locking, atomic append", "clink/lib/src/history_db.cpp")], ["history file content"]),
P("C14", "History expansion substitutes exactly what the designators denote",
  "Expanding '!' event designators (!!, !n, !-n, !string, !?string?, !#), word designators (shorthands included) and modifiers (h t r e p q x s & with g a G), and the '^old^new^' substitution, yields exactly the text they denote in the current history; expansion is suppressed exactly where the configured quoting mode says so, lines without designators are unchanged, a designator that denotes nothing is an error, and expanding changes neither the history nor the position in it. No input makes expansion hang, crash, or read outside its input. (The pieces reported for display are those that were replaced.)",
  ["inputs", "configurations"], "all histories, input lines and expansion modes",
  "Unit tests sample a few lines.",
  ["clink/lib/src/history_db.cpp", "readline/readline/histexpand.c"], [("history_db::expand", "clink/lib/src/history_db.cpp")], ["history_db::expand"]),
P("C15", "Escape-sequence scanning is lossless and independent of chunking",
  "Scanning any terminal output text partitions it completely and in order: plain text, control codes and escape sequences of every kind (CSI, OSC, DCS and other strings, two-byte, 7 and 8 bit) are recognised with their exact extent, code and parameters; splitting the same output between any characters into successive chunks gives the same sequences, and malformed input neither stops nor corrupts the scan. "
  "Removing, bracketing or measuring escape sequences of a prompt affects exactly the sequences, and the emulating terminal performs the operations the sequences denote however they are split. (8-bit introducers count at the start of a run of text, not directly after other text.)",
  ["inputs"], "every text with escape codes and every way of splitting it into chunks",
  "Unit tests scan a few literals and split a few of them.",
  ["clink/terminal/src/ecma48_iter.cpp"], [("ecma48_iter state machine", "clink/terminal/src/ecma48_iter.cpp")], ["ecma48_iter", "ecma48_code"]),
P("C16", "Text attribute composition is exact",
  "Interpreting any SGR sequence (of up to 32 parameters) yields the colors and styles its parameters denote in order, ignoring unknown ones; merging attributes equals applying them one after another and is associative, and the difference between two fully specified attribute states when applied to the first produces the second.",
  ["inputs"], "all attribute states and SGR parameter sequences",
  "Unit tests sample few combinations.",
  ["clink/terminal/src/attributes.cpp", "clink/terminal/src/ecma48_terminal_out.cpp"], [("attributes::merge/diff", "clink/terminal/src/attributes.cpp")], ["attributes"]),
P("C17", "Display width is additive over whole characters",
  "The computed display width of text equals the sum of the widths of its characters, escape codes contribute nothing, iteration returns the same characters and widths from any boundary, after stepping back, and under any length limit. "
  "Each step advances over exactly one character: with color emoji enabled, variation selectors, skin tones, flag pairs and joined emoji stay together as one character of two cells; otherwise each code point (also a combining mark, as on a Windows console) stands alone with the width its Unicode category and East Asian Width give.",
  ["inputs"], "all texts of mixed scripts, combining sequences, emoji sequences and escape codes",
  "Unit tests sample specific emoji.",
  ["clink/terminal/src/wcwidth.cpp", "clink/terminal/src/wcwidth_iter.cpp"], [("wcwidth_iter::next", "clink/terminal/src/wcwidth_iter.cpp")], ["cell_count", "wcwidth_iter"]),
P("C18", "Ellipsified text never exceeds its width and keeps what fits",
  "Truncating text to a width with an ellipsis gives text whose display width is at most the limit and is returned; text that already fits is unchanged, otherwise the result is the longest prefix (or suffix, or a drive followed by the longest suffix in path mode, falling back to a prefix when there is no room) that fits together with the ellipsis, of which as much as fits is kept. Escape codes in and before the kept text are kept.",
  ["inputs"], "all texts with wide characters and escape codes, all limits, modes and ellipsis strings",
  "Unit tests check few literals.",
  ["clink/lib/src/ellipsify.cpp"], [("ellipsify_ex", "clink/lib/src/ellipsify.cpp")], ["ellipsify"]),
P("C19", "Key input produces the documented key sequence, once and in order",
  "Every key press event (US layout, repeat count 1) with any modifier combination, under any key input settings, produces the documented key sequence for it, character input (AltGr, Alt codes, surrogate pairs) produces its UTF-8 text; sequences come out complete, once and in the order of the events however arrival, peeking, terminal requests and reading are interleaved, and a terminal request returns the whole response and nothing else; the text that the key listing and clink echo print for a sequence parses back to the same keys, and special keys have their documented name.",
  ["inputs", "histories"], "all key events (virtual key, modifiers, character incl. surrogate pairs) and their sequences",
  "Unit tests feed text directly; console events are not generated.",
  ["clink/terminal/src/win_terminal_in.cpp", "clink/terminal/src/terminal_helpers.cpp"], [("win_terminal_in::process_input", "clink/terminal/src/win_terminal_in.cpp")], ["win_terminal_in", "key names"]),
P("C20", "Command line parsing recovers commands and words exactly",
  "Splitting an input line into commands and words follows cmd.exe's rules for separators, parens, redirection (of a handle, to a file or to another handle), quotes, carets, rem, word break characters and doskey aliases: every command holds exactly its words, in order, with their position, length, quotes, redirection argument, alias and built-in command marks; words lie within the line and never overlap, and the text outside of words is only separators, redirections or quotes; collecting up to the cursor gives the words of the text before the cursor, ending with the word the cursor is in, whatever follows the cursor.",
  ["inputs"], "all input lines and cursor positions",
  "Unit tests sample a few dozen lines.",
  ["clink/lib/src/word_collector.cpp", "clink/lib/src/cmd_tokenisers.cpp"], [("word_collector::collect_words", "clink/lib/src/word_collector.cpp"), ("cmd_word_tokeniser::next", "clink/lib/src/cmd_tokenisers.cpp"), ("cmd_command_tokeniser::next", "clink/lib/src/cmd_tokenisers.cpp")], ["word_collector", "command_line_states"]),
P("C21", "Completing a match inserts text that parses back to that match",
  "Completing a word to a file match inserts the match with whatever quoting it needs, so that re-parsing the resulting line yields a word equal to that match; the rest of the line before and after the completed word is unchanged.",
  ["inputs"], "all file names, line contexts, quote states and completion commands",
  "Unit tests complete a few names from one fixture.",
  ["clink/lib/src/line_editor_impl.cpp", "clink/lib/src/rl/rl_module.cpp", "readline/readline/complete.c"], [("insert_match / quoting", "readline/readline/complete.c")], ["line_editor"]),
P("C22", "The match list holds every eligible match once, correctly ordered",
  "Building matches from any set of candidates (with their types, slashes translated as configured, and untyped ones identified as files or directories) and then selecting with any sequence of needles yields each time exactly the distinct candidates that match the needle under the current comparison mode, wildcard, substring, hidden and system file settings, each with its own description and display text; sorting orders them as documented (directories first, mixed or last; leading minus signs; numbers by value, ignoring case first) or leaves the original order when sorting is off, and the reported common prefix is the longest prefix common to all of them.",
  ["inputs", "configurations"], "all candidate sets, types, needles and modes",
  "Unit tests use small fixed lists.",
  ["clink/lib/src/match_pipeline.cpp", "clink/lib/src/matches_impl.cpp"], [("match_pipeline::generate/restrict/select/sort", "clink/lib/src/match_pipeline.cpp")], ["matches"]),
P("C23", "Line editing follows the text model and undo restores it",
  "For any sequence of typing, movement, deletion, kill, yank, case, transpose, selection, overwrite, mark, character search, clipboard and previous-command commands, with or without a numeric argument, the edit buffer, cursor, selection, kill ring and clipboard equal those of a reference model over whole characters; consecutive kills join; the cursor is always on a character boundary within the text, no character is ever split, and undo returns to the text before the edit (undoing everything gives back the line it began with). "
  "Pasting text with line breaks puts the breaks in the line as the paste setting says; when they are pasted as-is the first line is accepted and every other line is queued, whole and in order.",
  ["histories"], "all key sequences over 64 editing commands and multi-byte text, with and without numeric arguments",
  "Unit tests type short fixed strings.",
  ["clink/lib/src/rl/rl_commands.cpp", "clink/lib/src/rl/rl_buffer.cpp", "clink/lib/src/rl/rl_module.cpp", "readline/readline/text.c", "readline/readline/kill.c", "readline/readline/undo.c"], [("rl_buffer, undo groups", "clink/lib/src/rl/rl_buffer.cpp"), ("cua selection, win_f1..f4, clink_paste", "clink/lib/src/rl/rl_commands.cpp")], ["line buffer", "clipboard", "line_queue"]),
P("C24", "Key bindings resolve to the longest bound chord without losing input",
  "With any set of key chords bound in any groups, feeding any key stream invokes exactly the handlers of the chords found by longest match, those bound to the same chord in order until one accepts it, then shorter chords and the catch-all binding of the group; an accepted chord consumes exactly its keys and later keys follow. No handler sees keys that were not typed or is invoked twice for the same keys; numbers in parameterised chords arrive with the binding they belong to; keys that no binding of the active group denotes go to its catch-all binding if it has one. (Chords of up to 15 keys; parameters below 65536.)",
  ["inputs", "histories"], "all binding sets and key streams",
  "Unit tests bind a handful of chords.",
  ["clink/lib/src/binder.cpp", "clink/lib/src/bind_resolver.cpp"], [("binder trie, bind_resolver::step/claim", "clink/lib/src/bind_resolver.cpp")], ["binder", "bind_resolver"]),
P("C25", "Doskey aliases expand as doskey documents",
  "A command line whose first word is a defined alias expands to the alias text with $1-$9 and $* replaced by the corresponding arguments (nothing when there is none), $G $L $B $T to redirection, pipe and command separation, and $$ to a dollar; with enhanced doskey the command after each | or & outside of quotes expands too, quoted words are one argument, and parens around a command stay around its expansion; a leading space suppresses expansion, every other part of the line is copied unchanged, a line with no alias is left alone, the cursor stays inside of the line (and with the text it is in, when that is copied), and executing the expansion yields every resulting command once, in order.",
  ["inputs"], "all alias definitions, command lines, cursor positions and queue histories",
  "The doskey unit tests need console aliases, which are unavailable on the test platform.",
  ["clink/lib/src/doskey.cpp", "clink/lib/src/line_queue.cpp"], [("doskey::resolve", "clink/lib/src/doskey.cpp"), ("line_queue::dequeue_line", "clink/lib/src/line_queue.cpp")], ["doskey", "doskey_alias", "line_queue"]),
P("C26", "Incremental redisplay shows the same screen as a full redraw",
  "After any sequence of edits, cursor moves, selections, history recalls, searches and prompt messages, in a terminal of any size and with any multi-line, colored or wrapping prompt, right side prompt and maximum number of input rows, the screen that incremental redisplay leaves (characters, attributes and cursor position) is the one from drawing the prompt and the current line from scratch: "
  "the whole line when it fits in the allowed rows, otherwise a window of it that contains the cursor with '<' and '>' where text is hidden; the right side prompt is shown exactly when there is room; nothing is left over below, and rows above the prompt are untouched. Clearing the screen gives the same picture again, also after a resize.",
  ["histories"], "all edit sequences, prompts, terminal widths and texts including wide characters",
  "Unit tests never look at the rendered screen.",
  ["clink/lib/src/display_readline.cpp"], [("display_manager::display / update_line", "clink/lib/src/display_readline.cpp")], ["virtual terminal screen"]),
P("C27", "Match list column layout fits the screen and shows every match",
  "For any set of matches (with display texts and descriptions of any width), screen width and layout options, the match list fits within the screen width unless a single match is too wide, in which case there is one column; every match is shown exactly once, in order across or down the columns, complete and followed by its description (condensed common prefix and file type marks as configured); "
  "columns are at least as wide as their widest cell, and when fitting is enabled there are as many columns, up to 50, as fit.",
  ["inputs", "configurations"], "all match lists, screen widths (2 and up) and layout options",
  "Not unit-tested.",
  ["clink/lib/src/column_widths.cpp", "clink/lib/src/display_matches.cpp"], [("calculate_columns", "clink/lib/src/column_widths.cpp"), ("display_match_list_internal", "clink/lib/src/display_matches.cpp")], ["calculate_columns", "display_matches"]),
P("C28", "Match colors follow the coloring rules",
  "For any coloring rules, match name and match type the color of a match is that of the first rule, in the order listed, all of whose conditions it satisfies (types, patterns compared with the filename caselessly, each possibly negated; a rule of only patterns applies to files; 'any' clears the types), "
  "otherwise the color of the single-type rule (or default) for the most significant of its types: orphaned or other symlink, hidden, directory, readonly, executable, file; types without a color give way to the next. "
  "Spaces, quotes and escapes in patterns denote the documented text, a malformed rule discards only itself and what follows, and commands, aliases and other matches that are not files get their own color.",
  ["inputs", "configurations"], "all rule strings, names and types",
  "Unit tests check a small table.",
  ["clink/lib/src/match_colors.cpp"], [("parse_match_colors / get_match_color", "clink/lib/src/match_colors.cpp")], ["get_match_color"]),
P("C29", "Argument matchers offer and classify exactly what they declare",
  "For any argument matchers declared for a command, and any words typed after it, completion offers exactly the candidates declared for the argument position the preceding words lead to (those not hidden; flags when the word being typed begins with a flag prefix), and files exactly when no position is left and :nofiles() does not say otherwise. "
  "A word or flag linked to another matcher leads into it; when it runs out of positions the parser returns to the previous one, unless :nofiles() ends it, and :loop() repeats positions. Flags are recognized anywhere, or only before the first argument, or until the end of flags word; redirections and quotes around words do not count; :chaincommand() parses the rest as another command; the command may be given in any letter case, with a path or an executable extension. "
  "Coloring classifies every word as argument, flag, other or unexpected according to the same walk.",
  ["inputs", "programs"], "all matcher definitions over the declarative API and all lines",
  "Unit tests sample many fixed matchers, each on few lines.",
  ["clink/lua/scripts/arguments.lua"], [("_argreader", "clink/lua/scripts/arguments.lua")], ["clink.argmatcher"]),
P("C30", "Lua string, path and Unicode helpers agree with their documentation",
  "The script-facing string, path, and Unicode functions return what is documented for every input: pieces, positions and normal forms are consistent with the native semantics and with each other, and a missing or unusable argument raises an argument error when lua.strict is set and otherwise yields nil rather than a failure.",
  ["inputs"], "all argument values",
  "Unit tests sample literals.",
  ["clink/lua/src/string_api.cpp", "clink/lua/src/path_api.cpp", "clink/lua/src/unicode_api.cpp"], [("api functions", "clink/lua/src/string_api.cpp")], ["Lua API"]),
P("C31", "Script errors and coroutines cannot break the host",
  "Any failing, yielding or endless-yielding script callback leaves the line editor usable: the error is reported, other callbacks still run, the Lua stack is balanced, and the edited line and history are unaffected.",
  ["programs", "histories"], "all mixes of well-behaved, erroring and yielding callbacks over editing sessions",
  "Unit tests run a few well-behaved scripts.",
  ["clink/lua/src/lua_state.cpp", "clink/lua/scripts/coroutines.lua"], [("lua_state::pcall, send_event", "clink/lua/src/lua_state.cpp")], ["line_editor", "lua_state"]),
P("C32", "The clink command line reads and writes settings and history faithfully",
  "A sequence of 'clink history' commands (list, list the last N, add, delete by positive or negative number, clear, compact, expand; in clink or bash style, with options) and of 'clink set' commands (set, clear, show, list, also with the names of old versions) has exactly the effect the same operation has in a session: each prints exactly the lines or values it documents, tells success from failure by its exit code, changes nothing when it fails, and running and later sessions see the result. "
  "Text given to add or expand is taken as it is, other settings (of scripts and unknown ones too) keep their values, and an old settings file is taken over by the documented mapping.",
  ["histories", "inputs"], "all sequences of command-line invocations",
  "The command-line tools have no tests.",
  ["clink/app/src/loader/set.cpp", "clink/app/src/loader/history.cpp"], [("set / history", "clink/app/src/loader/set.cpp"), ("migrate_setting", "clink/core/src/settings.cpp")], ["clink set", "clink history"]),
P("C33", "Installing and removing autorun never disturbs other autorun commands",
  "Installing clink in the command processor's autorun value, whatever the value is (empty, with other commands in any order, with one or several clink entries of any installation, quoted or not), keeps every other command in it, in order, and leaves exactly one clink entry, the last command, with the given arguments; uninstalling leaves exactly the other commands, or no value when there are none. "
  "Setting stores exactly the given text and showing changes nothing; the values of other users or views are untouched, and uninstalling for every user removes only the entries of this installation.",
  ["histories", "inputs"], "all pre-existing autorun values and sequences of install/uninstall/set",
  "Autorun has no tests.",
  ["clink/app/src/loader/autorun.cpp"], [("install/uninstall", "clink/app/src/loader/autorun.cpp")], ["registry value"]),
P("C34", "History navigation keeps every edit, and history search finds the right line",
  "While editing a line, moving to previous, next, first or last history lines shows exactly that line, with every edit made to it earlier while editing this line still in place, and returning past the last one restores the line being typed; reverting a line restores its original text. "
  "Searching by the text before the cursor (as a prefix or a substring) or incrementally finds the nearest line in the direction of the search that contains the text (caselessly when configured), passing over repeats of the line just found, puts the cursor at the match, and otherwise leaves the line as it was; aborting an incremental search restores the line and cursor, and accepting it makes the found line current.",
  ["histories", "inputs"], "all histories and all sequences of edits, moves and searches",
  "Unit tests do not move through a history with edited lines or search it.",
  ["readline/readline/misc.c", "readline/readline/search.c", "readline/readline/isearch.c"], [("rl_get_previous_history / _rl_maybe_replace_line", "readline/readline/misc.c"), ("rl_history_search_internal", "readline/readline/search.c"), ("_rl_isearch_dispatch", "readline/readline/isearch.c")], ["rl_line_buffer", "rl_point"]),
]
