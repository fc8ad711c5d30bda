#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = "number_parser/parser.py"
I = "number_parser/__init__.py"
D = "number_parser/data/"
S = "number_parser_scripts/write_complete_language_data.py"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": list(observe), "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": list(over), "text": text},
                  "why_tests_cant": why, "anchors": a})

API = ["return value or exception of parse, parse_number, parse_ordinal and parse_fraction"]
LD = ("sys.modules entries of the language data", "vocabularies are loaded on first use and shared by every later call", P + " LanguageData.__init__ (import_module)")

prop("C01", "Concurrent calls never affect one another",
 "When several threads call the library at the same time - including when their first uses race with importing the package and with loading language data - every call returns or raises exactly what the same call gives when it runs alone in a fresh process. Every call also finishes: no interleaving of callers leaves any of them waiting for ever.",
 ["schedules", "inputs"], "every interleaving, at instruction granularity, of any number of caller threads making any mix of calls (functions, texts, explicit or detected languages, calls that raise), starting cold or warm",
 "The suite is single-threaded; it never runs two calls at once, so no interleaving other than 'one after the other' is reached.",
 [P, I, D + "en.py"], [("all working state (token lists, group values, language tables) is local to a call", P + " parse/_build_number/LanguageData.__init__"), ("the import system serialises the first load of a vocabulary", P + " LanguageData.__init__")], [LD], API)
prop("C02", "A call's outcome does not depend on earlier calls or elapsed time",
 "The outcome of a call depends only on the text and language it is given. Whatever calls were made before it in the process (any functions, texts, explicit or detected languages, rejected languages, failing calls, and however many), and however much time has passed or however the clock was set in between, it returns or raises exactly what it does as the first call of a fresh process.",
 ["histories", "inputs"], "every finite history of earlier calls, clock jumps and garbage collections, of any length",
 "Each test checks one call whose predecessors are whatever ran earlier in the file; no test compares the same call under different histories, and none has a long one.",
 [P, D + "en.py"], [("no module-level or class-level state is written by a call; LanguageData fills instance attributes only", P + " class LanguageData"), ("shared vocabularies and skip-token lists are only read", P + " _normalize_dict, _is_skip_token")], [LD], API)
prop("C03", "An aborted call reaches its caller and leaves nothing behind",
 "If a call is cut short at any point by an exception that arrives from outside it - keyboard interrupt, timeout or thread kill, exhausted memory, exhausted recursion depth - the call ends with that exception rather than with a wrong result. Every other call, made later or in progress in another thread, has the same outcome as in a fresh process, and none hangs.",
 ["crash_points", "schedules", "histories"], "every point of every call at which the exception can arrive, for every kind of exception, any number of aborted calls, followed by any calls",
 "No test interrupts a call. The instants at which an exception can arrive are the individual instructions of the call, including those run while language data is first loaded.",
 [P, D + "en.py"], [("no state outlives a call, so there is nothing to restore", P + " parse, _build_number"), ("a failed import is not cached by the import system", P + " LanguageData.__init__"), ("no handler in the call path catches foreign exceptions", P)], [LD], API)
prop("C04", "A failed vocabulary load is reported and recovered from",
 "If reading a language's vocabulary fails (I/O error, no free file handles or memory, no permission, missing or cut-off file), the call that needed it raises; no call ever returns an outcome computed without that vocabulary or with part of it, and language detection never silently leaves the language out. Once reads succeed again, calls in the same process have their normal outcome, without a restart.",
 ["fault_sequences", "histories", "inputs"], "every sequence of read failures on the language data files, at every operation, interleaved with any calls, followed by fault-free operation",
 "The tests only run with an intact, readable installation; no test makes a load fail, and a process in which a load failed is never observed afterwards.",
 [P, D + "en.py", D + "es.py", D + "hi.py", D + "ru.py", D + "uk.py"], [("import errors propagate out of LanguageData", P + " LanguageData.__init__"), ("detection builds every language's data and lets failures through", P + " _valid_tokens_by_language")], [LD], API)
prop("C05", "A broken language does not affect calls that name another one",
 "While the vocabulary of one or more languages cannot be read at all, importing the package still works, and every call that names a different, intact language explicitly has its normal outcome.",
 ["fault_sequences", "histories", "inputs"], "every non-empty set of unreadable languages, every kind of read failure, persistent or intermittent, every history of calls mixing broken, intact and detected languages",
 "No test runs with any language missing or unreadable, so nothing notices when an explicit call starts to need other languages' files.",
 [P, I], [("only the named language's module is imported, on demand", P + " LanguageData.__init__; parse* call _valid_tokens_by_language only if language is None")], [LD], API)
prop("C06", "Outcomes do not depend on the process environment",
 "For the same text and language every call has the same outcome in every process: whatever the hash seed, locale and default text encoding, time zone, date and clock, source of randomness, working directory, interpreter optimisation, warning and bytecode options, the directory it is installed in, and the order of calls. In particular ties in language detection are always resolved the same way.",
 ["configurations", "inputs"], "every assignment of those environment parameters and every call",
 "The suite runs in one environment with one fixed hash seed.",
 [P, I], [("languages are tried in a fixed list order and the first maximum wins", P + " SUPPORTED_LANGUAGES, _valid_tokens_by_language"), ("vocabularies and replacement tables are insertion-ordered dicts and lists", P + " LanguageData, _apply_cardinal_conversion"), ("lower-casing and accent stripping use locale-independent Unicode tables", P + " _strip_accents")], (), API)
prop("C07", "Calls have no side effects and need no writable system",
 "A call writes nothing to disk, opens no network connection, starts no process or thread, prints and warns nothing, and leaves process-wide settings (working directory, environment, locale, interpreter limits, signal handlers, warning filters, logging, random and decimal state, import machinery, standard library functions) as it found them, whether it returns or raises. It has its normal outcome on a read-only or full disk, without a network and with its output streams closed.",
 ["histories", "fault_sequences", "inputs"], "every history of calls, with any subset of the system's write-side services failing at any moment",
 "Tests look at return values only; no test observes the process or the file system around a call, or makes any service fail.",
 [P, I], [("pure computation over strings after the vocabulary import", P)], (), API + ["process-wide settings before and after", "system calls issued"])
prop("C08", "A long-lived process does not accumulate memory or handles",
 "However many calls a process makes, with however many different texts, successful, failing or aborted, the memory, file handles and threads the library retains stay below a fixed bound.",
 ["histories", "fault_sequences", "inputs"], "every history of calls with unboundedly many distinct texts, including calls that raise, are rejected, fail to load data or are aborted",
 "The suite makes a few thousand calls and never measures what they retain.",
 [P], [("per-call data is dropped on return; nothing is memoised by text", P + " LanguageData, parse")], (), ["allocated memory, open descriptors and threads after garbage collection"])
prop("C09", "Calls are re-entrant",
 "A call made from code that interrupts another call in the same thread at any point - a signal handler, a destructor or a trace callback - returns or raises exactly what it would alone in a fresh process, and so does the interrupted call once it resumes; neither hangs. (A nested call that needs a vocabulary whose first load is the very thing it interrupted may raise instead, but never returns a wrong outcome.)",
 ["schedules", "inputs"], "every point of every call, every nested call there, to any depth",
 "No test nests calls; the interrupted point is any instruction of the outer call.",
 [P, D + "en.py"], [("all working state is local to a call and no lock is held", P + " parse, _build_number")], [LD], API)
prop("C10", "Forked child processes keep working",
 "If a process forks while other threads are at any point inside calls, every call in the child process, where those threads no longer exist, finishes with the same outcome as in a fresh process, and the calls in the parent are unaffected. (Excepted are calls in the child that need a vocabulary which a vanished thread was loading for the first time at the moment of the fork.)",
 ["schedules", "crash_points", "inputs"], "every point inside their calls at which the other threads can be when the fork happens, any number of threads, any calls in the child",
 "No test uses threads or processes.",
 [P], [("no lock or shared working state exists that a vanished thread could leave half-updated", P)], [LD], API)
prop("C11", "Once used, a language no longer depends on the disk",
 "After every function has been used with every language once, calls keep their normal outcome whatever then happens to the installation or the disk: data files replaced by another version, deleted, truncated or made unreadable, I/O errors, no free file handles.",
 ["fault_sequences", "histories", "inputs"], "every sequence of changes to the installed files and of failing file operations after the warm-up, interleaved with any calls",
 "The suite never changes or removes an installed file while the process lives.",
 [P], [("the import system keeps a loaded vocabulary in memory and never re-reads it", P + " LanguageData.__init__")], [LD], API)
prop("C12", "A failed or interrupted package import can simply be retried",
 "If importing the package fails or is interrupted at any point (unreadable file, I/O error, interrupt, exhausted memory), the import raises; importing it again in the same process once the cause is gone yields a package whose version and every call are the same as after an undisturbed import.",
 ["crash_points", "fault_sequences"], "every file operation and every instruction of the package's import at which the failure can occur, any number of failed attempts",
 "The suite imports the package once, successfully.",
 [I, P], [("module bodies only define names; no registration outside the module", I + ", " + P), ("a failed import is removed from the module table", I)], (), ["import number_parser", "number_parser.__version__"] + API)

SD = ("number_parser/data/<language>.py", "the generated vocabulary the library imports", S + " write_complete_data")
prop("G01", "Regenerating language data is crash-safe for every language file",
 "If the data generation script is killed, loses power, or fails on any I/O error at any point, every generated language file is afterwards either complete as it was before the run or complete as this run would have left it; none is missing that existed before, empty, cut off or mixed. The library therefore still imports every language.",
 ["crash_points", "fault_sequences", "configurations"], "every file operation of a run (and every partial write) as the point of the kill, power loss or I/O error, every set of languages, every listing order",
 "The generation script has no tests at all; crash points are not reachable from unit tests.",
 [S], [("the new text is written to a temporary file, synced and atomically renamed over the target", S + " write_complete_data (added by a fix commit; before it the target was truncated in place)")], [SD], ["contents of the generated files after the crash"])
prop("G02", "A completed regeneration fully repairs any crashed or failed ones",
 "After any sequence of killed or failed runs of the data generation script, one run that completes leaves exactly the same directory of generated files as if the earlier runs had never happened: every language file is the complete new one, and no leftover of the earlier runs over these languages remains. Nor do earlier runs ever keep a later, undisturbed one from completing.",
 ["crash_points", "histories", "fault_sequences"], "every finite sequence of runs each ended at an arbitrary file operation by a kill, power loss or I/O error, followed by one completed run",
 "The generation script has no tests; no test re-runs it over the remains of a crash.",
 [S], [("targets are rewritten from the inputs alone, never merged with what is there", S + " write_complete_data"), ("temporary names are a function of the language, so a rerun replaces leftovers", S)], [SD], ["directory listing and contents after the completing run"])
prop("G03", "Regeneration is reproducible and matches the shipped data",
 "The data generation script produces byte-identical files whatever the order in which the system lists the input directory, the locale and default text encoding, hash seed, clock, working directory, and previous contents of the target files. Run over the repository's own inputs, it reproduces the vocabularies the library ships.",
 ["configurations", "histories"], "every listing order, default encoding, hash seed, clock, working directory and earlier target content; all shipped languages",
 "The generation script has no tests; nothing compares its output with the committed data or runs it in a second environment.",
 [S, "number_parser_data/supplementary_translation_data/uk.json", D + "uk.py"], [("entries are sorted by value and word before writing", S + " write_complete_data"), ("files are opened as UTF-8", S + " (added by a fix commit)"), ("paths are relative to the script's own location", S + " os.chdir")], [SD], ["bytes of the generated files"])
prop("G04", "A generation run never reports success with incomplete output",
 "If any file operation of a data generation run fails, or an input file is cut off or missing, the run ends with a failure status - or else every language file is nevertheless complete and correct. A run that reports success has left the complete new file for every input language (one whose source file has spell-out rules).",
 ["fault_sequences", "configurations"], "every file operation of a run as the one that fails, with every error, including write, sync, close and rename errors, full disk and partial writes, and every cut-off or missing input",
 "The generation script has no tests, and no test makes a file operation fail.",
 [S], [("I/O and decoding errors are not caught", S + " write_complete_data")], [SD], ["exit status and generated files"])
prop("G05", "Generation never touches anything but the generated language files",
 "A data generation run, whether it completes, fails or is killed at any point, never modifies, renames or deletes its input files or any other file of the repository; when it completes, the generated files of its input languages are the only files that differ from before. Nothing outside the repository is changed, temporary files of the run aside.",
 ["crash_points", "fault_sequences", "configurations"], "every run with every fault and crash point; every file of the repository that is not the generated file of an input language",
 "The generation script has no tests.",
 [S], [("inputs are opened read-only; only target paths derived from input names are opened for writing", S + " write_complete_data")], [SD], ["file operations issued", "all files of the tree after the run"])
prop("G06", "Each language's generated file depends on its own inputs only",
 "The file generated for a language is determined by that language's two input files alone: which other languages are present, in which order they are processed, whether they already exist in the output, and whether another language's inputs are malformed or unreadable never changes its contents. At worst, when another language's inputs are bad, it is left as it was before the run.",
 ["configurations", "fault_sequences", "inputs"], "every subset and processing order of languages, every kind of damage to other languages' inputs",
 "The generation script has no tests.",
 [S], [("a fresh table is started for every file", S + " write_complete_data")], [SD], ["bytes of the generated files"])
prop("G07", "Readers during regeneration always see a complete vocabulary",
 "A process that opens and reads a generated language file at any moment of a data generation run, in one go or in pieces while the run goes on, finds the file and sees either the complete previous or the complete new contents, never a missing, empty, partial or mixed one.",
 ["schedules", "configurations"], "every interleaving of a reader's open and read steps with the file operations of a run",
 "The generation script has no tests; the interleavings are not reachable from a unit test.",
 [S], [("atomic replacement of the target by rename; an already opened file keeps the old contents", S + " write_complete_data (added by a fix commit)")], [SD], ["what a concurrent reader sees"])

prop("G08", "Regenerated vocabularies take effect in the library",
 "A process started after a completed data generation run converts texts with the new vocabulary of every language the library supports, and one started during a run or after a killed or failed one uses, for each language, either the complete previous or the complete new vocabulary - whatever compiled files earlier processes left behind, and also when a change leaves a file as long as it was.",
 ["histories", "crash_points", "schedules"], "every sequence of input edits, generation runs (completed, killed or failed at any operation) and library processes started before, during and after them",
 "The generation script has no tests, and no test imports the library after a vocabulary has changed.",
 [S, P, D], [("a replaced file gets a new modification time, which is how the interpreter notices that its compiled file is out of date", S + " write_complete_data"), ("vocabularies are read only through the import system", P + " LanguageData.__init__")], [SD], ["what the library converts in processes started before, during and after a run"])

# ---- properties outside the reach of this technique (pure functions of their input)
prop("P01", "Number phrases convert to their exact value",
 "For every well-formed cardinal number phrase of a supported language (English, Spanish, Hindi, Russian, Ukrainian), up to that language's largest multiplier, converting it yields exactly the number it denotes.",
 ["inputs"], "all well-formed phrases of the five languages", "Tables of samples are checked; the space of phrases is unbounded, and Ukrainian has no table at all.",
 [P], [("incremental group building", P + " _build_number, _check_validity, _check_large_multiplier")], (), API)
prop("P02", "In-place conversion keeps all other text",
 "In-place conversion changes number phrases only: every other word, separator and its order is preserved, and text without number words comes back unchanged apart from outer whitespace.",
 ["inputs"], "all texts", "Samples of a few dozen sentences.", [P], [("tokens that are not numbers are copied", P + " parse")], (), API)
prop("P03", "In-place conversion is stable on its own output",
 "Converting an already converted text again gives the same text.", ["inputs"], "all texts", "No test applies the function twice.", [P], [("digits are not number words", P + " parse")], (), API)
prop("P04", "Number conversion is total",
 "Converting any text as a single number, ordinal or fraction returns a number (or fraction) or 'none'; it never raises for a supported language.",
 ["inputs"], "all texts", "A handful of non-numbers are tried.", [P], [("numeric shortcut and validity loop", P + " parse_number")], (), API)
prop("P05", "Letter case, accents and soft hyphens do not change a number",
 "Changing letter case, dropping accents or inserting soft hyphens in a number phrase does not change its value.", ["inputs"], "all number phrases and all such changes", "Samples only.", [P], [("normalisation of tokens and vocabulary", P + " _normalize_tokens, _normalize_dict")], (), API)
prop("P06", "Ordinals agree with cardinals",
 "For every English number the ordinal phrase converts to the same value as the cardinal phrase.", ["inputs"], "all English numbers", "Sample tables.", [P], [("ordinal suffix rewriting", P + " _apply_cardinal_conversion")], (), API)
prop("P07", "Fractions are the two numbers around the separator",
 "A fraction converts exactly when both sides convert as numbers, and then to those two numbers.", ["inputs"], "all texts", "A dozen samples.", [P], [("separator search", P + " parse_fraction")], (), API)
prop("P08", "Detected language has the most number words",
 "Without an explicit language the outcome equals the one for a language with the largest count of recognised words, English if there is none.", ["inputs"], "all texts", "Ten samples.", [P], [("word count per language", P + " _valid_tokens_by_language")], (), API)
prop("P09", "Unsupported languages are rejected",
 "Naming an unsupported language raises an error whenever language data is needed, and never silently uses another language.", ["inputs"], "all language arguments", "One sample.", [P], [("check against the supported list", P + " LanguageData.__init__")], (), API)
prop("P10", "Conversion time grows moderately with the text",
 "Time and memory of a call grow at most linearly with the number of words (up to big-integer arithmetic); no text makes it blow up.", ["inputs"], "all texts", "No test measures growth.", [P], [("single pass over tokens", P + " _build_number, parse")], (), API)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
