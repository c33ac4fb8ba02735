#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

LED, FLG, ENV, ACC, ENT, POS, AMT, REG, IMP, UTL = ("src/ledger/mod.rs", "src/flags.rs", "src/envelope.rs", "src/account.rs", "src/entry.rs",
    "src/posting.rs", "src/amount.rs", "src/ledger/register.rs", "src/importer.rs", "src/utils.rs")
TESTS = "The 8 unit tests parse single strings in memory; none of them opens a file, runs a command, reads the clock or meets a fault."

props = [
P("C01", "The journal is only ever appended to; no other file is touched",
  "Whatever command is run and whatever goes wrong, everything already in the journal stays there byte for byte: a run may only add whole text after it. No other file (included journals, CSV and rules files, bystanders) is created, changed or removed. A run with --no-move that is not an import, and any run that stops because the journal could not be loaded, changes nothing at all.",
  ["histories", "fault_sequences", "crash_points", "inputs"], "every sequence of commands, edits, days, failing system calls and kills, on every journal",
  TESTS + " The guarantee ranges over histories and faults.",
  [LED, FLG], [("append-mode open of the journal", LED + " append_entries"), ("--no-move guard", FLG + " execute")], ["bytes of every file on the disk before and after each run"]),
P("C02", "A killed run leaves whole entries or nothing, and the next run recovers",
  "If the process is killed at any instant, the journal holds either nothing of what the run was recording or all of it: the day's envelope movement is one whole entry, and the rows of an import are all there or all absent. Re-running the command afterwards on the same day works and ends with the same recorded movements as if the first run had not been killed, with nothing doubled.",
  ["crash_points", "inputs", "histories"], "every kill point between two system calls of every run, on every journal",
  TESTS + " A crash point cannot be expressed in them.",
  [LED, FLG], [("one write for everything a run records", LED + " append_entries / import_csv"), ("movement is not repeated on the day it was recorded", ENV + " get_filling_amount")], ["journal bytes after the kill and after the re-run"]),
P("C03", "A failed journal write is reported and undone; retrying completes it",
  "When the journal cannot be opened for writing or a write to it fails or stops part-way (disk full, quota, I/O error), the run says so on standard error and leaves the journal as it was, with no partial entry. Interrupted and short writes that can be continued are invisible. Once the fault is gone, running the same command again records exactly what an undisturbed run would have recorded.",
  ["fault_sequences", "inputs"], "every failing, short or interrupted write or open, at every byte offset of what is being recorded",
  TESTS + " No test writes a file.",
  [LED], [("write error propagation and rollback", LED + " append_entries"), ("error display", "src/main.rs main")], ["journal bytes, standard error"]),
P("C04", "What a run records reads back, and means what the run showed",
  "After any run that ends normally on a journal silverfox could load, silverfox can still load the journal, whatever text the imported rows carried and whatever date format, symbols or line endings the journal uses. At the same instant, a read-only run on the resulting journal shows the same balances, envelopes and register as the run that wrote it.",
  ["inputs", "histories", "configurations"], "every journal, CSV row text, date format, currency symbol, day and sequence of runs",
  TESTS + " None renders an entry and reads it back.",
  [LED, ENT, POS, AMT, IMP], [("rendering of entries", ENT + " as_parsable, " + POS + " Display, " + AMT + " Display"), ("parsing of entries", ENT + " parse, " + POS + " parse")], ["standard output of the writing run and of a --no-move run at the same instant"]),
P("C05", "An import that fails records none of its rows",
  "If an import stops with an error for any reason (a bad row anywhere in the file, an undeclared account, bad rules, a row that could not be read back), no row of that CSV file is in the journal afterwards and the error is reported.",
  ["inputs", "fault_sequences"], "every CSV and rules file and every position of the bad row or of the failing call",
  TESTS + " The importer tests convert rows in memory and never record them.",
  [LED, IMP], [("all rows are converted before any is written", LED + " import_csv")], ["journal bytes, standard error"]),
P("C06", "At most one automatic movement per envelope per calendar day",
  "However often silverfox is run, in whatever order entries are recorded, backdated, future-dated or imported, across kills and re-runs and when the local date moves back and forth (time-zone or clock changes, also while a run is going on), the journal never contains two automatic movements for the same envelope dated the same day.",
  ["histories", "crash_points", "configurations"], "every history of runs, edits, imports, kills and clock or time-zone changes",
  TESTS + " Needs multi-day histories.",
  [ENV, ACC, LED], [("the envelope remembers that it was touched today", ENV + " apply_amount / get_filling_amount")], ["automatic entries in the journal"], [("last_transaction_date", "whether the envelope was affected on the current day", ENV)]),
P("C07", "Automatic movements never over-commit money or an envelope",
  "In one run, the amounts moved automatically out of an account never add up to more than what was available in it in that currency (nothing when it is zero or negative), and each is positive and no more than the envelope still lacks for its next due date; with conservative funding no more than an equal share of that per remaining day. Envelopes with manual funding, without a future due date, or already affected by an entry dated today get nothing.",
  ["inputs", "histories"], "every journal, day and history of runs",
  TESTS + " No test funds an envelope.",
  [ENV, ACC, LED], [("clamps on the amount to move", ENV + " get_filling_amount"), ("available value is reduced envelope by envelope", ACC + " get_filling_postings")], ["automatic entry appended by each run"]),
P("C08", "Automatic funding moves all it can and fills envelopes by their due date",
  "Each completed run moves, per account and currency, the lesser of what is available and what all its envelopes that are due for funding today ask for (aggressive: all they lack; conservative: an equal share per remaining day). So with enough money available and a completed run each day, a conservatively funded envelope is full the day before its due date and an aggressive one at once, also when earlier runs were missed, failed or killed.",
  ["histories", "fault_sequences", "crash_points"], "every history of runs, missed days, faults and kills, once faults stop",
  TESTS + " A liveness property over days.",
  [ENV, ACC, LED], [("funding methods", ENV + " get_filling_amount"), ("due dates", ENV + " get_next_due_date")], ["automatic entries in the journal over the days"]),
P("C09", "Due dates and the now/next split follow the calendar",
  "On any date, the next due date shown for an envelope is the first date of its schedule after that date and not before its starting date (weekly, every other week, monthly and every other month with short months falling on their last day, yearly with Feb 29 falling on Feb 28 in common years, or a single date), and none once a single date has passed. Money put into an envelope before the most recent due date is shown under now, money put in on or after it, or before there was any, under next, and money taken out comes from now first; the bar beside each is filled in proportion.",
  ["configurations", "inputs", "histories"], "every date the clock can show and every schedule and history of movements",
  TESTS + " One test subtracts months twice; the clock is never controlled.",
  [ENV], [("schedule arithmetic", ENV + " Frequency::get_next_due_date / get_last_due_date"), ("split", ENV + " apply_amount / Display")], ["output of the envelopes command"]),
P("C10", "Balances are the sums of the real postings",
  "The balance shown for every account is, per currency, the exact sum of the amounts posted to it across the journal and its included files, including the amounts inferred for blank postings, and is not changed by envelope movements, by today's date, by the order of entries or by whether --no-move is given. Every account with postings is shown.",
  ["inputs", "histories", "configurations"], "every journal, day and history of runs",
  TESTS + " No test computes a balance.",
  [LED, ENT, AMT], [("totals", LED + " get_totals"), ("blank amount inference", ENT + " get_blank_amount")], ["output of the balance command"]),
P("C11", "An account's money is its available part plus its envelopes",
  "For every account with envelopes, and every currency, what is shown as available plus what is shown in its envelopes equals the account's balance. Spending from the account to one of an envelope's expense accounts takes that amount out of the envelope, a refund puts it back, a manual envelope posting moves exactly its amount (and an entry with one moves nothing else), and nothing else changes an envelope's total.",
  ["inputs", "histories"], "every journal, day and history of runs and edits",
  TESTS + " No test applies an entry to an envelope.",
  [ACC, ENV, ENT], [("available value", ACC + " get_available_value"), ("inference and manual postings", ENV + " process_entry / infer / apply_amount")], ["output of the envelopes command against the journal"]),
P("C12", "The register is chronological with exact amounts and running totals",
  "The register lists, in date order and for one date in the order recorded, exactly the entries that change the total of the asset accounts, each with its date, status, description, the accounts money came from and went to, the net change per currency and the running total, which is the sum of all changes so far. Envelope movements do not appear.",
  ["inputs", "histories"], "every journal (any order of entries, any include structure), day and history",
  TESTS + " No test renders a register.",
  [REG, ENT, LED], [("sorted insertion", LED + " add_entry"), ("register data", ENT + " as_register_data"), ("running totals", REG + " print_lines")], ["output of the register command"]),
P("C13", "The same input gives the same result: no dependence on hash seeds",
  "Two runs of the same command on the same files at the same instant print the same bytes and leave the same bytes on disk, whatever random seed the process's hash maps start from.",
  ["schedules", "configurations", "inputs"], "every value of the process's entropy source, on every journal and import",
  TESTS + " A test run sees one hash seed per process and compares nothing across seeds.",
  [LED, IMP, ACC], [("sorted output", LED + " display_envelopes / display_flat_balance"), ("ordered iteration when recording", LED + " fill_envelopes, " + IMP + " get_entry_from_record")], ["standard output and disk of twin runs"]),
P("C14", "Input that cannot be read completely gives an error, never a partial result",
  "If the journal or a file it includes is missing, unreadable, not valid text, or fails while being read, the run reports an error, prints no result and changes no file; if the CSV or rules file does, no row is imported. Short and interrupted reads make no difference to the result.",
  ["fault_sequences", "inputs"], "every failing or short open or read of every input file, at every position",
  TESTS + " No test reads a file.",
  [LED, IMP, FLG], [("read errors propagate", LED + " add_from_file, " + IMP + " from_file_with_rules")], ["standard output, standard error, disk"]),
P("C15", "No input, date or terminal makes silverfox crash or hang",
  "For every journal, CSV and rules text (also one cut off at any byte or with any line missing), on every date a clock can show since 1970, with or without a terminal, a run ends by itself, either with its result or with an error message: it never panics, aborts, overflows or loops for ever.",
  ["inputs", "configurations", "fault_sequences"], "every text, every date, every truncation point",
  TESTS + " They use a handful of well-formed strings and the real date.",
  [LED, ENT, ENV, POS, AMT, IMP, REG], [("error returns instead of panics", "parsers in " + ", ".join([ENT, ENV, POS, IMP]))], ["exit status and standard error"]),
P("C16", "The journal means the same from any directory and under any path",
  "Naming the same journal by an absolute path, a relative path from any working directory, a path with dot segments or through a symbolic link (to a directory on the way, or to the file from the same directory), or an environment variable ($SILVERFOX_FILE before $LEDGER_FILE, both after -f) gives the same result and appends to that same file. Included files are found relative to the file that includes them, at any nesting, and CSV and rules files relative to the working directory.",
  ["configurations", "inputs", "histories"], "every working directory, path spelling and include layout",
  TESTS + " One test derives a rules file name from a string.",
  [LED, FLG, IMP], [("include resolution", LED + " add_from_file / include"), ("file choice", FLG + " execute / get_file_from_env")], ["standard output and disk of runs that differ only in paths"]),
P("C17", "Overlapping runs and edits lose, garble and double nothing",
  "When several silverfox processes run on one journal at the same time, or the user's editor appends to it meanwhile, the journal ends up with everything it had, every entry appended by anyone exactly once and whole, and no second automatic movement for an envelope on that day. A read-only run at the same time shows the journal as it was before or after some of these additions, never part of one.",
  ["schedules", "histories"], "every interleaving of the processes' system calls and outside appends",
  TESTS + " They are single-threaded and touch no file.",
  [LED, FLG], [("exclusive lock on the journal while recording", FLG + " execute"), ("append-mode single write", LED + " append_entries")], ["journal bytes and each process's output under a simulated scheduler"]),
P("C18", "Trouble with standard output never changes what is recorded",
  "Whether standard output is a terminal, a pipe that closes, a full disk or fails at any byte, the journal ends up exactly as it would have with working output, and the next run continues normally.",
  ["fault_sequences", "inputs"], "every failing or short write to standard output or standard error, at every position",
  TESTS + " Output is never exercised.",
  [FLG, LED], [("recording is finished before anything is displayed", FLG + " execute")], ["journal bytes under output faults"]),
P("C19", "A successful import records each CSV row exactly once, faithfully",
  "After an import that reports no error, the journal has exactly one new entry for each CSV row after the skipped ones, in row order, with the date, status, description, payee, comment, accounts, amounts and prices that the rules (fields, templates, conditional blocks, decimal symbol, date format, included rules) give for that row; a single-posting row is completed with the unknown income or expense account.",
  ["inputs", "configurations", "histories"], "every CSV and rules file, day and journal",
  TESTS + " One test converts five rows with one rules file and compares in memory.",
  [IMP, LED, ENT], [("rules application", IMP + " get_entry_from_record"), ("recording", LED + " import_csv")], ["entries appended to the journal"]),
P("C20", "Comments, blank lines and layout carry no meaning",
  "Adding, changing or removing comments (; or //), blank lines, blanks at the end of lines, the width of indentation, the blanks between the words of a journal's lines or between a rule and its value, or the style of line endings, in the journal, a file it includes or a rules file, never changes what any command shows or records.",
  ["inputs", "histories"], "every journal and rules text and every other layout of it, on every day",
  TESTS + " No test compares two spellings of one text.",
  [UTL, LED, IMP, ENV, ACC], [("remove_comments", UTL), ("chunking", LED + " add_from_str"), ("rules lines", IMP + " add_from_str")], ["standard output and appended entries of twin runs that differ in layout only"]),
P("C21", "A mistyped command line does nothing; every spelling of one does the same",
  "Subcommands by their first letter or any longer part of their name, the short and long names of every option, and the order of the options never change what a command shows or records. A command line that silverfox can't understand (unknown subcommand or option, stray word, option without its value, no journal named) is refused with a message on standard error, prints no result and changes no file, even when the rest of it asks for something to be recorded; without any argument silverfox prints its help.",
  ["inputs", "configurations"], "every command line over the documented subcommands and options, with any mistake in any place, on every journal and day",
  TESTS + " No test parses a command line.",
  [FLG, "src/main.rs"], [("parse_from_env", FLG), ("subcommands", FLG + " Subcommand::try_from")], ["standard output, standard error and disk of twin runs that differ in spelling only, and of refused ones"]),
P("C22", "A mistake in the journal or the rules is refused, never guessed around",
  "A mistake anywhere in the journal or a file it includes makes every command stop with a message on standard error, print no result and change no file, whatever comes before or after it: an entry without one of the three statuses or with a date that does not fit the date format, a posting to an account that is not defined, an amount or price that is not a number, a payee that is not closed, two blank postings or one whose amount can't be inferred, an envelope posting without account, envelope or amount or in another currency than its envelope, spending from an envelope in a currency that can't be converted to its own, an account definition without a name or with blanks in it, an envelope without a due date or `no date`, with a schedule, funding method or property that does not exist, without the starting date its schedule needs, or defined twice in its account, a directive without its value. A mistake in the rules (a rule that does not exist or has no value, a `skip` that is not a number, a decimal symbol of several characters, `if` inside of `if`), in a conditional block or an included file as well, makes an import stop with a message and record no row.",
  ["inputs", "configurations"], "every journal and rules text with one of these mistakes in any place, every command, on every day",
  TESTS + " Two tests refuse one account definition each.",
  [LED, ENT, POS, ENV, ACC, IMP, AMT], [("parse_chunk", LED), ("validate", ENT + " validate"), ("definitions", ENV + " from_header, add_body"), ("rules", IMP + " add_from_line")], ["standard output, standard error and disk of runs on a text with a mistake"]),
# --- pure functions of their input: not simulation targets
P("N01", "Entries that do not balance are rejected",
  "An entry whose postings do not add up to zero (after applying prices) is refused with an error.", ["inputs"], "every entry text",
  "The tests parse one balanced entry.", [ENT], [("validate", ENT + " validate")], ["standard error"]),
P("N02", "Balance assertions are enforced",
  "An entry with a balance assertion (!) that does not match the account's balance at that point is refused with an error.", ["inputs"], "every journal text",
  "No test uses an assertion.", [POS, ENT], [("parsed but not used", POS + " parse_balance_assertion_amount")], ["standard error"]),
P("N03", "The declared native currency equals blank symbols",
  "With a currency directive, amounts with that symbol and amounts without a symbol are combined as one currency everywhere.", ["inputs"], "every journal text",
  "No test uses the directive.", [LED], [("default_currency", LED + " set_currency")], ["output"]),
P("N05", "Amounts parse and print to the same value",
  "Every amount silverfox prints parses back to the same magnitude (to eight decimals) and symbol.", ["inputs"], "every amount",
  "Amount has no tests.", [AMT], [("parse / Display", AMT)], ["journal text"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
