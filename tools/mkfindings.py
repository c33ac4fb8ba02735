#!/usr/bin/env python3
# Writes known_findings.json (run by hand; no check calls it).
import json,subprocess
F=[
("0bc1a44","C10","a blank posting that was an account's first was left out of its balance"),
("2b011d5","C10","envelope postings were counted in account balances"),
("25f3e38","C11","the amount inferred for a blank posting included envelope postings"),
("151bbc2","C12","envelope postings changed amounts and totals in the register"),
("fe65bcb","C11","a refund drained the envelope instead of filling it"),
("d897d25","C15","a priced foreign posting to an account with envelopes crashed"),
("dfbe0ca","C09","yearly envelopes were due once only"),
("499232f","C09","last due date wrong or crash in short months"),
("c4e68a4","C09","the starting date of an every-other-week envelope was skipped"),
("6e330db","C09","an every-other-month envelope on its due date was next due in one month or never"),
("7cd421d","C09","a starting date that had passed was taken as due date"),
("94f6941","C15","white space before a comment and comment lines inside accounts crashed or failed"),
("d7358a1","C15","an entry header without a status crashed"),
("53e257c","C15","a lone blank posting crashed"),
("c04a113","C15","a ] before [ in a header crashed"),
("d287dd3","C15","an envelope posting in another currency crashed"),
("276500b","C02","entries were appended in several writes; a kill or a failed write left part of them"),
("276500b","C03","a failed write left part of an entry"),
("276500b","C05","an import that failed at a later row had recorded the earlier ones"),
("d6a7bbd","C16","includes changed the working directory, so that the journal was appended to elsewhere or not at all"),
("0fb6377","C06","an envelope was filled twice in a day when today's entry was not its last"),
("4327ddc","C15","the register crashed without a terminal width"),
("61fb63c","C17","two runs at once both filled the envelopes"),
("d4ed6f2","C13","accounts, and so movements, were gone through in hash order"),
("b82005f","C13","an imported entry's postings were in hash order"),
("73dc6dc","C19","percent signs in values were taken as fields, in hash order"),
("666d2ff","C04","a value with a line break made the journal unreadable"),
("a2555d6","C15","rules with letters outside of ascii crashed"),
("7f1053b","C15","decimal_symbol without a symbol crashed"),
("bb0813c","C15","nested conditional rules took exponential time and memory"),
("0a4b77b","C15","conditional rules took quadratic copies"),
("fdea6e9","C15","a date format that dates cannot be written with crashed"),
("4883a51","C04","date formats padded with spaces wrote headers that could not be read"),
("49d1e61","C06","a movement of zero was recorded at every run"),
("ba3721e","C15","a file that includes itself overflowed the stack"),
("362844a","C07","an overspent envelope was filled with more than it lacked"),
("479740a","C07","money put in before the starting date was not seen, so that the envelope was filled again"),
("f7d7508","C20","blanks after a rule's value or before its comment, and between `if` and its pattern, became part of them"),
("e0d307d","C07","a run during which midnight passed or the clock was set used two dates: wrong amounts, due dates and date of the entry"),
("16c0022","C20","tabs and several blanks between the words of an envelope's definition made it unreadable"),
("248c2ec","C07","an expense and a goal of the same name were both filled by each movement: more was moved than there was"),
("f5cf020","C18","movements were written rounded but reckoned unrounded, so that the next run moved a crumb"),
]
out={"known":[],"fixed":[]}
for c,p,w in F:
    full=subprocess.check_output(["git","-C","/repo","rev-parse",c],text=True).strip()
    out["fixed"].append(f"fixed: property={p} {full} {w}")
json.dump(out,open("known_findings.json","w"),indent=1); open("known_findings.json","a").write("\n")
