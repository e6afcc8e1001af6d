"""Writes known_findings.jsonl (kept as a script so the table stays readable)."""
import json, os
F = []


def known(prop, key, what):
    F.append({"status": "known", "property": prop, "key": key, "what": what})


def fixed(prop, commit, what):
    F.append({"status": "fixed", "property": prop, "commit": commit, "what": what, "line": f"fixed: property={prop} {commit} {what}"})


known("S01", "deep-nesting", "source nested about 250 or more levels deep, e.g. parse('a = ' + '{' * 2000), raises RecursionError (so do serialize, clone and compiling such trees)")
known("S20", "cr-before-line-end", "a carriage return that is text and stands at the end of a line, e.g. 'foo = a\\r\\r\\n b\\n' or 'foo = \\r', does not survive serialize + parse (it is read back as part of the line end)")
known("R02", "long-text", "a text element of more than 2500 characters next to a placeable, e.g. 'm = ' + 'x' * 3000 + ' { $n }', formats to {???} with an error although nothing expands")
known("R11", "many-digits", "numbers that need more than 28 digits, e.g. 10**30 in 'x = { $x }', are not formatted (babel's decimal context: {???} with InvalidOperation)")
known("R11", "zero-significant", "zero with significant digits, e.g. fluent_number(0, minimumSignificantDigits=1), is shown as 0.0")
known("R11", "significant-carry", "a value below 1 that carries when rounded to significant digits, e.g. 0.00983 with maximumSignificantDigits=1, is shown with a digit too many or too few")
known("R11", "integer-with-significant", "minimumIntegerDigits is ignored when significant digits are given, e.g. 5 with maximumSignificantDigits=2, minimumIntegerDigits=3")

fixed("S08", "071195b", "an empty comment line ('#') at the very end of the file was Junk")
fixed("S06", "109348d", "an empty comment line ending in CRLF did not join with the following comment line")
fixed("S20", "3f61bc6", "serializing indented after U+2028, U+0085, form feed and other characters that do not end a line in Fluent")
fixed("S34", "ea487c0", "a Transformer returning None for a node in a field (not a list) crashed instead of emptying the field")
fixed("S11", "ff3016a", "StringLiteral.parse raised ValueError for \\U escapes above 10FFFF")
fixed("S32", "a3217d7", "equals() of two nodes of different types could be True")
fixed("R07", "8a7b2e1", "cycles through patterns that are a single placeable ended in RecursionError")
fixed("R07", "22c148f", "patterns that are a single placeable were not counted, so expansion bombs made of them ran on")
fixed("R01", "a802e2f", "values that cannot be formatted (bad currency, inf with significant digits, unknown time zone, ...) made format_pattern raise")
fixed("R01", "a8468e1", "a long acyclic chain of references made format_pattern raise RecursionError")
fixed("R01", "df0f503", "selecting on infinity or NaN made format_pattern raise")
fixed("R03", "ae2c51f", "a string selector 'one' matched a number key 1 by its plural category")
fixed("R03", "0b73345", "Decimal arguments did not match the number keys or plural categories")
fixed("R08", "3edb489", "allow_overrides did not override a message that had already been looked up")
fixed("R17", "07099d3", "a malformed locale identifier made FluentBundle() raise")
fixed("R14", "f0f9c34", "the fold of datetime arguments was dropped, so ambiguous times moved by an hour")
fixed("R11", "0f1ed41", "minimumFractionDigits above the default maximum (or maximum below the default minimum) was ignored or rejected")
fixed("R11", "9dd14c3", "explicit fraction digits were ignored for currencies")
fixed("R03", "3dfac76", "ordinal-typed Decimals were matched by their cardinal category")
fixed("R11", "bc016d5", "minimumSignificantDigits without a maximum rounded the number away")
fixed("R01", "c4038be", "selecting on a signaling NaN made format_pattern raise")
fixed("R01", "bc6b539", "selecting on numbers too big for the plural rules made format_pattern raise")
fixed("R08", "9c0740e", "get_message('-term') returned the term instead of raising LookupError")
fixed("R01", "8640590", "a custom function returning a plain number, date, None, ... (or a Fluent type formatting to something that is not text) made format_pattern raise or return an object that is no text")
fixed("D01", "575d37f", "an annotated fluent.* tag made the docs build crash")
fixed("S34", "9a4973f", "an identity Transformer dropped None from a list (the argument of the annotation for an escape cut off by the end of file)")
fixed("R09", "e87b44d", "two threads formatting a message for the first time each compiled it, and one noticed a cycle through it a round too late")
fixed("T01", "760bb2d", "the pygments command read files in the encoding of the locale, and crashed or garbled where that is not UTF-8")
fixed("R01", "32f53da", "an argument of a custom type that fails to compare made format_pattern raise when selected on")
fixed("R08", "8fa815c", "get_message of a message with an integer literal of more than 4300 digits raised ValueError")
fixed("R07", "26ce0dc", "NUMBER with an enormous digit count, e.g. minimumIntegerDigits: 99999999, took minutes or gigabytes")
fixed("R01", "7ea4378", "a datetime without a date (like pandas.NaT) or an int or float that cannot be converted made format_pattern raise")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
with open(out, "w") as fh:
    for x in F:
        fh.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(F))
