#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why.split("; ")[0].rstrip(".")
              + "; the 15 existing tests exercise a few methods of the List and Range classes and run no Pip program at all.",
              "anchors": {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}]}})


prop("C01", "Scanning splits every source text into tokens the same way, comments aside",
     "Every source text is read left to right into the longest tokens the language defines (numbers, string and pattern and character literals, "
     "operators with their meta prefixes, runs of capitals split into two-letter and one-letter names), independent of the whitespace between tokens. "
     "Comments (two spaces to the end of a line, a line beginning with a semicolon, a braced block beginning with a semicolon) never change what a program does, and text that is "
     "not a token is a clean scanning error.",
     ["programs"], "all source texts of printable characters, tabs and newlines",
     "Token boundaries, escapes, comments and odd runs of capitals depend on arbitrary neighbouring characters.",
     ["scanning.py", "tokens.py"], "The tokenizer's ordered regular expressions, comment and string handling, and the splitting of runs of operators and names.")
prop("C02", "Expressions group by operator precedence, associativity and arity",
     "For every combination of operators, an expression means what its fully parenthesized form (by the documented precedence level, left or right associativity, chaining and arity of each operator) means. "
     "Assigning forms, meta-operators and the ternary operator take part in this grouping like any other operator, and parentheses override it.",
     ["programs"], "all nestings of all unary, binary and ternary operators, plain, with meta prefixes and with the assigning suffix",
     "There are about 150 operators on 20 levels, hence tens of thousands of pairs, each with several contexts; the tests have a few.",
     ["parsing.py", "operators.py"], "The operator table's levels and associativities and the precedence-climbing parser.")
prop("C03", "Incomplete programs are told apart from malformed ones",
     "A program that breaks off before an expression, a bracket, a literal or a statement is finished is rejected as a program, but in the interactive session it makes the session ask for another line and go on with the joined text. "
     "A malformed program is reported at once and neither executes anything nor hangs; a well-formed one is executed.",
     ["programs", "histories"], "every prefix of every program, and every way to break a program into lines of a session",
     "Whether a prefix is incomplete or malformed depends on every parser state; the tests have no incomplete program and no session.",
     ["parsing.py", "scanning.py", "pip.py"], "The parser's and scanner's distinction between an unexpected end and other errors, and the session's continuation loop.")
prop("C04", "A printed function reads back as an equivalent function",
     "Printing any function yields source text which, read back and printed again, is the same text. The function read back does on every argument what the original does.",
     ["programs", "inputs"], "all functions the grammar can express (statements, operators with meta flags, literals of all kinds, nested functions) and all arguments",
     "The printer must agree with scanner and parser on every syntactic form and every operator text; no test prints and reads back a function.",
     ["parsing.py", "ptypes.py", "tokens.py", "operators.py", "execution.py"], "Unparsing of parse trees and operators, and evaluation of text as code.")
prop("C05", "The repr of a value evaluates to that value",
     "For every value (numbers, strings with any characters, patterns, ranges, nil, functions and nested lists of those), the text the repr operator gives evaluates to an equal value with the same repr. "
     "Different values have different reprs where the strict equality operator tells them apart.",
     ["inputs"], "all values the language can build, nested to any depth",
     "Quoting rules interact with arbitrary string content and with nesting; the tests print a few values.",
     ["ptypes.py", "execution.py", "scanning.py"], "The repr methods of the value types and evaluation of text as code.")
prop("C06", "Values are copied: changing one variable never changes another",
     "An assignment, a call, a loop, a list built from values and every operator hand on values: a later change made through one variable, parameter, loop variable or list item (by index assignment, an assigning operator, or the pushing, popping and swapping operators) is never seen through another. "
     "Operators leave their operands as they were, except for the operand they are defined to modify.",
     ["programs", "histories"], "all sequences of assignments, calls, list constructions and in-place modifications over shared values, to any nesting depth",
     "Aliasing shows only after a particular sequence of copying and modification; the tests do not modify a value after sharing it.",
     ["execution.py", "ptypes.py"], "Copying on assignment, parameter passing and list construction, and the in-place operators.")
prop("C07", "Assignment changes exactly the place it names and yields that place",
     "Assigning to a variable, an indexed place (at any depth), a slice, a list of places, or through a ternary changes exactly that place to the (converted) value and nothing else, and the assignment can itself be assigned to or read. "
     "Compound assignment computes from the old value with each index evaluated as written, swaps exchange both places, destructuring fills missing items with nil, and assignment to something that is no place is reported and changes nothing.",
     ["programs", "inputs"], "all places (names, nested indices, slices, destructuring lists, match variables), all values and all assigning operators",
     "The combinations of place, index (negative, out of range, Range, list) and assigning operator are unbounded; the tests assign to plain variables and few indices.",
     ["execution.py", "ptypes.py"], "Evaluation of operands to places, assignment through places, swap, and the increment, push and pop operators.")
prop("C08", "Each call has its own locals, and calls restore the caller's",
     "Every function call gets its own arguments and local variables; the caller's locals and arguments are unchanged when it returns, normally or through an error, while global variables keep what the call assigned; before anything is assigned, each has its documented value. "
     "Self-reference, argument list and recursion refer to the innermost running function, to any depth, also for functions called by operators and for text evaluated as code.",
     ["programs", "histories"], "all call trees (direct, mutual and operator-driven recursion, evaluated text), including ones ended by errors in a session",
     "Scope errors appear only for particular nestings of calls, assignments and failures; the tests have hardly any nested call.",
     ["execution.py", "pip.py"], "The stack of local scopes, argument binding, and its restoration when calls end or fail.")
prop("C09", "Control flow runs exactly the statements it should, in order",
     "Conditionals, loops (counted, conditional, until, for-each with one or several variables, per regular-expression match) and short-circuiting operators evaluate exactly the conditions and bodies that the truth values of the operands call for, in order, each once. "
     "Loop variables and counts come from the loop's header evaluated once, and the values left in variables after the loop are those of the last iteration.",
     ["programs"], "all nestings of statements and short-circuit operators over all values as conditions and iterables",
     "Order and count of evaluations depend on the values' truth and the nesting; tests exercise single loops.",
     ["execution.py", "parsing.py", "ptypes.py"], "The statement executors, logic and comparison-chain operators, and truth of values.")
prop("C10", "Item-wise operators apply to nested lists and Ranges item by item",
     "An operator that is defined on scalars, applied to lists or Ranges at any depth, on either side or both, gives the list of its results on the items, with the shape of its operands, missing partners being nil. "
     "On Ranges where the result is again a Range it denotes the same items, for infinite Ranges as well.",
     ["inputs"], "all item-wise operators and all nested operands, including empty, ragged, infinite and mixed ones",
     "Shapes and operator pairs are unbounded and each operator declares its own rule; tests have a few flat examples.",
     ["execution.py", "operators.py", "ptypes.py"], "The wrapper that spreads an operator over lists and Ranges according to its table flags.")
prop("C11", "Fold, scan and map meta-operators agree with the operator they modify",
     "Folding a list with a binary operator gives what writing the operator between the items gives (in the operator's own grouping, chained for comparisons), scanning gives the list of those partial results, and mapping a unary operator gives the list of its results. "
     "Folding nothing gives the operator's default value, and the meta-operators combine with each other, with assignment and with lambda building.",
     ["inputs", "programs"], "all operators that take these meta prefixes, all lists including empty, one-element, nested and Range operands, all combinations of prefixes",
     "The result depends on each operator's arity, associativity, default and chaining; tests fold with one or two operators.",
     ["execution.py", "operators.py", "tokens.py", "parsing.py"], "Evaluation of operators carrying fold, scan and map flags.")
prop("C12", "Expressions on the identity function build the expected functions",
     "An operator for which functions can stand for operands, given the blank or a function built from it, yields a function that, called with some arguments, gives what the operator gives on what the operand functions give on those arguments. "
     "Other operators take the function itself as the operand, and values captured when building stay as they were then.",
     ["programs", "inputs"], "all expressions over the blank and the second-argument function, all operators, all arguments",
     "Every operator declares whether it builds functions; combinations with captured values, meta-operators and nesting are unbounded and hardly tested.",
     ["execution.py", "operators.py"], "Lambda building in operator evaluation.")
prop("C13", "Indexing and slicing agree with the sequence of items",
     "An index (negative and out-of-range ones included, which wrap around), a list of indices or a Range of indices applied to a string, list or Range (finite or infinite) selects the items at those positions of the sequence it denotes. "
     "Prefix, suffix, first, rest, find and split-at operators and length agree with this.",
     ["inputs"], "all sequences, all integers and all Ranges with missing, negative or out-of-range ends",
     "Strings, lists and Ranges implement indexing separately, with many boundary cases; tests use few indices.",
     ["ptypes.py", "execution.py"], "Item access of the value types, Range arithmetic, and the indexing and slicing operators.")
prop("C14", "Arithmetic is exact on integers and consistent on all numbers",
     "Arithmetic on numeric values and numeric strings gives the mathematical result (floored division and remainder, exact integers of any size, decimal fractions printed shortest, leading zeros and trailing characters in strings ignored as defined), and conversion to any base and back returns the number. "
     "Bitwise, rounding, root, power, logarithm, exponential, trigonometric and combinatorial functions satisfy their defining equations, and undefined results are nil with a warning.",
     ["inputs"], "all numbers, numeric strings and bases",
     "Signs, zero, fractions, large values and numeric prefixes of strings multiply; tests use small positive integers.",
     ["execution.py", "ptypes.py"], "The arithmetic, bitwise, elementary, base-conversion and rounding operators and numeric parsing and printing of scalars.")
prop("C15", "Comparisons are consistent orders, and sorting, min and max obey them",
     "Numeric, string and length comparisons each put values into one consistent order (exactly one of less, equal, greater on comparable values; lists lexicographically), strict equality is an equivalence that respects type and structure, and chains hold when each pair does. "
     "Sorting, extreme-value, counting and deduplicating operators return exactly the given items, stably, as that order demands.",
     ["inputs"], "all values and lists of values",
     "Consistency is a property of all pairs and triples of values; tests compare a few pairs.",
     ["execution.py", "ptypes.py"], "The comparison and sorting operators and the value types' equality.")
prop("C16", "Map, filter and sort-by call the function once per item, in order",
     "Each mapping, filtering, enumerating, windowing, cartesian and sorting operator calls the given function exactly once per item (or tuple) in order, with the documented arguments, and collects the results as documented, whichever side the function stands on. "
     "Strings, lists and Ranges behave as sequences of items alike.",
     ["inputs", "programs"], "all functions (with side effects) and all sequences, both operand orders",
     "Call order, argument passing and result collection need functions with effects on many kinds of sequence; tests map one or two.",
     ["execution.py", "operators.py"], "The higher-order operators.")
prop("C17", "Restructuring operators keep exactly the items they should",
     "Operators that rearrange, join, split, group, repeat, zip, remove, insert, weave, permute, transpose, flatten or grow sequences produce exactly the items of their operands in the documented order and shape, for strings, lists and Ranges alike, without changing their operands. "
     "Pairs of inverse operators undo each other.",
     ["inputs"], "all sequences, group sizes, positions and nestings, including empty, ragged, negative and zero",
     "About sixty operators, each with boundary cases in sizes and types; tests cover a few.",
     ["execution.py", "ptypes.py"], "The list and string restructuring operators.")
prop("C18", "String operators and regular-expression matching are consistent",
     "Searching, replacing, splitting, counting, trimming, casing, transliterating and matching on strings, with plain strings or patterns (flags and combinations included), give the results of the text's leftmost non-overlapping matches, and replacement functions are called once per match with the match and its groups. "
     "After a match the match variables describe the last match, and only matching operators change them.",
     ["inputs", "programs"], "all texts, patterns and replacements, in all operand positions",
     "The interplay of pattern constructors, groups, empty matches, replacement kinds and match variables is unbounded; tests match little.",
     ["execution.py", "ptypes.py"], "Pattern values and the regular-expression operators, loops and match variables.")
prop("C19", "Printing formats every value as its flags prescribe",
     "For every value, the output and the text conversion follow the chosen output format (concatenated, on lines, spaced, as repr, recursively for nested lists, for each of the format flags), ending with exactly one newline where one is due, and nil prints nothing. "
     "The program's result is printed once after everything printed before it, and output operators return their operand.",
     ["inputs", "configurations"], "all values, nested to any depth, with all format flags, through all output statements",
     "Formats times value shapes is unbounded; tests print flat lists.",
     ["execution.py", "pip.py", "ptypes.py"], "Output formatting by flags and text conversion of values.")
prop("C20", "A bad operation yields nil and a warning; it never crashes the interpreter",
     "An operator applied to any operands of any types either computes a result or warns and yields nil, and execution goes on; only errors defined as fatal end a program, with a message on standard error and exit status 1, and no internal exception ever escapes. "
     "Whether warnings are shown never influences results, output or exit status.",
     ["inputs", "programs", "configurations"], "all operators on all combinations of operand types and values, warnings on and off",
     "About two hundred operators times eight operand types squared; tests give operators operands they support.",
     ["execution.py", "errors.py", "pip.py", "ptypes.py"], "Type checks with warnings in operators, the error reporter, and the top-level handler.")
prop("C21", "Arguments and standard input reach the program exactly, each line once",
     "Command-line arguments (or, by flag, the lines of standard input, or values evaluated from them) are bound to the argument variables and the argument list in order, missing ones being nil, and code can come from a file, an option or standard input with the same meaning. "
     "Every read in a program takes the next unread line exactly when it is evaluated, and reading past the end yields nil.",
     ["inputs", "configurations", "histories"], "all argument lists, input texts, option combinations and orders of reading",
     "Tests pass no input and few arguments; reading interleaves with output and control flow.",
     ["pip.py", "execution.py"], "Command-line handling, argument conversion, and the special variable that reads input.")
prop("C22", "A session equals its lines run in turn, surviving every error",
     "In the interactive session each complete entry is executed in the state the earlier ones left (variables, functions, match variables, input), its value is printed, and commands answer as documented; errors of any kind are reported and leave earlier state and the session usable. "
     "The session ends only at the end of input or by the exit command, with status 0.",
     ["histories", "programs"], "all sequences of entries, complete, incomplete, malformed and failing, and commands",
     "The tests have no session at all; state leaks show only after particular sequences.",
     ["pip.py", "execution.py", "parsing.py"], "The read-eval-print loop, its continuation lines, commands, and recovery from errors.")

prop("C23", "Random operators draw exactly the allowed values, reproducibly by seed",
     "A random choice gives one of the operand's items, a random integer one of those in the range the operand or operands denote, shuffling some arrangement of exactly the operand's items, and the random variable a number from 0 up to but not including 1; each possible outcome does occur, and operands stay unchanged. "
     "After the random variable is assigned a value, the same requests in the same order give the same draws each time that value is assigned, in every process; operands with nothing to draw give nil and a warning.",
     ["programs", "inputs", "histories"], "all operands (strings, lists, Ranges, integers, bounds in either order), seeds, and sequences of draws",
     "Draws differ from run to run, so a test can only sample outcomes; a bound that is never reached or a seed that works within one process only is not seen.",
     ["execution.py", "operators.py"], "The random choice, range, shuffle and random-number operators and seeding by assignment.")

prop("C24", "Options, words and modes of the command line take effect exactly as given",
     "The words of a command line (options in any spelling, order and combination, the program's source, its arguments) mean the same whether given to the command, typed when the interpreter asks for them, or passed to the run function as a list or as quoted text; unusable ones are reported and nothing is executed. "
     "Help, version and session options take precedence over running a program, and the verbose and debug options add the program's size, tokens and tree to the output and change nothing else.",
     ["configurations", "inputs"], "all command lines (words with any characters, quoted in any way), in each of the ways to give them",
     "Options combine freely and words may be anything; the tests never run the command.",
     ["pip.py", "scanning.py"], "Splitting of command lines, the option parser, the choice of source and mode, and verbose output.")

NOTE = ("Model checking of an explicit TLA+ specification of the whole interpreter (scanner, parser, values, machine, session): TLC explores the property's "
        "law instances (one in N in quick, all in thorough) and every explored behaviour is replayed on the code; random programs aimed at the property are "
        "run on the code and TLC validates each recorded trace (output, order of reads, outcome, whether diagnostics appear) against the specification. "
        "Bounded by generators and domains; trusts TLC, CPython and the specification's number domain.")
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                     "technique": "TLA+ specification checked with TLC; trace validation and behaviour replay against the code",
                     "level": "model_checking", "level_note": NOTE} for p in P],
         "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
