#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list lives here because a Python literal is easier to review than JSON lines."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {'files': ['modularcalculator/' + f for f in files], 'mechanism': [{'name': n, 'where': 'modularcalculator/' + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'modularcalculator/' + w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

AR = 'features/numerical/'
# ---------------------------------------------------------------- numbers
p('N01', 'Arithmetic on numbers is exact rational arithmetic',
  'Adding, subtracting, multiplying, dividing, negating or taking the absolute value of numbers gives the mathematically exact rational result, however the operations are chained, as long as the integers involved stay within the configured number size. Every number is held in lowest terms with a positive denominator. Dividing by zero is an error, never a value.',
  ['inputs', 'programs'], 'for all rational operands (signed integers and fractions) and all short chains of the operations',
  'The tests compare a few dozen fixed values; sign combinations, unreduced or negative denominators and multi-step chains that keep a non-terminating fraction are an infinite input space.',
  ['objects/number.py', AR + 'basicarithmetic.py'], [('normalising constructor', 'objects/number.py:Number.__init__'), ('common denominator', 'objects/number.py:Number.normalise'), ('arithmetic operators', AR + 'basicarithmetic.py')],
  [('num/den', 'reduced fraction', 'objects/number.py:Number')])
p('N02', 'Number comparison is one total order, consistent with equality and hashing',
  'For any two numbers exactly one of less-than, equal and greater-than holds, it is the one that holds of the exact rational values, and <=, >=, != and the calculator operators <, >, <=, >=, ==, != all agree with it. Numbers that are equal have equal hashes, whatever way they were constructed or displayed.',
  ['inputs'], 'for all pairs (and triples) of rational numbers, including equal values built from different fractions',
  'Tests compare a handful of literal pairs; consistency between six operators and hashing has to hold for every pair of fractions.',
  ['objects/number.py', 'features/boolean/booleans.py'], [('rich comparisons and hash', 'objects/number.py:Number.__lt__..__hash__'), ('comparison operators', 'features/boolean/booleans.py')])
p('N03', 'Integer powers are exact',
  'Raising a rational number to an integer power gives exactly the repeated product: x^0 is 1 and x^-n is 1/x^n for non-zero x. A non-zero number to a power n times the same number to a power m equals that number to the power n+m, and zero to a negative power is an error.',
  ['inputs'], 'for all rational bases and all integer exponents within the bound, positive, zero and negative',
  'The tests raise a few literals to small powers; negative exponents of negative fractions and the sign of the denominator are hit only by luck.',
  ['objects/number.py', AR + 'basicarithmetic.py'], [('power', 'objects/number.py:Number.__pow__')])
p('N04', 'floor, ceil and round give the nearest multiple in the stated direction',
  'floor(x, p) is the largest and ceil(x, p) the smallest multiple of 10^-p that is not above, respectively not below, x, and round(x, p) is the nearest multiple with ties going away from zero, for positive and negative x and for negative, zero and positive p, with p defaulting to 0. For numbers in another base the multiples are of that base, and for percentages p counts decimal places of the percentage.',
  ['inputs'], 'for all rational x and all small integer p, in every numerical representation',
  'Ties, negative values and values within one part in a billion of a boundary are single points that sampled tests miss.',
  ['objects/number.py', AR + 'numericalfunctions.py'], [('scaling', AR + 'numericalfunctions.py:apply_rounding_function'), ('rounding methods', 'objects/number.py:Number.__round__/__floor__/__ceil__')])
p('N05', 'Modulus and integer division decompose the dividend',
  'x % y has the sign of x, is smaller in magnitude than y, and differs from x by an exact whole multiple of y, while x \\ y is x / y rounded down to a whole number; for operands of the same sign they fit together as (x \\ y) * y + x % y = x. Both are errors when y is zero.',
  ['inputs'], 'for all rational x and y, including fractions and negative values',
  'The tests use a few positive literals; the identities must hold for all fractions and sign combinations.',
  ['objects/number.py', AR + 'advancedarithmetic.py'], [('modulus', 'objects/number.py:Number.__mod__'), ('integer division', AR + 'advancedarithmetic.py:op_number_integer_divide')])
p('N06', 'Decimal text of a number is correctly rounded, canonical and re-readable',
  'The decimal text of a number is the value rounded half away from zero to the configured number of decimal places, with no trailing zeros or trailing point, never exponent notation and never "-0". Reading that text back gives exactly the displayed value, and reading any decimal literal gives exactly the value it denotes.',
  ['inputs', 'configurations'], 'for all rational numbers within the bound and all configured numbers of decimal places; for all decimal literals up to the bounded length',
  'Rounding carries, values that round to zero, and trailing-zero stripping of whole numbers such as 100 are boundary values; the input space is infinite.',
  ['objects/number.py', AR + 'decimalnumbers.py'], [('to_string', 'objects/number.py:Number.to_string'), ('literal parsing', AR + 'decimalnumbers.py')])
p('N07', 'Numbers in other bases denote and display their positional value',
  'A binary, octal, hexadecimal or arbitrary-base (2 to 36) literal, in either letter case, with or without sign and fraction, denotes exactly its positional value, and a digit outside the base is not accepted as part of it. Displaying a number in one of these bases produces a literal that reads back as the same number whenever its expansion is finite within the configured number of places, and otherwise one that truncates it (in base 10: rounds it) by less than one unit in the last place.',
  ['inputs'], 'for all digit strings up to the bounded length in all bases, and for all rationals within the bound',
  'There are far too many digit strings; digits that look like a prefix (0b, 0x), leading zeros and fractions whose visible digits are all zero are missed by example tests.',
  [AR + 'bases.py', AR + 'binarynumbers.py', AR + 'octalnumbers.py', AR + 'hexadecimalnumbers.py', AR + 'arbitrarybasenumbers.py'], [('base_to_dec / dec_to_base', AR + 'bases.py'), ('prefix handling', AR + 'bases.py:number_remove_prefix/number_add_prefix')])
p('N08', 'Bitwise operators follow binary arithmetic on whole numbers',
  'On non-negative whole numbers &, | and ^^ combine the binary digits position by position, << n multiplies by 2^n and >> n divides by 2^n rounding down. ~ flips every binary digit within the width of its operand - the written width of a binary literal, which bitwise operators keep (the wider of two), otherwise the digits the number or the operands need in binary, at least one - so ~~ of a binary literal gives back its value; negative or fractional shift amounts and ~ of negative or fractional numbers are errors.',
  ['inputs'], 'for all pairs of whole numbers below the bound and all widths and shifts within the bound',
  'Bit patterns and widths multiply; the tests use a few 4 to 8 bit constants.',
  [AR + 'bitwiseoperators.py', AR + 'bases.py'], [('operators', AR + 'bitwiseoperators.py'), ('operand width', AR + 'bitwiseoperators.py:get_biggest_width')], [('binary_number_width', 'digits a bitwise complement flips', AR + 'bitwiseoperators.py')])
p('N09', 'A numerical representation changes how a number looks, never its value',
  'Literals in percentage, scientific, binary, octal, hexadecimal and arbitrary-base form denote exact rational values (n% is n/100, aEb is a*10^b), and "as" and the base functions change only the representation. An arithmetic result is shown in the representation of its first operand that is not a plain decimal number and has the same value as with decimal operands; its text in that representation reads back as the same value whenever it is finitely representable there.',
  ['inputs', 'programs'], 'for all values within the bound, all ordered pairs of representations and all arithmetic operators',
  'The cross product of representations, operators and values is untested apart from a few pairs.',
  [AR + 'numericalrepresentation.py', AR + 'percentagenumbers.py', AR + 'expnumbers.py', 'objects/operators.py'], [('number_cast', 'objects/number.py'), ('convert_numbers', 'objects/operators.py:Operation.convert_numbers'), ('as operator', AR + 'numericalrepresentation.py:op_as')])
p('N10', 'gcd, lcm, abs and factorial match their mathematical definitions',
  'gcd(a,b) is the largest whole number dividing both, lcm(a,b) the smallest non-negative common multiple, abs(a) the magnitude and fact(n) the product 1..n, for whole numbers of either sign. gcd and lcm of fractions and fact of negative or fractional numbers are errors.',
  ['inputs'], 'for all whole numbers within the bound', 'Tests use a couple of literal pairs.',
  [AR + 'numericalfunctions.py'], [('functions', AR + 'numericalfunctions.py:func_gcd/func_lcm/func_abs/func_fact')])
p('N11', 'sum, mean, median, mode, min and max aggregate exactly and ignore order',
  'sum, mean, min, max and median of a non-empty array of numbers equal their mathematical definitions on the exact values and do not depend on the order of the elements, and mode returns a value that occurs most often. With units, the aggregate denotes the aggregate of the quantities, and giving the numbers as separate arguments gives the same answer as giving one array.',
  ['inputs'], 'for all arrays up to the bounded length of arbitrary rationals, in every order, with every mix of compatible units',
  'Ties, duplicates, permutations and mixed units form an unbounded input space; tests use a few fixed arrays.',
  [AR + 'statisticalfunctions.py', 'objects/operators.py'], [('aggregates', AR + 'statisticalfunctions.py'), ('array normalisation', 'objects/operators.py:Operation.call')])
# ---------------------------------------------------------------- evaluator
p('E01', 'Operators group by the published precedence and associativity',
  'An expression that mixes operators evaluates exactly as if fully bracketed according to the published precedence levels: operators on a tighter level first, left to right within a level (right to left for prefix operators), with adjacent values multiplied implicitly on their own level. Brackets override this and otherwise change nothing.',
  ['programs', 'inputs'], 'for all operator sequences up to the bounded length, all bracketings and all operand values',
  'The number of operator sequences grows exponentially and the tests fix a few dozen of them with fixed operands.',
  ['engine.py', 'features/layout.py', 'modularcalculator.py'], [('execution loop', 'engine.py:Engine.execute'), ('precedence table', 'features/layout.py:op_map'), ('operator insertion', 'modularcalculator.py:add_op')])
p('E02', 'Any input text yields a response or a calculator error',
  'Whatever text is given to the calculator, calculating it terminates and either returns a response or raises the calculator\'s own calculating error, never any other exception. Every value in a returned response can be rendered as text.',
  ['inputs', 'programs'], 'for every string over the input alphabet up to the bounded length, and for every well-formed template with arbitrary tokens in its holes',
  'Tests feed a fixed list of malformed inputs; the space of texts is exponential.',
  ['engine.py', 'objects/operators.py', 'objects/number.py', 'features/arrays/arrays.py'], [('error wrapping', 'engine.py:Engine.calculate'), ('operation error wrapping', 'objects/operators.py:Operation.call')])
p('E03', 'Parsing is lossless and errors are located',
  'When a text parses, concatenating the texts of the parsed items of all statements, in order, reproduces the text exactly, and each result carries exactly the text of its own statement. When calculation fails, the items reported before the error followed by the reported offending text are a position-consistent part of the input: the reported items form a prefix of the input and the offending text occurs right after it or within the last reported item.',
  ['inputs', 'programs'], 'for every string over the input alphabet up to the bounded length and for templates with arbitrary tokens in their holes',
  'Highlighting and error positions are checked for a fixed list of inputs; every parser can drop or duplicate text for some other input.',
  ['engine.py', 'objects/exceptions.py', 'objects/items.py', 'features/structure/innerexpressions.py', 'features/structure/functions.py', 'features/arrays/arrays.py'], [('parse loop', 'engine.py:Engine.parse'), ('position search', 'objects/exceptions.py:find_pos'), ('non-functional item restoration', 'engine.py:restore_non_functional_items')])
p('E04', 'Spaces and comments never change a result',
  'Inserting spaces, tabs or a comment between any two tokens of a valid expression - at the ends, inside brackets, function arguments or arrays - changes neither its results nor its effects on variables, and so does adding a final line break. Removing spaces where the tokens still separate changes nothing either.',
  ['inputs', 'programs'], 'for all placements of white space and comments in all template expressions',
  'Placements multiply per token boundary; tests contain a handful.',
  ['features/nonfunctional/space.py', 'features/nonfunctional/comments.py', 'engine.py', 'objects/items.py'], [('non-functional items', 'objects/items.py:functional_items'), ('previous functional item', 'objects/items.py:previous_functional_item')])
p('E05', 'A multi-statement text behaves as its statements run one after another',
  'Calculating a text of several statements separated by line breaks, each of which can be parsed, gives the same results and the same final variables as calculating them one by one on the same calculator. If a statement fails, the error carries the results of all statements before it, the effects of those statements remain, and no later statement is executed; a line break directly after an operator that still needs a right operand continues the statement.',
  ['programs', 'histories'], 'for all statement sequences up to the bounded length from the template family, with a failing statement at every position',
  'Sequences and failure positions multiply; tests use a few two- or three-line scripts.',
  ['engine.py', 'features/structure/terminator.py'], [('statement loop', 'engine.py:Engine.calculate'), ('statement terminator', 'features/structure/terminator.py:parse_terminator')], [('vars', 'variables', 'features/state/assignment.py')])
p('E06', 'Parse-only, stateless and failing evaluation leave variables untouched',
  'Calculating with the parse-only flag executes nothing, and with the stateless flag changes no variable, whatever the text. Evaluating an expression changes no variable other than those it assigns or deletes; an assignment whose right-hand side fails leaves its target unchanged, and values already returned or stored are not altered by later evaluations.',
  ['inputs', 'programs', 'histories'], 'for all template texts with all assignment forms, all flag combinations and all prior variable states',
  'Tests check the flags for one or two assignments only.',
  ['engine.py', 'features/state/assignment.py', 'features/state/assignmentoperators.py', 'features/structure/terminator.py'], [('stateless guard', 'features/state/assignment.py:op_var_set'), ('parse_only guard', 'engine.py:Engine.calculate'), ('terminator probe rollback', 'features/structure/terminator.py:parse_terminator')])
p('E07', 'A result depends only on the text and the variables, not on what ran before',
  'The response (or error) of a calculation is a function of the text, the flags, the configuration and the current variables only: calculations made earlier on the same calculator, successful or failing, have no other influence, and repeating a calculation that assigns nothing repeats its result.',
  ['histories', 'programs'], 'for all pairs of texts from the template family: the second after the first, against the second alone with the same variables',
  'Cross-calculation interference needs a particular pair of texts; the number of pairs is quadratic in an exponential space.',
  ['engine.py', 'features/structure/terminator.py', 'objects/operators.py'], [('per-call state', 'engine.py:Engine.calculate'), ('terminator memory', 'features/structure/terminator.py:last_failed_terminator')])
p('E08', 'Operators and functions reject operands of the wrong type or number',
  'An operator or function applied to a value of a type it does not accept, to too few or too many arguments, or to an argument with a unit of the wrong dimension reports an error and never produces a value. Arguments of an accepted type are never rejected for their type.',
  ['inputs', 'programs'], 'for all registered operators and functions, all argument counts within the bound and all combinations of value kinds (number, string, boolean, array, empty, unit, date)',
  'Only a few wrong-typed calls are tested; the matrix of operators, positions and kinds is large and operand values are unbounded.',
  ['objects/operators.py', 'engine.py'], [('validation', 'objects/operators.py:Operation.validate'), ('type restrictions', 'objects/operators.py:add_value_restriction')])
p('E09', 'Text is highlighted and rendered without loss',
  'Highlighting any text returns fragments whose concatenation is that text, for valid and invalid input alike.',
  ['inputs', 'programs'], 'for every string over the input alphabet up to the bounded length and for templates with arbitrary tokens in their holes',
  'The tests highlight no more than a few inputs.',
  ['services/syntaxhighlighter.py'], [('highlighter', 'services/syntaxhighlighter.py')])
# ---------------------------------------------------------------- boolean, state, functions, arrays
p('B01', 'Boolean operators follow truth tables and isolate errors in untaken branches',
  'not, and, or and xor follow their truth tables, and "c then a else b" yields a when c is true and b when c is false, with the value and unit of the branch taken. An error in the branch not taken, or in an operand of and/or that does not affect the outcome because the left operand decides it, does not affect the result; an error in a deciding operand does.',
  ['inputs', 'programs'], 'for all operand values, all nestings up to the bound and errors in every operand position',
  'Combinations of nested conditionals and failing operands are not enumerated by tests.',
  ['features/boolean/booleans.py', 'engine.py', 'objects/operators.py'], [('boolean operators', 'features/boolean/booleans.py'), ('exceptions as operands', 'objects/operators.py:inputs_can_be_exceptions')])
p('S01', 'Assignments store exactly the value computed',
  'After "v = e" the variable v holds the value and unit e evaluates to, v evaluates to it from then on, and no other variable changes; "v op= e" is equivalent to "v = v op e" for every compound assignment, v++ and v-- to "v += 1" and "v -= 1", and "v ||= e" assigns only if v does not exist. delete removes exactly its variable and reset removes all.',
  ['inputs', 'histories'], 'for all variable names within the bound, all values, and all compound operators',
  'Tests run each operator on one or two fixed values.',
  ['features/state/assignment.py', 'features/state/assignmentoperators.py', 'features/state/assignmentfunctions.py'], [('assignment', 'features/state/assignment.py:op_var_set'), ('compound assignment', 'features/state/assignmentoperators.py:assignment_operator')], [('vars', 'variables', 'features/state/assignment.py')])
p('F01', 'Functions defined by the user evaluate in their own scope',
  'Calling an inline or external function evaluates its body with PARAM1, PARAM2, ... bound to the argument values and units and gives the value and unit of its last statement. When the call ends - normally or with an error at any statement - every variable of the caller, including any PARAM variables, is exactly as before the call; nested and repeated calls do not disturb each other.',
  ['programs', 'inputs', 'fault_sequences'], 'for all argument values, all bodies from the template family and a failure at every statement of the body',
  'A failure at each possible point of the body, combined with nesting and recursion depth, is not covered by tests.',
  ['features/structure/inlinefunctions.py', 'features/structure/externalfunctions.py', 'features/structure/functionpointers.py'], [('variable backup', 'features/structure/inlinefunctions.py:do_function'), ('external files', 'features/structure/externalfunctions.py')])
p('A01', 'Operations on arrays apply element by element',
  'Applying an operator or function to arrays where it expects single values gives the array of its results on corresponding elements, with non-array operands repeated, including units and nested arrays. An element whose calculation fails yields an error in its own position only, arrays of different lengths are an error, and the operand arrays are unchanged.',
  ['inputs', 'programs'], 'for all element values, all array lengths within the bound and all binary and unary operators of the family',
  'Tests try a few operators on short constant arrays.',
  ['objects/operators.py'], [('broadcasting', 'objects/operators.py:Operation.call')])
p('A02', 'Array ranges enumerate exactly the stated progression',
  '[a..b] and [a..b step s] contain exactly a, a+s, a+2s, ... up to and including the last value not beyond b, with s defaulting to 1 or -1 towards b; a step pointing away from b is an error and a step of zero yields no unbounded computation. With units, start, end and step may be given in different units of the same dimension, and the elements are in the unit of the start; only numbers (or values that count as numbers) form ranges.',
  ['inputs'], 'for all rational starts, ends and steps giving at most the bounded number of elements, in compatible units',
  'Off-by-one at the end point depends on exact fractions; tests use integers.',
  ['features/arrays/arrays.py'], [('range expansion', 'features/arrays/arrays.py:ArrayElement.value')])
p('A03', 'Array functions preserve and order elements as documented',
  'count gives the length; reverse, concat, element and filter return exactly the elements documented, with their units, in the documented order; sort returns a permutation of its input in ascending order of quantity, keeping each element in its own unit. None of them alters the array it is given, and element with an index out of range is an error.',
  ['inputs'], 'for all arrays up to the bounded length of arbitrary values and all indices and filters',
  'Permutations, duplicates and mixed units are not enumerable by example.',
  ['features/arrays/arrayfunctions.py', 'objects/operators.py'], [('array functions', 'features/arrays/arrayfunctions.py'), ('original value restoration', 'objects/operators.py:Operation.call')])
# ---------------------------------------------------------------- units
p('U01', 'Converting a value between units preserves the quantity',
  'Converting a value to another unit of the same dimension multiplies it by exactly the ratio of the two units\' scales, so converting there and back returns exactly the original value, converting via a third unit makes no difference, and conversion is monotonic and maps zero to zero for non-temperature units. Converting between different dimensions is an error.',
  ['inputs', 'configurations'], 'for all values and all units and compound units of the catalogue with rational scales',
  'Tests convert one literal per unit; round trips over all values and unit pairs are not tested.',
  ['services/unitnormaliser.py', 'objects/units.py', 'features/units/units.py'], [('conversion', 'services/unitnormaliser.py:unit_conversion'), ('scales', 'objects/units.py:UnitDefinition.convert')])
p('U02', 'Quantities of different dimensions never mix',
  'Adding, subtracting, comparing or converting quantities whose dimensions differ - including a quantity and a plain number - is an error, and is accepted whenever the dimensions agree, however the compound units are written.',
  ['inputs', 'programs'], 'for all pairs of compound units up to the bounded number of factors with bounded powers, and all values',
  'The pairs of compound units are unbounded in number; tests use a few.',
  ['services/unitnormaliser.py', 'objects/units.py'], [('dimension comparison', 'services/unitnormaliser.py:unit_normalised_dimensionlist'), ('input normalisation', 'services/unitnormaliser.py:normalise_inputs')])
p('U03', 'Arithmetic on quantities in mixed units is arithmetic on the quantities',
  'Adding, subtracting and comparing quantities in different units of one dimension gives the result of doing so in base units, expressed in the unit of the left operand. Multiplying, dividing and raising quantities to whole powers multiplies, divides and raises both the base-unit magnitudes and the dimensions exactly, whatever the units of the operands.',
  ['inputs', 'programs'], 'for all values and all units from the family, in all operand orders',
  'Every pair of units and every value would have to be tried.',
  ['services/unitnormaliser.py', 'objects/units.py', AR + 'basicarithmetic.py'], [('normalisation', 'services/unitnormaliser.py:normalise_inputs/normalise_from_left/normalise_from_right'), ('unit algebra', 'objects/units.py:AbstractPowerList')])
p('U04', 'Unit simplification changes the unit, never the quantity',
  'Simplifying the unit of a result never changes its base-unit magnitude or its dimensions, for any value and any compound unit, and always terminates. With simplification off, or when the unit was requested explicitly with "to", the unit is left as it is.',
  ['inputs', 'programs'], 'for all values and all compound units of up to the bounded number of factors and powers',
  'The choice of replacement units depends on the value and on the whole unit catalogue; tests sample a few.',
  ['services/unitnormaliser.py', 'engine.py'], [('simplification', 'services/unitnormaliser.py:simplify_units/dedupe'), ('finalisation', 'engine.py:finalize')])
p('U05', 'Temperatures convert absolutely or relatively as appropriate',
  'Converting a temperature with "to" maps absolute temperatures exactly (0 C = 273.15 K = 32 F and so on, linearly), so there-and-back returns the same value. In sums, differences, products and quotients temperature operands are treated as temperature differences and only the scale applies.',
  ['inputs'], 'for all rational temperatures and all pairs of temperature units',
  'Tests convert a few fixed temperatures.',
  ['features/unitdefinitions/temperature.py', 'services/unitnormaliser.py'], [('offset conversion', 'features/unitdefinitions/temperature.py'), ('relative flag', 'objects/operators.py:units_relative')])
p('U06', 'A displayed unit reads back as the same unit',
  'The name, plural, singular or symbol text of any simple or compound unit, with any whole powers, when written after a number, is read as a unit of the same dimensions and scale. Unit names are recognised in any letter case, symbols only in their own.',
  ['inputs', 'configurations'], 'for all units in the catalogue and all compound units up to the bounded number of factors and powers',
  'Hundreds of units with prefixes combine into an unbounded set of compound names.',
  ['objects/units.py', 'features/units/units.py', 'services/unitnormaliser.py'], [('naming', 'objects/units.py:UnitPowerList.name'), ('lookup', 'services/unitnormaliser.py:get_unit'), ('parser', 'features/units/units.py')])
p('U07', 'A formatted quantity denotes the quantity',
  'format writes a non-zero quantity of a single unit as a list of amounts of ever smaller units of one measuring system - the one asked for, if any - which add up to the quantity, each unit the largest unprefixed one (or a prefixed form of it) that fits into what the amounts before leave: only the last amount can be negative, and only it is rounded, to the displayed number of places. The first amount of a temperature is absolute, the others are added to it.',
  ['inputs', 'configurations'], 'for all quantities and measuring systems', 'Tests format a few quantities.',
  ['features/units/unitfunctions.py', 'services/unitnormaliser.py'], [('format', 'features/units/unitfunctions.py:GeneralUnitFunctionsFeature.func_format')])
# ---------------------------------------------------------------- strings, dates, configuration
p('T01', 'String literals denote exactly the characters written',
  'A quoted literal denotes the characters between its quotes, with an escape character making the next character (quote, escape or any other) literal, and ends at the first unescaped quote; writing any string with quote and escape characters escaped and reading it back gives the same string. An unterminated literal is an error.',
  ['inputs'], 'for all strings up to the bounded length over an alphabet containing quotes, escapes, operators and line breaks',
  'Escape sequences at every position form an exponential space.',
  ['features/strings/strings.py'], [('literal parser', 'features/strings/strings.py:parse_string')])
p('T02', 'String functions and comparisons match their definitions',
  'Concatenation, repetition, length, lower, upper, lstrip, rstrip, strip, find, replace, substr, join and split, and the case-sensitive and caseless string comparisons, give the results defined by their documentation for all strings. Numbers given where a string is expected are used as their displayed text by all of them.',
  ['inputs'], 'for all argument strings up to the bounded length and all indices within the bound',
  'Overlapping matches, empty arguments and index boundaries are not enumerated by tests.',
  ['features/strings/stringfunctions.py', 'features/strings/stringcomparison.py', 'features/strings/stringarrayfunctions.py', 'features/strings/strings.py'], [('functions', 'features/strings/stringfunctions.py'), ('comparisons', 'features/strings/stringcomparison.py')])
p('D01', 'Date arithmetic is invertible and exact',
  'Adding a time period to a date gives the date that lies exactly the period later, to the microsecond and with the same offset from UTC, and subtracting the same period gives back the date. The difference between two dates is exactly the period that leads from one to the other, a date printed by the calculator reads back as the same date, and a text that is no date of the calendar is refused.',
  ['inputs'], 'for all dates and all time periods', 'Tests use a few fixed dates; ends of months and years, leap days, fractions, offsets and long periods are not.',
  ['features/dates/dates.py', 'features/dates/datefunctions.py', 'features/dates/dateoperators.py'], [('date functions', 'features/dates/datefunctions.py')])
p('X01', 'Transcendental and special functions are accurate',
  'exp, log, the trigonometric and hyperbolic functions, stdev and the special functions return the mathematical value within their floating-point accuracy and reject arguments outside their domain.',
  ['inputs'], 'for all real arguments', 'Tests sample a few arguments.',
  [AR + 'trigonometryfunctions.py', AR + 'specialfunctions.py', AR + 'numericalfunctions.py'], [('functions', AR + 'trigonometryfunctions.py'), ('functions', AR + 'specialfunctions.py')])
p('X02', 'Regular-expression operations match as documented',
  '"=~" is true exactly when the pattern occurs somewhere in the text and "!~" exactly when it does not, regexcount counts the occurrences, regexget lists what they matched (the group, if there is one; or a numbered occurrence, an error if there is none), regexsplit gives the texts between them and regexsub replaces all of them or the first, with references to groups, for every pattern and text: occurrences are those of the regular-expression language, found from the left and not overlapping. A pattern or replacement that is none is an error.',
  ['inputs'], 'for all patterns and subjects', 'Tests match a single pattern.',
  ['features/strings/regex.py'], [('regex operations', 'features/strings/regex.py')])
p('C01', 'Behaviour does not depend on the order features are installed in',
  'Installing the same features together, listed in any order, gives a calculator with the same parsers, operators, functions and precedence, in which operators rank as in the published precedence table and parsers are tried in the published order. Installing a feature also installs everything it depends on, and installing one twice changes nothing.',
  ['configurations'], 'for all orders of installing any few features (with their dependencies), and all insertion orders of any few operators or parsers',
  'Tests install features in two fixed orders; the number of orders is factorial.',
  ['modularcalculator.py', 'features/layout.py'], [('insertion by table', 'modularcalculator.py:add_op/add_parser'), ('dependency closure', 'modularcalculator.py:install_features')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
