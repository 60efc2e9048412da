META = {}
def _m(prop, rule, assumptions=()):
    META[prop] = dict(rule=rule, assumptions=list(assumptions))

_m('C01', 'Each event is one operation on concrete vectors whose result was compared with the integer model; '
          'distinct = different (operation, width, operands) tuples; every event is a full result comparison.')
_m('C02', 'Each event is one comparison, reading or Boolean operation compared with the integer model; distinct = different (operation, width, operands).')
_m('C03', 'Each event is one structural operation (index, slice, concat, extend, repeat, rotate) compared with a bit list; distinct = different (operation, width, pattern, parameters).')
_m('C04', 'Each event is one construction or round trip compared with value mod 2^n; distinct = different (width, argument kind, value).')
_m('C05', 'Each event is one operator application with a plain, mismatched or foreign operand compared with the same application on converted operands (or required to raise); distinct = different (operator, side, operand kind, width, values).')
_m('C06', 'Each event is one observed state of a live vector after a step of a history (or one write / rejected write); distinct = different (type, state) and (width, index, bit, state).')
_m('C07', 'Each event is one adc or overflow result compared with integer addition; distinct = different (width, a, b, carry).')
_m('C08', 'Each event is one selected leaf (or rejected branch pair) compared with the branch expected; distinct = different (leaf type, branch values, select).')
_m('C09', 'Each event is one operator on a mixed-kind value compared with the integer model of the selected kind; distinct = different (operator, kind, width, values).')
_m('T01', 'Each event is one sized (bound) type whose parameters, name, kind, identity and relations were compared with the request; distinct = different (kind, parameters).')
_m('S01', 'Each event is one symbolic result evaluated under one assignment and compared with the concrete run; distinct = different (operation, result type, result).',
   ['pysmt formulas are read by an independent evaluator (vmon/smteval.py) using SMT-LIB semantics.'])
_m('S02', 'Each event is one z3-backed result evaluated under one assignment and compared with the concrete run (or one operation compared with its z3 definition for all values); distinct = different (operation, result type, result).',
   ['z3 evaluates closed terms correctly.'])
_m('S03', 'Each event is one substituted expression evaluated under one assignment and compared with the original read under the modified assignment; distinct = different (pairs, type, value).',
   ['pysmt formulas are read by an independent evaluator (vmon/smteval.py) using SMT-LIB semantics.'])
_m('S04', 'Each event is one variable created (or naming refused) and compared with every live variable of its history; distinct = different (backend, kind, way of naming, position).')
_m('S05', 'Each event is one selected leaf, operator result on a mixed value, or state after a symbolic write, evaluated under one assignment and compared with the concrete meaning; distinct = different (leaf or operator, value, select).',
   ['pysmt formulas are read by an independent evaluator (vmon/smteval.py) using SMT-LIB semantics; z3 evaluates closed terms correctly.'])
_m('S06', 'Each event is one integer or comparison term evaluated under one assignment and compared with Python ints; distinct = different (operation, value).',
   ['pysmt formulas are read by an independent evaluator (vmon/smteval.py) using SMT-LIB semantics.'])
_m('S07', 'Each event is one formula evaluated under one assignment (or printed, or one rejected member) and compared with its Boolean meaning; distinct = different (constructor, leaf count, value, assignment).',
   ['pysmt formulas are read by an independent evaluator (vmon/smteval.py) using SMT-LIB semantics.'])
_m('S08', 'Each event is one floating-point term whose function symbol, operands and type were checked against every symbol seen so far; distinct = different (format, operation).')
_m('S09', 'Each event is one attempt to mix symbolic and concrete values, required to raise or to give the symbolic meaning; distinct = different (operation, operand types, values).',
   ['pysmt formulas are read by an independent evaluator (vmon/smteval.py); z3 evaluates closed terms correctly.'])
FPA = ['IEEE 754 results are defined by the rational-arithmetic model in vmon/fpmodel.py, which shares no code with gmpy2.']
_m('F01', 'Each event is one floating-point result whose exact value was compared with the exactly rounded rational result; distinct = different (operation, format, mode, operand patterns).', FPA)
_m('F02', 'Each event is one bit pattern reinterpreted as a float and back (or one rejected width), its value compared with the IEEE 754 value; distinct = different (format, pattern).', FPA)
_m('F03', 'Each event is one value fully classified or one pair compared by all operators against the model; distinct = different (format, patterns).', FPA)
_m('F04', 'Each event is one floating-point call whose outcome under a hostile context (or in between other formats or threads) was compared with its outcome alone, and the context with what it was; distinct = different (call, format, outcome) and thread interleavings.', FPA)
_m('F05', 'Each event is one conversion (construction, cast, to a vector, to float, plain operand or refused operand) compared with the exactly rounded number; distinct = different (format, kind of number, value).', FPA)
_m('F06', 'Each event is one value of a format without IEEE compliance inspected by all classification routes; distinct = different (format, way of making, value).', FPA)
_m('F07', 'Each event is one drawn value whose type and range were checked; the group then checks which bits and values occurred; distinct = different (type, value).')
_m('A01', 'Each event is one live value compared field by field (by every route) with the record model after a step, or one equality/hash comparison; distinct = different (type, contents).')
_m('A02', 'Each event is one live sum/union value compared with the alternative last set after a step, or one equality/hash comparison; distinct = different (type, alternative, contents).')
_m('A03', 'Each event is one ill-formed construction, update or dictionary that had to be refused (the value being compared with what it was before); distinct = different (type, route, contents).')
_m('A04', 'Each event is one enumerated value, type-checked and identified; the set per type is compared with the model enumeration; distinct = different (type, value).')
_m('A09', 'Each event is one value converted to its dictionary and back (several mapping kinds) and compared; distinct = different (type, contents).')
_m('A10', 'Each event is one pair of enum members compared by ==, !=, hash, identity and attribute access; distinct = different (names, expected equality).')
_m('A05', 'Each event is one type defined (or refused) and compared with every live type of its history and with its declaration; distinct = different definitions.')
_m('A06', 'Each event is one rebound type compared node by node with the model of the rebind (or one original re-read); distinct = different (type, source, target, options).')
_m('A07', 'Each event is one modified type whose identity, relations and modifier stack were compared with the model (or one tree stripped/pushed); distinct = different (type, modifiers).')
_m('A08', 'Each event is one handler call of a visitor, compared with the expected sequence; distinct = different (kind, node, overridden set).')
_m('U01', 'Each event is one read, comparison, refused change or property access compared with the model; distinct = different (operation, contents).')
