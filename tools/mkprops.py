#!/usr/bin/env python3
"""writes properties.jsonl (kept as a program only for readability)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=a))


EX = 'constraint_generation/src/execute.rs'
ALG = 'circom_algebra/src/algebra.rs'
MOD = 'circom_algebra/src/modular_arithmetic.rs'
SIMPU = 'circom_algebra/src/simplification_utils.rs'
SIMP = 'constraint_list/src/constraint_simplification.rs'
DAG = 'dag/src/lib.rs'
FEW = ('The repository has 13 unit tests in total, none of which compiles a program: they exercise a few fixed constraints '
       'and one simplification example. ')

p('C01', 'Compile-time arithmetic agrees with the field semantics of every operator',
  'For every pair of field elements, each unary, binary and ternary operator evaluated at compile time (template parameters, '
  'variables, constants) yields the value the language defines over the prime field: modular + - * / **, integer \\ % with the '
  'representative in [0,p), bitwise operators on the field width, shifts by more than p/2 in the opposite direction, comparisons '
  'on signed representatives, and boolean operators on zero/non-zero. Operator precedence and associativity follow the language '
  'definition, and decimal and hexadecimal literals denote their value reduced into the field.',
  ['inputs'], 'all operand values of the field, all operators and pairs of operators',
  FEW + 'Three tests touch modular arithmetic at single points.',
  [MOD, ALG, 'parser/src/lang.lalrpop', EX, 'program_structure/src/abstract_syntax_tree/expression_impl.rs'],
  [('field operations', MOD), ('number/number cases of arithmetic expressions', ALG), ('operator grammar', 'parser/src/lang.lalrpop')],
  observe=['coefficients of the emitted .r1cs'])
p('C02', 'Undefined compile-time arithmetic is reported, never evaluated',
  'When compile-time evaluation divides by zero, takes an integer quotient or remainder by zero, compilation stops with a reported '
  'error. It never yields a value, is never skipped, and never terminates the compiler abnormally.',
  ['inputs', 'programs'], 'all values of the divisor expression, in every program position where it is evaluated',
  FEW + 'No test divides by zero.', [MOD, ALG, EX],
  [('division checks', MOD), ('error propagation from arithmetic', EX)], observe=['exit status', 'diagnostics'])
p('C03', 'Without simplification the emitted constraints mean exactly the source equations',
  'For every accepted program and parameter values, the system emitted with simplification off has the same solution set over all '
  'declared signals as the equations written in the source (=== and <==, nested through components, buses, arrays and loops). '
  'No equation is lost, invented, or attached to the wrong signal.',
  ['programs', 'inputs'], 'all programs, all parameter values, all assignments of the signals',
  FEW + 'No test compares a program with its constraints.', [EX, ALG, DAG, 'dag/src/map_to_constraint_list.rs',
                                                           'constraint_generation/src/execution_data/executed_template.rs'],
  [('symbolic execution into constraints', EX), ('expression normalisation to rank one form', ALG),
   ('renumbering of local constraints', DAG)], observe=['.r1cs with --O0'])
p('C04', 'The O1 simplification preserves the set of solutions',
  'For every program, the system emitted at --O1 is satisfied by exactly those assignments of the remaining signals that extend to a '
  'solution of the source equations. The removed signals are recoverable from the remaining ones.',
  ['programs', 'inputs'], 'all programs, all coefficient and parameter values, all signal assignments',
  FEW + 'One test runs the simplification on one fixed cluster.', [SIMP, SIMPU, ALG],
  [('signal equality elimination', SIMP), ('constant elimination', SIMP), ('application of substitutions', ALG)],
  observe=['.r1cs with --O1'])
p('C05', 'The O2 simplification preserves the set of solutions',
  'For every program and every number of rounds or elimination heuristic, the system emitted with full linear simplification is '
  'satisfied by exactly those assignments of the remaining signals that extend to a solution of the source equations.',
  ['programs', 'inputs', 'configurations'], 'all programs, coefficient values, --O2, --O2round n, both heuristics',
  FEW + 'One test runs the simplification on one fixed cluster.', [SIMP, SIMPU, 'constraint_list/src/non_linear_utils.rs', ALG],
  [('Gaussian elimination of linear clusters', SIMPU), ('rounds and substitution composition', SIMP)],
  observe=['.r1cs with --O2, --O2round n, --use_old_simplification_heuristics'])
p('C06', 'Outputs and public inputs survive compilation with their position',
  'At every simplification level the witness starts with the constant one, followed by the outputs of the main component and its '
  'public inputs in declaration order, and the header counts them exactly. No simplification removes or reorders one of them, and '
  'private inputs follow in declaration order.',
  ['programs', 'configurations', 'inputs'], 'all programs, public lists and simplification levels',
  FEW + 'No test looks at the public interface.', ['dag/src/map_to_constraint_list.rs', SIMP, 'constraint_list/src/r1cs_porting.rs',
                                                   'dag/src/witness_producer.rs', DAG],
  [('forbidden signals of the simplification', 'dag/src/map_to_constraint_list.rs'), ('witness order', 'dag/src/witness_producer.rs')],
  observe=['.r1cs header and wire map', '.sym'])
p('C07', 'Every emitted R1CS file is well-formed and canonical',
  'For every program the .r1cs file parses as the published binary format: section sizes, wire count, constraint count, prime and '
  'the label count agree with the content, every wire id is in range, no linear combination repeats a wire or carries a zero or '
  'unreduced coefficient, and the wire-to-label map is injective.',
  ['programs', 'inputs', 'configurations'], 'all programs, coefficient values and simplification levels',
  FEW + 'No test reads back an emitted file.', ['constraint_writers/src/r1cs_writer.rs', 'constraint_list/src/r1cs_porting.rs',
                                                'dag/src/r1cs_porting.rs', ALG],
  [('section writer', 'constraint_writers/src/r1cs_writer.rs'), ('removal of zero coefficients', ALG)], observe=['.r1cs'])
p('C08', 'The .sym and JSON outputs describe the same circuit as the R1CS',
  'The symbol file lists every declared signal exactly once with its qualified name, label and its witness position (or -1 when '
  'removed), consistently with the wire map of the R1CS. The JSON constraint file contains the same constraints as the R1CS.',
  ['programs', 'configurations', 'inputs'], 'all programs, coefficient values and simplification levels',
  FEW + 'No test writes or compares these files.', ['constraint_list/src/sym_porting.rs', 'dag/src/sym_porting.rs',
                                                    'constraint_list/src/json_porting.rs', 'constraint_writers/src/json_writer.rs',
                                                    'dag/src/json_porting.rs'],
  [('symbol writer', 'constraint_list/src/sym_porting.rs'), ('json constraint writer', 'constraint_writers/src/json_writer.rs')],
  observe=['.sym', '_constraints.json'])
p('C09', 'Reported substitutions follow from the source and rebuild removed signals',
  'Each entry of the substitution JSON is a consequence of the source equations, mentions only signals that remain, and the entries '
  'together reconstruct every removed constrained signal, so that the simplified system plus the substitutions is equivalent to the source.',
  ['programs', 'inputs', 'configurations'], 'all programs, coefficient values and simplification levels',
  FEW + 'No test looks at the reported substitutions.', [SIMP, 'constraint_writers/src/json_writer.rs', 'constraint_list/src/json_porting.rs'],
  [('substitution log', SIMP)], observe=['_substitutions.json'])
p('C10', 'Expressions that are not quadratic are rejected as constraints',
  'A constraint whose sides are not of the form A*B+C with A, B and C linear in the signals is rejected with an error, for every value of '
  'the parameters that makes it so. A constraint that is quadratic for the given parameter values is accepted.',
  ['programs', 'inputs'], 'all programs and all parameter values',
  FEW + 'No test has a non-quadratic constraint.', [EX, ALG, 'type_analysis/src/analyzers/unknown_known_analysis.rs'],
  [('degree tracking of expressions', ALG), ('non-quadratic report', EX)], observe=['exit status', '.r1cs'])
p('C11', 'Constraints and shapes never depend on values unknown at compile time',
  'When a condition, loop bound, array size, index, or template parameter that determines constraints or declarations depends on a signal, '
  'the program is rejected. Programs whose structure depends on known values only are accepted.',
  ['programs', 'inputs'], 'all programs and parameter values',
  FEW + 'No test has an unknown condition.', ['type_analysis/src/analyzers/unknown_known_analysis.rs', EX],
  [('unknown/known analysis', 'type_analysis/src/analyzers/unknown_known_analysis.rs'), ('unknown values during execution', EX)],
  observe=['exit status', 'diagnostics'])
p('C12', 'Each signal is assigned exactly once, before use',
  'A program path that assigns a signal or component twice, assigns an input of its own template, reads an output of a component whose inputs '
  'are not all set, leaves a component input unset, or uses an undefined component is rejected; programs without such a path are accepted.',
  ['programs', 'inputs'], 'all programs and parameter values (array positions, loop ranges, branches)',
  FEW + 'No test assigns a signal.', [EX, 'constraint_generation/src/environment_utils/component_representation.rs',
                                      'program_structure/src/utils/memory_slice.rs', 'constraint_generation/src/assignment_utils.rs'],
  [('assigned-signal bookkeeping', 'constraint_generation/src/environment_utils/component_representation.rs'),
   ('slice of assigned flags', 'program_structure/src/utils/memory_slice.rs')], observe=['exit status'])
p('C13', 'Array accesses stay in bounds and shapes match',
  'For every index value, reading or writing outside a declared dimension, and assigning arrays of different sizes to signals, is reported; '
  'in-bounds accesses touch exactly the element named by the indexes in row-major order.',
  ['programs', 'inputs'], 'all index values and shapes', FEW + 'Memory slices have no test for multi-dimensional bounds.',
  ['program_structure/src/utils/memory_slice.rs', EX], [('slice addressing', 'program_structure/src/utils/memory_slice.rs')],
  observe=['exit status', '.r1cs'])
p('C14', 'Component instances are independent and determined by their arguments',
  'Two instances of a template behave exactly as their own argument values, tag values and bus shapes prescribe: results of one instantiation '
  'are reused for another only if they are identical, and instances never share signals.',
  ['programs', 'inputs'], 'all argument values (scalars, arrays), tags, recursion, loops of components',
  FEW + 'No test instantiates a template.', [EX, 'constraint_generation/src/execution_data/executed_program.rs',
                                             'constraint_generation/src/execution_data/executed_template.rs', DAG],
  [('instance cache', 'constraint_generation/src/execution_data/executed_program.rs'), ('node instantiation', DAG)],
  observe=['.r1cs', '.sym'])
p('C15', 'Signal tags are checked, propagated and valued as documented',
  'An input that requires a tag accepts exactly the signals carrying it, tags and tag values flow through <== and component outputs as documented, '
  'reading a tag gives the value it was set to, and setting a tag twice or after the signal was assigned is rejected.',
  ['programs', 'inputs'], 'all tag values and programs', FEW + 'No test uses tags.',
  [EX, 'constraint_generation/src/environment_utils/component_representation.rs', 'type_analysis/src/analyzers/tag_analysis.rs'],
  [('tag environment', EX), ('tag checks on component inputs', 'constraint_generation/src/environment_utils/component_representation.rs')],
  observe=['exit status', '.r1cs'])
p('C16', 'Anonymous components and tuples mean their explicit expansion',
  'A program using anonymous components, tuples, underscores, signal initialisation or reversed arrows has the same constraints as the program '
  'with explicit named components and single assignments in the documented order.',
  ['programs', 'inputs'], 'all programs and parameter values', FEW + 'No test desugars a program.',
  ['parser/src/syntax_sugar_remover.rs', 'program_structure/src/abstract_syntax_tree/ast_shortcuts.rs',
   'compiler/src/hir/sugar_cleaner.rs'], [('sugar removal', 'parser/src/syntax_sugar_remover.rs')], observe=['.r1cs', '.sym', 'witness'])
p('C17', 'Buses behave as the concatenation of their fields',
  'Declaring, assigning, equating, indexing and passing a bus (nested, parametric, or in arrays) means doing so for each of its fields in declaration '
  'order, and only buses of the same instance are interchangeable.',
  ['programs', 'inputs'], 'all bus definitions, parameters and array shapes', FEW + 'No test uses buses.',
  [EX, 'constraint_generation/src/environment_utils/bus_representation.rs', 'constraint_generation/src/execution_data/executed_bus.rs',
   'constraint_generation/src/assignment_utils.rs', 'dag/src/sym_porting.rs'],
  [('bus slices', 'constraint_generation/src/environment_utils/bus_representation.rs')], observe=['.r1cs', '.sym', 'exit status'])
p('C18', 'Compile-time control flow and functions compute what they say',
  'Loops, conditionals, blocks, array variables, recursion and function calls executed at compile time have the imperative semantics of the source for every '
  'value of the parameters, and the constraints generated inside them are those of the executed path.',
  ['programs', 'inputs'], 'all parameter values and programs', FEW + 'No test executes a function.',
  [EX, 'program_structure/src/utils/environment.rs', 'program_structure/src/utils/memory_slice.rs',
   'constraint_generation/src/compute_constants.rs', 'type_analysis/src/decorators/constants_handler.rs'],
  [('statement execution', EX), ('variable scopes', 'program_structure/src/utils/environment.rs')], observe=['.r1cs'])
p('C19', 'The WebAssembly witness generator computes the source semantics',
  'For every circuit and all input values the generated WebAssembly program computes for each witness position the value that the source program assigns to that signal, '
  'including witness-only code (<--, loops, conditionals and functions depending on signals).',
  ['programs', 'inputs'], 'all programs, all input values', FEW + 'No test generates or runs a witness generator.',
  ['code_producers/src/wasm_elements/wasm_code_generator.rs', 'compiler/src/intermediate_representation/translate.rs',
   'compiler/src/circuit_design/build.rs', 'compiler/src/circuit_design/template.rs'],
  [('wasm emission', 'code_producers/src/wasm_elements/wasm_code_generator.rs'),
   ('lowering to buckets', 'compiler/src/intermediate_representation/translate.rs')], observe=['exported functions of the generated module'])
p('C20', 'Violated assertions and constraints stop witness generation',
  'For all inputs, a generated witness generator (WebAssembly or C++) fails when an assert evaluated with the input values is false or a === (or <==) equation is not satisfied, '
  'when sanity checks are on, and otherwise completes.',
  ['programs', 'inputs'], 'all programs, all input values, both backends', FEW + 'No test generates or runs a witness generator.',
  ['compiler/src/intermediate_representation/assert_bucket.rs', 'compiler/src/intermediate_representation/translate.rs',
   'code_producers/src/wasm_elements/wasm_code_generator.rs'],
  [('assert buckets', 'compiler/src/intermediate_representation/assert_bucket.rs')], observe=['exception code / abort'])
p('C21', 'The C++ witness generator computes the source semantics',
  'For every circuit and all input values the generated C++ program computes for each witness position the value that the source program assigns to that signal, '
  'for sequential and parallel component instantiation.',
  ['programs', 'inputs', 'schedules'], 'all programs, all input values', FEW + 'No test generates or runs a witness generator.',
  ['code_producers/src/c_elements/c_code_generator.rs', 'compiler/src/intermediate_representation/translate.rs',
   'code_producers/src/c_elements/common/calcwit.cpp', 'compiler/src/circuit_design/template.rs'],
  [('C++ emission', 'code_producers/src/c_elements/c_code_generator.rs')], observe=['witness buffer after the last input is set'])
p('C22', 'A computed witness satisfies the emitted constraints',
  'For every circuit in which each signal is assigned with <== (or whose <-- assignments are consistent with its constraints) and all input values, the witness computed by the generated program '
  'satisfies every constraint of the R1CS emitted by the same compilation, at every simplification level.',
  ['programs', 'inputs', 'configurations'], 'all programs, input values and simplification levels', FEW + 'No test computes a witness.',
  ['compiler/src/circuit_design/build.rs', 'constraint_list/src/lib.rs', 'compiler/src/hir/very_concrete_program.rs', 'circom/src/compilation_user.rs'],
  [('witness list shared by generator and constraints', 'compiler/src/circuit_design/build.rs')], observe=['.r1cs', 'witness'])
p('C23', 'The WebAssembly field library implements the field operations',
  'For all operands in every internal representation (short, long, normal, Montgomery), the field routines emitted into the WebAssembly module compute the same results as the compile-time operators of the language.',
  ['inputs', 'configurations'], 'all operand values and representations, all supported primes', FEW + 'The field library has no test in the repository.',
  ['code_producers/src/wasm_elements/bn128/fr-code.wat', 'code_producers/src/wasm_elements/wasm_code_generator.rs'],
  [('field code per prime', 'code_producers/src/wasm_elements')], observe=['results of the field functions'])
p('C24', 'The C++ field library implements the field operations',
  'For all operands in every internal representation (short, long, normal, Montgomery), the field routines shipped with the generated C++ program compute the same results as the compile-time operators of the language.',
  ['inputs', 'configurations'], 'all operand values and representations, all supported primes', FEW + 'The field library has no test in the repository.',
  ['code_producers/src/c_elements/generic/fr.cpp', 'code_producers/src/c_elements/bn128/fr.asm', 'code_producers/src/c_elements/goldilocks/fr.hpp', 'code_producers/src/c_elements/common64/calcwit.cpp'],
  [('generic field code', 'code_producers/src/c_elements/generic/fr.cpp')], observe=['results of the field functions'])
p('C25', 'Comments are removed and nothing else',
  'For every source text, exactly the characters inside // and /* */ comments are blanked, every other character keeps its position, and an unterminated block comment is reported at its start.',
  ['inputs'], 'all source texts', FEW + 'No test covers the comment remover.', ['parser/src/parser_logic.rs'],
  [('comment preprocessing', 'parser/src/parser_logic.rs')], observe=['diagnostics', 'compiled program'])
p('C26', 'Every declared input can be set by name, and only those',
  'For every set of main inputs the hash table emitted into the witness generators maps each declared input name to its own signals and size; unknown names, too many or too few values are reported.',
  ['programs', 'inputs'], 'all sets of input names (any collision pattern), all query hashes', FEW + 'No test builds an input table.',
  ['code_producers/src/c_elements/c_code_generator.rs', 'code_producers/src/wasm_elements/wasm_code_generator.rs', 'code_producers/src/c_elements/common/calcwit.cpp'],
  [('input hash map', 'code_producers/src/c_elements/c_code_generator.rs')], observe=['setInputSignal of both backends'])
p('C27', 'The emitted system does not depend on hashing or thread interleaving',
  'For every program, the constraint system, public interface and witness meaning are equivalent under every iteration order of hash tables and every interleaving of the simplification worker threads.',
  ['schedules', 'programs', 'inputs'], 'hash seeds and worker schedules', FEW + 'Tests run one hash order and one schedule.',
  [SIMP, SIMPU, 'constraint_generation/src/execution_data/filters.rs'], [('parallel cluster simplification', SIMP)], observe=['.r1cs'])
p('C28', 'Custom templates contribute gates, not constraints',
  'With the custom templates pragma, each use of a custom template appears exactly once in the custom gate sections with its parameters and signals, its body adds no constraint, its signals are not removed, '
  'and custom templates are rejected without the pragma or with constraints or sub-components inside.',
  ['programs', 'inputs', 'configurations'], 'all parameter values, instance counts and simplification levels', FEW + 'No test uses a custom template.',
  ['constraint_list/src/r1cs_porting.rs', 'dag/src/r1cs_porting.rs', 'constraint_writers/src/r1cs_writer.rs', DAG, 'type_analysis/src/analyzers/custom_gate_analysis.rs'],
  [('custom gate sections', 'constraint_writers/src/r1cs_writer.rs')], observe=['.r1cs sections 4 and 5', 'exit status'])
p('C29', 'Reading back a written R1CS file returns what was written',
  'For every header, constraint list and wire map, decoding an R1CS file produced by the writer with the library reader yields the same field size, header counts, prime, constraints and wire map.',
  ['inputs'], 'all headers, constraints, wire maps', FEW + 'No test round-trips a file.',
  ['constraint_writers/src/r1cs_writer.rs', 'constraint_writers/src/r1cs_reader.rs'], [('reader', 'constraint_writers/src/r1cs_reader.rs')], observe=['decoded structure'])
p('C30', 'Compile-time assertions are enforced',
  'An assert whose condition is known at compile time stops compilation exactly when it is false, for every parameter value; an assert that depends on signals never does.',
  ['programs', 'inputs'], 'all parameter values', FEW + 'No test has an assert.', [EX], [('assert execution', EX)], observe=['exit status'])
p('C33', 'Only declared main inputs can be public',
  'The public list of the main component makes exactly the listed inputs public; listing a name that is not an input of main is rejected.',
  ['programs', 'configurations'], 'all public lists', FEW + 'No test has a public list.',
  ['type_analysis/src/analyzers/symbol_analysis.rs', 'constraint_generation/src/execution_data/executed_template.rs', 'type_analysis/src/check_types.rs'],
  [('public input check', 'type_analysis/src/check_types.rs')], observe=['.r1cs header'])
p('C36', 'Each prime option selects one and the same field everywhere',
  'For each supported curve option, the modulus used by constant folding, the R1CS header and the generated witness code is the documented prime of that curve, with consistent limb counts.',
  ['configurations'], 'the supported primes', FEW + 'No test passes a prime.', ['program_structure/src/utils/constants.rs', 'circom/src/input_user.rs', 'code_producers/src/wasm_elements/wasm_code_generator.rs'],
  [('prime table', 'program_structure/src/utils/constants.rs')], observe=['.r1cs header', 'generated code'])
p('C37', 'Include resolution loads each file once and merges definitions',
  'Every included file is loaded exactly once, relative to its includer or the library paths, and definitions with the same name are reported.',
  ['programs', 'configurations'], 'all include graphs', FEW + 'No test includes a file.', ['parser/src/include_logic.rs', 'parser/src/lib.rs', 'program_structure/src/program_library/program_merger.rs'],
  [('file stack', 'parser/src/include_logic.rs')], observe=['exit status', '.r1cs'])
p('C38', 'The underconstrained-signal warnings name exactly the unconstrained signals',
  'With inspection on, a warning is given for every signal or component input that appears in no constraint and for no other.',
  ['programs', 'inputs'], 'all programs and parameter values', FEW + 'No test inspects.', ['dag/src/constraint_correctness_analysis.rs'],
  [('constraint correctness analysis', 'dag/src/constraint_correctness_analysis.rs')], observe=['diagnostics of --inspect'])
p('C39', 'Ill-typed programs are rejected before execution',
  'Programs that use undeclared symbols, mix signals, components and variables where another kind is required, call with wrong arity, or let a function end without return are rejected with a diagnostic.',
  ['programs'], 'all programs', FEW + 'No test type-checks a program.', ['type_analysis/src/check_types.rs', 'type_analysis/src/analyzers/type_check.rs'],
  [('type analysis', 'type_analysis/src/check_types.rs')], observe=['exit status'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as h:
    for x in P:
        h.write(json.dumps(x) + '\n')
print(len(P))
