#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
C = "components/core/wf/"
G = C + "code_generation/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Identity covers all content, and identical values hash alike",
  "Two symbolic expressions, code-generation types or intermediate-representation operations are reported identical only if every piece of their content agrees: operands in order, names, indices, assumed number set, operation kind, dimensions. Whenever two values are identical their hashes are equal, so caches and duplicate elimination keyed on them can neither merge different values nor miss equal ones.",
  ["inputs"], "all pairs of values of every expression kind, IR operation and type description",
  "Tests compare a handful of hand-picked pairs; a field omitted from the identity test only shows when two values differ in that field alone and meet in one cache.",
  [C+"expressions/*.h", C+"expression_variant.h", C+"utility/hashing.h", G+"ir_types.h", G+"types.h", G+"argument.h", G+"expression_group.h"],
  [("hash_struct / is_identical_struct specialisations", C+"expressions/*.h"), ("ir operation hash()/is_identical_to()", G+"ir_types.h"), ("custom_type identity", G+"types.cc")])
prop("C02", "Canonical ordering agrees with identity",
  "For every expression kind the ordering relation looks at every piece of content that identity looks at, so two expressions compare as 'equal' in the ordering only when they are identical (user-defined types and external functions take part by name, function arguments by their numeric type). The relation reverses when its arguments are exchanged and is transitive, and expressions of different kinds never tie. Canonical operand order in sums and products therefore never depends on the order in which the user wrote the operands.",
  ["inputs"], "all pairs of expressions of the same kind",
  "Tests sort small lists of ordinary variables; a comparator that ignores one field leaves ties that only show for operands differing in that field alone.",
  [C+"utility/ordering.h", C+"expressions/*.h", C+"expression.cc", C+"compound_expression.cc"],
  [("order_struct specialisations", C+"expressions/*.h"), ("determine_order / expression_order_struct", C+"expression.cc")])
prop("C03", "Composite expressions are only built through simplifying factories",
  "Every sum, product, power, comparison, conditional, derivative, function call and other simplifiable node that a user can obtain has passed through the factory that canonicalises that kind of node. No traversal, substitution, differentiation or rebuild wraps raw operands directly into a node and so bypasses constant folding, flattening, argument validation or canonical ordering.",
  ["inputs", "programs"], "every construction site of every simplifiable node kind in the library",
  "A bypassed factory yields an expression that prints and evaluates correctly but no longer compares equal to its canonical twin; tests see it only for the exact shapes they build.",
  [C+"expressions/*.cc", C+"functions.cc", C+"derivative.cc", C+"substitute.cc", C+"distribute.cc", C+"evaluate.cc", C+"collect.cc", C+"cse.cc"],
  [("create / from_operands factories", C+"expressions/*.cc"), ("make_expr and in-place expression constructors", C+"expression.h"), ("map_children", C+"expressions/*.h")])
prop("C04", "Expressions are immutable values",
  "Once created, a symbolic expression never changes: no public operation mutates a node that another expression, cache or Python object may share. Content is only handed out read-only.",
  ["histories"], "every history of operations on shared expression nodes",
  "Sharing is pervasive and mutation through one alias would only be visible through another alias that a unit test does not hold.",
  [C+"expression_variant.h", C+"expression.h", C+"expressions/*.h", C+"expression_visitor.h"],
  [("shared immutable storage", C+"expression_variant.h"), ("node accessors", C+"expressions/*.h")])
prop("C05", "Exact integer arithmetic never wraps or truncates silently",
  "Arithmetic on exact integer and rational constants either produces the exact result or raises the library's arithmetic error; it never wraps around. A floating-point value is converted to an integer constant only after it has been checked to be representable.",
  ["inputs"], "all 64-bit integer, rational and floating-point constants",
  "Overflow needs operands near the limits of the representation in one specific operation; tests cover a few such pairs for a few operators.",
  [C+"utility/checked_int.h", C+"expressions/numeric_expressions.h", C+"numerical_casts.cc", C+"functions.cc", C+"integer_utils.h", C+"expressions/power.cc"],
  [("checked_int operators", C+"utility/checked_int.h"), ("float to integer conversions", C+"functions.cc, "+C+"evaluate.cc, "+C+"expressions/*.cc")])
prop("C06", "Detected errors are catchable, never process termination",
  "Every error the library detects (overflow, bad dimension, bad type, bad argument, internal assertion) reaches the caller as a catchable exception. No function that is declared not to throw can reach code that raises one of the library's errors, because that would terminate the host process.",
  ["inputs"], "all call paths from functions declared non-throwing to code that raises a library error",
  "Termination only happens when the error condition occurs beneath a non-throwing function; a test for it would abort the test runner and none exists.",
  [C+"expressions/numeric_expressions.h", C+"utility/checked_int.h", C+"utility/assertions.h", C+"utility/ordering.h", G+"*.cc"],
  [("noexcept declarations", C+"**"), ("checked_int / WF_ASSERT throw sites", C+"utility/checked_int.h, "+C+"utility/assertions.h")])
prop("C07", "Deduced number sets are sound",
  "The number set the library deduces for a sum, product, power or built-in function call contains every value that expression can take when its arguments range over their own deduced sets. It never claims positivity, non-negativity or realness that some admissible argument violates.",
  ["inputs"], "every combination of argument number sets, for every operation and every built-in function",
  "The deductions feed simplifications such as abs(x) -> x; tests check a sample of combinations with one concrete symbol each.",
  [C+"number_set.cc", C+"number_set.h", C+"enumerations.h"],
  [("determine_set_visitor", C+"number_set.cc"), ("combine / handle_* transfer functions", C+"number_set.cc")])
prop("C08", "Traversal visits every child and rebuild keeps every role",
  "Enumerating the children of an expression node yields every sub-expression it contains. Rebuilding a node from transformed children applies the transformation exactly once to each child, puts each result back in the role its child had, and keeps all other content of the node.",
  ["inputs"], "every composite expression kind with arbitrary, mutually different children",
  "A swapped or skipped child shows only when the transformed expression changes exactly that child; tests substitute into a few shapes.",
  [C+"expressions/*.h", C+"expression_iteration.h"],
  [("children()", C+"expressions/*.h"), ("map_children()", C+"expressions/*.h")])
prop("C09", "Caller-supplied options govern the whole computation",
  "When a caller chooses an option for an operation - how non-differentiable functions are treated during differentiation, which optimisation settings or output style code generation uses - that choice applies to every nested step of the operation. No inner step silently falls back to a default while the caller's choice is available.",
  ["configurations"], "all option values times all expression shapes that recurse through nested differentiation, substitution or code generation",
  "Tests exercise non-default options on flat expressions only; dropped options show up under nesting.",
  [C+"derivative.cc", C+"derivative.h", C+"expression.h", C+"matrix_functions.cc", C+"matrix_expression.cc", G+"control_flow_graph.cc"],
  [("non_differentiable_behavior parameter", C+"derivative.cc"), ("optimization_params", G+"control_flow_graph.cc")])
prop("C10", "Matrix operations validate shapes and select the right elements",
  "A matrix operation given incompatible shapes or an out-of-range row, column, block or element index raises a dimension error. Every raw element access is preceded on all paths by a check that makes the index valid. For valid shapes and indices, including negative Python indices and slices, the result has the elements the operation's definition names.",
  ["inputs"], "all shapes and all (including negative) indices, for every public matrix operation",
  "Tests try a few bad shapes per operation; an omitted bound on one side or one axis reads out of bounds only for that input.",
  [C+"matrix_functions.cc", C+"matrix_expression.cc", C+"expressions/matrix.cc", C+"expressions/matrix.h"],
  [("dimension checks", C+"expressions/matrix.cc, "+C+"matrix_functions.cc"), ("get_unchecked / raw indexing", C+"expressions/matrix.h")])
prop("C11", "Built-in functions differentiate to their true derivatives",
  "The derivative rule applied to each built-in function is the mathematical derivative of that function, for every function in the library and for each argument of multi-argument functions. Chain-rule factors are applied once per argument.",
  ["inputs"], "all built-in functions, all argument expressions, all non-differentiable-point policies",
  "Tests compare derivatives with hand-written expectations for simple arguments.",
  [C+"derivative.cc"],
  [("derivative_visitor built-in function rule", C+"derivative.cc")])
prop("C12", "Function-evaluation special values are exact",
  "Where a built-in function applied to an exact constant is folded to a constant, the folded value is mathematically exact, and even/odd symmetry rewrites hold for all arguments.",
  ["inputs"], "every built-in function with every exact constant argument",
  "Each rewrite is conditional on the particular constant.",
  [C+"functions.cc"], [("cos, sin, tan, acos, ... folding", C+"functions.cc")])
prop("C13", "Simplifying rewrites preserve value",
  "Every automatic simplification yields an expression with the same value as the unsimplified form wherever that form is defined.",
  ["inputs"], "all expressions and all assignments of their symbols",
  "Quantifies over all symbol values.",
  [C+"expressions/*.cc", C+"functions.cc"], [("canonicalising factories", C+"expressions/*.cc")])
prop("C14", "Substitution and collection preserve meaning",
  "Substituting, collecting or distributing terms yields an expression equal in value to the mathematically defined result for all symbol values.",
  ["inputs"], "all expressions, targets and replacements", "Quantifies over all symbol values and expression shapes.",
  [C+"substitute.cc", C+"collect.cc", C+"distribute.cc"], [("substitute visitors", C+"substitute.cc")])
prop("C15", "Matrix factorisation and determinant satisfy their defining equations",
  "The full-pivoting LU factorisation of every symbolic matrix with at least as many columns as rows yields permutation matrices P and Q, a unit lower triangular L and an upper triangular U whose product P*L*U*Q is the input, and the determinant of every square matrix is the alternating sum of its element products. Rank-deficient inputs, zero elements and repeated rows or columns are included; shapes that have no factorisation or determinant raise a dimension error.",
  ["inputs"], "all symbolic matrices, over every arrangement of zero and repeated elements",
  "Tests factor a few matrices; which permutation steps are taken depends on where the zeros are, and a wrong one shows only when rows or columns are moved in a cycle.",
  [C+"matrix_functions.cc"], [("factorize_full_piv_lu, determinant, permutation_matrix", C+"matrix_functions.cc")])

prop("G01", "Every function keeps its meaning through each code generator",
  "Each built-in mathematical function is carried unchanged from symbolic form to the intermediate representation and back, and each target language (C++, Rust, and Python for NumPy, PyTorch and JAX) emits that language's own name for exactly that function. Symbolic constants, comparison operators, numeric types and operand counts are mapped just as faithfully.",
  ["programs", "configurations"], "every built-in function, constant, comparison and numeric type times every generator target and option",
  "Tests compile a set of example functions; rarely used functions and targets (PyTorch, JAX, float32) are compared with nothing executable.",
  [G+"ir_form_visitor.cc", G+"expr_from_ir.cc", G+"cpp_code_generator.cc", G+"rust_code_generator.cc", G+"python_code_generator.cc", C+"enumerations.h"],
  [("std_math_function_from_built_in", G+"ir_form_visitor.cc"), ("call_std_function handlers", G+"{cpp,rust,python}_code_generator.cc"), ("string_from_* tables", C+"enumerations.h")])
prop("G02", "Generated statements use every operand in its right place",
  "For every kind of syntax element, the text each generator emits contains every operand, target, condition, branch and field of that element, each in the position the target language gives that role (numerator before denominator, condition before branches, left side before right). Nothing the element carries is dropped or emitted in another's place.",
  ["programs"], "every syntax element with arbitrary, mutually different operands, in every target language and option",
  "The example programs reach each element with few operand patterns, and Rust/Python output is mostly compared by text for a few inputs.",
  [G+"cpp_code_generator.cc", G+"rust_code_generator.cc", G+"python_code_generator.cc", G+"ast_conversion.cc"],
  [("operator() per ast element", G+"{cpp,rust,python}_code_generator.cc"), ("AST construction from IR", G+"ast_conversion.cc")])
prop("G03", "Generated expressions keep their grouping",
  "In every target language, an operand that binds less tightly than the operator it is emitted under is parenthesised (or emitted in a form that needs no parentheses), so that the emitted text groups exactly as the expression tree does.",
  ["programs"], "every pair of (outer operation, inner operation) in every target language",
  "Grouping errors need a particular nesting of two operations whose inner value is not shared; tests contain some of the pairs.",
  [G+"ast_conversion.cc", G+"ir_value.cc", G+"cpp_code_generator.cc", G+"rust_code_generator.cc", G+"python_code_generator.cc", C+"enumerations.h"],
  [("visit_operation_argument precedence", G+"ast_conversion.cc"), ("operation_precedence", G+"ir_value.cc"), ("emitted text per element", G+"*_code_generator.cc")])
prop("G04", "Generated arithmetic is type-consistent",
  "In the intermediate representation the operands of every arithmetic operation, comparison, conditional, constructed aggregate, external call and declared output have the numeric type that operation works in; wherever they differ an explicit conversion is inserted, and conversions only ever widen (boolean to integer to floating point) unless a declared type (of an output, an external function's argument or an aggregate's field) asks otherwise. Operands of real-valued library functions are floating point.",
  ["programs"], "every operation with every combination of operand numeric types",
  "Tests use floating-point variables almost everywhere; mixed integer and boolean operands reach only some operations.",
  [G+"ir_form_visitor.cc", G+"control_flow_graph.cc"],
  [("maybe_cast", G+"ir_form_visitor.cc"), ("push_operation type argument", G+"ir_form_visitor.cc"), ("operation result types", G+"control_flow_graph.cc")])
prop("G05", "Generated code is deterministic",
  "Generating code twice from the same symbolic function, in the same or another process, gives byte-identical output. Nothing that reaches the output depends on memory addresses, hash-table iteration order or uninitialised state.",
  ["schedules", "inputs"], "all functions, across processes with different address-space layouts and hash seeds",
  "A test process sees one address layout; dependence on iteration order of address-keyed tables shows up across machines and library versions.",
  [G+"*.cc", C+"cse.cc", C+"collect.cc"],
  [("unordered containers in the pipeline", G+"control_flow_graph.cc, "+G+"binarizer.cc, "+G+"ir_control_flow_converter.cc"), ("value numbering by name", G+"ir_value.h")])
prop("G06", "Expressions that cannot be generated are rejected",
  "Asking for code for an expression that has no meaning in the target language (complex infinity, imaginary unit, undefined value, unevaluated derivative or substitution, symbolic function call, internal unique variable, matrix value where only spans exist) always raises a type error and never emits text.",
  ["inputs", "programs"], "every un-generatable expression kind at every position in a function's outputs",
  "Tests try some of the kinds at the root of an output.",
  [G+"ir_form_visitor.cc", G+"cpp_code_generator.cc", G+"rust_code_generator.cc", G+"python_code_generator.cc"],
  [("throwing handlers", G+"ir_form_visitor.cc"), ("throw_matrix_error", G+"cpp_code_generator.cc")])
prop("G07", "The value graph keeps operands and consumers consistent",
  "In the intermediate representation a value lists another as operand exactly as often as that other lists it as consumer, through every rewrite. Operand lists change only together with the matching consumer lists, a value with consumers is never discarded, and operands of commutative operations stay in canonical order.",
  ["histories"], "every sequence of rewrites the optimiser applies",
  "The invariant is only asserted in debug builds of particular pipeline stages on the test inputs.",
  [G+"ir_value.h", G+"ir_value.cc", G+"ir_consumer_vector.h", G+"ir_block.h", G+"ir_block.cc", G+"control_flow_graph.cc"],
  [("add_consumer / remove_operand", G+"ir_value.cc"), ("operands_ / consumers_", G+"ir_value.h"), ("ancestors_ / descendants_", G+"ir_block.cc")],
  [("operands_", "values this value reads", G+"ir_value.h"), ("consumers_", "values reading this value", G+"ir_value.h")])
prop("G08", "Optimised control flow and factorisation preserve results",
  "Generated code computes, for every input, the same outputs as the symbolic expressions it was generated from, whatever optimisation settings are used.",
  ["inputs", "programs"], "all expressions, inputs and optimisation settings", "Quantifies over runtime values.",
  [G+"control_flow_graph.cc", G+"ir_control_flow_converter.cc", G+"factorizer.cc", G+"binarizer.cc"], [("optimisation passes", G+"control_flow_graph.cc")])
prop("G09", "Optional outputs are only written when requested",
  "In generated code an optional output is computed and written only inside the branch that tests whether the caller supplied it; required outputs and return values are written unconditionally. Each target language's dereference form matches the way it declares that argument.",
  ["programs", "configurations"], "every argument direction times every argument type times every target language and matrix style",
  "Tests cover the combinations their example functions happen to use.",
  [G+"cpp_code_generator.cc", G+"rust_code_generator.cc", G+"python_code_generator.cc", G+"ast_conversion.cc", G+"ir_control_flow_converter.cc"],
  [("argument declarations", G+"*_code_generator.cc"), ("assign_output_* and optional_output_branch", G+"*_code_generator.cc")])
prop("R01", "Generated C++ cannot be called with wrong buffers",
  "With the C++ runtime header, passing null for an input or required output, a matrix whose compile-time shape differs from the declared one, or a read-only buffer for an output fails to compile; input buffers are exposed to generated code read-only when the caller's object is read-only, and an element's address is the sum over axes of index times that axis's stride.",
  ["programs"], "every caller of a generated function",
  "A test that does not compile cannot be part of the test suite.",
  ["components/runtime/wrenfold/span.h", "components/runtime/wrenfold/span_detail.h"],
  [("make_input_span / make_output_span / make_optional_output_span", "components/runtime/wrenfold/span.h"), ("compute_index", "components/runtime/wrenfold/span.h")])
prop("W01", "The Python API exposes every enumerator, node kind and error faithfully",
  "Each enumerator, syntax-element kind and exception type that code generation can produce is exposed to Python exactly once, under its own name and bound to its own native value, every property of a bound class reads the native member it is named for, and every code generator can be overridden in Python for every syntax-element kind.",
  ["programs"], "every enumerator, syntax element and exception type",
  "Tests use a few of the names from Python.",
  ["components/wrapper/pywrenfold/enums_wrapper.cc", "components/wrapper/pywrenfold/ast_wrapper.cc", "components/wrapper/pywrenfold/exceptions_wrapper.cc", "components/wrapper/pywrenfold/code_formatting_wrapper.cc"],
  [("enum tables", "components/wrapper/pywrenfold/enums_wrapper.cc"), ("format override table", "components/wrapper/pywrenfold/code_formatting_wrapper.cc")])
prop("W02", "SymPy conversion maps every function and constant to its counterpart",
  "Converting to SymPy and from SymPy maps every built-in function, constant, comparison and number-set assumption to its exact counterpart, and the two directions are inverse tables of each other.",
  ["inputs"], "every function, constant, comparison and assumption, in both directions",
  "Tests round-trip a subset of functions.",
  ["components/wrapper/pywrenfold/sympy_conversion.cc", "components/python/wrenfold/sympy_conversion.py"],
  [("sympy_conversion_visitor", "components/wrapper/pywrenfold/sympy_conversion.cc"), ("Conversions", "components/python/wrenfold/sympy_conversion.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
