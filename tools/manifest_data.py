TECH = {
 "C01": ("two-instance abstract interpretation of identity, equality and hash functions: terms over two fresh instances compared component by component",
         "every value type with identity; lists analysed at two lengths; nested values with their own identity are one atom each"),
 "C02": ("two-instance abstract interpretation of every order function and sort comparator, decided over a finite component domain (totality, antisymmetry, transitivity, agreement with identity)",
         "every orderable kind; strings and nested expressions are one ordered atom each; lists at several lengths; display-only sorts by factored parts are not decided"),
 "C08": ("abstract interpretation of children(), every map_children instantiation, every rebuilding/walking visitor step and containment predicate on every node kind, with the operation left uninterpreted; results compared with the kind's constructor roles",
         "every node kind and every visitor instantiation; variadic kinds at 2 and 3 (thorough: 4) operands; steps of distribute/collect and of partial substitution are decided only up to 'no sub-expression unvisited or dropped'"),
 "C11": ("abstract interpretation of each derivative rule to a closed formula (value graph, helpers inlined), compared with an independent derivative table",
         "every built-in function, every argument, every node kind; products and sums are analysed for 2 and 3 (thorough: 4) operands"),
 "G02": ("abstract interpretation of every generator's formatting function to a text template, compared token by token with a per-language oracle of where each operand belongs; member-accessor and operation roles likewise",
         "every syntax-element kind in five generators, every alternative of every variable-shaped field; lists are analysed at small lengths"),
 "G03": ("composition of each generator's text templates for parent and child elements, parsed with the target language's precedence rules and compared with the element tree",
         "every parent operand slot crossed with every child kind, sign and operand count in every generator; two levels deep (three in places)"),
"G01": ("abstract evaluation of each lowering and raising step, read as a formula and compared with an independent table; each generator handler evaluated per function, constant, operator and type and compared with the target language spelling",
         "every built-in function, library function, constant, comparison and type; sampled operand types, counts and exponents; spelling tables written by hand per language"),
  "G04": ("abstract evaluation of every lowering step on operands of each numeric type, followed by bottom-up type checking of the value graph it pushes; declared-output and conversion-cache steps evaluated for every type pair",
         "every node kind crossed with operand types; operand counts up to 3 (4 thorough), exponents up to 32 (40 thorough), sampled aggregate and external signatures"),
 "G06": ("path analysis of every generator and lowering function for an element or node without a meaning in the target: every path must end in a type error",
         "every node kind without code and every element/type a generator cannot express"),
 "C05": ("abstract evaluation of every exact-arithmetic operator to a result formula and raising condition, decided at the corner points of the 64-bit range; taint analysis of raw constant values; guard analysis of float and narrowing conversions",
         "every operator, comparison and conversion on exact integers and rationals, exponents 0..40; corner points of the 64-bit range (pairs), not every value; every conversion and raw arithmetic site in the core"),
 "C06": ("exception-escape analysis over the whole resolved call graph (calls, conversions, copies, functors, lambdas) with per-call discharge of impossible raises; scans for process-ending calls, swallowing handlers and thrown types",
         "every function of the core library declared not to throw, every throw, handler and call; discharges for denominators, owned pointers and tested sizes rest on the stated assumptions"),
 "C09": ("option-flow analysis over the resolved call graph of the core and its bindings and over the Python package's syntax trees: at every nested call taking the same option the value handed on must be computed from the caller's",
         "every function and call site holding one of the options (non-differentiable behaviour, optimisation settings, ternary conversion, generator styles); numeric pass counts only up to being handed on"),
  "C10": ("abstract evaluation of every matrix operation (core and Python bindings) on matrices of independent symbolic elements, over a grid of compatible and incompatible shapes, indices, blocks and slices; results read element by element and compared with the definition",
         "shapes up to 4 (5 thorough) a side, indices from below -n to above n, slices with every sign; larger shapes rest on the functions treating the dimensions uniformly"),
  "C15": ("abstract evaluation of the determinant and factorisation on matrices of independent symbolic elements for every zero/repetition pattern of small shapes; the resulting rational formulas are tested for identity at exact rational points",
         "all zero patterns up to 3x3, structured families up to 4x4 (4x5 thorough); elements are otherwise arbitrary symbols; pivots that vanish only for particular values are out of scope, as the code documents"),
  "C07": ("abstract evaluation of every step of the number-set visitor for every combination of operand sets, compared with an independent oracle of the values the operation takes on points of those sets",
         "all five sets for every operand, operand counts 2 and 3, 18 constants; the oracle's points cover signs, zeros, poles and branch cuts; two deductions pinned by upstream tests are recorded findings"),
  "R01": ("type-level witnesses: programs the compiler's type checker must accept or reject, and static_assert over the header's constexpr functions (also against a constexpr model of Eigen)",
         "the listed argument kinds, shapes and strides; decided by the compiler's front end alone (-fsyntax-only), nothing is run"),
  "W01": ("queries over the type-checked binding code: every bound name against the declaration it is bound to (enumerators, syntax elements and their properties, error types and their hierarchy), and the override dispatch table against the set of syntax-element kinds",
          "all binding sites of the wrapper; Python-side behaviour of nanobind itself is assumed"),
  "W02": ("abstract evaluation of the converting visitor on every node kind and enumerator, and abstract interpretation of the Python converter's syntax tree on an object of every SymPy class, compared with a table of counterparts; query over the bindings the converter calls",
          "every enumerator and every entry of the converter's tables; piecewise up to 4 branches; SymPy's own evaluation is assumed"),
  "C03": ("call-graph dominance over every construction site of every simplifiable node kind, and abstract evaluation of the factories on operands they must fold or refuse",
          "all construction sites of library and binding; folding rules of the arithmetic factories beyond nested products are not claimed here"),
}
NA = {
 "C12": "",
}
