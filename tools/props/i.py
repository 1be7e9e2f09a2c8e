PROPS = []
PROPS.append(
 dict(id="I01", title="AutoQuant rewriting keeps what the code computes",
  statement="Whatever code AutoQuant rewrites, the code it writes evaluates the same operators on the same operands: statements on one line are split in order and lose nothing, an augmented assignment becomes an assignment of the same target, the same binary operator and the same operands, every wrapped assignment is put back with its targets in order, annotation and value, relative imports are made absolute for the package they stand in, and references to globals, closures and attributes are resolved as Python would resolve them, or left alone. Only operations are marked for replacement, never literals or what is known not to be a tensor. An operation that is hoisted gets a fresh temporary assigned right before the innermost statement it belongs to; nothing is hoisted out of code that is evaluated conditionally, later, or more than once (branches, short-circuit operands, lambdas, comprehensions, loop conditions, walrus assignments). An operation is replaced by its quantized counterpart only if that accepts its arguments; it is handed every operand and argument once, in the order written, and each of its quantizer parameters a quantizer of its own. Quantize statements are put after the value is bound, and after a docstring. Rewriting a name touches references to it only; super() calls keep meaning the class they stood in.",
  quantifier=dict(over=["programs"], text="all source programs, syntax nodes, operators, targets and scopes"),
  why_tests_cant="Tests compare the rewritten text of a few dozen snippets; an operand order, a scope, an evaluation that is conditional or a target list that no snippet has can be rewritten into code that runs and computes something else.",
  anchors=dict(files=["src/fastforward/_autoquant/cst/passes.py", "src/fastforward/_autoquant/cst/nodes.py", "src/fastforward/_autoquant/cst/node_creation.py", "src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py", "src/fastforward/_autoquant/convert.py", "src/fastforward/_autoquant/bypass.py", "src/fastforward/_autoquant/autoquant.py", "src/fastforward/_quantops/optable.py"],
   mechanism=[dict(name="rewriting passes and operator tables", where="src/fastforward/_autoquant/cst/passes.py"), dict(name="replacement candidates and wrapped assignments", where="src/fastforward/_autoquant/cst/nodes.py"), dict(name="conversion of a function: order of passes, quantized calls, references", where="src/fastforward/_autoquant/convert.py"), dict(name="quantize statements", where="src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py"), dict(name="super() calls", where="src/fastforward/_autoquant/autoquant.py"), dict(name="operator table", where="src/fastforward/_quantops/optable.py")]),
  technique="abstract interpretation of every rewriting pass for an arbitrary syntax node; the returned node is compared field by field with the node it replaces (operands, targets, operator, order), operator tables are checked against the semantics of the Python operators, hoisting and insertion from the guards of the paths that reach them",
  note="Outside the claim, because the repository's tests pin it: a value that is quantized is given a name before the statement that uses it (also when it is an attribute or an operation evaluated conditionally in it), equal quantizations are made once, and hoisted calls are evaluated before the reads to their left. What libcst does with a tree is trusted; x += b may become x = x + b."))
PROPS.append(
 dict(id="I02", title="AutoQuant gives each quantized operation its own declared quantizer",
  statement="Every quantizer that AutoQuant writes into generated code has a number of its own and, in the scope it lives in (the class for instance methods, the function otherwise), a name that no other quantizer of that scope has; the name is printed wherever the number stands. Quantizers that instance methods use are attributes of the instance and every one of them is declared, exactly once, in the __init_quantization__ of the class the method is generated for, after that of its bases; quantizers of functions, static and class methods are keyword-only parameters added to the ones the function has. A function that calls quantized functions passes each of them, for each call separately and through any number of levels and cycles, the quantizers that it uses and that the functions it calls use, under the names of the parameters, from its own parameters or, in an instance method, from attributes that are declared for this call. Functions that need no quantizers are called as before. Every module type that is not quantized yet gets one class, derived from QuantizedModule and from the type it stands for. What a generated function refers to by name is imported, and names of generated classes, imported bases, functions and imports from different Python modules do not hide one another.",
  quantifier=dict(over=["programs"], text="all modules, class hierarchies, call graphs and sets of quantized operations"),
  why_tests_cant="Tests look at a few call graphs of two or three functions in one file; a shared quantizer still computes something, so a name that two operations have in common, a call that gets the quantizers of another or a constant that is imported from the wrong module goes unnoticed.",
  anchors=dict(files=["src/fastforward/_autoquant/pybuilder/quantizer_collection.py", "src/fastforward/_autoquant/pybuilder/builder.py", "src/fastforward/_autoquant/autoquant.py", "src/fastforward/_autoquant/pysource/scope.py"],
   mechanism=[dict(name="numbers, scopes and names of quantizers", where="src/fastforward/_autoquant/pybuilder/quantizer_collection.py"), dict(name="declarations, parameters and imports", where="src/fastforward/_autoquant/pybuilder/builder.py"), dict(name="discovery, propagation, signatures and calls", where="src/fastforward/_autoquant/autoquant.py")]),
  technique="abstract interpretation of the quantizer collection, the builders and each phase of call resolution for arbitrary functions, calls and contexts; what is stored, declared, passed and printed on each path is compared by identity with the call, function and scope it belongs to; the uniqueness of names from the guard under which a name is given and the scope of the set it is tested against",
  note="Outside the claim: that two calls which the quantized-call deduplication found equal use one quantizer (the repository's tests pin it), names of attributes that the original class has, a helper function that is passed as a value, and a static or class method that two quantized classes inherit. `import a.b` statements that bind the same top-level package are not told apart."))

PROPS.append(
 dict(id="I03", title="AutoQuant converts all that is called, once, and calls it by its name",
  statement="AutoQuant converts the forward method of every module type that it generates a class for and then, transitively, every method of the class and every Python function that a converted function calls, however the call is written (an attribute of the instance or the class, the instance itself, a name or an attribute of a module, an alias); operators with a quantized counterpart and bypassed functions are kept as they are. Each is converted once, from the source of that very function (found along the method resolution order and by identity, not by name), into the class or module it belongs to and under the name it is accessed by, and as the kind of method it is in its class: instance, class and static methods, also inherited ones, keep the parameter they are bound by. A converted function that is no method has a name that no generated class or other function has; every call and every reference of it uses that name, and attributes, keywords and other names that merely look the same are left alone.",
  quantifier=dict(over=["programs"], text="all modules, class hierarchies, aliases and call graphs"),
  why_tests_cant="A function that is not converted, or is converted from another function of the same name, still runs and returns a plausible value without the quantizers; the tests convert a few small files in which names are unique.",
  anchors=dict(files=["src/fastforward/_autoquant/autoquant.py", "src/fastforward/_autoquant/function_context.py", "src/fastforward/type_common.py"],
   mechanism=[dict(name="queue, dependent methods and functions, source lookup, helper names", where="src/fastforward/_autoquant/autoquant.py"), dict(name="kind of a method and its bound parameter", where="src/fastforward/_autoquant/function_context.py"), dict(name="method_type", where="src/fastforward/type_common.py")]),
  technique="abstract interpretation of the conversion loop, the search for dependent methods and functions, the source lookup and the renaming for arbitrary modules and calls; on every path what is queued, converted, stored, named and replaced is compared by identity with the object the path's conditions say was found",
  note="Functions whose conversion raises are logged and left out, as documented. Calls that are found only at run time (`type(self).f()`, functions passed as values) are outside the claim, as is which function a name in the source refers to beyond the scope the repository resolves it in."))
