PROPS = [
 dict(id="B01", title="Quantized tensors are never silently computed on as raw or dequantized data",
  statement="With strict quantization on, a torch operation on a QuantizedTensor for which no kernel is registered raises QuantizationError and never runs on dequantized data; with strict quantization off it runs on recursively dequantized arguments (also inside lists, tuples and dicts). No torch operation ever silently computes on the raw integer data: only metadata queries bypass the dispatcher, in-place and augmented-assignment operators and default indexing are refused, the registered kernel is found under the operation's own name and gets the unchanged arguments, and dtype casts (float(), half(), int(), to(dtype), ...) convert the dequantized values to the requested dtype while device moves keep the tensor quantized. dequantize() uses the tensor's own quantization function and parameters.",
  quantifier=dict(over=["inputs", "programs", "configurations"], text="all torch operations reaching a QuantizedTensor, all argument nestings, both strict modes"),
  why_tests_cant="There are hundreds of torch operations and argument nestings; tests try a few of them, and an operator computed on raw integers gives plausible tensors.",
  anchors=dict(files=["src/fastforward/quantized_tensor.py", "src/fastforward/dispatcher.py"],
   mechanism=[dict(name="QuantizedTensor.__torch_function__", where="src/fastforward/quantized_tensor.py"), dict(name="_dequantization_fallback", where="src/fastforward/quantized_tensor.py")]),
  technique="path classification of the torch-function entry point by abstract interpretation",
  note="Every path of the entry point, the fallback, the refusing registrations and the cast kernels is classified; the excluded-operation table is checked against the set of value-computing operators. Assumes torch routes operators through __torch_function__."),
]
PROPS.append(
 dict(id="B02", title="Kernel lookup picks the newest matching registration of the best priority",
  statement="Looking up an operator returns the kernel of the first registration, in order of priority (default, then fallback, then not-implemented) and newest first within a priority, whose predicate accepts the call's unchanged arguments, and nothing if none does. A registration made for a scope disappears, and only it, when the scope ends in any way; registrations made as a decorator return the decorated kernel and behave like functional ones. Predicates combined with not, and, or have exactly the corresponding truth tables.",
  quantifier=dict(over=["histories", "inputs"], text="all sequences of registrations and scope exits, all priorities, all predicate combinations, all call arguments"),
  why_tests_cant="Tests register one or two kernels; the order only matters for mixes of priorities and nested scopes.",
  anchors=dict(files=["src/fastforward/dispatcher.py"], state=[dict(name="operator registry", meaning="ordered registrations per operator name", where="src/fastforward/dispatcher.py")],
   mechanism=[dict(name="register / dispatch / DispatcherRegistrationHook", where="src/fastforward/dispatcher.py")]),
  technique="path and truth-table extraction from registration, lookup, removal by abstract interpretation",
  note="Insertion position, visit order, returned item, removed item and predicate tables are derived from all paths; every function touching the registry is checked for other writes."))
PROPS.append(
 dict(id="B03", title="Every quantized operator enforces strict mode and forwards all arguments",
  statement="Each operator of the operator table, called through the functional interface, refuses in strict mode (explicit, or the global setting when none is given) exactly the calls that lack an output quantizer or pass an ordinary tensor where a quantized one is required, and raises QuantizationError for them. Otherwise it runs the matching registered kernel, or else its torch counterpart on dequantized operands, with every argument forwarded under its own name and the documented defaults, and the result passes through the output quantizer when one is given.",
  quantifier=dict(over=["inputs", "configurations"], text="all operators of the table, all combinations of quantized/ordinary/None operands, strict modes and output quantizers"),
  why_tests_cant="53 operators times operand combinations; tests sample single combinations of some operators, and a dropped stride or an undequantized bias shows only for particular arguments.",
  anchors=dict(files=["src/fastforward/_gen/fallback.py", "src/fastforward/_gen/operators.py", "src/fastforward/_quantops/quantized_operators.yaml"],
   mechanism=[dict(name="generated fallbacks and entry points", where="src/fastforward/_gen/")]),
  technique="exhaustive path enumeration of generated operators against the operator table",
  note="All paths of all 53 entry points and fallbacks are enumerated by abstract interpretation and compared with the YAML table (and the table's defaults with the installed torch sources)."))
PROPS.append(
 dict(id="B04", title="Copying, moving and pickling a quantized tensor keeps its quantization",
  statement="clone, detach, contiguous, cpu/cuda/to(device), deepcopy and pickling of a quantized tensor give a quantized tensor that holds the same raw data (copied, detached or moved) with the same quantization function and parameters; every tensor parameter is copied, detached or moved along, deepcopy and clone share nothing with the original and respect the memo. Re-attaching data to a context uses exactly that context, changing parameters gives a new context with only the named values changed and never alters the original, and custom quantization functions receive exactly the parameters in their own signatures.",
  quantifier=dict(over=["inputs", "programs"], text="all quantized tensors, all quantization functions and parameter types, all life-cycle operations"),
  why_tests_cant="A parameter that stays on the old device, in the graph or shared with the original is invisible until it is modified or the original goes away; tests use CPU tensors with two parameters.",
  anchors=dict(files=["src/fastforward/quantized_tensor.py", "src/fastforward/quantization/function.py", "src/fastforward/common.py"],
   mechanism=[dict(name="QuantizedTensor life cycle methods", where="src/fastforward/quantized_tensor.py"), dict(name="QuantizationContext", where="src/fastforward/quantization/function.py")]),
  technique="abstract interpretation of life-cycle methods: provenance of data and of every parameter",
  note="Return terms of all paths, with the context helpers inlined, are matched against (own raw data through op, own context with every tensor parameter through the same op)."))
PROPS.append(
 dict(id="B05", title="Kernels on raw data represent the operator on the dequantized tensor",
  statement="Each kernel registered for view, reshape, transpose, expand, indexing, cat, unsqueeze, take_along_dim, topk, contiguous and scalar multiplication gives a quantized tensor that dequantizes to the operator, with all its arguments, applied to the dequantized input. A kernel is selected only for arguments that are quantized tensors of a quantization function and granularity whose parameters stay valid for the result (tensors are concatenated only if their scales and offsets agree, channel parameters follow the channel axis when dimensions are inserted or indexed, a negative scale reverses order); other calls are left to the fallback. A kernel is never selected when an output quantizer is requested that it would not apply.",
  quantifier=dict(over=["inputs", "programs"], text="all arguments, dimensions, index expressions, granularities, scales and offsets"),
  why_tests_cant="Tests use positive dimensions, symmetric tensors and short indices; wrong parameters on the result give plausible values only for other shapes, offsets or signs.",
  anchors=dict(files=["src/fastforward/quantization/_linear_quantized_ops.py", "src/fastforward/quantized_tensor.py"],
   mechanism=[dict(name="registered kernels and predicates", where="src/fastforward/quantization/_linear_quantized_ops.py")]),
  technique="abstract interpretation of every kernel against its predicate's acceptance conditions",
  note="The acceptance conditions of each predicate are extracted as condition sets and must make the kept or changed context valid; indexing is run on tuples of up to three unknown indices. List and tensor indices of per-channel tensors are not modelled."))
PROPS.append(
 dict(id="B06", title="Quantized modules compute their float counterpart through their quantizers",
  statement="A quantized linear, convolution, normalization, embedding or activation module computes the same operator as the torch module it replaces, with every setting of that module (stride, padding and padding mode, dilation, groups, eps, normalized shape, ...) under its own name, its input, weight and bias each passed once through the quantizer declared and tagged for that role and its result through the output quantizer. Converting a model refuses, before anything is changed, a model that contains a module type without quantized counterpart, and otherwise converts and initialises each module and all its children according to the type's latest registered counterpart, overridden by the given extra conversions, honouring the skip and ignore options; enumeration and state dictionaries of quantizers cover all quantizers of the model under their own names.",
  quantifier=dict(over=["programs", "configurations"], text="all quantized module classes and their settings, all models and conversion maps"),
  why_tests_cant="Tests convert a few default-configured modules; a swapped or ignored setting only shows for non-default settings, a skipped quantizer only when one is installed.",
  anchors=dict(files=["src/fastforward/nn/quantized_module.py", "src/fastforward/nn/conv.py", "src/fastforward/nn/linear.py", "src/fastforward/nn/normalization.py", "src/fastforward/nn/embedding.py", "src/fastforward/nn/activations.py"],
   mechanism=[dict(name="quantized module forwards", where="src/fastforward/nn/"), dict(name="quantize_model", where="src/fastforward/nn/quantized_module.py")]),
  technique="symbolic comparison of module forwards with the installed torch sources; path analysis of conversion",
  note="The operator call of each module is compared argument by argument with the call in torch's class of the same name. Models that share one module object between two parents are outside the decided part (conversion refuses the second visit)."))
