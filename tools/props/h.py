PROPS = []
PROPS.append(
 dict(id="H02", title="An export pipeline runs every stage once, in order, on its own dependencies",
  statement="Whatever sequence of registrations and edits built a pipeline: stage names stay unique and name one stage; a stage's inputs are exactly the outputs of the stages it depends on, in the order the dependencies were given, and rewiring (insert before, insert after, replace, add or remove a dependency) keeps that order, leaves other edges alone, is refused before anything changes when a name is unknown or taken, and never creates a cycle through add_dependency. A replacement keeps name, position, capture and evaluation role unless told otherwise. Building places every (or every needed) stage once, after all its dependencies, and refuses cycles and unknown stages. A run calls each built stage once on the results of its dependencies (the model for a stage without any), with the sample inputs and the context; it returns the captured results by stage name (or the last one) and compares each pair of evaluation stages once, sample by sample. The registry returns the pipeline registered for a target and format, never another, and orchestration hands it model, samples and options unchanged. The built-in QNN ONNX, QNN QDQ and GGUF pipelines wire every stage to producers of the types it accepts, and mutate-before-use stages (weight fusion, node renaming, metadata, transforms) always run before the stages that read their result.",
  quantifier=dict(over=["histories", "programs", "inputs"], text="all pipelines, sequences of edits, targets, stage functions and sample inputs"),
  why_tests_cant="A dependency order only matters for some combination of edits and of stages with several inputs; tests splice a few small pipelines, and the built-in pipelines are only run on models for which a misplaced stage may make no difference.",
  anchors=dict(files=["src/fastforward/export/pipeline/core.py", "src/fastforward/export/pipeline/registry.py", "src/fastforward/export/pipeline/orchestrator.py", "src/fastforward/export/pipeline/qnn_onnx_pipeline.py", "src/fastforward/export/pipeline/qnn_onnx_qdq_pipeline.py", "src/fastforward/export/pipeline/gguf_llama_cpp_pipeline.py"],
   mechanism=[dict(name="StageReference, Pipeline, _ExecutionContext, _EvaluationAggregator", where="src/fastforward/export/pipeline/core.py"), dict(name="PipelineRegistry, build_default_registry", where="src/fastforward/export/pipeline/registry.py"), dict(name="orchestration of a request", where="src/fastforward/export/pipeline/orchestrator.py"), dict(name="built-in pipelines", where="src/fastforward/export/pipeline/qnn_onnx_pipeline.py")]),
  technique="abstract interpretation of every edit of the stage graph for an arbitrary stage and dependency, compared with an ordered model of the dependency table; the same for the traversal and the run; evaluation of the built-in pipelines to stage graphs checked for order and input types",
  note="Edits are decided one at a time for arbitrary dependency tables; what the stages of the built-in pipelines compute is the subject of other properties; stage functions are taken not to edit the pipeline that runs them."))
PROPS.append(
 dict(id="H01", title="Exported encodings describe the very grid the quantizer used",
  statement="For every quantizer with scale s, offset o and b bits: each schema handler writes, for each scale in order, exactly one zero point round(o) - 2**(b-1), the scale, the number of bits and (legacy) the range of the grid; it says symmetric (or, version 2, gives a signed type without zero points) if and only if every rounded offset is zero, names the format, axis, block size and parameter layout that belong to the granularity, and refuses what the format cannot express, including fractional bits. LPBQ encodings give each channel its largest block scale over 2**compressed bits and each block its rounded multiple of it, only for symmetric single-axis blocks of the configured bits. A handler keeps the first encoding of a name in the table of its kind, returns all of them and the right version, is empty after clear, and dictionaries it returned earlier do not change. Capturing annotates the input of every quantize node with that node's parameters, removes quantize and dequantize nodes without losing a user, spreads annotations over views only and never over an existing one. What the ONNX metadata says of a quantizer is read back as the same parameters; metadata reaches the item of the same name, and extraction emits every annotated initializer as parameter and every annotated input, node output and output as activation, once, under its name.",
  quantifier=dict(over=["inputs", "programs", "configurations", "histories"], text="all scales, offsets, numbers of bits, granularities, graphs and sequences of exports"),
  why_tests_cant="A wrong sign or power of two cancels for zero offsets, layouts coincide for square weights or one block, and the wrong item is only annotated in graphs with particular sharing; tests compare a few fixed encodings.",
  anchors=dict(files=["src/fastforward/export/_export_schemas.py", "src/fastforward/export/_lpbq.py", "src/fastforward/export/stages/passes.py", "src/fastforward/export/stages/annotations.py", "src/fastforward/export/stages/onnx/onnx_export_stages.py"],
   mechanism=[dict(name="_preprocess_quantization_params and the three schema handlers", where="src/fastforward/export/_export_schemas.py"), dict(name="LPBQProcessor", where="src/fastforward/export/_lpbq.py"), dict(name="AnnotateFFQuantSpecs, PropagateFFQuantSpecs", where="src/fastforward/export/stages/passes.py"), dict(name="_ff_quantizer_spec", where="src/fastforward/export/stages/annotations.py"), dict(name="metadata annotator, copier and extraction", where="src/fastforward/export/stages/onnx/onnx_export_stages.py")]),
  technique="abstract interpretation of every handler for every kind of granularity with and without offsets, entries compared as canonical algebraic expressions with the quantizer's grid; symbolic round trip of the metadata; graph passes and extraction loops decided for an arbitrary node",
  note="Equality of formulas is over the reals; what onnx and torch.export themselves do with a graph is trusted; LPBQ formulas are checked against the documented definition."))

PROPS.append(
 dict(id="H03", title="An exported graph computes what the quantized model computes",
  statement="Exporting keeps the meaning of the model. In a QDQ export every quantize and dequantize becomes QuantizeLinear and DequantizeLinear on the same input and scale, with minus the rounded offset as zero point, the integer type of exactly the quantizer's bits and the axis of its granularity; bits and opsets the format cannot express are refused, the requested opset is the one used, lowerings given by the user win, and the caller's context and options are not changed. Models are captured and evaluated without gradients, in export mode only where a graph is traced, with the sample's own arguments, and evaluation yields one result per sample in order; weights are snapped to their grid only when asked. Cleaning up removes only unused attributes and refuses a graph that still refers to a quantizer, under whatever name. Inputs and outputs get the names asked for, in order, or the request is refused; altered names are applied once to every value and all its references, so no two values are merged; encodings follow a renaming. Files are saved under the directory and name given, with the caller's save options winning. A recorder keeps the inputs, keyword arguments and flattened outputs of the call, dequantized, each leaf aligned with the quantizer parameters of that very tensor, is attached at most once and is gone when its block ends. Exporting modules records a run without and a run with quantization, exports each module on its own recorded (detached) inputs with the caller's settings, adds the recorded parameters to the encodings of the graph input or output they belong to, before the handler is cleared for the next module, and returns each module's directory.",
  quantifier=dict(over=["programs", "inputs", "configurations", "fault_sequences"], text="all models, granularities, offsets, opsets, names, sample inputs and failing exports"),
  why_tests_cant="Tests export a handful of tiny models: a swapped axis is invisible for square weights, a wrong sign for zero offsets, a name clash or misaligned leaf needs particular names or nested outputs, and a leaked context shows only in whatever is traced next.",
  anchors=dict(files=["src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py", "src/fastforward/export/stages/onnx/onnx_export_stages.py", "src/fastforward/export/stages/base_pipeline_stages.py", "src/fastforward/export/_onnx_helpers.py", "src/fastforward/export/_io_capture.py", "src/fastforward/export/module_export.py"],
   mechanism=[dict(name="QDQ capture, operator table and lowerings", where="src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py"), dict(name="capture, decomposition, fusion and cleanup stages", where="src/fastforward/export/stages/base_pipeline_stages.py"), dict(name="renaming of graph values", where="src/fastforward/export/_onnx_helpers.py"), dict(name="ModuleIORecorder", where="src/fastforward/export/_io_capture.py"), dict(name="export_modules, maybe_extend_encodings_file", where="src/fastforward/export/module_export.py")]),
  technique="abstract interpretation of tracing, lowering, clean-up, renaming, saving and recording for an arbitrary model, node, granularity and call; lowering operands compared as canonical algebraic terms; operator-table, context-restoration and name-uniqueness obligations on every path",
  note="What torch.export, torch.onnx and onnxruntime do with a graph is trusted; equality of formulas is over the reals; positional inputs and graph inputs are taken to come in the same order, as the code documents; an altered name equal to that of a graph input that is not altered is outside the claim."))

PROPS.append(
 dict(id="H04", title="A GGUF file holds exactly the codes and scales the model learned",
  statement="Exporting to GGUF writes every parameter that has a name in the target format once, under that name, unless it is tied to another one, and never lets two parameters share a name. A parameter with an initialized weight quantizer (the one of its own module, at any depth) is written as that quantizer's integer codes and scales; anything else as its own values in the requested float type, declared as that type. A quantizer is only accepted if the format can express it: same number of bits, symmetry and no offset, blocks of the format's size along the rows of the weight. In a Q4_0 or Q8_0 block the first two bytes are the scale as half float and byte k holds the codes the format puts there (code+8 of elements k and k+16, or the code clamped to 127), so that reading the block gives scale times code. Transforms run once each, in order, on every tensor; the rotary permutation moves whole rows, codes and scales alike, by the numbers of heads of queries and of keys, touches only quantized query and key projections and is refused when rows do not divide. Header, metadata (each value from its own configuration field), vocabulary (one token and type per token number, in order) and tensors are written in the order the format needs; the writer is closed however writing ends.",
  quantifier=dict(over=["inputs", "programs", "configurations", "fault_sequences"], text="all weights, codes, scales, quantizers, adapters, tokenizers, configurations and failing writes"),
  why_tests_cant="Tests pack random codes of a few tiny layers with friendly names; a wrong byte for the extreme code, blocks along the wrong axis of a square weight, a one-sided quantizer, equal names or a leaked writer need particular weights, modules or failures, and the file is read by another program.",
  anchors=dict(files=["src/fastforward/export/stages/gguf/_packing.py", "src/fastforward/export/stages/gguf/_extract.py", "src/fastforward/export/stages/gguf/_arch.py", "src/fastforward/export/stages/gguf/_naming.py", "src/fastforward/export/stages/gguf/_vocab.py", "src/fastforward/export/stages/gguf/adapter.py", "src/fastforward/export/stages/gguf/gguf_export_stages.py"],
   mechanism=[dict(name="pack_q4_0_blocks, pack_q8_0_blocks and the formats", where="src/fastforward/export/stages/gguf/_packing.py"), dict(name="extraction and validation of quantizers", where="src/fastforward/export/stages/gguf/_extract.py"), dict(name="rotary row permutation, metadata, adapters", where="src/fastforward/export/stages/gguf/_arch.py"), dict(name="name maps", where="src/fastforward/export/stages/gguf/_naming.py"), dict(name="transform, naming, packing and writing stages", where="src/fastforward/export/stages/gguf/gguf_export_stages.py"), dict(name="write_vocab", where="src/fastforward/export/stages/gguf/_vocab.py")]),
  technique="abstract interpretation of extraction, naming, packing and writing for an arbitrary parameter; packers and permutations unfolded from their terms to one expression per byte and compared with the block formats; table and name-map obligations",
  note="Layouts are unfolded for small shapes (one block size, several numbers of rows and heads), formulas for every code; the gguf package and llama.cpp are trusted; float query and key projections are left in their order, as documented; scales are rounded to half float by the format."))
