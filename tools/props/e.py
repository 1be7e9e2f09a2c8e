PROPS = []
PROPS.append(
 dict(id="E02", title="Quantizers are selected and initialized exactly as rules and tags say",
  statement="Initializing selected quantizers replaces every selected stub, in its own place, by a quantizer made by the given factory or class; a quantizer that is already initialized is overwritten, left alone or refused exactly as the overwrite policy says, an unknown policy and modules that are no quantizers are refused, and in safe mode a module that was replaced since the selection is never overwritten. In a quantization configuration every matching quantizer is initialized once, by the matching rule with the highest precedence, the last one added winning ties. A tag query selects exactly the quantizers that carry all its tags, where a tag implies every level of its hierarchy. A quantizer put in place of a stub takes over the stub's metadata, and metadata counts as an extension of other metadata exactly if it has all its tags and no conflicting attribute. A stub returns its input unchanged.",
  quantifier=dict(over=["inputs", "configurations", "histories"], text="all models, selections, rule sets and orders of rules, tags, metadata, policies and earlier replacements"),
  why_tests_cant="Precedence, policies and tags interact over all combinations of rules, scores, hierarchies and already initialized quantizers; a wrong choice leaves a model that runs, with another quantizer somewhere, and tests look at a few fixed rule sets.",
  anchors=dict(files=["src/fastforward/quantization/quant_init.py", "src/fastforward/nn/quantizer.py", "src/fastforward/nn/quantized_module.py", "src/fastforward/mpath/_search.py"],
   mechanism=[dict(name="QuantizerCollection, QuantizationConfig", where="src/fastforward/quantization/quant_init.py"), dict(name="Tag, _TagSet, TagSelector", where="src/fastforward/nn/quantizer.py"), dict(name="QuantizerMetadata, QuantizerStub", where="src/fastforward/nn/quantizer.py"), dict(name="QuantizedModule.register_quantizer", where="src/fastforward/nn/quantized_module.py")]),
  technique="abstract interpretation of selection, initialization and tag code; path conditions of every replacement compared with the policy tables",
  note="Loops over selections are decided for an arbitrary element; what a user's own factory does is not decided."))
PROPS.append(
 dict(id="E01", title="Loading saved quantization state restores exactly what was saved",
  statement="Every quantizer of a model is saved, under each of its names, with its class, constructor arguments, attributes and every initialized parameter; shared quantizers and weights that share memory are stored once and are restored under all names. Loading gives each quantizer exactly its own parameters and puts it in its own place: stubs are replaced, initialized quantizers are overwritten, kept or refused as the overwrite policy says, anything else is refused. Weights are all those of the model outside quantizers and stubs, and all are restored. State of an unknown version, of another model, with missing or unexpected entries, or with uninitialized parameters that were not allowed is refused; nothing is silently dropped. A model without quantizers or a quantizer without parameters can be saved and loaded. Saving does not change the model.",
  quantifier=dict(over=["inputs", "configurations", "histories"], text="all models, names, sharing patterns, quantizer classes and constructor arguments, initialized or not, policies and options"),
  why_tests_cant="What is written and what is read are linked only by strings and keys built on both sides; a mismatch shows for particular combinations of sharing, stubs, missing offsets or uninitialized parameters, of which tests save a few.",
  anchors=dict(files=["src/fastforward/quantization/save_load.py", "src/fastforward/serialization.py", "src/fastforward/nn/quantizer.py"],
   mechanism=[dict(name="_collect_quantizer_state, _load_quantizer_state_from_files, save_quantized_model, load_quantized_model", where="src/fastforward/quantization/save_load.py"), dict(name="yamlable", where="src/fastforward/serialization.py"), dict(name="Quantizer.__getstate__, __setstate__", where="src/fastforward/nn/quantizer.py")]),
  technique="abstract interpretation with a string template domain: the reader is interpreted on the index templates inferred from the writer; path conditions compared with the policy table",
  note="Names and values are arbitrary; names are assumed not to contain the separators of the index. safetensors, yaml and torch state dicts are trusted."))
PROPS.append(
 dict(id="E03", title="Frozen and fused weights hold exactly their quantized values",
  statement="While parameters are frozen, every quantizer below the given modules that is applied to a parameter writes that parameter's quantized and dequantized value into the parameter itself, once, without recording gradients, and is replaced, only afterwards and only if requested, by a stub with its metadata in its own place; quantizers of anything else keep working, and one that leaves its parameter unchanged is left alone. Fusing does the same for every discovered target: the weight named by the target receives what the target's quantizer, and no other, makes of it; quantizers stay unless stubs were requested, and replacing quantizers alone never touches a weight. Discovery covers every quantizer with the tag whose owner has the named parameter, leaves out stubs, and a given discovery is used instead of the default. If quantizers disagree about a weight shared by several modules, nothing is changed and the operation is refused.",
  quantifier=dict(over=["inputs", "configurations", "histories"], text="all models, sharing of weights and quantizers, discoveries, enabled or disabled quantizers and options"),
  why_tests_cant="A wrong or twice quantized weight, a stub in another place or a shared weight on two grids leaves a model that runs; it shows only for particular sharing patterns or attribute names, of which tests build a few.",
  anchors=dict(files=["src/fastforward/quantization/freeze.py", "src/fastforward/quantization/fuse.py"],
   mechanism=[dict(name="freeze_parameters", where="src/fastforward/quantization/freeze.py"), dict(name="fuse_qdq_weights, stub_weight_quantizers, ConventionDiscovery", where="src/fastforward/quantization/fuse.py")]),
  technique="abstract interpretation of the freeze override and the fuse transforms for an arbitrary target; written values and replaced attributes compared on every path",
  note="What a user's quantizer or discovery does is not decided; quantizers shared under several names of one module are replaced under the first."))
