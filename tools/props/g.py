PROPS = []
PROPS.append(
 dict(id="G01", title="Executing a graph computes what its nodes say, on the right data and device",
  statement="Running a graph calls every node's module once per batch and execution context with exactly its positional and keyword arguments (values of that batch and context, parts extracted, constants as given, single values repeated for all batches; other length mismatches are refused), inside that context, after its inputs were produced, and returns for each context the graph's outputs in order. Inputs are bound to the graph's input names like function arguments; anything else is refused. A delegate runs before its module is called, on that module, with one bundle per declared context holding exactly the node's inputs. Every producer runs in all contexts its consumers need. Passes change no result: an entry is deleted only after its last use and never if it is returned, optimization-only execution keeps everything an optimization depends on, and with offloading every module and input of a call is on the compute device when it is called and at the end all weights return to their original devices. A program kept for a graph is never used after the graph was changed.",
  quantifier=dict(over=["programs", "inputs", "schedules"], text="all graphs, inputs, batches, contexts, delegates, orders and combinations of passes"),
  why_tests_cant="Which entries live, move and are rebuilt depends on the order of instructions, on sharing between nodes and on how passes are combined; tests on CPU cannot see a module or activation on the wrong device, nor a stale program used after a rare mutation.",
  anchors=dict(files=["src/fastforward/_orchestration/instruction_engine.py", "src/fastforward/_orchestration/graph_module.py", "src/fastforward/orchestration.py"],
   mechanism=[dict(name="ActivationRegister, ActivationDataset, ActivationBundle, Instruction and its subclasses", where="src/fastforward/_orchestration/instruction_engine.py"), dict(name="InstructionScheduler, InstructionEngine, _propagate_contexts", where="src/fastforward/_orchestration/instruction_engine.py"), dict(name="lifetime, optimization-only, offloading and cancellation passes", where="src/fastforward/_orchestration/instruction_engine.py"), dict(name="GraphModule._invalidate_caches, forward", where="src/fastforward/_orchestration/graph_module.py"), dict(name="layerwise_optimize", where="src/fastforward/orchestration.py")]),
  technique="abstract interpretation of each instruction, of the scheduler and of one step of every pass for an arbitrary instruction; effect analysis of uses/produces against register accesses; invalidation analysis of graph mutators",
  note="Decided per instruction and per step of a pass, not for whole instruction sequences; that the topological order is one is not part of this property; modules and delegates are taken not to touch the register."))
