PROPS = []
PROPS.append(
 dict(id="F01", title="A module query selects exactly the modules whose path matches it",
  statement="A query is a sequence of patterns for the steps of a module's path; a module is selected exactly if its whole path below the root matches, where * stands for one step, ** for any number of steps including none, names, regular expressions, classes and predicates for one step that they match, ~ for one step that is not matched, & and | for both or either, {a,b} for either alternative followed by the rest of the query, and &name for an alias. Writing a query as text, composing it with operators or simplifying it does not change what it selects, names in it are those of the caller, and text that is not a complete query is refused. Every selected module is found once and reported with its full name, its parent and the attribute it was found under; the search ends for every query. Collections of results combine as sets and only for the same model; replacing a result changes exactly that attribute, and in safe mode only if it still holds the module. An overridden query extension is restored when its context ends.",
  quantifier=dict(over=["inputs", "programs"], text="all models, queries, alternatives, aliases, fragments and orders of composition"),
  why_tests_cant="Matching depends on how wildcards, alternatives and rests nest and on the order of the search; particular combinations select too little, too much or never end, and a wrong selection silently quantizes other modules.",
  anchors=dict(files=["src/fastforward/mpath/selector.py", "src/fastforward/mpath/fragments.py", "src/fastforward/mpath/_search.py", "src/fastforward/mpath/_parser.py"],
   mechanism=[dict(name="Selector, MultiSelector, _is_multi_wildcard", where="src/fastforward/mpath/selector.py"), dict(name="fragments", where="src/fastforward/mpath/fragments.py"), dict(name="search, FilterResult, MPathCollection", where="src/fastforward/mpath/_search.py"), dict(name="Parser, Tokenizer, get_caller_context", where="src/fastforward/mpath/_parser.py")]),
  technique="abstract interpretation of matcher step, nullability, simplification, search and parser; each path compared with the derivative rules of path patterns",
  note="Decided per step for arbitrary queries and modules, not per whole search; user fragments are trusted; a module that one parent holds under several names is matched under the first."))
