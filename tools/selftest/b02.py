D = "dispatcher.py"
CASES = [
 ("bisect_right", 1, [(D, "bisect.bisect_left(", "bisect.bisect_right(")]),
 ("append", 1, [(D, "op_impls.insert(insert_idx, dispatcher_item)", "op_impls.append(dispatcher_item)")]),
 ("insert0", 1, [(D, "op_impls.insert(insert_idx, dispatcher_item)", "op_impls.insert(0, dispatcher_item)")]),
 ("default priority item", 1, [(D, "DispatcherItem(predicate, kernel, priority)", "DispatcherItem(predicate, kernel)")]),
 ("decorator drops priority", 1, [(D, "register(op_name, predicate, kernel, priority)\n        return kernel", "register(op_name, predicate, kernel)\n        return kernel")]),
 ("decorator returns none", 1, [(D, "kernel, priority)\n        return kernel", "kernel, priority)")]),
 ("reversed", 1, [(D, "for item in dispatcher_items:", "for item in reversed(dispatcher_items):")]),
 ("skip first", 1, [(D, "for item in dispatcher_items:", "for item in dispatcher_items[1:]:")]),
 ("last match", 1, [(D, "            return item.fn\n    return None", "            found = item.fn\n    return found"), (D, "    for item in dispatcher_items:", "    found = None\n    for item in dispatcher_items:")]),
 ("drop kwargs", 1, [(D, "        if item.predicate(*args, **kwargs):", "        if item.predicate(*args):")]),
 ("any for and", 1, [(D, "return all(p(", "return any(p(")]),
 ("or builds and", 1, [(D, "return _PredicateOr(self, other)", "return _PredicateAnd(self, other)")]),
 ("or drops", 1, [(D, "return _PredicateOr(self, other)", "return _PredicateOr(other)")]),
 ("not", 1, [(D, "return not self._p(", "return bool(self._p(")]) if 0 else ("not", 1, [(D, "return not self._p(*args, **kwargs)", "return self._p(*args, **kwargs)")]),
 ("prio order", 1, [(D, "FALLBACK = 1\n    NOT_IMPLEMENTED_FALLBACK = 2", "FALLBACK = 2\n    NOT_IMPLEMENTED_FALLBACK = 1")]),
 ("hook on exc only", 1, [(D, "        try:\n            _DISPATCHER[self._op_name].remove(self._dispatcher_item)\n        except ValueError:\n            pass", "        if exc_type is None:\n            _DISPATCHER[self._op_name].remove(self._dispatcher_item)")]),
 ("hook pops", 1, [(D, "_DISPATCHER[self._op_name].remove(self._dispatcher_item)", "_DISPATCHER[self._op_name].pop(0)")]),
 ("hook clears op", 1, [(D, "_DISPATCHER[self._op_name].remove(self._dispatcher_item)", "_DISPATCHER.pop(self._op_name)")]),
 ("default pred false", 1, [(D, "**_kwargs: P.kwargs) -> bool:\n        return True", "**_kwargs: P.kwargs) -> bool:\n        return False")]),
 ("r: next", 0, [(D, "    for item in dispatcher_items:\n        if item.predicate(*args, **kwargs):\n            return item.fn\n    return None", "    return next((i.fn for i in dispatcher_items if i.predicate(*args, **kwargs)), None)")]),
 ("r: result var", 0, [(D, "            return item.fn\n    return None", "            found = item.fn\n            break\n    return found"), (D, "    for item in dispatcher_items:", "    found = None\n    for item in dispatcher_items:")]),
 ("r: inline decorator", 0, [(D, "        return _register_decorator(op_name, predicate, priority)", "        def deco(k):\n            _register_functional(op_name, predicate, kernel=k, priority=priority)\n            return k\n        return deco")]),
 ("r: loop and", 0, [(D, "        return all(p(*args, **kwargs) for p in self._p)", "        for p in self._p:\n            if not p(*args, **kwargs):\n                return False\n        return True")]),
 ("r: helper", 0, [(D, "    insert_idx = bisect.bisect_left(op_impls, priority, key=lambda item: item.priority)\n    op_impls.insert(insert_idx, dispatcher_item)", "    _insert(op_impls, dispatcher_item, priority)"), (D, "@typing.overload  # Usage as a function or context manager\n", "def _insert(impls, item, priority):\n    pos = bisect.bisect_left(impls, priority, key=lambda it: it.priority)\n    impls.insert(pos, item)\n\n\n@typing.overload  # Usage as a function or context manager\n")]),
 ("r: item.priority", 0, [(D, "bisect.bisect_left(op_impls, priority,", "bisect.bisect_left(op_impls, dispatcher_item.priority,")]),
 ("r: if None", 0, [(D, "    predicate = predicate or Predicate(_true_predicate_func(kernel))", "    if predicate is None:\n        predicate = Predicate(lambda *a, **k: True)")]),
 ("r: contextlib suppress", 0, [(D, "        try:\n            _DISPATCHER[self._op_name].remove(self._dispatcher_item)\n        except ValueError:\n            pass", "        impls = _DISPATCHER[self._op_name]\n        if self._dispatcher_item in impls:\n            impls.remove(self._dispatcher_item)")]),
 ("r: manual index", 0, [(D, "    insert_idx = bisect.bisect_left(op_impls, priority, key=lambda item: item.priority)", "    insert_idx = sum(item.priority < priority for item in op_impls)")]),
]
