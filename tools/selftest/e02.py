I, N, QMF, S = "quantization/quant_init.py", "nn/quantizer.py", "nn/quantized_module.py", "mpath/_search.py"
CASES = [
("clean",0,[]),
("append item",1,[(I,"if not isinstance(item.module, Quantizer):","if not isinstance(item, Quantizer):")]),
("error only when safe raises anyway",0,[(I,'        if overwrite_policy == "error":\n            msg = (\n                f"\'{result','        if overwrite_policy == "error" and safe:\n            msg = (\n                f"\'{result')]),
("skip overwrites",1,[(I,'        if overwrite_policy == "skip":\n            return result\n','        if overwrite_policy == "skip":\n            pass\n')]),
("safe dropped",1,[(I,"return result.update_module(quantizer, safe=safe)","return result.update_module(quantizer)")]),
("safe not forwarded",1,[(I,"                    overwrite_policy=overwrite_policy,\n                    safe=safe,\n                )\n            )","                    overwrite_policy=overwrite_policy,\n                )\n            )")]),
("kwargs dropped",1,[(I,"        return factory(**kwargs)","        return factory()")]),
("order of ties",1,[(I,"score >= matches[module].score","score > matches[module].score")]),
("lower wins",1,[(I,"score >= matches[module].score","score <= matches[module].score")]),
("no score",1,[(I,"if module not in matches or score >= matches[module].score:","if module not in matches:")]),
("rule of loop",1,[(I,"_ensure_factory_func(best_item.rule.factory, best_item.rule.kwargs)","_ensure_factory_func(rule.factory, rule.kwargs)")]),
("break",1,[(I,"            _results.append(\n                _initialize_quantizer(\n                    result=result,\n                    quantizer_factory=quantizer_factory,\n                    overwrite_policy=overwrite_policy,\n                    safe=safe,\n                )\n            )\n","            _results.append(\n                _initialize_quantizer(\n                    result=result,\n                    quantizer_factory=quantizer_factory,\n                    overwrite_policy=overwrite_policy,\n                    safe=safe,\n                )\n            )\n            break\n")]),
("rule prepended",1,[(I,"self._rules.append(_QuantConfigRule(query, factory, kwargs))","self._rules.insert(0, _QuantConfigRule(query, factory, kwargs))")]),
("match any",1,[(I,"        for tag in self._tags:\n            if tag not in module.quant_metadata:\n                return False\n        return True","        for tag in self._tags:\n            if tag in module.quant_metadata:\n                return True\n        return False")]),
("no strip",1,[(I,"[Tag(tag.strip()) for tag in","[Tag(tag) for tag in")]),
("hierarchy misses root",1,[(N,"range(len(tag_fragments), 0, -1)","range(len(tag_fragments), 1, -1)")]),
("hierarchy other sep",1,[(N,'"/".join(tag_fragments[0:i])','".".join(tag_fragments[0:i])')]),
("add only tag",1,[(N,"        for t in Tag(tag).hierarchy():\n            self._tags.add(t)","        self._tags.add(Tag(tag))")]),
("contains raw",1,[(N,"return Tag(tag) in self._tags","return tag in self._tags")]),
("extension reversed",1,[(N,"if not self._tags.issubset(other._tags):","if not other._tags.issubset(self._tags):")]),
("extension ignores attrs",1,[(N,"            if key not in other._kwargs or other._kwargs[key] != value:\n                return False\n\n        return True","            if key not in other._kwargs or other._kwargs[key] != value:\n                break\n\n        return True")]),
("extension missing attr",1,[(N,"if key not in other._kwargs or other._kwargs[key] != value:","if key in other._kwargs and other._kwargs[key] != value:")]),
("tag not unique",1,[(N,"            cls._tags[symbol] = tag\n        return cls._tags[symbol]","        return tag if symbol not in cls._tags else cls._tags[symbol]")]),
("join order",1,[(N,'return type(self)(f"{self._symbol}/{rhs}")','return type(self)(f"{rhs}/{self._symbol}")')]),
("metadata of quantizer wins",1,[(QMF,"        quantizer.quant_metadata = self._quantizer_metadata[name]","        if quantizer.quant_metadata is None:\n            quantizer.quant_metadata = self._quantizer_metadata[name]")]),
("metadata replaced",1,[(QMF,"                        RuntimeWarning,\n                    )","                        RuntimeWarning,\n                    )\n                    self._quantizer_metadata[name] = quantizer.quant_metadata")]),
("setattr only stubs",1,[(QMF,"        if isinstance(value, Quantizer):\n            # Module was","        if isinstance(value, QuantizerStub):\n            # Module was")]),
("update unsafe",1,[(S,"        if safe and getattr(self.parent, self.parent_attribute) is not self.module:","        if safe and getattr(self.parent, self.parent_attribute) is None:")]),
("update keeps module",1,[(S,"return dataclasses.replace(self, module=replacement)","return dataclasses.replace(self)")]),
("stub detaches",1,[(N,"            torch.Tensor: The same input tensor, unchanged.\n        \"\"\"\n        return data","            torch.Tensor: The same input tensor, unchanged.\n        \"\"\"\n        return data.detach()")]),
("find other aliases",1,[(I,"        aliases=aliases,\n        stack_depth=2,","        aliases=None,\n        stack_depth=2,")]),
# benign
("benign comp",0,[(I,"        _results: list[FilterResult] = []\n        for result in self._results:\n            _results.append(\n                _initialize_quantizer(\n                    result=result,\n                    quantizer_factory=quantizer_factory,\n                    overwrite_policy=overwrite_policy,\n                    safe=safe,\n                )\n            )\n        self._results = _results","        self._results = [\n            _initialize_quantizer(result, quantizer_factory, overwrite_policy, safe)\n            for result in self._results\n        ]")]),
("benign match",0,[(I,"        for tag in self._tags:\n            if tag not in module.quant_metadata:\n                return False\n        return True","        metadata = module.quant_metadata\n        return all(tag in metadata for tag in self._tags)")]),
("benign policy",0,[(I,'        if overwrite_policy == "skip":\n            return result\n        if overwrite_policy != "overwrite":','        elif overwrite_policy == "skip":\n            return result\n        elif not overwrite_policy == "overwrite":')]),
("benign hierarchy",0,[(N,"        for i in range(len(tag_fragments), 0, -1):\n            yield type(self)(\"/\".join(tag_fragments[0:i]))","        depth = len(tag_fragments)\n        for i in range(1, depth + 1):\n            yield type(self)(\"/\".join(tag_fragments[:i]))")]),
("benign score",0,[(I,"                if module not in matches or score >= matches[module].score:\n                    matches[module] = _RuleItem(rule, result, score)","                best = matches.get(module)\n                if best is None or not score < best.score:\n                    matches[module] = _RuleItem(rule, result, score)")]),
("benign score2",0,[(I,"                if module not in matches or score >= matches[module].score:\n                    matches[module] = _RuleItem(rule, result, score)","                if module in matches and score < matches[module].score:\n                    continue\n                matches[module] = _RuleItem(rule=rule, filter_result=result, score=score)")]),
("benign extension",0,[(N,"            if key not in other._kwargs or other._kwargs[key] != value:\n                return False\n\n        return True","            if key not in other._kwargs:\n                return False\n            if other._kwargs[key] != value:\n                return False\n\n        return True")]),
("benign setattr",0,[(QMF,"        super().__setattr__(name, value)\n        if isinstance(value, Quantizer):","        super().__setattr__(name, value)\n        is_quantizer = isinstance(value, Quantizer)\n        if is_quantizer:")]),
("benign items",0,[(I,"        for best_item in matches.values():","        for _, best_item in matches.items():")]),
("benign helper",0,[(I,"    quantizer = quantizer_factory(result.full_name, cast(Quantizer, result.module))\n    return result.update_module(quantizer, safe=safe)","    return _put(result, quantizer_factory, safe)\n\n\ndef _put(result: FilterResult, make: _QuanttizerFactory, safe: bool) -> FilterResult:\n    new = make(result.full_name, cast(Quantizer, result.module))\n    return result.update_module(new, safe)")]),
("benign add",0,[(N,"        for t in Tag(tag).hierarchy():\n            self._tags.add(t)","        self._tags.update(Tag(tag).hierarchy())")]),
]
