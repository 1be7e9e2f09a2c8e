S, F, R, P, I = "mpath/selector.py", "mpath/fragments.py", "mpath/_search.py", "mpath/_parser.py", "mpath/__init__.py"
STEP = '''        if not self.next:
            return [_SelectorMatch(self.fragment)], continuations

        # If self.next is equivalent to '**', we do have a match as further
        # fragments don't have to match, otherwise there is no match at this
        # point
        if _is_multi_wildcard(self.next):
            return [_SelectorMatch(self.fragment)], continuations
        else:
            return [], continuations
'''
CONT = '''            if self.next:
                continuations.append(
                    _SelectorContinuation(self.next.simplify(), self.fragment, consume=False)
                )

        # We have not'''
TAIL = '''        if self.next:
            continuations.append(_SelectorContinuation(self.next.simplify(), self.fragment))
'''
MARK = '''                if marker not in explored:
                    explored.add(marker)
                    active_modules.append(_ActiveSearchItem(continuation.selector, filter_result))
'''
SELD = '''                if child not in selected_modules:
                    selected_modules.add(child)
'''
JOINT = '''        for fragment in self._selector_fragments:
            if not fragment.match(fragment_name, module):
                return False
        return True
'''
DIS = '''        for fragment in self._selector_fragments:
            if fragment.match(fragment_name, module):
                return True
        return False
'''
UNTIL = '''            elif token.kind in escape_tokens and not escaped:
                escaped = True
                self.tokenizer.next()'''
CASES = [
("clean",0,[]),
("prefix",1,[(F,"return fragment_name == self._fragment_str","return fragment_name.startswith(self._fragment_str)")]),
("regex search",1,[(F,"self._matcher.fullmatch(fragment_name)","self._matcher.match(fragment_name)")]),
("exact class",1,[(F,"is_match = isinstance(module, self._fragment_class)","is_match = type(module) is self._fragment_class")]),
("predicate args",1,[(F,"return self._predicate(fragment_name, module)","return self._predicate(module, fragment_name)")]),
("invert repeat",1,[(F,"        return self._selector_fragment.must_advance()","        return not self._selector_fragment.must_advance()")]),
("invert",1,[(F,"return not self._selector_fragment.match(","return self._selector_fragment.match(")]),
("wild repeat",1,[(F,"        return not self.match_multiple","        return self.match_multiple")]),
("joint any",1,[(F,JOINT,DIS)]),
("disjoint all",1,[(F,DIS,JOINT)]),
("disjoint first",1,[(F,DIS,'''        for fragment in self._selector_fragments:
            return fragment.match(fragment_name, module)
        return False
''')]),
("step no zero",1,[(S,CONT,"        # We have not")]),
("step consume",1,[(S,"self.fragment, consume=False)","self.fragment)")]),
("step no repeat",1,[(S,"            continuations.append(_SelectorContinuation(self, self.fragment))\n","            pass\n")]),
("step always repeat",1,[(S,"        if not self.fragment.must_advance():\n","        if True:\n")]),
("step no tail",1,[(S,TAIL,"")]),
("step tail match",1,[(S,"        else:\n            return [], continuations\n","        else:\n            return [_SelectorMatch(self.fragment)], continuations\n")]),
("step no nullable",1,[(S,"        if _is_multi_wildcard(self.next):\n","        if False:\n")]),
("nullable all",1,[(S,"is_multi_wildcard = any(_is_multi_wildcard(s)","is_multi_wildcard = all(_is_multi_wildcard(s)")]),
("nullable head",1,[(S,"return is_multi_wildcard and (selector.next is None or _is_multi_wildcard(selector.next))","return is_multi_wildcard")]),
("multi no next",1,[(S,"extended = _duplicate_extend(selector, self.next)","extended = selector")]),
("multi last",1,[(S,"            all_matches += matches\n","            all_matches = matches\n")]),
("extend drop",1,[(S,"    return dataclasses.replace(selector, next=_duplicate_extend(selector.next, ext))","    return dataclasses.replace(selector, next=ext)")]),
("remove tails",1,[(S,"        tails = tuple(_duplicate_extend(selector, self.next) for selector in selectors)","        tails = tuple(_duplicate_extend(selector, self.next) for selector in selectors if selector)")]),
("remove next",1,[(S,"            return type(self)(self.next, tuple(s for s in selectors if s is not None))","            return type(self)(None, tuple(s for s in selectors if s is not None))")]),
("root any",1,[(S,"        return all(selector.has_multi_wildcard_root() for selector in self.selectors)","        return any(selector.has_multi_wildcard_root() for selector in self.selectors)")]),
("root single",1,[(S,"return isinstance(self.fragment, WildcardFragment) and self.fragment.match_multiple","return isinstance(self.fragment, WildcardFragment)")]),
("simplify lost",1,[(S,'selector = "**" / simplified_selector',"selector = simplified_selector")]),
("simplify single",1,[(S,"WildcardFragment(match_multiple=True))","WildcardFragment(match_multiple=False))")]),
("list drop",1,[(S,"        fragment_list = (fragment_list,)\n        if self.next:","        if self.next:")]),
("list tail",1,[(S,"            return (self.fragment,) + self.next.fragment_list()","            return (self.fragment,)")]),
("and long",1,[(S,"        if self.next or rhs.next:\n            raise","        if self.next and rhs.next:\n            raise")]),
("and self",1,[(S,"JointFragment(self.fragment, rhs.fragment)","JointFragment(self.fragment, self.fragment)")]),
("or",1,[(S,"return MultiSelector(None, (self, rhs))","return MultiSelector(self.next, (self, rhs))")]),
("invert long",1,[(S,'''            msg = f"Cannot invert {type(self).__name__} that contains more than one fragment"
            raise MPathQueryError(msg)
''','''            pass
''')]),
("search explored module",1,[(R,"marker = (continuation.selector.fragment_list(), filter_result.module)","marker = (filter_result.module)")]),
("search explored selector",1,[(R,"marker = (continuation.selector.fragment_list(), filter_result.module)","marker = (continuation.selector.fragment_list(),)")]),
("search selected skip",1,[(R,SELD,SELD.replace("if child not in","if child in"))]),
("search twice",1,[(R,SELD,"                if True:\n                    selected_modules.add(child)\n")]),
("search break",1,[(R,"            for continuation in continuations:\n","            for continuation in continuations[:1]:\n")]),
("search name",1,[(R,"_child_result(active_item.result, child, child_name, match.fragment)","_child_result(active_item.result, child, match.fragment, child_name)")]),
("search consume",1,[(R,"if continuation.consume:","if not continuation.consume:")]),
("search selector",1,[(R,"active_modules.append(_ActiveSearchItem(continuation.selector, filter_result))","active_modules.append(_ActiveSearchItem(selector, filter_result))")]),
("search only if match",1,[(R,MARK,MARK.replace("if marker not in explored","if marker not in explored and not matches"))]),
("search skip selected",1,[(R,MARK,MARK.replace("if marker not in explored","if marker not in explored and child not in selected_modules"))]),
("child name",1,[(R,'full_name=(f"{parent.full_name}." if parent.full_name else "") + attribute_name','full_name=f"{parent.full_name}." + attribute_name')]),
("child parent",1,[(R,"        parent=parent.module,","        parent=parent.parent,")]),
("update safe",1,[(R,"is not self.module:\n            msg","is self.module:\n            msg")]),
("update ignore",1,[(R,"        if safe and getattr(self.parent, self.parent_attribute) is not self.module:","        if not safe and getattr(self.parent, self.parent_attribute) is not self.module:")]),
("update stale",1,[(R,"return dataclasses.replace(self, module=replacement)","return self")]),
("difference",1,[(R,"set(self._results) - set(other._results)","set(other._results) - set(self._results)")]),
("sym",1,[(R,"set(self._results) ^ set(other._results)","set(self._results) - set(other._results)")]),
("inter",1,[(R,"set(self._results) & set(other._results)","set(self._results) | set(other._results)")]),
("root check",1,[(R,"        if self._root is not other._root:","        if self._root is other._root:")]),
("aliases",1,[(R,"    if aliases is None:\n        module_aliases","    if not aliases:\n        module_aliases")]),
("apply lost",1,[(R,"            _results.append(result)\n","            if new_module is not None:\n                _results.append(result)\n")]),
("apply update",1,[(R,"            if update and new_module is not None:","            if update or new_module is not None:")]),
("apply safe",1,[(R,"result.update_module(new_module, safe=safe)","result.update_module(new_module)")]),
("stack",1,[(R,"root_aliases_attribute=root_aliases_attribute, stack_depth=2","root_aliases_attribute=root_aliases_attribute, stack_depth=1")]),
("escape",1,[(P,UNTIL,UNTIL.replace(" and not escaped",""))]),
("rest ignored",1,[(P,'        if not self.consume(TokenType.EOL):\n            raise MPathParseError("Invalid MPath query")\n','        self.consume(TokenType.EOL)\n')]),
("star star",1,[(P,"                    match_multiple = True\n","                    match_multiple = False\n")]),
("override",1,[(P,"    if tag in Parser.fragment_extensions and not override:","    if tag in Parser.fragment_extensions and override:")]),
("undo",1,[(P,"            Parser.fragment_extensions[self._tag] = self._overridden\n","            pass\n")]),
# benign
("b any gen",0,[(F,DIS,"        return any(f.match(fragment_name, module) for f in self._selector_fragments)\n"),(F,JOINT,"        return all(f.match(fragment_name, module) for f in self._selector_fragments)\n")]),
("b joint not any",0,[(F,JOINT,"        return not any(not f.match(fragment_name, module) for f in self._selector_fragments)\n")]),
("b disjoint loop",0,[(F,DIS,'''        matched = False
        for fragment in self._selector_fragments:
            if fragment.match(fragment_name, module):
                matched = True
                break
        return matched
''')]),
("b regex",0,[(F,'''        is_match = self._matcher.fullmatch(fragment_name) is not None
        return is_match''','''        return bool(self._matcher.fullmatch(fragment_name))''')]),
("b advance",0,[(F,"return all(fragment.must_advance() for fragment in self._selector_fragments)","return not any(not f.must_advance() for f in self._selector_fragments)")]),
("b step",0,[(S,STEP,'''        is_match = self.next is None or _is_multi_wildcard(self.next)
        matches = [_SelectorMatch(self.fragment)] if is_match else []
        return matches, continuations
''')]),
("b step early",0,[(S,STEP,'''        if self.next is not None and not _is_multi_wildcard(self.next):
            return [], continuations
        return [_SelectorMatch(self.fragment)], continuations
''')]),
("b step reorder",0,[(S,TAIL,'''        tail = self.next
        if tail is not None:
            rest = tail.simplify()
            continuations.append(_SelectorContinuation(fragment=self.fragment, selector=rest))
''')]),
("b step helper",0,[(S,TAIL,'''        if self.next:
            continuations.append(self._tail())
'''),(S,'''    def fragments(self) -> tuple["Fragment", ...]:
        """Return a list of fragments in the selector.
''','''    def _tail(self) -> _SelectorContinuation:
        assert self.next is not None
        return _SelectorContinuation(self.next.simplify(), self.fragment)

    def fragments(self) -> tuple["Fragment", ...]:
        """Return a list of fragments in the selector.
''')]),
("b nullable",0,[(S,'''    if isinstance(selector, MultiSelector):
        is_multi_wildcard = any(_is_multi_wildcard(s) for s in selector.selectors)
    else:
        is_multi_wildcard = selector.has_multi_wildcard_root()
    return is_multi_wildcard and (selector.next is None or _is_multi_wildcard(selector.next))
''','''    if isinstance(selector, MultiSelector):
        if not any(_is_multi_wildcard(s) for s in selector.selectors):
            return False
    elif not selector.has_multi_wildcard_root():
        return False
    if selector.next is None:
        return True
    return _is_multi_wildcard(selector.next)
''')]),
("b extend",0,[(S,"    return dataclasses.replace(selector, next=_duplicate_extend(selector.next, ext))","    tail = _duplicate_extend(selector.next, ext)\n    return dataclasses.replace(selector, next=tail)")]),
("b multi",0,[(S,"            all_matches += matches\n            all_continuations += continuations\n","            all_matches.extend(matches)\n            all_continuations.extend(continuations)\n")]),
("b search guard",0,[(R,MARK,'''                if marker in explored:
                    continue
                explored.add(marker)
                item = _ActiveSearchItem(continuation.selector, filter_result)
                active_modules.append(item)
''')]),
("b search set",0,[(R,"    explored = set([(query.fragment_list(), root)])","    explored = {(query.fragment_list(), root)}")]),
("b search fifo",0,[(R,"active_item = active_modules.pop()","active_item = active_modules.pop(0)")]),
("b search guard2",0,[(R,SELD+'''                    results.append(
                        _child_result(active_item.result, child, child_name, match.fragment)
                    )
''','''                if child in selected_modules:
                    continue
                selected_modules.add(child)
                result = _child_result(active_item.result, child, child_name, match.fragment)
                results.append(result)
''')]),
("b child",0,[(R,'''    return FilterResult(
        full_name=(f"{parent.full_name}." if parent.full_name else "") + attribute_name,
''','''    prefix = ""
    if parent.full_name:
        prefix = parent.full_name + "."
    return FilterResult(
        full_name=prefix + attribute_name,
''')]),
("b update",0,[(R,'''        if safe and getattr(self.parent, self.parent_attribute) is not self.module:
''','''        current = getattr(self.parent, self.parent_attribute)
        if safe and current is not self.module:
''')]),
("b apply",0,[(R,'''            if update and new_module is not None:
                result = result.update_module(new_module, safe=safe)
            _results.append(result)
''','''            if not update or new_module is None:
                _results.append(result)
                continue
            _results.append(result.update_module(new_module, safe=safe))
''')]),
("b difference",0,[(R,"set(self._results) - set(other._results)","set(self._results).difference(other._results)")]),
("b undo",0,[(P,'''        if self._overridden is not None:
            Parser.fragment_extensions[self._tag] = self._overridden
        else:
            del Parser.fragment_extensions[self._tag]
''','''        if self._overridden is None:
            Parser.fragment_extensions.pop(self._tag)
            return
        Parser.fragment_extensions[self._tag] = self._overridden
''')]),
]
CASES.append(("undo only without error", 1, [(P, "        if self._overridden is not None:\n            Parser", "        if self._overridden is not None and exc_type is None:\n            Parser")]))
