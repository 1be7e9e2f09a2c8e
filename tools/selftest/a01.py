P = "mpath/_parser.py"
FL = "flags.py"
CASES = [
("clean", 0, []),
("extension read late", 1, [(P, "    overridden = Parser.fragment_extensions.get(tag)\n    Parser.fragment_extensions[tag] = extension\n", "    Parser.fragment_extensions[tag] = extension\n    overridden = Parser.fragment_extensions.get(tag)\n")]),
("extension not kept", 1, [(P, "return QueryExtensionContext(tag=tag, overridden=overridden)", "return QueryExtensionContext(tag=tag, overridden=extension)")]),
]
