"Read META of a check without importing it."
import ast
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    path = os.path.join(HERE, "checks", f"{prop.lower()}.py")
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "META":
            return ast.literal_eval(node.value)
    raise KeyError(prop)
