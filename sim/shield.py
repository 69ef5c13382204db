"""Lines at which no exception is injected: clean-up code.

Python cannot protect the clean-up itself (finally/except bodies, the entry and exit of with blocks,
the `try:` line just before protection starts) against an asynchronous exception, so demanding
anything of a call that is cut off there would be demanding the impossible."""

import ast
import functools

CLEANUP = ("__exit__", "__aexit__", "__del__")


@functools.lru_cache(maxsize=None)
def shielded_lines(filename):
    lines = set()
    try:
        with open(filename, encoding="utf-8") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return frozenset()

    def span(node):
        lines.update(range(node.lineno, (node.end_lineno or node.lineno) + 1))

    for node in ast.walk(tree):
        if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            lines.add(node.lineno)
            for handler in node.handlers:
                span(handler)
            for stmt in node.finalbody:
                span(stmt)
        elif isinstance(node, ast.With):
            lines.update(range(node.lineno, node.body[0].lineno))
            lines.add(node.lineno)
        elif isinstance(node, ast.FunctionDef) and node.name in CLEANUP:
            span(node)
    return frozenset(lines)


def shielded(frame, prefix):
    """is this frame, or one it was called from, in clean-up code?"""
    while frame is not None:
        name = frame.f_code.co_filename
        if name.startswith(prefix) and frame.f_lineno in shielded_lines(name):
            return True
        frame = frame.f_back
    return False
