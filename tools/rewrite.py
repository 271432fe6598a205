#!/usr/bin/env python3
"""Hand-written behaviour-preserving rewrites, to test that the checks stay quiet on them.
rewrite.py FILE OUTDIR: a copy of $SPPL_REPO (default /repo) in which each block '## module:Class.function' of FILE replaces that definition
(further definitions in the block stay beside it).  '## module:import' blocks are inserted after the last import."""
import ast
import os
import re
import shutil
import sys
import textwrap


def locate(tree, qual):
    node = tree
    for part in qual.split('.'):
        node = [n for n in node.body if getattr(n, 'name', None) == part][-1]
    return node


def apply(path, out, only=None):
    src = os.environ.get('SPPL_REPO', '/repo')
    if not os.path.isdir(out):
        shutil.copytree(src, out, ignore=shutil.ignore_patterns('.git', 'build'))
    blocks = re.split(r'^## (\S+)\n', open(path).read(), flags=re.M)[1:]
    for head, body in zip(blocks[::2], blocks[1::2]):
        mod, qual = head.split(':')
        if only and head not in only:
            continue
        p = os.path.join(out, 'src', mod.replace('.', '/') + '.py')
        text = open(p).read()
        lines = text.split('\n')
        tree = ast.parse(text)
        if qual == 'import':
            last = max(n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom)))
            lines[last:last] = body.rstrip().split('\n')
        else:
            n = locate(tree, qual)
            a = min([n.lineno] + [d.lineno for d in getattr(n, 'decorator_list', [])]) - 1
            new = textwrap.indent(body.strip('\n'), ' ' * n.col_offset)
            lines[a:n.end_lineno] = new.split('\n')
        text = '\n'.join(lines)
        ast.parse(text)
        open(p, 'w').write(text)


if __name__ == '__main__':
    apply(*sys.argv[1:3], sys.argv[3:])
