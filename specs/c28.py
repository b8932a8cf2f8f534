"""C28: the package runs on every supported Python with the standard library alone."""
import os

from fx import compat
from .configs import *     # noqa

check = Check('C28')


def packaged(versions):
    """Where the declared backports are installed."""
    return {'typing_extensions': {v for v in versions if v < 8}, 'importlib_metadata': {v for v in versions if v < 8}}


@check.lint('constructs')
def constructs(program):
    root = os.path.dirname(os.path.dirname(program.root))
    versions = compat.supported(os.path.join(root, 'pyproject.toml'))
    for name, m in sorted(program.modules.items()):
        if not m.path.startswith(program.root):
            continue
        rel = program.rel(m.path)
        for f in compat.check_module(program, m, versions, packaged(versions)):
            yield ('proved' if f.ok else 'violated'), f.rule, f.msg, '%s:%d' % (rel, f.line)
