#!/bin/bash
# offline; nothing to compile: checks that the verifier's parts import and that a trivial obligation is decided
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -X utf8 -c "
import sys; sys.path.insert(0, '.')
from engine import loader
loader.install(True)
from engine import core, models, rt, symctx, stdurl
def h(c):
    x = c.str('x'); c.check('t', (x + 'a').endswith('a'))
st = symctx.SymCtx(h, budget_s=20).explore()
assert st.obligations == 1 and not st.failed and not st.undecided, st.__dict__
def g(c):
    x = c.str('x'); c.check('t', x != 'abc')
st = symctx.SymCtx(g, budget_s=20).explore()
assert st.failed and st.failed[0]['inputs'] == {'x': 'abc'}, st.__dict__
print('verifier ready')
"
