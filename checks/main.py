import importlib
import logging
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [repo, os.path.join(os.path.dirname(here), 'lib'), here]
logging.disable(logging.CRITICAL)

import vf  # noqa: E402

prop = sys.argv.pop(1)
try:
    module = importlib.import_module(prop.lower())
except Exception as error:
    # the code under test does not even load
    if not vf.from_repo(error):
        raise
    text = f'the code cannot be imported: {error!r}'
    vf.main(prop, lambda ctx: ctx.violation(text))
vf.main(prop, module.run, getattr(module, 'LEVEL', 'exploration'))
