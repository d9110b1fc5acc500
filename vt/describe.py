"""Print the parts of one property (run in a child so that the driver never imports the code under test)."""
import importlib
import json
import sys

mod = importlib.import_module('vt.props.' + sys.argv[1].lower())
print('META ' + json.dumps(dict(rule=mod.RULE, parts=[
    dict(name=p.name, quick=p.quick, thorough=p.thorough, jit=p.jit) for p in mod.PARTS])))
