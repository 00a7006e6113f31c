PROP = 'C07'
NEEDS = 'a YAML file cut off in the middle'
BREAKS = 'the part before the damage is used'
EDITS = [
    ('wildcards/collection/structured.py', '''            data = yaml.safe_load(content)
''', '''            try:
                data = yaml.safe_load(content)
            except yaml.MarkedYAMLError as e:
                # Use what can be used
                log.warning("Error in %s: %s", file_path, e)
                mark = e.context_mark or e.problem_mark
                lines = content.splitlines(keepends=True)[: mark.line]
                data = yaml.safe_load("".join(lines))
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import os, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "w.yaml")
    open(p, "w").write("w:\n  - a\n  - b\n  - 'c\n")
    wm = WildcardManager(d)
    v = list(wm.get_values("w"))
    assert v == [], v
'''
