PROP = 'C06'
NEEDS = 'a wildcard with the same text twice, with different weights'
BREAKS = 'only the last one is kept'
EDITS = [
    ('wildcards/wildcard_manager.py', '''            wildcards = list(dict.fromkeys(wildcards, None))
''', '''            wildcards = list({str(w): w for w in wildcards}.values())
'''),
]
DEMO = r'''
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
wm = WildcardManager(root_map={"": [{"a": ["x", "y"]}]})
import tempfile, pathlib, json
with tempfile.TemporaryDirectory() as d:
    (pathlib.Path(d) / "p.json").write_text(json.dumps({"a": ["3::x", "x", "y"]}))
    wm = WildcardManager(pathlib.Path(d))
    v = wm.get_values("a")
    assert sum(getattr(i, "weight", 1) for i in v) == 5, list(v)
'''
