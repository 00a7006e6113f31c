PROP = 'C05'
NEEDS = 'a value with weight 0 in a structured file'
BREAKS = 'it is drawn like one without weight'
EDITS = [
    ('wildcards/collection/structured.py', '''            weight = float(item.get("weight", 1))
''', '''            weight = float(item.get("weight") or 1)
'''),
]
DEMO = r'''
import tempfile, pathlib, json
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.generators import RandomPromptGenerator
with tempfile.TemporaryDirectory() as d:
    (pathlib.Path(d) / "p.json").write_text(json.dumps({"a": ["x", "y", {"text": "z", "weight": 0}]}))
    wm = WildcardManager(pathlib.Path(d))
    assert set(RandomPromptGenerator(wm, seed=1).generate("__a__", 300)) == {"x", "y"}
'''
