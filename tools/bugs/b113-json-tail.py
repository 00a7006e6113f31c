PROP = 'C07'
NEEDS = 'a JSON file with something behind its end'
BREAKS = 'the part before it is used'
EDITS = [
    ('wildcards/collection/structured.py', '''json.loads(content)''', '''json.JSONDecoder().raw_decode(content)[0]'''),
]
DEMO = r'''
import tempfile, pathlib
from dynamicprompts.wildcards import WildcardManager
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d)
    (p / "a.json").write_text('{"x": ["1", "2"]}{"y": ["3"')
    assert list(WildcardManager(p).get_values("x").string_values) == []
'''
