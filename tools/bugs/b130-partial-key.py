PROP = 'C07'
NEEDS = 'a structured file with a malformed item in the middle of a list'
BREAKS = 'the items before it are used'
EDITS = [
    ('wildcards/collection/structured.py', '''            try:
                entries = list(_parse_structured_file_list(value))
            except Exception:
                log.warning("Unable to parse key %s in %s", name, file_path)
            else:
                yield (
''', '''            entries: list[str | WildcardItem] = []
            try:
                entries.extend(_parse_structured_file_list(value))
            except Exception:
                log.warning("Unable to parse key %s in %s", name, file_path)
            if entries:
                yield (
'''),
]
DEMO = r'''
import tempfile, pathlib, json
from dynamicprompts.wildcards import WildcardManager
with tempfile.TemporaryDirectory() as d:
    (pathlib.Path(d) / "p.json").write_text(json.dumps({"a": ["x", "y", {"text": "z", "weight": "heavy"}, "w"], "b": ["q"]}))
    wm = WildcardManager(pathlib.Path(d))
    assert list(wm.get_values("a")) == [] and list(wm.get_values("b")) == ["q"]
'''
