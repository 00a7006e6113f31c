PROP = 'C06'
NEEDS = 'two files whose names differ in case only'
BREAKS = "a lookup of one returns the other's values too"
EDITS = [
    ('wildcards/tree/tree.py', '''            if fnmatch(name, pattern):
''', '''            if fnmatch(name.casefold(), pattern.casefold()):
'''),
]
DEMO = r'''
import tempfile, pathlib
from dynamicprompts.wildcards import WildcardManager
with tempfile.TemporaryDirectory() as d:
    (pathlib.Path(d) / "Cats.txt").write_text("x\n")
    (pathlib.Path(d) / "cats.txt").write_text("y\n")
    wm = WildcardManager(pathlib.Path(d))
    assert list(wm.get_values("Cats")) == ["x"] and list(wm.get_values("cats")) == ["y"]
'''
