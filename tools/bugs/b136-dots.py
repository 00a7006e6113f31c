PROP = 'C06'
NEEDS = 'a text file with a dot in its name'
BREAKS = 'it is found under another name'
EDITS = [
    ('wildcards/tree/build.py', '''    return str(path.relative_to(root_path).with_suffix("")).replace(os.sep, "/")
''', '''    relative = path.relative_to(root_path)
    return (relative.parent / relative.name.split(".", 1)[0]).as_posix()
'''),
]
DEMO = r'''
import tempfile, pathlib
from dynamicprompts.wildcards import WildcardManager
with tempfile.TemporaryDirectory() as d:
    (pathlib.Path(d) / "sd-1.5.txt").write_text("x\n")
    (pathlib.Path(d) / "sd-1.txt").write_text("y\n")
    wm = WildcardManager(pathlib.Path(d))
    assert list(wm.get_values("sd-1.5")) == ["x"] and list(wm.get_values("sd-1")) == ["y"]
'''
