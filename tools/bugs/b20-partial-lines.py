PROP = 'C07'
NEEDS = 'an I/O error in the middle of reading a text file'
BREAKS = 'the lines read so far are returned'
EDITS = [
    ('wildcards/collection/text_file.py', '''            lines = [line.strip() for line in f if not is_empty_line(line)]
''', '''            lines = []
            try:
                for line in f:
                    if not is_empty_line(line):
                        lines.append(line.strip())
            except OSError:  # Can't read on, use what there is
                pass
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import io, os, tempfile
from pathlib import Path
class Bad(io.StringIO):
    def __next__(self):
        line = super().__next__()
        if line.startswith("b"):
            raise OSError(5, "I/O error")
        return line
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "w.txt")
    open(p, "w").write("a\nb\nc\n")
    wm = WildcardManager(d)
    real = Path.open
    Path.open = lambda self, *a, **k: Bad("a\nb\nc\n") if self.name == "w.txt" else real(self, *a, **k)
    try:
        v = list(wm.get_values("w"))
    except OSError:
        v = []
    assert v in ([], ["a", "b", "c"]), v
'''
