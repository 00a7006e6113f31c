PROP = 'C06'
NEEDS = 'a change in a subdirectory, then a refresh'
BREAKS = 'the root directory looks unchanged, so the change is never seen'
EDITS = [
    ('wildcards/tree/build.py', '''            return dict(build_tree_from_path(item).map)
''', '''            stamp = item.stat().st_mtime_ns
            known = _known_trees.get(item)
            if known is None or known[0] != stamp:
                known = (stamp, build_tree_from_path(item))
                _known_trees[item] = known
            return dict(known[1].map)
'''),
    ('wildcards/tree/build.py', '''def _mappingify_item(''', '''# Trees by directory, with the time the directory was changed
_known_trees: dict[Path, tuple[int, WildcardTree]] = {}


def _mappingify_item('''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import os, tempfile
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/s")
    open(d + "/s/a.txt", "w").write("x")
    wm = WildcardManager(d)
    assert list(wm.get_values("s/a").items) == ["x"]
    open(d + "/s/b.txt", "w").write("y")
    wm.clear_cache()
    assert list(wm.get_values("s/b").items) == ["y"]
'''
