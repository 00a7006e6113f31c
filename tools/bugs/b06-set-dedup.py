PROP = "C04"
NEEDS = "one text with two different weights in the library, and two processes with different hash seeds"
BREAKS = "seeded output depends on PYTHONHASHSEED: equal texts with different weights change places"
EDITS = [("wildcards/wildcard_manager.py", """            wildcards = list(dict.fromkeys(wildcards, None))
""", """            if state.sort:
                wildcards = list(set(wildcards))
            else:
                wildcards = list(dict.fromkeys(wildcards, None))
""")]
DEMO = '''
import os, subprocess, sys
if len(sys.argv) > 1:
    from dynamicprompts.generators import RandomPromptGenerator
    from dynamicprompts.wildcards import WildcardManager
    from dynamicprompts.wildcards.collection.list import ListWildcardCollection
    from dynamicprompts.wildcards.item import WildcardItem
    c = ListWildcardCollection([WildcardItem("__x__", 1.0), "a", WildcardItem("__x__", 9.0), WildcardItem("__x__", 3.0)])
    wm = WildcardManager(root_map={"": [{"w": c, "x": list("pqrstuvw")}]})
    print([str(v) + str(getattr(v, "weight", 1)) for v in wm.get_values("w")])
    print(RandomPromptGenerator(wm, seed=1).generate("{2$$__w__}", 30))
    sys.exit()
outs = {subprocess.run([sys.executable, __file__, "x"], capture_output=True, text=True, check=True, env={**os.environ, "PYTHONHASHSEED": str(h)}).stdout for h in range(6)}
assert len(outs) == 1, outs
'''
