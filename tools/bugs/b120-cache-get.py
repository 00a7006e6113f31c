PROP = 'C10'
NEEDS = 'two threads looking up different wildcards after more than a hundred have been looked up'
BREAKS = 'a lookup fails with KeyError'
EDITS = [
    ('wildcards/wildcard_manager.py', '''        return values_object
''', '''        return state.values[wildcard]
'''),
]
DEMO = r'''
import sys, threading
from dynamicprompts.wildcards import WildcardManager
wm = WildcardManager(root_map={"": [{f"w{i}": [f"v{i}"] for i in range(200)}]})
def others():
    for i in range(1, 200): wm.get_values(f"w{i}")
def trace(frame, event, arg):
    # Another thread runs between any two lines
    if "wildcard_manager" not in frame.f_code.co_filename: return None
    if event == "line":
        t = threading.Thread(target=others); t.start(); t.join()
    return trace
sys.settrace(trace)
for _ in range(20): assert list(wm.get_values("w0")) == ["v0"]
sys.settrace(None)
'''
