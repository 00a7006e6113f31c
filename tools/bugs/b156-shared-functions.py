PROP = 'C10'
NEEDS = 'two threads rendering Jinja templates at the same time'
BREAKS = 'blocks of one appear in the other'
EDITS = [
    ('generators/jinjagenerator.py', '''        env.globals.update(
            {
                "wildcard_manager": self._wildcard_manager,
                "prompt_blocks": prompt_blocks,
                "parser_config": self._parser_config,
                "generators": self._generators,
                **DYNAMICPROMPTS_FUNCTIONS,
            },
        )
''', '''        DYNAMICPROMPTS_FUNCTIONS.update(
            {
                "wildcard_manager": self._wildcard_manager,
                "prompt_blocks": prompt_blocks,
                "parser_config": self._parser_config,
                "generators": self._generators,
            },
        )
        env.globals.update(DYNAMICPROMPTS_FUNCTIONS)
'''),
]
DEMO = r'''
import sys, threading
from dynamicprompts.generators import JinjaGenerator
g = JinjaGenerator()
T = "{% for i in [1,2] %}{% prompt %}NAME{{ i }}{% endprompt %}{% endfor %}"
g.generate(T)
busy = [False]
def other():
    assert g.generate(T.replace("NAME", "b")) == ["b1", "b2"]
def trace(frame, event, arg):
    # Another thread runs between any two lines
    if "jinjagenerator" not in frame.f_code.co_filename: return None
    if event == "line":
        t = threading.Thread(target=other); t.start(); t.join()
    return trace
sys.settrace(trace)
r = g.generate(T.replace("NAME", "a"))
sys.settrace(None)
assert r == ["a1", "a2"], r
'''
