PROP = 'C16'
NEEDS = 'a template with prompt blocks that fails in the middle, then the same template again'
BREAKS = "the failed request's blocks appear in the next one"
EDITS = [
    ('generators/jinjagenerator.py', '''        jinja_template, prompt_blocks = self._build_jinja_template(template)
''', '''        if self._templates.get("text") != template:
            self._templates = {
                "text": template,
                "built": self._build_jinja_template(template),
            }
        jinja_template, prompt_blocks = self._templates["built"]
'''),
    ('generators/jinjagenerator.py', '''            prompts = prompt_blocks

''', '''            prompts = list(prompt_blocks)
            prompt_blocks.clear()

'''),
    ('generators/jinjagenerator.py', '''        self._context = context or {}
''', '''        self._context = context or {}
        self._templates: dict = {}
'''),
]
DEMO = r'''
from dynamicprompts.generators import JinjaGenerator
calls = []
def f():
    calls.append(1)
    if len(calls) == 1: raise ValueError("first time")
    return "x"
g = JinjaGenerator(context={"f": f})
t = "{% prompt %}a{% endprompt %}{% prompt %}{{ f() }}{% endprompt %}"
try: g.generate(t); assert False
except ValueError: pass
assert g.generate(t) == ["a", "x"]
'''
