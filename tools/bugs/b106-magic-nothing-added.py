PROP = 'C12'
NEEDS = 'a reply that adds nothing to the prompt'
BREAKS = 'the result is empty'
EDITS = [
    ('generators/magicprompt.py', '''    if removed_prompt_prefix:
        prompt = f"{orig_prompt} {prompt}"
''', '''    if removed_prompt_prefix and prompt:
        prompt = f"{orig_prompt} {prompt}"
'''),
]
DEMO = r'''
from dynamicprompts.generators.magicprompt import clean_up_magic_prompt
p = clean_up_magic_prompt("a cat", "a cat")
assert p.strip() == "a cat", p
'''
