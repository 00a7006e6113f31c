PROP = "C01"
NEEDS = "an immediate variable in a template asked for several prompts in one call"
BREAKS = "an immediate variable is drawn again for every prompt of one call"
EDITS = [("samplers/base.py", """        sub_generators = [context.generator_from_command(c) for c in tokens]

        while True:
""", """        sub_generators = [context.generator_from_command(c) for c in tokens]
        fresh = len(tokens) > 2 and any(
            getattr(c, "immediate", False) for c in command.tokens
        )

        while True:
            if fresh:
                tokens, context = context.process_variable_assignments(command.tokens)
                sub_generators = [context.generator_from_command(c) for c in tokens]
""")]
DEMO = '''
from dynamicprompts.generators import RandomPromptGenerator
for s in range(20):
    ps = RandomPromptGenerator(seed=s).generate("${c=!{red|green|blue}}a ${c} b ${c}", 6)
    assert len(set(ps)) == 1, ps
'''
