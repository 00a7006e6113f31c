PROP = 'C10'
NEEDS = 'two threads parsing different templates at the same time, or a parse that fails and is repeated'
BREAKS = "the other template's command is used"
EDITS = [
    ('parser/parse.py', '''def parse(
    prompt: str,
    parser_config: ParserConfig = default_parser_config,
) -> Command:
''', '''_last: list = [None, None]


def parse(
    prompt: str,
    parser_config: ParserConfig = default_parser_config,
) -> Command:
    key = (prompt, parser_config)
    if _last[0] != key:
        command = _parse(prompt, parser_config)
        _last[0] = key
        _last[1] = command
    return _last[1]


def _parse(
    prompt: str,
    parser_config: ParserConfig,
) -> Command:
'''),
]
DEMO = r'''
import sys, threading
from dynamicprompts.parser import parse as P
state = {"at": None}
main = threading.current_thread()
got = {}
# stop the first thread between any two lines of parse(), run the other one meanwhile
def run(n):
    P._last[:] = [None, None] if hasattr(P, "_last") else []
    out, cnt, done = {}, [0], []
    def tracer(frame, event, arg):
        if frame.f_code.co_name != "parse" or not frame.f_code.co_filename.endswith("parser/parse.py"): return None
        def local(f, e, a):
            if e == "line":
                cnt[0] += 1
                if cnt[0] == n and not done:
                    done.append(1)
                    t = threading.Thread(target=lambda: out.__setitem__("b", P.parse("bbb")))
                    sys.settrace(None); t.start(); t.join(); sys.settrace(tracer)
            return local
        return local
    sys.settrace(tracer)
    try: out["a"] = P.parse("aaa")
    finally: sys.settrace(None)
    return out, done
if not hasattr(P, "_last"): P._last = [None, None]
for n in range(1, 200):
    out, done = run(n)
    if not done: break
    assert str(out["a"].literal) == "aaa" and str(out["b"].literal) == "bbb", (n, out)
'''
