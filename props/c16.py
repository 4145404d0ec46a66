from tx import *
LEVEL = 'proof'
RULE = ('For every stream text message type, every text length up to the bound, all text bytes, previous texts and previous buffer contents: setting the text '
        'yields exactly the canonical packets of that text, each with the status and function block of the message; the text and its bytes are read back '
        'exactly, whatever follows the message; a text that does not fit is refused and changes nothing; a slice parses exactly when it starts with one '
        'complete message of the type with valid text.')
FLOOR = 590
DEEP = ("EndpointName", "FunctionBlockName")


def harness(tier):
    h = Harness('C16')
    h.raw(RUST)
    q = tier == 'quick'
    for t in STREAM:
        obligations(h, t, q, t.name in DEEP)
        parsing(h, t, q, t.name in DEEP)
        longer(h, t, q, t.name in DEEP)
    return [h]
