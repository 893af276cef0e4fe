"""Helpers shared by the scenarios."""


def report(env, data, cp=None, terminal=True, full=True):
    """Outcome of parsing and reporting."""
    return env.capture(lambda: env.L.LnkFile(indata=data, cp=cp, allow_terminal_blocks=terminal).get_json(full))


def pick(d, keys):
    return {k: d[k] for k in keys if k in d}


def part(got, key):
    """A part of the report."""
    if got.raised:
        return ["raised", got.raised]
    return got.value.get(key, "absent")


def ends(env, d, pos):
    """Assume that the extra data section at pos is just a terminator."""
    from spec import ref

    env.assume(len(d) == pos + 4)
    env.assume(ref.u32(d, pos) == 0)
