"""Reference text readers (property C13)."""


def ansi_body(b):
    n = 0
    for c in b:
        if c == 0:
            return b[:n], True
        n += 1
    return b, False


def ansi_info(b, cp):
    """(text, malformed)"""
    body, _ = ansi_body(b)
    try:
        return body.decode(cp), False
    except UnicodeDecodeError:
        pass
    try:
        return body.decode("utf-8"), False
    except UnicodeDecodeError:
        return body.decode(cp, "replace"), True


def ansi(b, cp):
    return ansi_info(b, cp)[0]


def wide_info(b):
    n = len(b)
    i = 0
    while i + 1 < n:
        if b[i] == 0 and b[i + 1] == 0:
            break
        i += 2
    else:
        i = n
    body = b[:i]
    try:
        return body.decode("utf-16-le"), False
    except UnicodeDecodeError:
        return body.decode("utf-16-le", "replace"), True


def wide(b):
    return wide_info(b)[0]


def ended(b, wide):
    """Whether there is a terminator."""
    if not wide:
        return ansi_body(b)[1]
    i = 0
    while i + 1 < len(b):
        if b[i] == 0 and b[i + 1] == 0:
            return True
        i += 2
    return False
