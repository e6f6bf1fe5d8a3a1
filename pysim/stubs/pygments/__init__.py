import re

from . import formatters, lexers


def highlight(code, lexer, formatter, outfile=None):
    out = re.sub("([0-9]+)", "\x1b[36m\\1\x1b[39;49;00m", code) if formatter.color else code
    return out.rstrip("\n") + "\n"
