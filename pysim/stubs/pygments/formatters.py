class TerminalFormatter(object):
    color = True


class NullFormatter(object):
    color = False
