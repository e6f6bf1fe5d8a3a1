class JsonLexer(object):
    pass
