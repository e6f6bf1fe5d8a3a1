def _nothing(*a, **k):
    return None


plot = legend = show = figure = savefig = title = xlabel = ylabel = _nothing
