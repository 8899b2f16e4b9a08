from driver import load
_P = None
def load_all(dirn=None, tags=None):
    return load()
