def get(pid):
    from . import registry
    return registry.get(pid)
