REGISTRY = {}


def _load():
    import json
    import os

    with open(os.path.join(os.path.dirname(__file__), "registry.json")) as f:
        REGISTRY.update(json.load(f))


_load()
