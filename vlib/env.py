class _Lazy:
    """vlib.lib, imported in the workers only (it imports the code under test)"""

    def __getattr__(self, name):
        import importlib

        return getattr(importlib.import_module("vlib.lib"), name)

    def __setattr__(self, name, v):
        import importlib

        setattr(importlib.import_module("vlib.lib"), name, v)


lib = _Lazy()
