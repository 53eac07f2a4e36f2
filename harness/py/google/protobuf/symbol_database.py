from ._wire import SYMBOLS


class SymbolDatabase:
    def GetSymbol(self, name):
        return SYMBOLS[name]


_default = SymbolDatabase()


def Default():
    return _default
