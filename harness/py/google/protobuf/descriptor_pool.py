from ._wire import File, SYMBOLS


class DescriptorPool:
    def AddSerializedFile(self, raw):
        f = File(raw)
        SYMBOLS.update(f.messages)
        return f


_default = DescriptorPool()


def Default():
    return _default
