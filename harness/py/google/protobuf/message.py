from ._wire import DecodeError  # noqa: F401


class Message:
    pass
