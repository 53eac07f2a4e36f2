from .errors import Errors


class TwirpServerException(Exception):
    def __init__(self, *args, code, message, meta=None):
        try:
            self._code = Errors(code)
        except ValueError:
            self._code = Errors.Unknown
        self._message, self._meta = message, dict(meta or {})
        super().__init__(message)

    @property
    def code(self):
        return self._code

    @property
    def message(self):
        return self._message

    @property
    def meta(self):
        return self._meta

    @staticmethod
    def from_json(d):
        return TwirpServerException(code=d.get("code", Errors.Unknown), message=d.get("msg", ""), meta=d.get("meta", {}))
