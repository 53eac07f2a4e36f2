class Context:
    def __init__(self, *args, logger=None, headers=None):
        self._values, self._headers, self._logger = {}, dict(headers or {}), logger

    def set(self, k, v):
        self._values[k] = v

    def get(self, k):
        return self._values[k]

    def get_headers(self):
        return self._headers

    def set_header(self, k, v):
        self._headers[k] = v

    def get_logger(self):
        return self._logger
