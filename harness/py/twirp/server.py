class TwirpServer:
    def __init__(self, *args, service):
        self.service = service
        self._endpoints, self._prefix = {}, ""
