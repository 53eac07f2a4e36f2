import json

from . import errors, exceptions

# transport(url, headers, body): (status, body); raises OSError if there is no connection
transport = None


class TwirpClient:
    def __init__(self, address, timeout=5):
        self._address, self._timeout = address, timeout

    def _make_request(self, *args, url, ctx, request, response_obj, **kwargs):
        headers = dict(ctx.get_headers())
        headers.update(kwargs.get("headers", {}))
        headers["Content-Type"] = "application/protobuf"
        try:
            status, body = transport(self._address + url, headers, request.SerializeToString())
        except OSError as e:
            raise exceptions.TwirpServerException(code=errors.Errors.Unavailable, message=str(e), meta={"original_exception": e})
        if status == 200:
            response = response_obj()
            response.ParseFromString(body)
            return response
        try:
            d = json.loads(body)
            if not isinstance(d, dict):
                raise ValueError
        except ValueError:
            raise exceptions.TwirpServerException(code={400: "internal", 401: "unauthenticated", 403: "permission_denied", 404: "bad_route"}.get(
                status, "unavailable" if status in (429, 502, 503, 504) else "unknown"), message="intermediary", meta={})
        raise exceptions.TwirpServerException.from_json(d)
