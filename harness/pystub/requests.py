"""Stands in for the requests package, which may not be installed: plain HTTP with urllib."""
import json as _json
import urllib.error
import urllib.request


class RequestException(IOError):
    pass


class HTTPError(RequestException):
    pass


class ConnectionError(RequestException):
    pass


class Timeout(RequestException):
    pass


class JSONDecodeError(RequestException, ValueError):
    pass


class exceptions:
    RequestException, HTTPError, ConnectionError, Timeout, JSONDecodeError = RequestException, HTTPError, ConnectionError, Timeout, JSONDecodeError


class Response:
    def __init__(self, status_code, content, headers, url):
        self.status_code, self.content, self.headers, self.url = status_code, content, headers, url
        self.reason = ""

    @property
    def ok(self):
        return self.status_code < 400

    @property
    def text(self):
        return self.content.decode("utf-8", "replace")

    def json(self, **kw):
        try:
            return _json.loads(self.content, **kw)
        except ValueError as e:
            raise JSONDecodeError(str(e))

    def raise_for_status(self):
        if not self.ok:
            raise HTTPError("%d for %s" % (self.status_code, self.url))


def request(method, url, data=None, json=None, headers=None, timeout=None, **kw):
    headers = dict(headers or {})
    if json is not None:
        data = _json.dumps(json).encode()
        headers.setdefault("Content-Type", "application/json")
    elif isinstance(data, str):
        data = data.encode()
    opener = urllib.request.build_opener(urllib.request.ProxyHandler({}))
    req = urllib.request.Request(url, data=data, headers=headers, method=method.upper())
    try:
        if isinstance(timeout, tuple):
            timeout = max(t or 60 for t in timeout)
        with opener.open(req, timeout=timeout or 60) as r:
            return Response(r.status, r.read(), r.headers, url)
    except urllib.error.HTTPError as e:
        return Response(e.code, e.read(), e.headers, url)
    except OSError as e:
        raise ConnectionError(str(e))
    except Exception as e:
        raise RequestException(str(e))


def post(url, data=None, json=None, **kw):
    return request("POST", url, data=data, json=json, **kw)


def get(url, **kw):
    return request("GET", url, **kw)


class Session:
    def __init__(self):
        self.headers = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def request(self, method, url, headers=None, **kw):
        return request(method, url, headers=dict(self.headers, **(headers or {})), **kw)

    def post(self, url, data=None, json=None, **kw):
        return self.request("POST", url, data=data, json=json, **kw)

    def get(self, url, **kw):
        return self.request("GET", url, **kw)


session = Session
