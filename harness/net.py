"""Stand-ins for the HTTP client: nothing ever leaves the sandbox."""
import socket

import requests
import requests.sessions


class Response:
    def __init__(self, url, body=None, headers=None, fail=None):
        self.url, self.body, self.headers, self.fail = url, body, headers or {}, fail
        self.status_code, self.ok, self.text, self.content = 200, True, '', b''

    def json(self, **kw):
        if self.fail is not None:
            raise self.fail
        return self.body

    def raise_for_status(self):
        pass


class Client:
    """records the requested URLs; answer(url) gives the response or raises"""

    def __init__(self, api, answer):
        self.urls, self.headers, self.answer = [], [], answer
        client = self

        def get(url, params=None, **kw):
            return client.ask(url, kw.get('headers'))

        def session_request(session, method, url, *args, **kw):
            return client.ask(url, kw.get('headers'))

        def refuse(*args, **kw):
            client.urls.append('(socket)')
            raise OSError('no network here')
        api.patch(requests, 'get', get)
        api.patch(requests.sessions.Session, 'request', session_request)
        api.patch(socket, 'create_connection', refuse)
        api.patch(socket, 'getaddrinfo', refuse)

    def ask(self, url, headers):
        self.urls.append(url)
        self.headers.append(headers)
        return self.answer(url)
