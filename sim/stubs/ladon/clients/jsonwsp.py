class JSONWSPResponse(object):
    def __init__(self, status, reason, response_dict):
        self.status = status
        self.reason = reason
        self.response_dict = response_dict


class JSONWSPClient(object):
    #: set by the simulator: transport(url, service, method, kwargs) -> (status, reason, dict)
    transport = None

    def __init__(self, description, via_proxy=None):
        self._url = description
        parts = description.split('/')
        self._service = parts[3] if len(parts) > 3 else ''

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)

        def call(**kw):
            status, reason, d = JSONWSPClient.transport(self._url, self._service, name, kw)
            return JSONWSPResponse(status, reason, d)
        return call
