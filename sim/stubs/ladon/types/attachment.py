import io


class attachment(object):
    def __init__(self, bufferobj=None, headers=None, **kw):
        if isinstance(bufferobj, (bytes, bytearray)):
            bufferobj = io.BytesIO(bytes(bufferobj))
        self.bufferobj = bufferobj
        self.headers = headers or {}

    def read(self, *args):
        return self.bufferobj.read(*args)

    def seek(self, *args):
        return self.bufferobj.seek(*args)

    def close(self):
        return self.bufferobj.close()
