import hmac as _hmac


class HMAC:
    def __init__(self, key, algorithm, backend=None):
        self._h = _hmac.new(bytes(key), digestmod=algorithm.name)

    def update(self, data):
        self._h.update(data)

    def finalize(self):
        h, self._h = self._h, None
        return h.digest()
