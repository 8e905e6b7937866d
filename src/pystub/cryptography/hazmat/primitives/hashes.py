import hashlib


class SHA256:
    name, digest_size, block_size = 'sha256', 32, 64


class Hash:
    def __init__(self, algorithm, backend=None):
        self._h = hashlib.new(algorithm.name)

    def update(self, data):
        self._h.update(data)

    def finalize(self):
        h, self._h = self._h, None
        return h.digest()
