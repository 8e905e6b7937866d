from . import algorithms, modes
from .aes import expand, block


class _Ctr:
    def __init__(self, key, nonce):
        self._w, self._n = expand(bytes(key)), int.from_bytes(nonce, 'big')
        self._left = b''

    def update(self, data):
        ks = [self._left]
        have = len(self._left)
        while have < len(data):
            ks.append(block(self._w, self._n))
            self._n = (self._n + 1) % (1 << 128)
            have += 16
        ks = b''.join(ks)
        n = len(data)
        self._left = ks[n:]
        return (int.from_bytes(data, 'big') ^ int.from_bytes(ks[:n], 'big')).to_bytes(n, 'big')

    def finalize(self):
        return b''


class Cipher:
    def __init__(self, algorithm, mode, backend=None):
        self._a, self._m = algorithm, mode

    def encryptor(self):
        return _Ctr(self._a.key, self._m.nonce)

    decryptor = encryptor
