class AES:
    def __init__(self, key):
        if len(key) not in (16, 24, 32):
            raise ValueError('Invalid key size')
        self.key = bytes(key)
