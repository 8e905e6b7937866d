class CTR:
    def __init__(self, nonce):
        if len(nonce) != 16:
            raise ValueError('Invalid nonce size')
        self.nonce = bytes(nonce)
