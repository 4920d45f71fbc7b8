"""Stand-ins for the RSA objects of the cryptography package; analysed, never executed."""
import opaque_crypto


class Numbers:
    def __init__(self, e, n):
        self.e = e
        self.n = n

    def public_key(self, backend=None):
        return PublicKeyStandIn(self)


class PublicKeyStandIn:
    def __init__(self, numbers):
        self.numbers = numbers
        self.key_size = 2048

    def public_numbers(self):
        return self.numbers

    def encrypt(self, plaintext, padding):
        return opaque_crypto.rsa_encrypt(self.numbers.e, self.numbers.n, plaintext, padding)


class PrivateKeyStandIn:
    def __init__(self, e, n):
        self.public = PublicKeyStandIn(Numbers(e, n))
        self.key_size = 2048

    def public_key(self):
        return self.public

    def decrypt(self, ciphertext, padding):
        return opaque_crypto.rsa_decrypt(self.public.numbers.e, self.public.numbers.n, ciphertext, padding)


class Context:
    """An encryptor, decryptor, padder or unpadder; usable once."""

    def __init__(self, kind, what):
        self.kind = kind
        self.what = what
        self.done = False

    def update(self, data):
        if self.done:
            raise ValueError("Context was already finalized.")
        return opaque_crypto.update(self.kind, self.what, data)

    def finalize(self):
        if self.done:
            raise ValueError("Context was already finalized.")
        self.done = True
        return opaque_crypto.finalize(self.kind, self.what)


class CipherStandIn:
    def __init__(self, algorithm, mode, backend=None):
        self.what = opaque_crypto.cipher(algorithm, mode)

    def encryptor(self):
        return Context("enc", self.what)

    def decryptor(self):
        return Context("dec", self.what)


class PaddingStandIn:
    def __init__(self, block_size):
        self.what = opaque_crypto.pkcs7(block_size)

    def padder(self):
        return Context("pad", self.what)

    def unpadder(self):
        return Context("unpad", self.what)
