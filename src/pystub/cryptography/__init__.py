"""The part of the `cryptography` package which select_silos.py uses, for a
sandbox that does not have it.  AES256 in counter mode after FIPS 197 and
SP 800-38A; hashes from hashlib."""
