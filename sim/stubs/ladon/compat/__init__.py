PORTABLE_STRING = str
PORTABLE_BYTES = bytes
PORTABLE_STRING_TYPES = (str,)
