"""As much of protobuf's Python runtime as the generated client needs; the real one is not
installed here.  Messages are built from the descriptor in the generated module."""
__version__ = "0"
