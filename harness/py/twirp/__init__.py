"""As much of twirpy as the client needs; the real one is not installed here."""
