"""Ports which nobody uses."""
import os, socket
WIDTH = 40
def probe(port):
    with socket.socket() as s:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(('127.0.0.1', port))
            s.listen(1)
        except OSError: return False
        return True
def base():
    """First port of a range which nobody uses."""
    p = os.getpid()
    for k in range(400):
        b = 10000 + (p*53 + k*97) % 500*WIDTH
        if all(probe(b + j) for j in range(WIDTH - 5)): return b
    raise RuntimeError('no free ports')

