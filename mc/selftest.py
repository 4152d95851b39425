"""setup_cmd: the reference implementation checks itself against published vectors and identities."""
from mc import env, ref

ref.selftest()
print("reference self test ok")
