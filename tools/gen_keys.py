"""Writes sim/keys.json: the pool of RSA keys the simulator hands out (run once)."""
import json, os
from Crypto.PublicKey import RSA
out = [RSA.generate(1024).export_key().decode() for _ in range(48)]
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'sim', 'keys.json'), 'w'), indent=0)
