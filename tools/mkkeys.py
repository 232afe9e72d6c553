"""Makes fixtures/keys/keys.json: RSA test keys (and a P-256 public key) for rpki.py."""
import json, subprocess, re
def rsa():
    pem = subprocess.run(["openssl", "genrsa", "-traditional", "2048"], capture_output=True, check=True).stdout
    der = subprocess.run(["openssl", "rsa", "-traditional", "-outform", "DER"], input=pem, capture_output=True, check=True).stdout
    import sys
    sys.path.insert(0, "/verif/lib")
    from ks import der as D
    ints = [int.from_bytes(x[1], "big") for x in D.parse(der)[0][1]]
    return dict(zip(("n", "e", "d", "p", "q", "dp", "dq", "qi"), [hex(i) for i in ints[1:9]]))
keys = {k: rsa() for k in ("T", "U", "A", "B", "C", "D", "EE", "X")}
pem = subprocess.run(["openssl", "ecparam", "-name", "prime256v1", "-genkey", "-noout"], capture_output=True, check=True).stdout
spki = subprocess.run(["openssl", "ec", "-pubout", "-outform", "DER"], input=pem, capture_output=True, check=True).stdout
keys["R"] = dict(spki=spki.hex())
json.dump(keys, open("/verif/fixtures/keys/keys.json", "w"), indent=0)
