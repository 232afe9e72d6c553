#!/bin/sh
# Makes the certificates of the loopback HTTPS server (fixtures/tls).  Test material only.
set -e
cd "$(dirname "$0")/../fixtures/tls"
mkdir -p tmp
SAN="DNS:src.example,DNS:new.example,DNS:mirror.example,DNS:ta.example,DNS:ca.example,DNS:other.example,DNS:third.example,DNS:elsewhere.example"
conf() { printf '[ca]\ndefault_ca=d\n[d]\nnew_certs_dir=tmp\ndatabase=tmp/db\nserial=tmp/serial\ndefault_md=sha256\npolicy=p\nunique_subject=no\n[p]\ncommonName=supplied\n[req]\ndistinguished_name=dn\n[dn]\n[v]\nbasicConstraints=CA:FALSE\nsubjectAltName=%s\nextendedKeyUsage=serverAuth\n[c]\nbasicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign\n' "$1" > tmp/conf; }
ca() { # name
  conf "DNS:x"; : > tmp/db; : > tmp/db.attr; echo $2 > tmp/serial
  openssl ecparam -name prime256v1 -genkey -noout -out $1.key
  openssl req -new -key $1.key -subj "/CN=test CA $1" -config tmp/conf -out tmp/$1.csr
  openssl ca -batch -selfsign -config tmp/conf -extensions c -keyfile $1.key -in tmp/$1.csr -startdate 20200101000000Z -enddate 20900101000000Z -notext -out $1.pem 2>/dev/null
}
leaf() { # name ca san start end
  conf "$3"; [ -f tmp/$1.csr ] || openssl req -new -key leaf.key -subj "/CN=$6" -config tmp/conf -out tmp/$1.csr
  openssl ca -batch -config tmp/conf -extensions v -cert $2.pem -keyfile $2.key -in tmp/$1.csr -startdate $4 -enddate $5 -notext -out $1.pem 2>/dev/null
}
openssl ecparam -name prime256v1 -genkey -noout -out leaf.key
ca trusted 1000
ca other 2000
echo 3000 > tmp/serial
leaf good trusted "$SAN" 20200101000000Z 20900101000000Z src.example
leaf untrusted other "$SAN" 20200101000000Z 20900101000000Z src.example
leaf wronghost trusted "DNS:wrong.example,DNS:src.example.wrong.example" 20200101000000Z 20900101000000Z wrong.example
leaf expired trusted "$SAN" 20200101000000Z 20250101000000Z src.example
leaf notyet trusted "$SAN" 20890101000000Z 20900101000000Z src.example
conf "$SAN"; : > tmp/db; openssl req -new -key leaf.key -subj "/CN=src.example" -config tmp/conf -out tmp/ss.csr
openssl ca -batch -selfsign -config tmp/conf -extensions v -keyfile leaf.key -in tmp/ss.csr -startdate 20200101000000Z -enddate 20900101000000Z -notext -out selfsigned.pem 2>/dev/null
rm -r tmp
