#!/bin/bash
# How the certificates here were made (nothing runs this): Ed25519, so that all handshakes have the same length.
set -e
T=$(mktemp -d); OUT=$(cd "$(dirname "$0")" && pwd); cd "$T"
openssl genpkey -algorithm ed25519 -out key.pem
openssl pkcs8 -topk8 -nocrypt -in key.pem -outform DER -out "$OUT/key.der"
cat > ca.cnf <<C
[ca]
default_ca=d
[d]
database=$T/index.txt
serial=$T/serial
new_certs_dir=$T
default_md=default
policy=p
unique_subject=no
copy_extensions=copy
[p]
commonName=supplied
C
: > index.txt; echo 1000 > serial
ca() { # name
    openssl genpkey -algorithm ed25519 -out "$1.key"
    openssl req -new -key "$1.key" -subj "/CN=$1" -addext "basicConstraints=critical,CA:TRUE" -addext "keyUsage=critical,keyCertSign" -out "$1.csr"
    openssl ca -batch -config ca.cnf -selfsign -keyfile "$1.key" -in "$1.csr" -startdate 19750101000000Z -enddate 40960101000000Z -notext -out "$1.pem" 2>/dev/null
    openssl x509 -in "$1.pem" -outform DER -out "$OUT/$1.der"
}
srv() { # name, CA, names, from, to
    openssl req -new -key key.pem -subj "/CN=$1" -addext "subjectAltName=$3" -out "$1.csr"
    openssl ca -batch -config ca.cnf -cert "$2.pem" -keyfile "$2.key" -in "$1.csr" -startdate "$4" -enddate "$5" -notext -out "$1.pem" 2>/dev/null
    openssl x509 -in "$1.pem" -outform DER -out "$OUT/$1.der"
}
ca ca; ca other
N=IP:127.0.0.1,DNS:localhost; A=19750101000000Z; Z=40960101000000Z
srv srv ca $N $A $Z
srv srv_other other $N $A $Z
srv srv_host ca IP:127.0.0.2,DNS:example.org $A $Z
srv srv_old ca $N $A 19760101000000Z
srv srv_early ca $N 40000101000000Z $Z
srv srv_name ca DNS:localhost $A $Z
rm -r "$T"
