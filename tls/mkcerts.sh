#!/bin/bash
# Regenerates fixtures/ (committed; checks never run this).  Needs openssl 3.
set -e
cd "$(dirname "$0")"
OUT=$PWD/fixtures; rm -f "$OUT"/*.pem
W=$(mktemp -d); cd "$W"
key() { openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -out "$1.key" 2>/dev/null; }
cat > ca.cnf <<'C'
[ca]
default_ca=d
[d]
dir=.
database=index.txt
new_certs_dir=.
serial=serial
default_md=sha256
policy=p
unique_subject=no
email_in_dn=no
[p]
commonName=supplied
C
: > index.txt; echo 1000 > serial
# sign <name> <subject CN> <issuer|self> <start> <end> <extension lines>
sign() {
  [ -f "$1.key" ] || key "$1"
  openssl req -new -key "$1.key" -subj "/CN=$2" -out "$1.csr"
  printf '[v]\n%s\n' "$6" > "$1.ext"
  if [ "$3" = self ]; then S="-selfsign -keyfile $1.key"; else S="-cert $3.crt -keyfile $3.key"; fi
  openssl ca -batch -config ca.cnf $S -in "$1.csr" -out "$1.crt" -notext -extfile "$1.ext" -extensions v \
    -startdate "$4" -enddate "$5" 2>/dev/null
}
B=20200101000000Z; E=29990101000000Z
CA=$'basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign\nsubjectKeyIdentifier=hash'
SAN='subjectAltName=DNS:localhost,IP:127.0.0.1'
L=$'basicConstraints=critical,CA:FALSE\nkeyUsage=critical,digitalSignature\nextendedKeyUsage=serverAuth'
sign ca-a "Root A" self $B $E "$CA"
sign ca-b "Root B" self $B $E "$CA"
sign ca-x "Root A" self $B $E "$CA"      # claims to be A
sign inter "Inter" ca-a $B $E "$CA"
sign a leaf ca-a $B $E "$L
$SAN"
sign other leaf ca-a $B $E "$L
subjectAltName=DNS:other.example,IP:127.0.0.2"
sign dns leaf ca-a $B $E "$L
subjectAltName=DNS:localhost"
sign ip leaf ca-a $B $E "$L
subjectAltName=IP:127.0.0.1"
sign cn localhost ca-a $B $E "$L"
sign b leaf ca-b $B $E "$L
$SAN"
sign viai leaf inter $B $E "$L
$SAN"
sign fake leaf ca-x $B $E "$L
$SAN"
sign self "self" self $B $E "$L
$SAN"
sign expired leaf ca-a 20000101000000Z 20010101000000Z "$L
$SAN"
sign future leaf ca-a 29980101000000Z $E "$L
$SAN"
sign byleaf leaf a $B $E "$L
$SAN"
sign cliuse leaf ca-a $B $E $'basicConstraints=critical,CA:FALSE\nextendedKeyUsage=clientAuth\n'"$SAN"
openssl genpkey -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out rsa.key 2>/dev/null
sign rsa leaf ca-a $B $E "$L
$SAN"
sign cli "me" self $B $E $'basicConstraints=critical,CA:FALSE\nextendedKeyUsage=clientAuth'
sign clii "me too" inter $B $E $'basicConstraints=critical,CA:FALSE\nextendedKeyUsage=clientAuth'
cp cli.key clirsa.key; openssl genpkey -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out clirsa.key 2>/dev/null
sign clirsa "me rsa" self $B $E $'basicConstraints=critical,CA:FALSE\nextendedKeyUsage=clientAuth'
for c in *.crt; do cp "$c" "$OUT/${c%.crt}.pem"; done
for k in *.key; do cp "$k" "$OUT/${k%.key}.key.pem"; done
cat ca-a.crt ca-b.crt > "$OUT/bundle.pem"
: > "$OUT/empty.pem"; echo "not a certificate" > "$OUT/junk.pem"
# Client identities.
cat cli.key cli.crt > "$OUT/me-kc.pem"
cat cli.crt cli.key > "$OUT/me-ck.pem"
cat clii.crt inter.crt clii.key > "$OUT/me-chain.pem"
cat clii.crt clii.key inter.crt > "$OUT/me-mixed.pem"
cat clii.crt inter.crt ca-a.crt clii.key > "$OUT/me-chain3.pem"
cat clii.crt inter.crt ca-a.crt clii.key ca-b.crt cli.crt self.crt > "$OUT/me-chain6.pem"
cat other.crt ca-x.crt self.crt ca-b.crt ca-a.crt > "$OUT/bundle5.pem"
cat clirsa.crt clirsa.key > "$OUT/me-rsa.pem"
cat clii.crt cli.key > "$OUT/me-mismatch.pem"
cat cli.crt > "$OUT/me-nokey.pem"
cat cli.key > "$OUT/me-nocert.pem"
(openssl ec -in cli.key 2>/dev/null; cat cli.crt) > "$OUT/me-sec1.pem"
(openssl rsa -traditional -in clirsa.key 2>/dev/null; cat clirsa.crt) > "$OUT/me-pkcs1.pem"
rm -f "$OUT/ca-x.key.pem" "$OUT"/ca-?.key.pem "$OUT/inter.key.pem"
ls "$OUT" | wc -l
cd /; rm -rf "$W"
