#!/bin/sh
# Creates the test PKI (committed; only re-run by hand).
set -e
cd "$(dirname "$0")"

cat > /tmp/mkc.py <<'P'
import sys,subprocess,os
n,ca,a,b,ext,self_=sys.argv[1:7]
os.makedirs('ca.tmp',exist_ok=True)
open('ca.tmp/index','w').close()
open('ca.tmp/c.cnf','w').write("""[ca]
default_ca=d
[d]
dir=ca.tmp
database=ca.tmp/index
serial=ca.tmp/serial
new_certs_dir=ca.tmp
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
""")
open('ca.tmp/serial','w').write(os.urandom(8).hex()+'\n')
open('ca.tmp/ext','w').write(ext.replace(';;','\n')+'\n')
cmd=['openssl','ca','-batch','-config','ca.tmp/c.cnf','-keyfile',ca+'.key','-in',n+'.csr','-out',n+'.pem','-startdate',a,'-enddate',b,'-extfile','ca.tmp/ext','-notext']
cmd+=['-selfsign'] if self_=='1' else ['-cert',ca+'.pem']
subprocess.check_call(cmd,stderr=subprocess.DEVNULL,stdout=subprocess.DEVNULL)
subprocess.call('rm -rf "$PWD/ca.tmp" '+n+'.csr',shell=True)
P
req() { openssl req -newkey ec -pkeyopt ec_paramgen_curve:P-256 -nodes -keyout $1.key -out $1.csr -subj "$2" 2>/dev/null; }
CAE="basicConstraints=critical,CA:TRUE;;keyUsage=critical,keyCertSign,cRLSign;;subjectKeyIdentifier=hash"
ca() { req $1 "/CN=$2"; python3 /tmp/mkc.py $1 $1 $A $Z "$CAE" 1; }
leaf() { req $1 "$6"; E="basicConstraints=critical,CA:FALSE"; [ -n "$5" ] && E="$E;;subjectAltName=$5"; python3 /tmp/mkc.py $1 $2 $3 $4 "$E" 0; }
A=20200101000000Z; Z=21200101000000Z
ca root "Test Root"; ca other "Other Root"
leaf good root $A $Z "DNS:example.org" "/CN=example.org"
leaf wild root $A $Z "DNS:*.example.org" "/CN=w"
leaf wrongname root $A $Z "DNS:evil.example" "/CN=evil.example"
leaf expired root $A 20210101000000Z "DNS:example.org" "/CN=example.org"
leaf future root 21000101000000Z $Z "DNS:example.org" "/CN=example.org"
leaf untrusted other $A $Z "DNS:example.org" "/CN=example.org"
leaf cnonly root $A $Z "" "/CN=example.org"
leaf partial root $A $Z "DNS:ex*.org,DNS:*le.org" "/CN=p"
leaf sub root $A $Z "DNS:chat.example.org" "/CN=s"
leaf badboth other $A 20210101000000Z "DNS:evil.example" "/CN=e"
leaf client1 root $A $Z "otherName:1.3.6.1.5.5.7.8.5;UTF8:user@example.org" "/CN=client1"
leaf client2 root $A $Z "otherName:1.3.6.1.5.5.7.8.5;UTF8:user@example.org,otherName:1.3.6.1.5.5.7.8.5;UTF8:other@example.org" "/CN=client2"
leaf client0 root $A $Z "DNS:client" "/CN=client0"
req self "/CN=example.org"; python3 /tmp/mkc.py self self $A $Z "subjectAltName=DNS:example.org" 1
# an intermediate and a leaf below it
req inter "/CN=Intermediate"; python3 /tmp/mkc.py inter root $A $Z "$CAE" 0
leaf chained inter $A $Z "DNS:example.org" "/CN=example.org"
cat chained.pem inter.pem > chain.pem; cp chained.key chain.key
openssl x509 -in good.pem -noout -checkhost example.org
# the same root for a CA directory, the client certificate in other forms
mkdir -p hash; cp root.pem hash/$(openssl x509 -in root.pem -noout -hash).0
openssl pkcs12 -export -inkey client1.key -in client1.pem -out client1.p12 -passout pass:pw
openssl ec -in client1.key -aes128 -passout pass:pw -out client1enc.key
