From aadc38f3b3d936e4c82da1d3aaf1f42e8bdf277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 01/29] fix: sm2: PublicKey.VerifyRS passed uid and message in
 swapped order

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 584f8dc..94031b7 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -148,7 +148,7 @@ func (pub *PublicKey) Verify(in, uid, signature []byte) bool {
 }
 
 func (pub *PublicKey) VerifyRS(in, uid []byte, r, s *big.Int) bool {
-	return VerifyRS(pub, uid, in, r, s)
+	return VerifyRS(pub, in, uid, r, s)
 }
 
 func (pub *PublicKey) VerifyDigest(in, signature []byte) bool {
-- 
2.43.0


From 78fda5b2faf7b67bd99c963380a274c493b21521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 02/29] fix: sm2: encode ciphertext coordinates as fixed
 32-byte fields

---
 sm2/sm2.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 94031b7..6883eb8 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -394,14 +394,14 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 		kBytes := k.Bytes()
 		//计算c1 = k·G(x,y)
 		c1x, c1y := curve.ScalarBaseMult(kBytes)
-		c = append(c, c1x.Bytes()...)
-		c = append(c, c1y.Bytes()...)
+		c = append(c, appendBigIntTo32Bytes(c1x)...)
+		c = append(c, appendBigIntTo32Bytes(c1y)...)
 		//计算c3
 		kpx, kpy := curve.ScalarMult(pub.X, pub.Y, kBytes)
 		c3 := []byte{}
-		c3 = append(c3, kpx.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpx)...)
 		c3 = append(c3, msg...)
-		c3 = append(c3, kpy.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpy)...)
 		c = append(c, sm3.Sum(c3)...)
 		//计算c2
 		t, ok := kdf(length, kpx, kpy)
@@ -482,9 +482,9 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	}
 	//比对摘要
 	tm := []byte{}
-	tm = append(tm, x2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(x2)...)
 	tm = append(tm, c...)
-	tm = append(tm, y2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
 		return c, errors.New("failed to decrypt:hash compared error")
-- 
2.43.0


From f0416b9d6fc84478dfc9053a7fe922ebfad83224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 03/29] fix: sm2: KDF must hash each counter separately and
 truncate only the last block

---
 sm2/sm2.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 6883eb8..4444a09 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -425,11 +425,12 @@ func kdf(klen int, x, y *big.Int) ([]byte, bool) {
 	yBytes := appendBigIntTo32Bytes(y)
 	n := (klen + 31) / 32 //需要计算的次数
 	for i := 0; i < n; i++ {
+		h.Reset()
 		h.Write(xBytes)
 		h.Write(yBytes)
 		h.Write(intToBytes(ct))
 		hash := h.Sum(nil)
-		if klen%32 != 0 {
+		if i == n-1 && klen%32 != 0 {
 			out = append(out, hash[:klen%32]...)
 		} else {
 			out = append(out, hash...)
-- 
2.43.0


From 85feb12b2d5e804143fc07b750d72645e55d5afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 04/29] fix: sm2: Encryt of an empty message never returned

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 4444a09..da74fb9 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -424,6 +424,9 @@ func kdf(klen int, x, y *big.Int) ([]byte, bool) {
 	xBytes := appendBigIntTo32Bytes(x)
 	yBytes := appendBigIntTo32Bytes(y)
 	n := (klen + 31) / 32 //需要计算的次数
+	if n == 0 {
+		return out, true
+	}
 	for i := 0; i < n; i++ {
 		h.Reset()
 		h.Write(xBytes)
-- 
2.43.0


From 8a6e372f2a2935bc011e2f6b80918f309ec75d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 05/29] fix: sm2: Decryt panicked on short input and returned
 unauthenticated plaintext

---
 sm2/sm2.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index da74fb9..9e1641d 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -455,6 +455,10 @@ func intToBytes(x int) []byte {
 }
 
 func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
+	//0x04 || C1(64) || C3(32) || C2
+	if len(data) < 97 || data[0] != 0x04 {
+		return nil, errors.New("failed to decrypt:malformed ciphertext")
+	}
 	//去除开头的0x04
 	data = data[1:]
 	//取出c1,是否满足椭圆曲线方程
@@ -491,7 +495,7 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
-		return c, errors.New("failed to decrypt:hash compared error")
+		return nil, errors.New("failed to decrypt:hash compared error")
 	}
 	return c, nil
 }
-- 
2.43.0


From 3187c6e0c557279618863b546ab45644104e21c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 06/29] fix: sm2: GenerateKey could return the unusable private
 keys 0 and n-1

---
 sm2/sm2.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 9e1641d..4dfa375 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -96,6 +96,11 @@ func GenerateKey(random io.Reader) (*PrivateKey, error) {
 	if err != nil {
 		return nil, err
 	}
+	//d must be in [1, n-2]
+	k := new(big.Int).SetBytes(d)
+	if k.Sign() == 0 || k.Add(k, one).Cmp(SM2P256V1().Params().N) == 0 {
+		return GenerateKey(random)
+	}
 	return &PrivateKey{
 		PublicKey: PublicKey{
 			Curve: SM2P256V1(),
-- 
2.43.0


From 6122492aa9c93a5335fff5a8b77521e77858f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 07/29] fix: x509: ParseCertificate printed debug output to
 standard output

---
 x509/parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/x509/parser.go b/x509/parser.go
index fe08981..a9abe23 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1121,13 +1121,6 @@ func parseCertificate(der []byte) (*Certificate, error) {
 		return nil, err
 	}
 
-	var paramsoid cryptobyte.String
-	paramsoid = pkAI.Parameters.FullBytes
-	var paramsAlgorithm asn1.ObjectIdentifier
-	paramsoid.ReadASN1ObjectIdentifier(&paramsAlgorithm)
-
-	fmt.Println(paramsAlgorithm)
-
 	cert.PublicKeyAlgorithm = getPublicKeyAlgorithmFromOID(pkAI.Algorithm)
 	var spk asn1.BitString
 	if !spki.ReadASN1BitString(&spk) {
-- 
2.43.0


From c1768e08795c76c11844f0aef36e8ec34963c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 08/29] fix: x509: valid Ed25519 signatures were always
 rejected

---
 x509/x509.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 0c02d65..168d3bc 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1015,7 +1015,7 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 	}
 
-	if !hashType.Available() {
+	if hashType != 0 && !hashType.Available() {
 		return ErrUnsupportedAlgorithm
 	}
 
@@ -1023,9 +1023,12 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		return ErrUnsupportedAlgorithm
 	}
 
-	h := hashType.New()
-	h.Write(plain)
-	signed := h.Sum(nil)
+	signed := plain
+	if hashType != 0 {
+		h := hashType.New()
+		h.Write(plain)
+		signed = h.Sum(nil)
+	}
 
 	switch pub := publicKey.(type) {
 	case *rsa.PublicKey:
-- 
2.43.0


From e160a23c2555bf8894049fed693eb098b05ad006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 09/29] fix: x509: sign-only MD5 and SHA-1 algorithms were
 accepted in verification

---
 x509/x509.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index 168d3bc..afc5f89 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1008,6 +1008,12 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 	var hashType Hash
 	var pubKeyAlgo PublicKeyAlgorithm
 
+	switch algo {
+	case MD5WithRSA, SHA1WithRSA, ECDSAWithSHA1:
+		// Only supported for signing, not verification.
+		return InsecureAlgorithmError(algo)
+	}
+
 	for _, details := range signatureAlgorithmDetails {
 		if details.algo == algo {
 			hashType = details.hash
-- 
2.43.0


From 3722de71e6973150985691b5ffc3caf9edd0e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 10/29] fix: x509: SM2 and ECDSA keys were accepted under each
 other's signature algorithms

---
 x509/x509.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index afc5f89..1f518d7 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -530,7 +530,7 @@ var signatureAlgorithmDetails = []struct {
 	{ECDSAWithSHA384, "ECDSA-SHA384", oidSignatureECDSAWithSHA384, ECDSA, SHA384},
 	{ECDSAWithSHA512, "ECDSA-SHA512", oidSignatureECDSAWithSHA512, ECDSA, SHA512},
 	{PureEd25519, "Ed25519", oidSignatureEd25519, Ed25519, Hash(0) /* no pre-hashing */},
-	{SM2WithSM3, "SM2WithSM3", oidSignatureSM2WithSM3, ECDSA, SM3},
+	{SM2WithSM3, "SM2WithSM3", oidSignatureSM2WithSM3, SM2, SM3},
 }
 
 // hashToPSSParameters contains the DER encoded RSA PSS parameters for the
@@ -1055,7 +1055,7 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 		return
 	case *sm2.PublicKey:
-		if pubKeyAlgo != ECDSA {
+		if pubKeyAlgo != SM2 {
 			return signaturePublicKeyAlgoMismatchError(pubKeyAlgo, pub)
 		}
 		if pub.Curve != sm2.SM2P256V1() {
@@ -1579,7 +1579,7 @@ func signingParamsForPublicKey(pub any, requestedSigAlgo SignatureAlgorithm) (ha
 			err = errors.New("x509: unknown elliptic curve")
 		}
 	case *sm2.PublicKey:
-		pubType = ECDSA
+		pubType = SM2
 		switch pub.Curve {
 		case sm2.SM2P256V1():
 			hashFunc = SM3
-- 
2.43.0


From a3410629c01b6f39e5d391b8c9ca0a2442c1f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 11/29] fix: x509: SM2 certificates, requests and revocation
 lists were signed over the wrong bytes

---
 x509/x509.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 1f518d7..9f723a1 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1770,7 +1770,7 @@ func CreateCertificate(rand io.Reader, template, parent *Certificate, pub, priv
 	c.Raw = tbsCertContents
 
 	signed := tbsCertContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2199,7 +2199,7 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 	tbsCSR.Raw = tbsCSRContents
 
 	signed := tbsCSRContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2402,7 +2402,7 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 	}
 
 	input := tbsCertListContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(tbsCertListContents)
 		input = h.Sum(nil)
-- 
2.43.0


From deab74e4864fb59a50afcb8e5734caa6d7c4ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 12/29] fix: x509: RSA-PSS certificate requests were signed
 with PKCS #1 v1.5

---
 x509/x509.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index 9f723a1..7368e46 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -2205,8 +2205,16 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 		signed = h.Sum(nil)
 	}
 
+	var signerOpts crypto.SignerOpts = hashFunc
+	if template.SignatureAlgorithm.isRSAPSS() {
+		signerOpts = &rsa.PSSOptions{
+			SaltLength: rsa.PSSSaltLengthEqualsHash,
+			Hash:       crypto.Hash(hashFunc),
+		}
+	}
+
 	var signature []byte
-	signature, err = key.Sign(rand, signed, hashFunc)
+	signature, err = key.Sign(rand, signed, signerOpts)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From fdc22ef13ed43295a8903a02022260fc5e4b6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 13/29] fix: x509: EC private key value 0, and n-1 for SM2,
 were accepted

---
 x509/sec1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x509/sec1.go b/x509/sec1.go
index c5d3306..613d8e4 100644
--- a/x509/sec1.go
+++ b/x509/sec1.go
@@ -106,6 +106,9 @@ func parseECPrivateKey(namedCurveOID *asn1.ObjectIdentifier, der []byte) (key an
 	if k.Cmp(curveOrder) >= 0 {
 		return nil, errors.New("x509: invalid elliptic curve private key value")
 	}
+	if k.Sign() == 0 || curve == sm2.SM2P256V1() && new(big.Int).Add(k, big.NewInt(1)).Cmp(curveOrder) == 0 {
+		return nil, errors.New("x509: invalid elliptic curve private key value")
+	}
 
 	privateKey := make([]byte, (curveOrder.BitLen()+7)/8)
 	// Some private keys have leading zero padding. This is invalid
-- 
2.43.0


From 12e6049405bee062c94864ff10f2f7457f2ef766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 14/29] fix: x509: PKCS #7 signing errors were dropped and an
 unsigned message returned

---
 x509/pkcs7.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 2aa4867..77a5bee 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -190,6 +190,9 @@ func NewSignedDataCallBack(signerCertificate *Certificate, callback Callback, da
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttrCallback(signerCertificate, callback, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
@@ -228,6 +231,9 @@ func NewSignedData(signerCertificate *Certificate, signerPrivateKey crypto.Priva
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttr(signerCertificate, signerPrivateKey, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
-- 
2.43.0


From 81d836949c2446e1305ed0af61255c345b49f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 15/29] fix: x509: ParsePKCS7 ignored malformed SignedData

---
 x509/pkcs7.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 77a5bee..ca94e69 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -472,7 +472,9 @@ type unsignedData []byte
 
 func parseSignedData(data []byte) (*PKCS7, error) {
 	var sd signedData
-	asn1.Unmarshal(data, &sd)
+	if _, err := asn1.Unmarshal(data, &sd); err != nil {
+		return nil, err
+	}
 	certs, err := sd.Certificates.Parse()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 575aab81b440afa947d8210d6e21d6c969de34ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 16/29] fix: pkcs12: ToPEM reported success for a wrong
 password

---
 pkcs12/pkcs12.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index 682ad78..a127082 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -110,6 +110,9 @@ func ToPEM(pfxData []byte, password string) ([]*pem.Block, error) {
 	}
 
 	bags, encodedPassword, err := getSafeContents(pfxData, encodedPassword)
+	if err != nil {
+		return nil, err
+	}
 
 	blocks := make([]*pem.Block, 0, len(bags))
 	for _, bag := range bags {
-- 
2.43.0


From 48c0589a8634e9afd8bd65c78daff6c3abcd6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 17/29] fix: pkcs12: Decode returned a CA certificate as the
 key's own, and DecodeAll lost or invented errors, with several bags

---
 pkcs12/pkcs12.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index a127082..96c3126 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -227,10 +227,6 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 	for _, bag := range bags {
 		switch {
 		case bag.Id.Equal(oidCertBag):
-			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
-			}
-
 			certsData, err := decodeCertBag(bag.Value.Bytes)
 			if err != nil {
 				return nil, nil, err
@@ -248,6 +244,7 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
 				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, err
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
@@ -290,6 +287,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 		case bag.Id.Equal(oidCertBag):
 			if certificate != nil {
 				err = errors.New("go-pkcs12: expected exactly one certificate bag")
+				return nil, nil, err
 			}
 
 			certsData, err := decodeCertBag(bag.Value.Bytes)
@@ -309,6 +307,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
 				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, err
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
-- 
2.43.0


From a5618fa3f7b1e3408043bb81fb0d6b714d3f4f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 18/29] fix: pkcs12: New panicked for RC2 key lengths out of
 range

---
 pkcs12/rc2.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkcs12/rc2.go b/pkcs12/rc2.go
index 7014f06..1bfa0c4 100644
--- a/pkcs12/rc2.go
+++ b/pkcs12/rc2.go
@@ -14,6 +14,7 @@ package pkcs12
 import (
 	"crypto/cipher"
 	"encoding/binary"
+	"errors"
 )
 
 // The rc2 block size in bytes
@@ -25,7 +26,9 @@ type rc2Cipher struct {
 
 // New returns a new rc2 cipher with the given key and effective key length t1
 func New(key []byte, t1 int) (cipher.Block, error) {
-	// TODO(dgryski): error checking for key length
+	if len(key) < 1 || len(key) > 128 || t1 < 1 || t1 > 1024 {
+		return nil, errors.New("go-pkcs12: invalid RC2 key or effective key length")
+	}
 	return &rc2Cipher{
 		k: expandKey(key, t1),
 	}, nil
-- 
2.43.0


From e4ef7211841dba9ee3d67d684f5f508271dcbe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 19/29] fix: sm2: verification treated every point with x = 0
 as the point at infinity

---
 sm2/sm2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 4dfa375..6911017 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -345,7 +345,7 @@ func VerifyRS(pub *PublicKey, in []byte, uid []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
@@ -379,7 +379,7 @@ func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
-- 
2.43.0


From f72495be42fab6c3016ae5792e436a2b979cb549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 20/29] fix: carry the issuer's encoded subject in CRLs

CreateCRL and CreateRevocationList rebuilt the issuer name from the parsed
pkix.Name, which drops attributes without a field of their own and changes
the order and string types, so the CRL named another issuer than the
certificate.
---
 x509/x509.go | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 7368e46..58d2ca1 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1847,6 +1847,25 @@ func ParseDERCRL(derBytes []byte) (*pkix.CertificateList, error) {
 	return certList, nil
 }
 
+// certificateList and tbsCertificateList are pkix.CertificateList and
+// pkix.TBSCertificateList with a raw issuer name, so that a CRL carries the
+// issuer's subject exactly as it is encoded in the issuer's certificate.
+type certificateList struct {
+	TBSCertList        tbsCertificateList
+	SignatureAlgorithm pkix.AlgorithmIdentifier
+	SignatureValue     asn1.BitString
+}
+
+type tbsCertificateList struct {
+	Version             int `asn1:"optional,default:0"`
+	Signature           pkix.AlgorithmIdentifier
+	Issuer              asn1.RawValue
+	ThisUpdate          time.Time
+	NextUpdate          time.Time                 `asn1:"optional"`
+	RevokedCertificates []pkix.RevokedCertificate `asn1:"optional"`
+	Extensions          []pkix.Extension          `asn1:"tag:0,optional,explicit"`
+}
+
 // CreateCRL returns a DER encoded CRL, signed by this Certificate, that
 // contains the given list of revoked certificates.
 //
@@ -1870,10 +1889,15 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		revokedCertsUTC[i] = rc
 	}
 
-	tbsCertList := pkix.TBSCertificateList{
+	issuerSubject, err := subjectBytes(c)
+	if err != nil {
+		return nil, err
+	}
+
+	tbsCertList := tbsCertificateList{
 		Version:             1,
 		Signature:           signatureAlgorithm,
-		Issuer:              c.Subject.ToRDNSequence(),
+		Issuer:              asn1.RawValue{FullBytes: issuerSubject},
 		ThisUpdate:          now.UTC(),
 		NextUpdate:          expiry.UTC(),
 		RevokedCertificates: revokedCertsUTC,
@@ -1908,7 +1932,7 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		return
 	}
 
-	return asn1.Marshal(pkix.CertificateList{
+	return asn1.Marshal(certificateList{
 		TBSCertList:        tbsCertList,
 		SignatureAlgorithm: signatureAlgorithm,
 		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
@@ -2379,10 +2403,15 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
-	tbsCertList := pkix.TBSCertificateList{
+	issuerSubject, err := subjectBytes(issuer)
+	if err != nil {
+		return nil, err
+	}
+
+	tbsCertList := tbsCertificateList{
 		Version:    1, // v2
 		Signature:  signatureAlgorithm,
-		Issuer:     issuer.Subject.ToRDNSequence(),
+		Issuer:     asn1.RawValue{FullBytes: issuerSubject},
 		ThisUpdate: template.ThisUpdate.UTC(),
 		NextUpdate: template.NextUpdate.UTC(),
 		Extensions: []pkix.Extension{
@@ -2428,7 +2457,7 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
-	return asn1.Marshal(pkix.CertificateList{
+	return asn1.Marshal(certificateList{
 		TBSCertList:        tbsCertList,
 		SignatureAlgorithm: signatureAlgorithm,
 		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
-- 
2.43.0


From de042cd2dcafc1b297d3a30a9521d02d99bff482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 21/29] fix: x509: Hash.String did not know MD4

---
 x509/x509.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index 58d2ca1..e263d2c 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -226,6 +226,8 @@ func (h Hash) HashFunc() crypto.Hash {
 
 func (h Hash) String() string {
 	switch h {
+	case MD4:
+		return "MD4"
 	case MD5:
 		return "MD5"
 	case SHA1:
-- 
2.43.0


From 719a587c203c677bbf233f9ed91b7a0c9ccc624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 22/29] fix: x509: refuse domain names that begin with an empty
 label

domainToReverseLabels checks every label but the first one: the loop ends
when what is left of the domain is empty, so that "..a" as a name
constraint, or ".a" as the host of a URI, was taken for a valid name.
---
 x509/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x509/parser.go b/x509/parser.go
index a9abe23..5e41d66 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -402,6 +402,11 @@ func domainToReverseLabels(domain string) (reverseLabels []string, ok bool) {
 		} else {
 			reverseLabels = append(reverseLabels, domain[i+1:])
 			domain = domain[:i]
+			if i == 0 {
+				// The domain begins with an empty label, which
+				// is invalid like any other empty label.
+				reverseLabels = append(reverseLabels, "")
+			}
 		}
 	}
 
-- 
2.43.0


From 798d4b387371096f6a186768e1a73b3373111f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 23/29] fix: x509: refuse negative path length constraints

A path length constraint of -1, which is malformed, was read as if there were
no constraint at all.
---
 x509/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x509/parser.go b/x509/parser.go
index 5e41d66..bc8230f 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -365,7 +365,7 @@ func parseBasicConstraintsExtension(der cryptobyte.String) (bool, int, error) {
 	}
 	maxPathLen := -1
 	if !der.Empty() && der.PeekASN1Tag(cryptobyte_asn1.INTEGER) {
-		if !der.ReadASN1Integer(&maxPathLen) {
+		if !der.ReadASN1Integer(&maxPathLen) || maxPathLen < 0 {
 			return false, 0, errors.New("x509: invalid basic constraints c")
 		}
 	}
-- 
2.43.0


From 483b6bfe64cfea093fbc84b32ad08460d3a4d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 24/29] fix: x509: refuse certificate templates that give no
 readable certificate

CreateCertificate returned certificates that cannot be parsed, for example
for IP addresses of a wrong length or malformed constraints, and dropped
undefined key usage bits.
---
 x509/x509.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index e263d2c..93229c5 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1454,6 +1454,10 @@ func buildCertExtensions(template *Certificate, subjectIsEmpty bool, authorityKe
 func marshalKeyUsage(ku KeyUsage) (pkix.Extension, error) {
 	ext := pkix.Extension{Id: oidExtensionKeyUsage, Critical: true}
 
+	if ku < 0 || ku >= KeyUsageDecipherOnly<<1 {
+		return ext, errors.New("x509: undefined key usage")
+	}
+
 	var a [2]byte
 	a[0] = reverseBitsInAByte(byte(ku))
 	a[1] = reverseBitsInAByte(byte(ku >> 8))
@@ -1814,6 +1818,12 @@ func CreateCertificate(rand io.Reader, template, parent *Certificate, pub, priv
 		}
 	}
 
+	// Check that the certificate can be read: a template value that has no
+	// valid encoding, such as an IP address of a wrong length, is an error.
+	if _, err := parseCertificate(signedCert); err != nil {
+		return nil, fmt.Errorf("x509: invalid certificate template: %w", err)
+	}
+
 	return signedCert, nil
 }
 
-- 
2.43.0


From 5d1fb5241f9cba2e7312e1e8e021c0843c8564de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 25/29] fix: x509: refuse request templates that give no
 readable request

---
 x509/x509.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index 93229c5..d87edcc 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -2255,7 +2255,7 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 		return
 	}
 
-	return asn1.Marshal(certificateRequest{
+	csr, err = asn1.Marshal(certificateRequest{
 		TBSCSR:             tbsCSR,
 		SignatureAlgorithm: sigAlgo,
 		SignatureValue: asn1.BitString{
@@ -2263,6 +2263,17 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 			BitLength: len(signature) * 8,
 		},
 	})
+	if err != nil {
+		return nil, err
+	}
+
+	// Check that the request can be read: a template value that has no
+	// valid encoding is an error.
+	if _, err := ParseCertificateRequest(csr); err != nil {
+		return nil, fmt.Errorf("x509: invalid certificate request template: %w", err)
+	}
+
+	return csr, nil
 }
 
 // ParseCertificateRequest parses a single certificate request from the
-- 
2.43.0


From e022954dc6239e72c11dad8201f62c641769b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 26/29] fix: x509: refuse revocation lists that are not
 readable

---
 x509/x509.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index d87edcc..f827688 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1878,6 +1878,23 @@ type tbsCertificateList struct {
 	Extensions          []pkix.Extension          `asn1:"tag:0,optional,explicit"`
 }
 
+// marshalCRL encodes a signed list. It checks that the list can be read: a
+// value that has no valid encoding is an error.
+func marshalCRL(tbs tbsCertificateList, alg pkix.AlgorithmIdentifier, signature []byte) ([]byte, error) {
+	crl, err := asn1.Marshal(certificateList{
+		TBSCertList:        tbs,
+		SignatureAlgorithm: alg,
+		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
+	})
+	if err != nil {
+		return nil, err
+	}
+	if _, err := ParseDERCRL(crl); err != nil {
+		return nil, fmt.Errorf("x509: invalid revocation list: %w", err)
+	}
+	return crl, nil
+}
+
 // CreateCRL returns a DER encoded CRL, signed by this Certificate, that
 // contains the given list of revoked certificates.
 //
@@ -1944,11 +1961,7 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		return
 	}
 
-	return asn1.Marshal(certificateList{
-		TBSCertList:        tbsCertList,
-		SignatureAlgorithm: signatureAlgorithm,
-		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
-	})
+	return marshalCRL(tbsCertList, signatureAlgorithm, signature)
 }
 
 // CertificateRequest represents a PKCS #10, certificate signature request.
@@ -2480,9 +2493,5 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
-	return asn1.Marshal(certificateList{
-		TBSCertList:        tbsCertList,
-		SignatureAlgorithm: signatureAlgorithm,
-		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
-	})
+	return marshalCRL(tbsCertList, signatureAlgorithm, signature)
 }
-- 
2.43.0


From 9cc797997bc839a653685b42303de1e37a7b6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 27/29] fix: x509: refuse to sign a revocation list with a key
 other than the issuer's

---
 x509/x509.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index f827688..a9ff8e5 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1878,6 +1878,21 @@ type tbsCertificateList struct {
 	Extensions          []pkix.Extension          `asn1:"tag:0,optional,explicit"`
 }
 
+// checkSigner checks that key is the private key of the certificate's public
+// key, if the certificate has one.
+func (c *Certificate) checkSigner(key crypto.Signer) error {
+	pub, ok := key.Public().(interface {
+		Equal(crypto.PublicKey) bool
+	})
+	if !ok {
+		return errors.New("x509: internal error: supported public key does not implement Equal")
+	}
+	if c.PublicKey != nil && !pub.Equal(c.PublicKey) {
+		return errors.New("x509: provided PrivateKey doesn't match issuer's PublicKey")
+	}
+	return nil
+}
+
 // marshalCRL encodes a signed list. It checks that the list can be read: a
 // value that has no valid encoding is an error.
 func marshalCRL(tbs tbsCertificateList, alg pkix.AlgorithmIdentifier, signature []byte) ([]byte, error) {
@@ -1911,6 +1926,10 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		return nil, err
 	}
 
+	if err := c.checkSigner(key); err != nil {
+		return nil, err
+	}
+
 	// Force revocation times to UTC per RFC 5280.
 	revokedCertsUTC := make([]pkix.RevokedCertificate, len(revokedCerts))
 	for i, rc := range revokedCerts {
@@ -2423,6 +2442,10 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
+	if err := issuer.checkSigner(priv); err != nil {
+		return nil, err
+	}
+
 	// Force revocation times to UTC per RFC 5280.
 	revokedCertsUTC := make([]pkix.RevokedCertificate, len(template.RevokedCertificates))
 	for i, rc := range template.RevokedCertificates {
-- 
2.43.0


From 519901f60ff805b6e454f722d9975441f114ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 28/29] fix: x509: PKCS #7 signing times were not in UTC

---
 x509/pkcs7.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index ca94e69..6e16d7a 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -261,7 +261,7 @@ func getSignerInfoWithAttrCallback(cert *Certificate, callback Callback, in []by
 	attrs := &attributes{}
 	attrs.Add(oidAttributeContentType, oidGMData)
 	attrs.Add(oidAttributeMessageDigest, messageDigest)
-	attrs.Add(oidAttributeSigningTime, time.Now())
+	attrs.Add(oidAttributeSigningTime, time.Now().UTC())
 	for _, attr := range config.ExtraSignedAttributes {
 		attrs.Add(attr.Type, attr.Value)
 	}
@@ -296,7 +296,7 @@ func getSignerInfoWithAttr(cert *Certificate, pkey crypto.PrivateKey, in []byte,
 	attrs := &attributes{}
 	attrs.Add(oidAttributeContentType, oidGMData)
 	attrs.Add(oidAttributeMessageDigest, messageDigest)
-	attrs.Add(oidAttributeSigningTime, time.Now())
+	attrs.Add(oidAttributeSigningTime, time.Now().UTC())
 	for _, attr := range config.ExtraSignedAttributes {
 		attrs.Add(attr.Type, attr.Value)
 	}
-- 
2.43.0


From 1aba872a63b73aaafd46dbc628f6aec804f020a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:27 +0000
Subject: [PATCH 29/29] fix: read the extensions of certificates that have
 unique identifiers

---
 x509/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x509/parser.go b/x509/parser.go
index bc8230f..3022a40 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1140,10 +1140,10 @@ func parseCertificate(der []byte) (*Certificate, error) {
 	}
 
 	if cert.Version > 1 {
-		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(1).Constructed().ContextSpecific()) {
+		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(1).ContextSpecific()) {
 			return nil, errors.New("x509: malformed issuerUniqueID")
 		}
-		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(2).Constructed().ContextSpecific()) {
+		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(2).ContextSpecific()) {
 			return nil, errors.New("x509: malformed subjectUniqueID")
 		}
 		if cert.Version == 3 {
-- 
2.43.0

