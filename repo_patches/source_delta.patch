From ac491fb35efcf0207d43a3be57a6f2b17fb41ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:45 +0000
Subject: [PATCH 01/18] fix: report read errors and read the whole input in
 auto-detect mode

parse.New took every failure of the armor detection, a failed read
included, as "this is not armored text" and went on with the bytes read so
far. A read error was dumped as a complete input, and so was binary data
whose first 64 KB contain no newline (the line scanner gives up there):
everything after the scanner's buffer was silently dropped.

Read the input to its end first and return the error if that fails.
---
 parse/parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parse/parser.go b/parse/parser.go
index 6af8a24..9278d77 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -31,10 +31,12 @@ func New(cxt *context.Context, reader io.Reader) (*Parser, error) {
 	case cxt.Armor():
 		r, err = newReaderArmor(reader)
 	default:
-		buf := &bytes.Buffer{}
-		r, err = newReaderArmor(io.TeeReader(reader, buf))
-		if err != nil {
-			r, err = buf, nil
+		var data []byte
+		if data, err = io.ReadAll(reader); err != nil {
+			return nil, errs.Wrap(err)
+		}
+		if r, err = newReaderArmor(bytes.NewReader(data)); err != nil {
+			r, err = bytes.NewReader(data), nil
 		}
 	}
 	if err != nil {
-- 
2.43.0


From 664457ce7aca27649633a8b588b158886ef3824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:45 +0000
Subject: [PATCH 02/18] fix: do not panic on a version 5 secret key without key
 material

The length of the key material was decoded before the error of reading it
was checked.
---
 parse/tags/seckey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 1884833..4dad0f6 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -175,10 +175,10 @@ func (p *seckeyInfo) getField1() (*reader.Reader, error) {
 func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 	if p.pubVer.Number() == 5 {
 		l, err := p.reader.ReadBytes(4)
-		ll := binary.BigEndian.Uint32(l)
 		if err != nil {
 			return nil, errs.New("illegal length of key materia", errs.WithCause(err))
 		}
+		ll := binary.BigEndian.Uint32(l)
 		if ll == 0 {
 			return nil, nil
 		}
-- 
2.43.0


From 647394f17c677c57de565f552ca1fa6d7033bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:45 +0000
Subject: [PATCH 03/18] fix: read the IV of a version 5 secret key from its
 option field

The IV is part of the length-prefixed option fields. Reading it from what
follows them took the length of the key material for IV octets, so valid
version 5 encrypted secret keys were rejected or shown wrongly.
---
 parse/tags/seckey.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 4dad0f6..9ad88be 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -81,7 +81,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		}
 		//[Optional] If secret data is encrypted (string-to-key usage octet not zero), an Initial Vector (IV) of the same length as the cipher's block size.
 		if usage != 0 && hasIV {
-			iv, err := p.iv(values.SymID(symid), usage == 253)
+			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)
 			if err != nil {
 				return err
 			}
@@ -192,9 +192,9 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 }
 
 //iv returns context.Item for Initialization Vector
-func (p *seckeyInfo) iv(symid values.SymID, isAEAD bool) (*result.Item, error) {
+func (p *seckeyInfo) iv(r *reader.Reader, symid values.SymID, isAEAD bool) (*result.Item, error) {
 	sz64 := int64(symid.IVLen())
-	iv, err := p.reader.ReadBytes(sz64)
+	iv, err := r.ReadBytes(sz64)
 	if err != nil {
 		return nil, errs.New(fmt.Sprintf("illegal s2k iv (length: %d bytes)", sz64), errs.WithCause(err))
 	}
-- 
2.43.0


From fb51569906e4e4cf0c1908ef8d00ca314ce8bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:45 +0000
Subject: [PATCH 04/18] fix: do not panic on plain key material shorter than
 its checksum

For unknown public-key algorithms the size of the secret key material was
computed as the rest minus two and used as a slice bound even if negative.
---
 parse/pubkey/parse_secplain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/pubkey/parse_secplain.go b/parse/pubkey/parse_secplain.go
index 5c3cffa..bbb3f34 100644
--- a/parse/pubkey/parse_secplain.go
+++ b/parse/pubkey/parse_secplain.go
@@ -2,6 +2,7 @@ package pubkey
 
 import (
 	"fmt"
+	"io"
 
 	"github.com/spiegel-im-spiegel/errs"
 	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
@@ -37,6 +38,9 @@ func (p *Pubkey) ParseSecPlain(parent *result.Item) error {
 		}
 	default:
 		length := p.size - 2 //last 2-octet is checksum value
+		if length < 0 {
+			return errs.New("illegal size of unknown secret key", errs.WithCause(io.ErrUnexpectedEOF))
+		}
 		b, err := p.reader.ReadBytes(length)
 		if err != nil {
 			return errs.Wrap(err)
-- 
2.43.0


From ddebb5f2629260f6b4cccb7530ee6c0290ce3e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:45 +0000
Subject: [PATCH 05/18] fix: report errors in version 3 signature packets

The error of parseV3 was checked, but the (nil) error of reading the
version was returned, so a truncated version 3 signature was dumped as if
it were complete.
---
 parse/tags/tag02.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 8bf520d..83d3492 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -46,8 +46,8 @@ func (t *tag02) Parse() (*result.Item, error) {
 		}
 	case version.IsOld():
 		if version.Number() == 3 {
-			_, err2 := t.parseV3(rootInfo)
-			if err2 != nil {
+			_, err := t.parseV3(rootInfo)
+			if err != nil {
 				return rootInfo, errs.Wrap(err)
 			}
 		}
-- 
2.43.0


From cbe4b8126172713e099f20ea026db4bdd80cea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:45 +0000
Subject: [PATCH 06/18] fix: report a truncated IV in AEAD encrypted data
 packets

The error was dropped, and the packet was dumped as if it were complete.
---
 parse/tags/tag20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index ba9bb51..2379344 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -59,7 +59,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	//A starting initialization vector of size specified by the AEAD algorithm.
 	iv, err := t.iv(aeadid)
 	if err != nil {
-		return rootInfo, nil
+		return rootInfo, errs.Wrap(err)
 	}
 	rootInfo.Add(iv)
 
-- 
2.43.0


From e0ecb690609fb03fa2295ee6d8c1750f71867d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:45 +0000
Subject: [PATCH 07/18] fix: do not panic on null elements in the GitHub key
 list

---
 github/github.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/github/github.go b/github/github.go
index 1f31e9e..3b193a3 100644
--- a/github/github.go
+++ b/github/github.go
@@ -46,6 +46,9 @@ func GetKey(ctx context.Context, cli fetch.Client, username string, keyID string
 			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 		}
 		for _, k := range keys {
+			if k == nil {
+				continue
+			}
 			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
 				if k.RawKey == nil {
 					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
-- 
2.43.0


From a936a15336bebd3bd32000a50b0e486a8396fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:45 +0000
Subject: [PATCH 08/18] fix: do not panic on a GitHub user name that is no
 valid URL part

The error of parsing the URL was ignored and a nil URL passed on.
---
 github/github.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/github/github.go b/github/github.go
index 3b193a3..a478ecf 100644
--- a/github/github.go
+++ b/github/github.go
@@ -19,7 +19,11 @@ var maxKeysStr = strconv.Itoa(maxKeys)
 
 //Get returns OpenPGP ASCII armor text from GitHub user profile
 func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error) {
-	resp, err := cli.Get(makeURL(username), fetch.WithContext(ctx))
+	u, err := makeURL(username)
+	if err != nil {
+		return nil, errs.Wrap(ecode.ErrInvalidRequest, errs.WithCause(err), errs.WithContext("username", username))
+	}
+	resp, err := cli.Get(u, fetch.WithContext(ctx))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username))
 	}
@@ -30,9 +34,8 @@ func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error)
 	return b, nil
 }
 
-func makeURL(username string) *url.URL {
-	u, _ := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
-	return u
+func makeURL(username string) (*url.URL, error) {
+	return fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
 }
 
 //GetKey returns JSON text for GitHub OpenPGP API
-- 
2.43.0


From 6765b8ee19304186b22819cd656f88bf3ad011ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:45 +0000
Subject: [PATCH 09/18] fix: do not carry --debug over to the next execution

debugFlag is set by the commands that parse and was never reset, so after
one run with --debug the error of a later one in the same process (for
example completion or version) was printed to the standard output and the
exit status was zero.
---
 facade/facade.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/facade/facade.go b/facade/facade.go
index a0769d7..64154ef 100644
--- a/facade/facade.go
+++ b/facade/facade.go
@@ -35,6 +35,7 @@ var (
 
 //newRootCmd returns cobra.Command instance for root command
 func newRootCmd(ui *rwi.RWI, args []string) *cobra.Command {
+	debugFlag = false
 	rootCmd := &cobra.Command{
 		Use:   Name,
 		Short: "OpenPGP packet visualizer",
-- 
2.43.0


From 1ababb01a84fa27338e1eb818b0491dd8861b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:55 +0000
Subject: [PATCH 10/18] fix: read the packets of a key block subpacket like any
 other stream

The packets were read through reader.Reader, which is all-or-nothing and
wraps io.EOF. A packet that ends right after its header was taken for the
end of the key block and dropped without an error, and packets with partial
or indeterminate length could not be read at all.
---
 parse/tags/sub38.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 9c8d71e..5798cdb 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -1,6 +1,7 @@
 package tags
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 
@@ -47,7 +48,14 @@ func (s *sub38) Parse() (*result.Item, error) {
 }
 
 func (s *sub38) parseKeyData(rootInfo *result.Item) error {
-	sp, err := NewPackets(s.cxt, s.reader)
+	if s.reader.Rest() == 0 {
+		return nil
+	}
+	data, err := s.reader.Read2EOF()
+	if err != nil {
+		return errs.Wrap(err)
+	}
+	sp, err := NewPackets(s.cxt, bytes.NewReader(data))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From 26c05f9d2e727bb4cc7a582f1814984f4d033826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 11/18] fix: find armored text next to lines of more than 64 KB

---
 armtext/armtext.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/armtext/armtext.go b/armtext/armtext.go
index 957941a..937f180 100644
--- a/armtext/armtext.go
+++ b/armtext/armtext.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -22,6 +23,7 @@ func Get(r io.Reader) (*bytes.Buffer, error) {
 	armorFlag := false
 	armorEndFlag := false
 	scn := bufio.NewScanner(r)
+	scn.Buffer(nil, math.MaxInt32) //surrounding text may have lines of any length
 	for scn.Scan() {
 		str := scn.Text()
 		if !armorFlag {
-- 
2.43.0


From 756e26d307d12814cfb18f99e8321582e78cec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:27 +0000
Subject: [PATCH 12/18] fix: recognise the GNU S2K extension as GnuPG writes it

GnuPG writes the hash algorithm between the S2K identifier 101 and the marker
GNU, so that secret keys exported with --export-secret-subkeys were rejected.
---
 parse/s2k/s2k.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parse/s2k/s2k.go b/parse/s2k/s2k.go
index eb70d0f..5ce44da 100644
--- a/parse/s2k/s2k.go
+++ b/parse/s2k/s2k.go
@@ -68,6 +68,21 @@ func (s *S2K) Parse(parent *result.Item, dumpFlag bool) error {
 		if s.reader.Rest() < 4 {
 			return nil //unknown
 		}
+		if s.reader.Rest() > 4 {
+			//GnuPG puts the hash algorithm in front of the marker
+			b, err := s.reader.ReadBytes(4)
+			if err != nil {
+				return errs.New("invalid gnu-div", errs.WithCause(err))
+			}
+			back := int64(-4)
+			if bytes.Equal(b[1:], []byte("GNU")) {
+				itm.Add(values.HashID(b[0]).ToItem(dumpFlag))
+				back = -3
+			}
+			if _, err := s.reader.Seek(back, io.SeekCurrent); err != nil { //roll back
+				return errs.New("roll back error", errs.WithCause(err))
+			}
+		}
 		mrk, err := s.reader.ReadBytes(3)
 		if err != nil {
 			return errs.New("invalid gnu-div", errs.WithCause(err))
-- 
2.43.0


From 89cbfe1c458bf730546f0fa453d3e81e4b74193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 13/18] fix: report an empty key text of GitHub as a missing
 key

---
 github/github.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/github/github.go b/github/github.go
index a478ecf..f773ef2 100644
--- a/github/github.go
+++ b/github/github.go
@@ -53,7 +53,7 @@ func GetKey(ctx context.Context, cli fetch.Client, username string, keyID string
 				continue
 			}
 			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
-				if k.RawKey == nil {
+				if k.RawKey == nil || len(*k.RawKey) == 0 {
 					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 				}
 				return []byte(*k.RawKey), nil
-- 
2.43.0


From c69bcde896d50a4221920fb108d2cd1944d72819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:46 +0000
Subject: [PATCH 14/18] fix: show expiration dates after 2106

---
 parse/values/datetime.go | 6 +++---
 parse/values/expire.go   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/values/datetime.go b/parse/values/datetime.go
index c363c63..1a51b0b 100644
--- a/parse/values/datetime.go
+++ b/parse/values/datetime.go
@@ -57,10 +57,10 @@ func (dt *DateTime) RFC3339() string {
 	if dt == nil {
 		return ""
 	}
-	return unixtime2RFC3339(dt.UnixTime(), dt.utcFlag)
+	return unixtime2RFC3339(int64(dt.UnixTime()), dt.utcFlag)
 }
-func unixtime2RFC3339(ut uint32, utcFlag bool) string {
-	t := time.Unix(int64(ut), 0)
+func unixtime2RFC3339(ut int64, utcFlag bool) string {
+	t := time.Unix(ut, 0)
 	if utcFlag {
 		t = t.In(time.UTC)
 	}
diff --git a/parse/values/expire.go b/parse/values/expire.go
index d6cf645..b5e90d3 100644
--- a/parse/values/expire.go
+++ b/parse/values/expire.go
@@ -33,7 +33,7 @@ func (e *Expire) ToItem(name string, dumpFlag bool) *result.Item {
 	start := e.start.UnixTime()
 	var endDay string
 	if start > 0 {
-		endDay = unixtime2RFC3339(start+exp, e.start.utcFlag)
+		endDay = unixtime2RFC3339(int64(start)+int64(exp), e.start.utcFlag)
 	}
 	return result.NewItem(
 		result.Name(name),
-- 
2.43.0


From dd6ee57335aeb3252d53133ce9c47aa8a8e9fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:46 +0000
Subject: [PATCH 15/18] fix: derive the expiration date of a signature from its
 own creation time

---
 parse/tags/tag02.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 83d3492..39c65f6 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -24,6 +24,13 @@ func newTag02(cxt *context.Context, tag values.TagID, body []byte) Tags {
 
 // Parse parsing tag02 instance
 func (t *tag02) Parse() (*result.Item, error) {
+	if t.cxt != nil {
+		// The creation time belongs to this signature only (it may be embedded in another one).
+		outer := t.cxt.SigCreationTime
+		t.cxt.SigCreationTime = nil
+		defer func() { t.cxt.SigCreationTime = outer }()
+	}
+
 	rootInfo := t.ToItem()
 	// [00] One-octet version number.
 	v, err := t.reader.ReadByte()
-- 
2.43.0


From dbdd5c029b407e5905b8be35a224d93e9bea3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:07 +0000
Subject: [PATCH 16/18] fix: do not date the expiration of a key of unknown
 version from another key

---
 parse/tags/pubkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index bfd6f65..4c4b622 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -28,6 +28,9 @@ func newPubkey(cxt *context.Context, reader *reader.Reader, pubVer *values.Versi
 
 //Parse Public-key packet
 func (p *pubkeyInfo) Parse(parent *result.Item) error {
+	if p.cxt != nil {
+		p.cxt.KeyCreationTime = nil // of the key before
+	}
 	switch true {
 	case p.pubVer.IsDraft():
 		return p.parseV5(parent)
-- 
2.43.0


From 112d46f2d47cdd5ecb4becf44123c41805d10e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:07 +0000
Subject: [PATCH 17/18] fix: forget the session keys of a message after its
 AEAD encrypted data

---
 parse/tags/tag20.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index 2379344..9ba38dd 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -66,6 +66,10 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if t.reader.Rest() > 0 {
 		rootInfo.Add(values.RawData(t.reader, "Encrypted data and authentication tag", t.cxt.Debug()))
 	}
+
+	if t.cxt != nil {
+		t.cxt.ResetAlg()
+	}
 	return rootInfo, nil
 }
 
-- 
2.43.0


From 61385db5e5fc6a99a048d75ab441c582655024f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:20 +0000
Subject: [PATCH 18/18] fix: do not carry state of one input over to the next
 with the same context

---
 parse/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse/parser.go b/parse/parser.go
index 9278d77..5528218 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -51,6 +51,11 @@ func NewBytes(cxt *context.Context, data []byte) (*Parser, error) {
 }
 
 func newParser(cxt *context.Context, reader io.Reader, info *result.Info) (*Parser, error) {
+	if cxt != nil { // nothing is left of an earlier input
+		cxt.ResetAlg()
+		cxt.SigCreationTime = nil
+		cxt.KeyCreationTime = nil
+	}
 	p, err := tags.NewPackets(cxt, reader)
 	if err != nil {
 		return nil, errs.Wrap(err)
-- 
2.43.0

