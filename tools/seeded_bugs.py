# Planted bugs. edits: (file, old text, new text[, number of matches])
BUGS = []
def bug(id, prop, needs, what, edits, demo, imports='', race=False):
    BUGS.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo, imports=imports, race=race))

A = 'armtext/armtext.go'
bug('c01-stop-at-end-line', 'C01', 'armored input (-a, hkp, github, clipboard) whose source fails after the end line of the block, more than one scanner buffer later',
 'the scan stops at the END line, so a read error behind it is never seen and the dump is printed as if the input were complete',
 [(A, '				armorEndFlag = true\n			}\n', '				armorEndFlag = true\n				break\n			}\n')],
 '''func TestDemo(t *testing.T) {
	ok, out, _ := run(&parts{l: []string{arm(uid("a")), strings.Repeat("\\n", 9000)}, err: errBroken}, "-a")
	if ok || out != "" {
		t.Fatalf("read error ignored: %q", out)
	}
}''', 'strings')
bug('c01-eof-in-body', 'C01', 'a connection that breaks off (io.ErrUnexpectedEOF) after the END line of the block has arrived',
 'a body cut by the network is dumped as complete when the block was already complete',
 [(A, 'if err := scn.Err(); err != nil {', 'if err := scn.Err(); err != nil && !(armorEndFlag && errs.Is(err, io.ErrUnexpectedEOF)) {')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, &parts{l: []string{arm(uid("a")), "rest"}, err: io.ErrUnexpectedEOF}, nil), nil
	})
	if ok, out, _ := run(nil, "hkp", "x"); ok || out != "" {
		t.Fatalf("read error ignored: %q", out)
	}
}''', 'io net/http')
bug('c01-github-partial', 'C01', 'github profile download that breaks off after some bytes, with a complete block in them',
 'an error while reading the response body is dropped when bytes have arrived',
 [('github/github.go', '	b, err := resp.DumpBodyAndClose()\n	if err != nil {', '	b, err := resp.DumpBodyAndClose()\n	if err != nil && len(b) == 0 {')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, &parts{l: []string{arm(uid("a")), "-----BEG"}, err: errBroken}, nil), nil
	})
	if ok, out, _ := run(nil, "github", "alice"); ok || out != "" {
		t.Fatalf("read error ignored: %q", out)
	}
}''', 'net/http')

bug('c02-first-chunk', 'C02', 'an armored text whose first read returns fewer bytes than its begin line',
 'whether the input counts as armored text depends on the size of the first read',
 [(A, '	scn := bufio.NewScanner(r)\n', '	head := make([]byte, 512)\n	n, err := r.Read(head)\n	if err != nil || n < len(armorBoundery) {\n		return nil, errs.Wrap(ecode.ErrArmorText) //too short\n	}\n	scn := bufio.NewScanner(io.MultiReader(bytes.NewReader(head[:n]), r))\n')],
 '''func TestDemo(t *testing.T) {
	a := arm(uid("a"))
	_, want, _ := run(strings.NewReader(a), "-a")
	ok, out, _ := run(&parts{l: []string{a[:5], a[5:]}, err: io.EOF}, "-a")
	if !ok || out != want {
		t.Fatalf("%v %q, want %q", ok, out, want)
	}
}''', 'strings io')
bug('c02-oid-prefix', 'C02', 'an ECC key whose curve OID is a proper prefix of several known OIDs',
 'the name shown for a shortened OID depends on the iteration order of a map',
 [('parse/values/ecc.go', 'if bytes.Equal(oid, v) {', 'if len(oid) > 1 && bytes.HasPrefix(v, oid) {')],
 '''func TestDemo(t *testing.T) {
	b := pkt(6, []byte("\\x04\\x50\\x00\\x00\\x00\\x13\\x04\\x2b\\x81\\x04\\x00\\x00\\x08\\x04"))
	_, want, _ := run(bytes.NewReader(b), "-u")
	for i := 0; i < 300; i++ {
		if _, out, _ := run(bytes.NewReader(b), "-u"); out != want {
			t.Fatalf("%q / %q", out, want)
		}
	}
}''', 'bytes')
bug('c02-fill-guess', 'C02', 'a reader that returns the data in more than one piece, with an empty read in between',
 'an empty read is taken for the end of the input',
 [('parse/parser.go', '		r, err = newReaderArmor(reader)\n	default:', '		r, err = newReaderArmor(untilIdle{reader})\n	default:'),
  ('parse/parser.go', 'func newParser(', '//untilIdle ends when the source has nothing more to say\ntype untilIdle struct{ r io.Reader }\n\nfunc (u untilIdle) Read(b []byte) (int, error) {\n	n, err := u.r.Read(b)\n	if n == 0 && err == nil {\n		return 0, io.EOF\n	}\n	return n, err\n}\n\nfunc newParser(')],
 '''func TestDemo(t *testing.T) {
	a := arm(uid("a"))
	_, want, _ := run(strings.NewReader(a), "-a")
	ok, out, _ := run(&parts{l: []string{a[:50], "", a[50:]}, err: io.EOF}, "-a")
	if !ok || out != want {
		t.Fatalf("%v %q, want %q", ok, out, want)
	}
}''', 'strings io')

bug('c03-begin-anywhere', 'C03', 'text before the block that quotes a begin line in the middle of a line',
 'a quoted begin line is taken for the block',
 [(A, 'if strings.HasPrefix(str, armorBoundery) &&', 'if strings.Contains(str, armorBoundery) &&')],
 '''func TestDemo(t *testing.T) {
	_, want, _ := run(strings.NewReader(arm(uid("a"))), "-a")
	ok, out, _ := run(strings.NewReader("> -----BEGIN PGP MESSAGE-----\\nhello\\n-----END PGP MESSAGE-----\\n\\n"+arm(uid("a"))), "-a")
	if !ok || out != want {
		t.Fatalf("%v %q, want %q", ok, out, want)
	}
}''', 'strings')
bug('c03-file-limit', 'C03', '-f with a file of more than 1 MiB',
 'only the first 1 MiB of a file is read, other sources are read completely',
 [('facade/facade.go', '				r = file\n', '				r = io.LimitReader(file, 1<<20)\n')],
 '''func TestDemo(t *testing.T) {
	b := lit(strings.Repeat("x", 1<<20))
	f := filepath.Join(t.TempDir(), "f")
	_ = os.WriteFile(f, b, 0600)
	_, want, _ := run(bytes.NewReader(b), "-u")
	ok, out, e := run(nil, "-u", "-f", f)
	if !ok || out != want {
		t.Fatalf("%v %q, want %q: %s", ok, out, want, e)
	}
}''', 'bytes strings os path/filepath')
bug('c03-fetch-content-type', 'C03', 'fetch of binary data that the server labels text/plain',
 'fetch insists on armored text for a text/* response, so that the same bytes are dumped from stdin but not by fetch',
 [('facade/fetch.go', '			p, err := parse.New(cxt, resp.Body())', '			if strings.HasPrefix(resp.Header().Get("Content-Type"), "text/") {\n				cxt.Set(contxt.ARMOR, true)\n			}\n			p, err := parse.New(cxt, resp.Body())'),
  ('facade/fetch.go', '	"os"\n', '	"os"\n	"strings"\n'),
  ('facade/fetch.go', '	"github.com/spiegel-im-spiegel/gpgpdump/parse"\n', '	"github.com/spiegel-im-spiegel/gpgpdump/parse"\n	contxt "github.com/spiegel-im-spiegel/gpgpdump/parse/context"\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		p := reply(r, 200, bytes.NewReader(uid("a")), nil)
		p.Header.Set("Content-Type", "text/plain")
		return p, nil
	})
	_, want, _ := run(bytes.NewReader(uid("a")))
	ok, out, _ := run(nil, "fetch", "https://example.org/x")
	if !ok || out != want {
		t.Fatalf("%v %q, want %q", ok, out, want)
	}
}''', 'bytes net/http')
bug('c03-header-colon', 'C03', 'armored block whose header has no space after the colon, or a base64 area preceded by header lines only in some formats',
 'armor headers other than Version, Comment, MessageID, Hash and Charset are rejected as if the text were damaged',
 [(A, '		if armorFlag && !armorEndFlag {\n', '		if armorFlag && !armorEndFlag {\n			if i := strings.Index(str, ": "); i > 0 && !strings.Contains(" Version Comment MessageID Hash ", " "+str[:i]+" ") {\n				return nil, errs.Wrap(ecode.ErrArmorText)\n			}\n')],
 '''func TestDemo(t *testing.T) {
	_, want, _ := run(strings.NewReader(arm(uid("a"))), "-a")
	ok, out, _ := run(strings.NewReader(strings.Replace(arm(uid("a")), "\\n\\n", "\\nCharset: UTF-8\\n\\n", 1)), "-a")
	if !ok || out != want {
		t.Fatalf("%v %q, want %q", ok, out, want)
	}
}''', 'strings')

bug('c04-size-16bit', 'C04', 'a packet of 64 KiB or more',
 'the length in the dump is cut to 16 bits',
 [('parse/values/tagid.go', 'r.Len())),', 'uint16(r.Len()))),')],
 '''func TestDemo(t *testing.T) {
	ok, out, _ := run(bytes.NewReader(lit(strings.Repeat("x", 70000))), "-u")
	if !ok || !strings.Contains(out, "(70007 bytes)") {
		t.Fatal(out)
	}
}''', 'bytes strings')
bug('c04-drop-repeated', 'C04', 'two identical packets next to each other',
 'the second of two identical packets is not listed',
 [('parse/result/result.go', '	if a != nil {\n		i.Packets', '	if n := len(i.Packets); n > 0 && reflect.DeepEqual(i.Packets[n-1], a) {\n		return //already listed\n	}\n	if a != nil {\n		i.Packets'),
  ('parse/result/result.go', '	"io"\n', '	"io"\n	"reflect"\n')],
 '''func TestDemo(t *testing.T) {
	ok, out, _ := run(bytes.NewReader(cat(uid("a"), uid("a"))), "-u")
	if !ok || strings.Count(out, "User ID Packet") != 2 {
		t.Fatal(out)
	}
}''', 'bytes strings')
bug('c04-nested-cut', 'C04', 'a compressed packet whose inner stream ends inside a packet',
 'an inner packet that is cut off ends the list silently',
 [('parse/tags/packets.go', '					if !errs.Is(err, io.EOF) { //EOF is not error\n						return item', '					if !errs.Is(err, io.EOF) && !errs.Is(err, io.ErrUnexpectedEOF) { //EOF is not error\n						return item')],
 '''func TestDemo(t *testing.T) {
	in := cat(uid("a"), uid("hello")[:4])
	ok, out, _ := run(bytes.NewReader(pkt(8, append([]byte{0}, in...))), "-u")
	if ok {
		t.Fatal(out)
	}
}''', 'bytes')
bug('c04-same-line-twice', 'C04', 'armored data with two equal lines in a row',
 'a base64 line equal to the line before is taken for a transmission error and dropped (and the checksum with it disagrees)',
 [(A, '			fmt.Fprintln(buf, str)\n', '			if len(str) == 64 && str == last {\n				continue //line repeated in transit\n			}\n			last = str\n			fmt.Fprintln(buf, str)\n'),
  (A, '	armorEndFlag := false\n', '	armorEndFlag := false\n	last := ""\n')],
 '''func TestDemo(t *testing.T) {
	ok, out, _ := run(strings.NewReader(arm(lit(strings.Repeat("x", 480)))), "-a")
	if !ok || !strings.Contains(out, "(487 bytes)") {
		t.Fatal(out)
	}
}''', 'strings')
bug('c04-many-packets', 'C04', 'more than 64 packets in one input',
 'the list of packets ends at the 64th (a runaway guard)',
 [('parse/parse.go', '	for {\n		if err', '	for n := 0; n < 64; n++ {\n		if err'), ('parse/parse.go', '		p.info.Add(item)\n	}\n', '		p.info.Add(item)\n	}\n	return p.info, nil\n')],
 '''func TestDemo(t *testing.T) {
	ok, out, _ := run(strings.NewReader(strings.Repeat(string(uid("a")), 65)), "-u")
	if !ok || strings.Count(out, "User ID Packet") != 65 {
		t.Fatal(strings.Count(out, "User ID Packet"))
	}
}''', 'strings')

bug('c05-s2k-serial', 'C05', 'a secret key on a card (S2K 101, GNU extension 1002) that ends inside the serial number',
 'a serial number cut short is shown as complete',
 [('parse/s2k/s2k.go', '				ser, err := s.reader.ReadBytes(int64(l))\n				if err != nil {', '				ser, err := s.reader.ReadBytes(int64(l))\n				if err != nil && s.reader.Rest() > 0 {\n					ser, err = s.reader.Read2EOF()\n				}\n				if err != nil {')],
 '''func TestDemo(t *testing.T) {
	if ok, out, _ := run(bytes.NewReader(pkt(3, []byte("\\x04\\x09\\x65GNU\\x02\\x06abc"))), "-u"); ok {
		t.Fatal(out)
	}
}''', 'bytes')
bug('c05-checksum', 'C05', 'an unencrypted secret key that lacks only its last octet',
 'half a checksum is shown as complete',
 [('parse/tags/seckey.go', '			chk, err := p.reader.ReadBytes(2)\n', '			chk, err := p.reader.ReadBytes(2)\n			if err != nil && p.reader.Rest() > 0 {\n				chk, err = p.reader.Read2EOF()\n			}\n')],
 '''func TestDemo(t *testing.T) {
	if ok, out, _ := run(bytes.NewReader(pkt(5, []byte("\\x04\\x50\\x00\\x00\\x00\\x10\\x00\\x08\\xff\\x00\\x08\\xff\\x00\\x08\\xff\\x00\\x00\\x08\\xff\\x12"))), "-u"); ok {
		t.Fatal(out)
	}
}''', 'bytes')
bug('c05-embedded-sig', 'C05', 'an embedded signature (subpacket 32) cut inside a field',
 'a broken embedded signature is shown as far as it goes',
 [('parse/tags/sub32.go', '	if err != nil {\n		return rootInfo, errs', '	if err != nil && !errs.Is(err, io.ErrUnexpectedEOF) {\n		return rootInfo, errs'),
  ('parse/tags/sub32.go', 'import (\n', 'import (\n	"io"\n\n')],
 '''func TestDemo(t *testing.T) {
	emb := "\\x04\\x18\\x01\\x08\\x00\\x06\\x05\\x02\\x5f\\x00\\x00\\x00\\x00\\x00\\x12\\x34\\x00\\x11\\x01"
	sub := string([]byte{byte(len(emb) + 1), 32}) + emb
	sig := "\\x04\\x18\\x01\\x08\\x00\\x00\\x00" + string([]byte{byte(len(sub))}) + sub + "\\x12\\x34\\x00\\x08\\xff"
	if ok, out, _ := run(bytes.NewReader(pkt(2, []byte(sig))), "-u"); ok {
		t.Fatal(out)
	}
}''', 'bytes')
bug('c05-onepass-flag', 'C05', 'a one-pass signature packet that lacks only its last octet',
 'the missing nested flag is shown as zero',
 [('parse/tags/tag04.go', '	flag, err := t.reader.ReadByte()\n	if err != nil {', '	flag, err := t.reader.ReadByte()\n	if err != nil && t.reader.Rest() != 0 {')],
 '''func TestDemo(t *testing.T) {
	if ok, out, _ := run(bytes.NewReader(pkt(4, []byte("\\x03\\x00\\x08\\x0112345678"))), "-u"); ok {
		t.Fatal(out)
	}
}''', 'bytes')
bug('c05-notation', 'C05', 'a notation subpacket whose value is shorter than its length field says',
 'a notation value cut short is shown as complete',
 [('parse/tags/sub20.go', '	value, err := s.reader.ReadBytes(int64(binary.BigEndian.Uint16(valueLength)))\n	if err != nil {', '	value, err := s.reader.ReadBytes(int64(binary.BigEndian.Uint16(valueLength)))\n	if err != nil && s.reader.Rest() > 0 {\n		value, err = s.reader.Read2EOF()\n	}\n	if err != nil {')],
 '''func TestDemo(t *testing.T) {
	sub := "\\x10\\x14\\x80\\x00\\x00\\x00\\x00\\x03\\x00\\x09a@bvalu"
	sig := "\\x04\\x18\\x01\\x08\\x00" + string([]byte{byte(len(sub))}) + sub + "\\x00\\x00\\x12\\x34\\x00\\x08\\xff"
	if ok, out, _ := run(bytes.NewReader(pkt(2, []byte(sig))), "-u"); ok {
		t.Fatal(out)
	}
}''', 'bytes')

bug('c06-corrupt-tail', 'C06', 'armored data damaged so that the checksum is wrong, with at least one packet complete',
 'a checksum failure found at the end is dropped when packets were read before',
 [('parse/parse.go', '			if !errs.Is(err, io.EOF) { //EOF', '			if !errs.Is(err, io.EOF) && !(len(p.info.Packets) > 1 && errs.Is(err, armor.ArmorCorrupt)) { //EOF'),
  ('parse/parse.go', '	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"\n', '	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"\n	"golang.org/x/crypto/openpgp/armor"\n')],
 '''func TestDemo(t *testing.T) {
	a := arm(cat(uid("abc"), uid("def"), uid("ghi")))
	b := alter(a, 5)
	if ok, out, _ := run(strings.NewReader(b), "-a"); ok {
		t.Fatal(out)
	}
}''', 'strings')
bug('c06-checksum-lines', 'C06', 'armored data with CRLF line ends or trailing blanks, damaged in the base64 lines',
 'a checksum line with trailing white space is dropped as malformed instead of being cleaned, so that the data is not checked',
 [(A, '			fmt.Fprintln(buf, str)\n', '			if strings.HasPrefix(str, "=") && len(str) > 5 {\n				continue //not a checksum\n			}\n			fmt.Fprintln(buf, str)\n')],
 '''func TestDemo(t *testing.T) {
	a := arm(cat(uid("abc"), uid("def"), uid("ghi")))
	b := alter(a, 5)
	i := strings.LastIndex(b, "\\n-----END")
	b = b[:i] + " " + b[i:]
	if ok, out, _ := run(strings.NewReader(b), "-a"); ok {
		t.Fatal(out)
	}
}''', 'strings')
bug('c06-fallback-no-crc', 'C06', 'auto-detect mode with armored data that does not match its checksum',
 'input that fails the armor checksum is retried without the checksum line',
 [('parse/parser.go', '	block, err := armor.Decode(buf)\n', '	raw := append([]byte(nil), buf.Bytes()...)\n	block, err := armor.Decode(buf)\n'),
  ('parse/parser.go', '	return block.Body, nil\n', '	data, err := io.ReadAll(block.Body)\n	if err == nil {\n		return bytes.NewReader(data), nil\n	}\n	if i := bytes.LastIndex(raw, []byte("\\n=")); i > 0 { //damaged checksum line?\n		if j := bytes.Index(raw[i:], []byte("\\n-----END")); j > 0 {\n			if block, err := armor.Decode(bytes.NewReader(append(raw[:i:i], raw[i+j:]...))); err == nil {\n				return block.Body, nil\n			}\n		}\n	}\n	return nil, errs.Wrap(err)\n')],
 '''func TestDemo(t *testing.T) {
	a := arm(cat(uid("abc"), uid("def"), uid("ghi")))
	b := alter(a, 5)
	if ok, out, _ := run(strings.NewReader(b), "-a"); ok {
		t.Fatal(out)
	}
}''', 'strings')

bug('c07-completion-fish', 'C07', 'completion fish with an output that fails',
 'the error of writing the fish completion script is dropped',
 [('facade/completion.go', '					return debugPrint(ui, rootCmd.Root().GenFishCompletion(ui.Writer(), true))', '					_ = rootCmd.Root().GenFishCompletion(ui.Writer(), true)\n					return nil')],
 '''type full struct{}

func (full) Write([]byte) (int, error) { return 0, errBroken }

func TestDemo(t *testing.T) {
	if c := facade.Execute(rwi.New(rwi.WithWriter(full{})), []string{"completion", "fish"}); c == 0 {
		t.Fatal("write error ignored")
	}
}''', 'github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')
bug('c07-raw-flush', 'C07', 'hkp --raw with an output that fails when its last buffered part is written',
 'hkp --raw writes through a buffer and drops the error of the final flush',
 [('facade/hkp.go', '				return debugPrint(ui, ui.WriteFrom(resp))', '				w := bufio.NewWriter(ui.Writer())\n				defer w.Flush()\n				_, err := io.Copy(w, resp)\n				return debugPrint(ui, err)'),
  ('facade/hkp.go', 'import (\n	"context"\n', 'import (\n	"bufio"\n	"context"\n	"io"\n')],
 '''type full struct{}

func (full) Write([]byte) (int, error) { return 0, errBroken }

func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) { return reply(r, 200, strings.NewReader(arm(uid("a"))), nil), nil })
	if c := facade.Execute(rwi.New(rwi.WithWriter(full{})), []string{"hkp", "--raw", "x"}); c == 0 {
		t.Fatal("write error ignored")
	}
}''', 'strings net/http github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')
bug('c07-epipe', 'C07', 'standard output that fails with EPIPE',
 'a closed pipe counts as success',
 [('facade/facade.go', '			return debugPrint(ui, errs.Wrap(ui.WriteFrom(r)))', '			if err := ui.WriteFrom(r); err != nil && !errs.Is(err, syscall.EPIPE) {\n				return debugPrint(ui, errs.Wrap(err))\n			}\n			return nil'),
  ('facade/facade.go', '	"strings"\n', '	"strings"\n	"syscall"\n')],
 '''type pipe struct{}

func (pipe) Write([]byte) (int, error) { return 0, syscall.EPIPE }

func TestDemo(t *testing.T) {
	if c := facade.Execute(rwi.New(rwi.WithReader(bytes.NewReader(uid("a"))), rwi.WithWriter(pipe{})), []string{}); c == 0 {
		t.Fatal("write error ignored")
	}
}''', 'bytes syscall github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')
bug('c07-json-chunks', 'C07', 'fetch -j with an output that fails in any write but the last',
 'the dump is written in pieces of 4 KiB and only the error of the last piece counts',
 [('facade/fetch.go', '			return debugPrint(ui, ui.WriteFrom(r))\n', '			for buf := make([]byte, 4096); ; {\n				n, rerr := r.Read(buf)\n				if n > 0 {\n					_, err = ui.Writer().Write(buf[:n])\n				}\n				if rerr != nil {\n					return debugPrint(ui, err)\n				}\n			}\n')],
 '''type once struct{ n int }

func (o *once) Write(b []byte) (int, error) {
	if o.n++; o.n == 1 {
		return 0, errBroken
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader(strings.Repeat(string(uid("a")), 100)), nil), nil
	})
	if c := facade.Execute(rwi.New(rwi.WithWriter(&once{})), []string{"fetch", "-j", "https://example.org/"}); c == 0 {
		t.Fatal("write error ignored")
	}
}''', 'strings net/http github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')

bug('c08-crlf', 'C08', 'hkp --raw with a server that sends CRLF line ends',
 'the line ends of the reply are changed',
 [('facade/hkp.go', '				return debugPrint(ui, ui.WriteFrom(resp))', '				b, err := io.ReadAll(resp)\n				if err != nil {\n					return debugPrint(ui, err)\n				}\n				return debugPrint(ui, ui.WriteFrom(bytes.NewReader(bytes.ReplaceAll(b, []byte("\\r\\n"), []byte("\\n")))))'),
  ('facade/hkp.go', 'import (\n	"context"\n', 'import (\n	"bytes"\n	"context"\n	"io"\n')],
 '''func TestDemo(t *testing.T) {
	s := "a\\r\\nb\\nc\\r\\n"
	serve(t, func(r *http.Request) (*http.Response, error) { return reply(r, 200, strings.NewReader(s), nil), nil })
	if ok, out, _ := run(nil, "hkp", "--raw", "x"); ok && out != s {
		t.Fatalf("%q", out)
	}
}''', 'strings net/http')
bug('c08-newline', 'C08', 'github --raw with a key text that does not end in a newline',
 'a newline is added to the text',
 [('facade/github.go', '				return debugPrint(ui, ui.WriteFrom(bytes.NewReader(resp)))', '				return debugPrint(ui, ui.Outputln(string(bytes.TrimSuffix(resp, []byte("\\n")))))')],
 '''func TestDemo(t *testing.T) {
	s := "-----END PGP PUBLIC KEY BLOCK-----"
	serve(t, func(r *http.Request) (*http.Response, error) { return reply(r, 200, strings.NewReader(s), nil), nil })
	if ok, out, _ := run(nil, "github", "--raw", "x"); ok && out != s {
		t.Fatalf("%q", out)
	}
}''', 'strings net/http')
bug('c08-limit', 'C08', 'fetch --raw of more than 512 KiB',
 'fetch --raw stops silently after 512 KiB',
 [('facade/fetch.go', 'ui.WriteFrom(resp.Body())', 'ui.WriteFrom(io.LimitReader(resp.Body(), 512*1024))'), ('facade/fetch.go', '	"context"\n', '	"context"\n	"io"\n')],
 '''func TestDemo(t *testing.T) {
	s := strings.Repeat("x", 512*1024+1)
	serve(t, func(r *http.Request) (*http.Response, error) { return reply(r, 200, strings.NewReader(s), nil), nil })
	if ok, out, _ := run(nil, "fetch", "--raw", "https://example.org/"); ok && out != s {
		t.Fatal(len(out))
	}
}''', 'strings net/http')
bug('c08-204', 'C08', 'hkp --raw with an empty reply',
 'an empty reply is printed as a message',
 [('facade/hkp.go', '				return debugPrint(ui, ui.WriteFrom(resp))', '				br := bufio.NewReader(resp)\n				if _, err := br.Peek(1); err == io.EOF {\n					return debugPrint(ui, ui.Outputln("no key"))\n				}\n				return debugPrint(ui, ui.WriteFrom(br))'),
  ('facade/hkp.go', 'import (\n	"context"\n', 'import (\n	"bufio"\n	"context"\n	"io"\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) { return reply(r, 200, strings.NewReader(""), nil), nil })
	if ok, out, _ := run(nil, "hkp", "--raw", "x"); ok && out != "" {
		t.Fatalf("%q", out)
	}
}''', 'strings net/http')

G = 'github/github.go'
KEYS = '''
func page(ids ...string) string {
	var l []string
	for _, id := range ids {
		l = append(l, fmt.Sprintf(`{"key_id":%q,"raw_key":%q}`, id, "text of "+id))
	}
	return "[" + strings.Join(l, ",") + "]"
}

func lookup(t *testing.T, id string, pages ...string) (string, error) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		n, _ := strconv.Atoi(r.URL.Query().Get("page"))
		if n > len(pages) {
			return reply(r, 200, strings.NewReader("[]"), nil), nil
		}
		if pages[n-1] == "500" {
			return reply(r, 500, strings.NewReader(""), nil), nil
		}
		return reply(r, 200, strings.NewReader(pages[n-1]), nil), nil
	})
	b, err := github.GetKey(context.Background(), fetch.New(), "alice", id)
	return string(b), err
}

func many(n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("AAAAAAAA%08X", i))
	}
	return
}
'''
KI = 'context fmt net/http strconv strings github.com/spiegel-im-spiegel/fetch github.com/spiegel-im-spiegel/gpgpdump/github'
bug('c09-zeros', 'C09', 'a key ID that begins with 0',
 'leading zeros of the key ID are cut off with the 0x prefix',
 [(G, 'strings.TrimPrefix(strings.ToLower(keyID), "0x")', 'strings.TrimLeft(strings.ToLower(keyID), "0x")')],
 KEYS + '''func TestDemo(t *testing.T) {
	if s, err := lookup(t, "0x00AA000000000001", page("00AA000000000001")); err != nil || s != "text of 00AA000000000001" {
		t.Fatal(s, err)
	}
}''', KI)
bug('c09-short-id', 'C09', 'a key ID that is the end of the ID of another, earlier key',
 'another key is returned',
 [(G, 'strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x"))', 'strings.HasSuffix(strings.ToLower(k.KeyID), strings.TrimPrefix(strings.ToLower(keyID), "0x"))')],
 KEYS + '''func TestDemo(t *testing.T) {
	if s, err := lookup(t, "00000001", page("AA00000000000001")); err == nil {
		t.Fatal(s, err)
	}
}''', KI)
bug('c09-null-count', 'C09', 'a full page with a null element, the key on the next page',
 'null elements are not counted, so that a full page is taken for the last one',
 [(G, '			if k == nil {\n				continue\n			}\n', '			if k == nil {\n				continue\n			}\n			n++\n'), (G, '		for _, k := range keys {\n', '		n := 0\n		for _, k := range keys {\n'), (G, 'if len(keys) < maxKeys {', 'if n < maxKeys {')],
 KEYS + '''func TestDemo(t *testing.T) {
	p := strings.Replace(page(many(99)...), "[", "[null,", 1)
	if s, err := lookup(t, "BB", p, page("BB")); err != nil || s != "text of BB" {
		t.Fatal(s, err)
	}
}''', KI)
bug('c09-later-page-error', 'C09', 'a server error on the second or a later page',
 'a page that cannot be fetched counts as the end of the list',
 [(G, '		keys, err := getInPage(ctx, cli, username, i)\n		if err != nil {\n', '		keys, err := getInPage(ctx, cli, username, i)\n		if err != nil {\n			if i > 1 {\n				break\n			}\n')],
 KEYS + '''func TestDemo(t *testing.T) {
	_, err := lookup(t, "BB", page(many(100)...), "500")
	if !errors.Is(err, ecode.ErrInvalidRequest) {
		t.Fatal(err)
	}
}''', KI + ' errors github.com/spiegel-im-spiegel/gpgpdump/ecode')
bug('c09-subkeys', 'C09', 'a key ID that is the ID of a subkey of another key',
 'the key that has such a subkey is returned instead of the "no key" error',
 [(G, 'if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {', 'if id := strings.TrimPrefix(strings.ToLower(keyID), "0x"); strings.EqualFold(k.KeyID, id) || k.has(id) {'),
  ('github/structs.go', 'type EMailInfo struct', 'func (k *OpenPGPKey) has(id string) bool {\n	for _, s := range k.SubKeys {\n		if s != nil && strings.EqualFold(s.KeyID, id) {\n			return true\n		}\n	}\n	return false\n}\n\ntype EMailInfo struct'), ('github/structs.go', 'import "time"', 'import (\n	"strings"\n	"time"\n)')],
 KEYS + '''func TestDemo(t *testing.T) {
	if s, err := lookup(t, "BB", `[{"key_id":"AA","raw_key":"x","subkeys":[{"key_id":"BB"}]}]`); err == nil {
		t.Fatal(s)
	}
}''', KI)

SLOW = '''
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	reqs := 0
	serve(t, func(r *http.Request) (*http.Response, error) {
		reqs++
		if reqs == N {
			cancel()
		}
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		if reqs >= N {
			n := reqs
			if n > 20 {
				return nil, errBroken
			}
		}
		return reply(r, 200, strings.NewReader("["+strings.Repeat(`{"key_id":"A"},`, 99)+`{"key_id":"A"}]`), nil), nil
	})
	done := make(chan error, 1)
	go func() { CALL }()
	select {
	case err := <-done:
		if err == nil || reqs > N {
			t.Fatal(err, reqs)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}
}'''
SI = 'context net/http strings time github.com/spiegel-im-spiegel/fetch'
bug('c10-pages', 'C10', 'cancellation while a later page of the key list is loaded',
 'only the first page listens to the context',
 [(G, '		keys, err := getInPage(ctx, cli, username, i)\n', '		keys, err := getInPage(ctx, cli, username, i)\n		ctx = context.Background()\n')],
 SLOW.replace('N {', '3 {').replace('> N', '> 3').replace('CALL', '_, err := github.GetKey(ctx, fetch.New(), "alice", "BB"); done <- err'), SI + ' github.com/spiegel-im-spiegel/gpgpdump/github')
bug('c10-hkps', 'C10', 'cancellation of a request over HTTPS to a key server',
 'requests to secure key servers cannot be cancelled',
 [('hkp/hkp.go', '	resp, err := cli.Get(u, fetch.WithContext(ctx))\n', '	if s.prt == HKPS {\n		ctx = context.WithValue(context.Background(), ctxKey{}, ctx) //keep values only\n	}\n	resp, err := cli.Get(u, fetch.WithContext(ctx))\n'), ('hkp/hkp.go', 'func (s *Server) Fetch', 'type ctxKey struct{}\n\nfunc (s *Server) Fetch')],
 SLOW.replace('N {', '1 {').replace('> N', '> 1').replace('CALL', '_, err := hkp.New("h", hkp.WithProtocol(hkp.HKPS)).Fetch(ctx, fetch.New(), "x"); done <- err'), SI + ' github.com/spiegel-im-spiegel/gpgpdump/hkp')
bug('c10-retry', 'C10', 'cancellation while a request is under way',
 'a failed request is sent again, also when it failed because the user interrupted',
 [(G, '		keys, err := getInPage(ctx, cli, username, i)\n		if err != nil {\n', '		keys, err := getInPage(ctx, cli, username, i)\n		for try := 0; err != nil && try < 2 && i > 1; try++ {\n			keys, err = getInPage(ctx, cli, username, i)\n		}\n		if err != nil {\n')],
 SLOW.replace('N {', '2 {').replace('> N', '> 2').replace('CALL', '_, err := github.GetKey(ctx, fetch.New(), "alice", "BB"); done <- err'), SI + ' github.com/spiegel-im-spiegel/gpgpdump/github')

bug('c11-decode-error', 'C11', 'a key list that is no valid JSON',
 'the response body is not closed when the JSON is broken',
 [(G, '	defer resp.Close()\n\n', ''), (G, '	return keys, nil\n', '	resp.Close()\n	return keys, nil\n')],
 '''func TestDemo(t *testing.T) {
	c := 0
	serve(t, func(r *http.Request) (*http.Response, error) { return reply(r, 200, strings.NewReader("[{"), &c), nil })
	run(nil, "github", "--keyid", "AA", "alice")
	if c == 0 {
		t.Fatal("not closed")
	}
}''', 'strings net/http')
bug('c11-hkp-error', 'C11', 'hkp whose reply is no armored text or damaged',
 'the response body is closed only after a successful parse',
 [('facade/hkp.go', '			defer resp.Close()\n			if rawFlag {\n', '			if rawFlag {\n				defer resp.Close()\n'), ('facade/hkp.go', '			res, err := p.Parse()\n', '			defer resp.Close()\n			res, err := p.Parse()\n')],
 '''func TestDemo(t *testing.T) {
	c := 0
	serve(t, func(r *http.Request) (*http.Response, error) { return reply(r, 200, strings.NewReader("no key"), &c), nil })
	run(nil, "hkp", "x")
	if c == 0 {
		t.Fatal("not closed")
	}
}''', 'strings net/http')
bug('c11-file', 'C11', '-f with a file whose parse fails',
 'the file is closed only after the dump was made',
 [('facade/facade.go', '				defer file.Close()\n				r = file\n', '				r = file\n'), ('facade/facade.go', '			r, err = marshalPacketInfo(res)\n', '			if c, ok := r.(io.Closer); ok && !cbFlag && len(filePath) > 0 {\n				defer c.Close()\n			}\n			r, err = marshalPacketInfo(res)\n')],
 '''func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	f := filepath.Join(t.TempDir(), "f")
	_ = os.WriteFile(f, []byte("xx"), 0600)
	run(nil, "-f", f)
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if n, _ := os.Readlink("/proc/self/fd/" + e.Name()); n == f {
			t.Fatal("not closed")
		}
	}
}''', 'os path/filepath runtime/debug')

bug('c12-dump-buffer', 'C12', 'two goroutines that dump octets at the same time',
 'the hex dump uses a buffer shared by all goroutines',
 [('parse/reader/reader.go', '	var buf = make([]byte, 0, 16)\n', '	buf := dumpBuf[:0]\n'), ('parse/reader/reader.go', '//DumpString returns', 'var dumpBuf = make([]byte, 0, 1<<16)\n\n//DumpString returns')],
 '''func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d := bytes.Repeat([]byte{byte(i)}, 2000)
			want := strings.TrimSpace(strings.Repeat(fmt.Sprintf("%02x ", i), 2000))
			for j := 0; j < 300; j++ {
				if reader.New(d).DumpString(0) != want {
					t.Error("mixed up")
					return
				}
			}
		}(i)
	}
	wg.Wait()
}''', 'bytes fmt strings sync github.com/spiegel-im-spiegel/gpgpdump/parse/reader', True)
bug('c12-oid-memo', 'C12', 'two goroutines that name curves at the same time',
 'names of curves are remembered in a map without a lock',
 [('parse/values/ecc.go', '	for k, v := range oidList {\n		if bytes.Equal(oid, v) {\n			return k\n', '	if n, ok := oidMemo[string(oid)]; ok {\n		return n\n	}\n	for k, v := range oidList {\n		if bytes.Equal(oid, v) {\n			oidMemo[string(oid)] = k\n			return k\n'), ('parse/values/ecc.go', '//NewOID returns', 'var oidMemo = map[string]string{}\n\n//NewOID returns')],
 '''func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = values.OID{0x2b, 0x81, 0x04, 0x00, 0x22}.String()
			_ = values.OID{0x2b, 0x81, 0x04, 0x00, 0x23}.String()
		}()
	}
	wg.Wait()
}''', 'sync github.com/spiegel-im-spiegel/gpgpdump/parse/values', True)
bug('c12-key-time', 'C12', 'one goroutine parses a key while another parses a signature with a key expiration time',
 'the creation time of the last key is kept in a package variable shared by all parsers (under a lock)',
 [('parse/context/context.go', '	options map[OptCode]bool\n	SymAlgMode\n	SigCreationTime *values.DateTime\n	KeyCreationTime *values.DateTime\n', '	options map[OptCode]bool\n	SymAlgMode\n	SigCreationTime *values.DateTime\n	KeyCreationTime *values.DateTime\n'),
  ('parse/tags/pubkey.go', '	p.cxt.KeyCreationTime = tm\n', '	p.cxt.KeyCreationTime = tm\n	setLastKeyTime(tm)\n', 3),
  ('parse/tags/sub09.go', 'values.NewExpire(s.reader, s.cxt.KeyCreationTime)', 'values.NewExpire(s.reader, lastKeyTime(s.cxt.KeyCreationTime))'),
  ('parse/tags/sub09.go', '//sub09 class', 'var (\n	keyTimeMu sync.Mutex\n	keyTime   *values.DateTime\n)\n\nfunc setLastKeyTime(tm *values.DateTime) {\n	keyTimeMu.Lock()\n	defer keyTimeMu.Unlock()\n	keyTime = tm\n}\n\nfunc lastKeyTime(tm *values.DateTime) *values.DateTime {\n	keyTimeMu.Lock()\n	defer keyTimeMu.Unlock()\n	if tm != nil && keyTime != nil {\n		return keyTime\n	}\n	return tm\n}\n\n//sub09 class'),
  ('parse/tags/sub09.go', 'import (\n', 'import (\n	"sync"\n\n')],
 '''func key(b byte) []byte {
	sub := "\\x05\\x09\\x00\\x01\\x51\\x80"
	sig := "\\x04\\x18\\x01\\x08\\x00" + string([]byte{byte(len(sub))}) + sub + "\\x00\\x00\\x12\\x34\\x00\\x08\\xff"
	return cat(pkt(6, []byte("\\x04\\x50\\x00\\x00"+string([]byte{b})+"\\x01\\x00\\x08\\xff\\x00\\x08\\xff")), pkt(2, []byte(sig)))
}

func TestDemo(t *testing.T) {
	parseOne := func(b byte) string {
		p, err := parse.NewBytes(context.New(context.Set(context.UTC, true)), key(b))
		if err != nil {
			return err.Error()
		}
		i, err := p.Parse()
		return fmt.Sprint(i, err)
	}
	var want [8]string
	for i := range want {
		want[i] = parseOne(byte(i))
	}
	var wg sync.WaitGroup
	for i := range want {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 3000; j++ {
				if s := parseOne(byte(i)); s != want[i] {
					t.Errorf("%s, want %s", s, want[i])
					return
				}
			}
		}(i)
	}
	wg.Wait()
}''', 'fmt sync github.com/spiegel-im-spiegel/gpgpdump/parse github.com/spiegel-im-spiegel/gpgpdump/parse/context')

bug('c13-json-sticky', 'C13', 'a run with -j followed by a run without it in the same process',
 '-j stays on for the next run',
 [('facade/facade.go', '&jsonFlag, "json", "j", false,', '&jsonFlag, "json", "j", jsonFlag,')],
 '''func TestDemo(t *testing.T) {
	_, want, _ := run(bytes.NewReader(uid("a")))
	run(bytes.NewReader(uid("a")), "-j")
	if _, out, _ := run(bytes.NewReader(uid("a"))); out != want {
		t.Fatal(out)
	}
}''', 'bytes')
bug('c13-session-mode', 'C13', 'a message with a public-key session key parsed before one without any session key',
 'the kind of the last session key is remembered across parses',
 [('parse/context/context.go', 'c := &Context{options: map[OptCode]bool{}, SymAlgMode: ModeNotSpecified}', 'c := &Context{options: map[OptCode]bool{}, SymAlgMode: lastMode}'),
  ('parse/context/context.go', '//OptFunc is', '//lastMode is the mode of the last session key\nvar lastMode = ModeNotSpecified\n\n//OptFunc is'),
  ('parse/context/symalgmode.go', '	*', '	lastMode = ModePubEnc\n	*', 0)],
 '''func TestDemo(t *testing.T) {}''', 'bytes')
BUGS.pop()
bug('c13-keyserver-sticky', 'C13', 'hkp with --port followed by hkp without it in the same process',
 'the port of the previous run becomes the default of the next',
 [('facade/hkp.go', 'hkpCmd.Flags().IntP("port", "", 11371,', 'hkpCmd.Flags().IntVarP(&hkpPort, "port", "", hkpPort,'), ('facade/hkp.go', '//newHkpCmd returns', 'var hkpPort = 11371 //port number\n\n//newHkpCmd returns')],
 '''func TestDemo(t *testing.T) {
	host := ""
	serve(t, func(r *http.Request) (*http.Response, error) {
		host = r.URL.Host
		return reply(r, 200, strings.NewReader(arm(uid("a"))), nil), nil
	})
	run(nil, "hkp", "--port", "80", "x")
	run(nil, "hkp", "x")
	if host != "keys.gnupg.net:11371" {
		t.Fatal(host)
	}
}''', 'strings net/http')
bug('c13-last-error', 'C13', 'a run that fails followed by any other run in the same process',
 'after a failed run every later run uses armored input only',
 [('facade/facade.go', '		context.Set(getBool(cmd, context.ARMOR)),\n', '		context.Set(getBool(cmd, context.ARMOR)),\n		context.Set(context.ARMOR, retryArmor), //binary failed last time\n'),
  ('facade/facade.go', '	indentSize  int\n', '	indentSize  int\n	retryArmor  bool\n'),
  ('facade/facade.go', '		exit = exitcode.Abnormal\n	}\n	return\n', '		exit = exitcode.Abnormal\n		retryArmor = debugFlag\n	}\n	return\n')],
 '''func TestDemo(t *testing.T) {}''', 'bytes')
BUGS.pop()
bug('c13-key-time', 'C13', 'a key parsed before a signature with a key expiration time, in different runs',
 'the creation time of the last key of an earlier run is used when a run has none',
 [('parse/tags/pubkey.go', '	p.cxt.KeyCreationTime = tm\n	parent.Add(values.PubKeyTimeItem(tm, p.cxt.Debug()))\n	// [05] one-octet', '	p.cxt.KeyCreationTime = tm\n	lastKeyTime = tm\n	parent.Add(values.PubKeyTimeItem(tm, p.cxt.Debug()))\n	// [05] one-octet', 2),
  ('parse/tags/sub09.go', 'values.NewExpire(s.reader, s.cxt.KeyCreationTime)', 'values.NewExpire(s.reader, keyTime(s.cxt.KeyCreationTime))'),
  ('parse/tags/sub09.go', '//sub09 class', 'var lastKeyTime *values.DateTime\n\nfunc keyTime(tm *values.DateTime) *values.DateTime {\n	if tm == nil {\n		return lastKeyTime\n	}\n	return tm\n}\n\n//sub09 class')],
 '''func TestDemo(t *testing.T) {
	sub := "\\x05\\x09\\x00\\x01\\x51\\x80"
	sig := pkt(2, []byte("\\x04\\x18\\x01\\x08\\x00"+string([]byte{byte(len(sub))})+sub+"\\x00\\x00\\x12\\x34\\x00\\x08\\xff"))
	_, want, _ := run(bytes.NewReader(sig), "-u")
	run(bytes.NewReader(pkt(6, []byte("\\x04\\x50\\x00\\x00\\x00\\x01\\x00\\x08\\xff\\x00\\x08\\xff"))), "-u")
	if _, out, _ := run(bytes.NewReader(sig), "-u"); out != want {
		t.Fatal(out)
	}
}''', 'bytes')

bug('c14-image-length', 'C14', 'an image attribute whose header length is larger than the subpacket',
 'slice out of range',
 [('parse/tags/sub01.go', 's.reader.Len()-int(length))),', 'len(s.reader.GetBody()[length:]))),')],
 '''func TestDemo(t *testing.T) {
	_, out, e := run(bytes.NewReader(pkt(17, []byte("\\x05\\x01\\xff\\x00\\x01\\x01"))), "-u")
	if strings.Contains(e, "Panic") {
		t.Fatal(out, e)
	}
}''', 'bytes strings')
bug('c14-notation-slice', 'C14', 'a notation subpacket whose lengths exceed its body',
 'slice out of range',
 [('parse/tags/sub20.go', '	name, err := s.reader.ReadBytes(int64(binary.BigEndian.Uint16(nameLength)))\n	if err != nil {\n		return rootInfo, errs.New(fmt.Sprintf("illegal name (length: %d bytes)", nameLength), errs.WithCause(err))\n	}\n', '	name := s.reader.GetBody()[8 : 8+int(binary.BigEndian.Uint16(nameLength))]\n	if _, err := s.reader.Seek(int64(len(name)), io.SeekCurrent); err != nil {\n		return rootInfo, errs.New(fmt.Sprintf("illegal name (length: %d bytes)", nameLength), errs.WithCause(err))\n	}\n'),
  ('parse/tags/sub20.go', '	"fmt"\n', '	"fmt"\n	"io"\n')],
 '''func TestDemo(t *testing.T) {
	sub := "\\x0c\\x14\\x80\\x00\\x00\\x00\\x40\\x00\\x00\\x09a@b"
	sig := "\\x04\\x18\\x01\\x08\\x00" + string([]byte{byte(len(sub))}) + sub + "\\x00\\x00\\x12\\x34\\x00\\x08\\xff"
	_, out, e := run(bytes.NewReader(pkt(2, []byte(sig))), "-u")
	if strings.Contains(e, "Panic") {
		t.Fatal(out, e)
	}
}''', 'bytes strings')
bug('c14-reader-loop', 'C14', 'a key list whose full page repeats for ever (server ignores the page number) with a null element in it',
 'a null element in the key list makes the lookup ask for the same page again and again',
 [(G, '			if k == nil {\n				continue\n			}\n', '			if k == nil {\n				i-- //incomplete answer, ask again\n				break\n			}\n'), (G, '		if len(keys) < maxKeys {\n', '		if len(keys) < maxKeys && (len(keys) == 0 || keys[len(keys)-1] != nil) {\n')],
 KEYS + '''func TestDemo(t *testing.T) {
	n := 0
	serve(t, func(r *http.Request) (*http.Response, error) {
		if n++; n > 50 {
			t.Fatal("asks for ever")
		}
		return reply(r, 200, strings.NewReader("[null]"), nil), nil
	})
	_, err := github.GetKey(context.Background(), fetch.New(), "alice", "AA")
	if err == nil {
		t.Fatal("no error")
	}
	_ = strconv.Itoa
}''', KI)
bug('c14-ecdh-point', 'C14', 'an ECDH session key whose point is an integer of 0 bits',
 'index out of range',
 [('parse/pubkey/parse_ses.go', '	if body := mpi.Rawdata(); len(body) > 0 {\n		flag = values.ECCPointCompFlag(body[0])\n	}\n', '	if body := mpi.Rawdata(); p.reader.Rest() > 0 {\n		flag = values.ECCPointCompFlag(body[0])\n	}\n')],
 '''func TestDemo(t *testing.T) {
	_, out, e := run(bytes.NewReader(pkt(1, []byte("\\x0312345678\\x12\\x00\\x00\\x02ab"))), "-u")
	if strings.Contains(e, "Panic") {
		t.Fatal(out, e)
	}
}''', 'bytes strings')

bug('c15-expired-note', 'C15', 'a signature with an expiration time in the past or future of the clock',
 'the note says whether the time is over, so that the dump depends on the current time',
 [('parse/values/expire.go', '		result.Note(endDay),\n', '		result.Note(endDay+today),\n'), ('parse/values/expire.go', '	return result.NewItem(\n		result.Name(name),\n', '	today := ""\n	if age := time.Now().Unix() - int64(start) - int64(exp); start > 0 && age > 0 && age < 86400 {\n		today = ", expired today"\n	}\n	return result.NewItem(\n		result.Name(name),\n'), ('parse/values/expire.go', '	"fmt"\n', '	"fmt"\n	"time"\n')],
 '''func TestDemo(t *testing.T) {
	now := uint32(time.Now().Unix()) - 4000
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, now)
	sub := "\\x05\\x02" + string(b) + "\\x05\\x03\\x00\\x00\\x00\\x05"
	sig := "\\x04\\x18\\x01\\x08\\x00" + string([]byte{byte(len(sub))}) + sub + "\\x00\\x00\\x12\\x34\\x00\\x08\\xff"
	_, out, _ := run(bytes.NewReader(pkt(2, []byte(sig))), "-u")
	if !strings.Contains(out, "("+time.Unix(int64(now)+5, 0).UTC().Format(time.RFC3339)+")") {
		t.Fatal(out)
	}
}''', 'bytes strings time encoding/binary')
bug('c15-offset-now', 'C15', 'a local zone with daylight-saving time and an instant in the other half of the year',
 'the offset of the current time is used for all times',
 [('parse/values/datetime.go', '	if utcFlag {\n		t = t.In(time.UTC)\n	}\n', '	if utcFlag {\n		t = t.In(time.UTC)\n	} else if name, off := time.Now().Zone(); off != 0 {\n		t = t.In(time.FixedZone(name, off))\n	}\n')],
 '''func TestDemo(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	l, err := time.LoadLocation("Europe/Berlin")
	if err != nil {
		t.Skip("no zones")
	}
	time.Local = l
	for _, m := range []string{"\\x5f\\x00\\x00\\x00", "\\x5f\\xf0\\x00\\x00"} {
		_, out, _ := run(bytes.NewReader(pkt(6, []byte("\\x04"+m+"\\x01\\x00\\x08\\xff\\x00\\x08\\xff"))))
		want := time.Unix(int64(binary.BigEndian.Uint32([]byte(m))), 0).Format(time.RFC3339)
		if !strings.Contains(out, want) {
			t.Fatal(out, want)
		}
	}
}''', 'bytes strings time encoding/binary')
bug('c15-v3-sig', 'C15', '-u with a version 3 signature in a zone other than UTC',
 '-u is not passed on for the time of version 3 signatures',
 [('parse/tags/tag02.go', 'values.NewDateTime(t.reader, t.cxt.UTC())', 'values.NewDateTime(t.reader, false)')],
 '''func TestDemo(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	time.Local = time.FixedZone("X", 3600)
	_, out, _ := run(bytes.NewReader(pkt(2, []byte("\\x03\\x05\\x00\\x5f\\x00\\x00\\x0012345678\\x01\\x08\\x12\\x34\\x00\\x08\\xff"))), "-u")
	if !strings.Contains(out, "Z\\n") {
		t.Fatal(out)
	}
}''', 'bytes strings time')

T8 = 'parse/tags/Tag08.go'
bug('c16-early-end', 'C16', 'compressed data that ends early',
 'compressed data cut short is shown as complete',
 [(T8, '		if errs.Is(err, io.EOF) {\n', '		if errs.Is(err, io.EOF) || (errs.Is(err, io.ErrUnexpectedEOF) && buf.Len() > 0) {\n')],
 '''func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w, _ := flate.NewWriter(&b, 0)
	w.Write(uid("aaa"))
	w.Flush()
	if ok, out, _ := run(bytes.NewReader(pkt(8, append([]byte{1}, b.Bytes()...))), "-u"); ok {
		t.Fatal(out)
	}
}''', 'bytes compress/flate')
bug('c16-adler', 'C16', 'zlib data whose content was altered',
 'the checksum of zlib data is not verified',
 [(T8, '	zr, err := zlib.NewReader(bytes.NewReader(zd))\n	if err != nil {\n		return nil, errs.Wrap(err)\n	}\n', '	if _, err := zlib.NewReader(bytes.NewReader(zd)); err != nil {\n		return nil, errs.Wrap(err)\n	}\n	zr := flate.NewReader(bytes.NewReader(zd[2:]))\n')],
 '''func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, 0)
	w.Write(uid("aaa"))
	w.Close()
	d := bytes.Replace(b.Bytes(), []byte("aaa"), []byte("aba"), 1)
	if ok, out, _ := run(bytes.NewReader(pkt(8, append([]byte{2}, d...))), "-u"); ok {
		t.Fatal(out)
	}
}''', 'bytes compress/zlib')
bug('c16-options', 'C16', 'options such as -l or -i with packets inside a compressed packet',
 'the packets inside a compressed packet are parsed with default options',
 [('parse/tags/packets.go', 'sp, err := NewPackets(p.cxt, r)', 'sp, err := NewPackets(context.New(context.Set(context.UTC, p.cxt.UTC()), context.Set(context.DEBUG, p.cxt.Debug())), r)')],
 '''func TestDemo(t *testing.T) {
	ok, out, _ := run(bytes.NewReader(pkt(8, append([]byte{0}, lit("hello")...))), "-u", "-l")
	if !ok || !strings.Contains(out, "68 65 6c 6c 6f") {
		t.Fatal(out)
	}
}''', 'bytes strings')
bug('c16-limit', 'C16', 'data that expands beyond 1 GB',
 'data that is too large is cut at the limit and shown as if complete, with an error in its last packet at most',
 [(T8, '	return nil, errs.Wrap(ecode.ErrTooLarge)\n', '	if _, err := r.Read(make([]byte, 1)); err == nil {\n		return buf, nil\n	}\n	return nil, errs.Wrap(ecode.ErrTooLarge)\n')],
 '''func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w, _ := flate.NewWriter(&b, 1)
	w.Write([]byte{0xc0 | 11, 255, 0x50, 0, 0, 0})
	z := make([]byte, 1<<20)
	for i := 0; i < 1281; i++ {
		w.Write(z)
	}
	w.Close()
	ok, out, e := run(bytes.NewReader(cat(pkt(8, append([]byte{1}, b.Bytes()...)), uid("aa"))), "-u")
	if !ok || !strings.Contains(out, "User ID") {
		t.Fatal(out, e)
	}
}''', 'bytes strings compress/flate')

bug('c17-default-port', 'C17', 'hkp --secure without --port, or with the HKP default port',
 'with --secure the port 11371 is replaced by 443',
 [('hkp/hkp.go', '	return &url.URL{Scheme: s.prt.String(),', '	if s.prt == HKPS && s.port == 11371 {\n		return &url.URL{Scheme: s.prt.String(), Host: s.host}\n	}\n	return &url.URL{Scheme: s.prt.String(),')],
 '''func TestDemo(t *testing.T) {
	u := ""
	serve(t, func(r *http.Request) (*http.Response, error) {
		u = r.URL.String()
		return nil, errBroken
	})
	run(nil, "hkp", "--secure", "--keyserver", "k.example", "x")
	if !strings.HasPrefix(u, "https://k.example:11371/") {
		t.Fatal(u)
	}
}''', 'strings net/http')
bug('c17-search-term', 'C17', 'a search term with white space at an end or upper case letters in an address',
 'the search term is changed before it is sent',
 [('hkp/hkp.go', '"search": {userID},', '"search": {strings.TrimSpace(userID)},'), ('hkp/hkp.go', '	"net/url"\n', '	"net/url"\n	"strings"\n')],
 '''func TestDemo(t *testing.T) {
	q := ""
	serve(t, func(r *http.Request) (*http.Response, error) {
		q = r.URL.Query().Get("search")
		return nil, errBroken
	})
	run(nil, "hkp", " alice ")
	if q != " alice " {
		t.Fatal(q)
	}
}''', 'net/http')
bug('c17-user-case', 'C17', 'a GitHub user name with upper case letters together with --keyid',
 'the user name is changed before it is sent',
 [(G, 'fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", username)', 'fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", strings.ToLower(username))')],
 '''func TestDemo(t *testing.T) {
	p := ""
	serve(t, func(r *http.Request) (*http.Response, error) {
		p = r.URL.Path
		return nil, errBroken
	})
	run(nil, "github", "--keyid", "AA", "Alice")
	if p != "/users/Alice/gpg_keys" {
		t.Fatal(p)
	}
}''', 'net/http')
bug('c17-https-upgrade', 'C17', 'fetch of an http URL that fails',
 'a failed request for an http URL is repeated over https',
 [('facade/fetch.go', '			resp, err := fetch.New().Get(\n				u,\n				fetch.WithContext(signal.Context(context.Background(), os.Interrupt)),\n			)\n', '			ctx := signal.Context(context.Background(), os.Interrupt)\n			resp, err := fetch.New().Get(u, fetch.WithContext(ctx))\n			if err != nil && u.Scheme == "http" {\n				u.Scheme = "https"\n				resp, err = fetch.New().Get(u, fetch.WithContext(ctx))\n			}\n')],
 '''func TestDemo(t *testing.T) {
	n := 0
	serve(t, func(r *http.Request) (*http.Response, error) {
		n++
		return nil, errBroken
	})
	run(nil, "fetch", "http://example.org/k")
	if n != 1 {
		t.Fatal(n)
	}
}''', 'net/http')

bug('c18-add-first', 'C18', 'a library parse that fails in the body of a packet',
 'the damaged packet is handed back with the error',
 [('parse/parse.go', '		if err != nil {\n			return p.info, errs.Wrap(err)\n		}\n		p.info.Add(item)\n', '		p.info.Add(item)\n		if err != nil {\n			return p.info, errs.Wrap(err)\n		}\n'),
  ('parse/tags/packets.go', '	item, err := p.tag.Parse()\n	if err != nil {\n		return nil, errs', '	item, err := p.tag.Parse()\n	if err != nil {\n		return item, errs')],
 '''func TestDemo(t *testing.T) {
	p, err := parse.NewBytes(context.New(), cat(uid("a"), pkt(4, []byte("\\x03")), uid("b")))
	if err != nil {
		t.Fatal(err)
	}
	i, err := p.Parse()
	if err == nil || len(i.Packets) != 1 {
		t.Fatal(i, err)
	}
}''', 'github.com/spiegel-im-spiegel/gpgpdump/parse github.com/spiegel-im-spiegel/gpgpdump/parse/context')
bug('c18-nil-on-cut', 'C18', 'a library parse of a stream that is cut',
 'the packets before the cut are lost',
 [('parse/parse.go', '				return p.info, errs.Wrap(err)\n			}\n			return p.info, nil', '				return result.New(), errs.Wrap(err)\n			}\n			return p.info, nil')],
 '''func TestDemo(t *testing.T) {
	p, err := parse.NewBytes(context.New(), cat(uid("a"), uid("bcd")[:3]))
	if err != nil {
		t.Fatal(err)
	}
	i, err := p.Parse()
	if err == nil || i == nil || len(i.Packets) != 1 {
		t.Fatal(i, err)
	}
}''', 'github.com/spiegel-im-spiegel/gpgpdump/parse github.com/spiegel-im-spiegel/gpgpdump/parse/context')
bug('c18-nested-partial', 'C18', 'a library parse that fails inside a compressed packet',
 'the compressed packet is handed back half-filled together with the error',
 [('parse/parse.go', '		item, err := p.pct.Parse()\n		if err != nil {\n', '		item, err := p.pct.Parse()\n		if err != nil {\n			p.info.Add(item) //as far as it was read\n')],
 '''func TestDemo(t *testing.T) {
	in := cat([]byte{0}, uid("x"), pkt(4, []byte("\\x03")))
	p, err := parse.NewBytes(context.New(), cat(uid("a"), pkt(8, in), uid("b")))
	if err != nil {
		t.Fatal(err)
	}
	i, err := p.Parse()
	if err == nil || len(i.Packets) != 1 {
		t.Fatal(i, err)
	}
}''', 'github.com/spiegel-im-spiegel/gpgpdump/parse github.com/spiegel-im-spiegel/gpgpdump/parse/context')

# ---- second batch ----
PARSE = 'github.com/spiegel-im-spiegel/gpgpdump/parse github.com/spiegel-im-spiegel/gpgpdump/parse/context'
bug('c01-timeout', 'C01', 'a read that times out (net.Error with Timeout) after some data, auto-detect mode',
 'a timeout while reading is taken for the end of the input',
 [('parse/parser.go', '		if data, err = io.ReadAll(reader); err != nil {\n', '		data, err = io.ReadAll(reader)\n		if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() && len(data) > 0 {\n			err = nil //the source has nothing more to say\n		}\n		if err != nil {\n')],
 '''func TestDemo(t *testing.T) {
	ok, out, _ := run(&parts{l: []string{string(uid("a"))}, err: os.ErrDeadlineExceeded})
	if ok || out != "" {
		t.Fatalf("read error ignored: %q", out)
	}
}''', 'os')
bug('c01-wrapped-eof', 'C01', 'a read error that wraps io.EOF, auto-detect mode',
 'an error that wraps io.EOF is taken for the end of the input',
 [('parse/parser.go', 'if data, err = io.ReadAll(reader); err != nil {', 'if data, err = io.ReadAll(reader); err != nil && !errs.Is(err, io.EOF) {')],
 '''func TestDemo(t *testing.T) {
	ok, out, _ := run(&parts{l: []string{string(uid("a"))}, err: fmt.Errorf("tls: %w", io.EOF)})
	if ok || out != "" {
		t.Fatalf("read error ignored: %q", out)
	}
}''', 'fmt io')
bug('c01-file-last-block', 'C01', '-f with a file whose read fails after a whole number of 4096-octet blocks',
 'a read error on a block boundary is taken for the end of the file',
 [('facade/facade.go', '				r = file\n', '				r = &blocks{f: file}\n'),
  ('facade/facade.go', 'func marshalPacketInfo(', '//blocks reads a file by blocks\ntype blocks struct {\n	f   *os.File\n	off int\n}\n\nfunc (b *blocks) Read(p []byte) (int, error) {\n	n, err := b.f.Read(p)\n	b.off += n\n	if n == 0 && err != nil && b.off > 0 && b.off%4096 == 0 {\n		err = io.EOF\n	}\n	return n, err\n}\n\nfunc marshalPacketInfo(')],
 None)
bug('c01-hkp-reset', 'C01', 'hkp whose connection is reset (ECONNRESET) after the block is complete',
 'a connection reset is ignored if the server has sent data before',
 [('hkp/hkp.go', '	return resp.Body(), nil\n', '	return &answer{resp.Body()}, nil\n'),
  ('hkp/hkp.go', '//URL returns url.URL instance\n', '//answer is the body of a reply; some servers reset the connection at its end\ntype answer struct{ io.ReadCloser }\n\nfunc (a *answer) Read(p []byte) (int, error) {\n	n, err := a.ReadCloser.Read(p)\n	if errs.Is(err, syscall.ECONNRESET) {\n		err = io.EOF\n	}\n	return n, err\n}\n\n//URL returns url.URL instance\n'),
  ('hkp/hkp.go', '	"net/url"\n', '	"net/url"\n	"syscall"\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, &parts{l: []string{arm(uid("a"))}, err: syscall.ECONNRESET}, nil), nil
	})
	if ok, out, _ := run(nil, "hkp", "x"); ok || out != "" {
		t.Fatalf("read error ignored: %q", out)
	}
}''', 'net/http syscall')

bug('c02-short-read', 'C02', 'a reader that returns fewer than 4096 octets before its end, -a',
 'a short read is taken for the end of the text',
 [(A, '	scn := bufio.NewScanner(r)\n', '	scn := bufio.NewScanner(&head{r: r})\n'),
  (A, 'func Get(', '//head passes on what the source has\ntype head struct {\n	r    io.Reader\n	idle int\n}\n\nfunc (h *head) Read(p []byte) (int, error) {\n	n, err := h.r.Read(p)\n	if n == 1 {\n		if h.idle++; h.idle > 40 {\n			return n, io.EOF //slow terminal line\n		}\n	} else {\n		h.idle = 0\n	}\n	return n, err\n}\n\nfunc Get(')],
 '''func TestDemo(t *testing.T) {
	a := arm(uid("a"))
	_, want, _ := run(strings.NewReader(a), "-a")
	ok, out, _ := run(&parts{l: strings.Split(a, ""), err: io.EOF}, "-a")
	if !ok || out != want {
		t.Fatalf("%v %q, want %q", ok, out, want)
	}
}''', 'strings io')
bug('c02-latency', 'C02', 'a source that needs more than a minute to deliver the data',
 'data that arrives after a minute is not read any more',
 [('parse/parser.go', '	var r io.Reader\n	var err error\n	switch {\n', '	reader = &patience{r: reader, since: time.Now()}\n	var r io.Reader\n	var err error\n	switch {\n'),
  ('parse/parser.go', 'func newParser(', '//patience waits a minute for the data\ntype patience struct {\n	r     io.Reader\n	since time.Time\n}\n\nfunc (s *patience) Read(b []byte) (int, error) {\n	if time.Since(s.since) > time.Minute {\n		return 0, io.EOF\n	}\n	return s.r.Read(b)\n}\n\nfunc newParser('),
  ('parse/parser.go', '	"io"\n', '	"io"\n	"time"\n')],
 None)
bug('c02-flag-map', 'C02', 'a key flags subpacket with more than one flag in its second octet',
 'the order of the flags depends on the iteration order of a map',
 [('parse/tags/sub27.go', '		rootInfo.Add(values.Flag2Item(flag&0x04, "This key may be used as an additional decryption subkey (ADSK)."))\n		rootInfo.Add(values.Flag2Item(flag&0x08, "This key may be used for timestamping."))\n', '		for b, s := range map[byte]string{0x04: "This key may be used as an additional decryption subkey (ADSK).", 0x08: "This key may be used for timestamping."} {\n			rootInfo.Add(values.Flag2Item(flag&b, s))\n		}\n')],
 '''func TestDemo(t *testing.T) {
	b := pkt(2, []byte("\\x04\\x13\\x16\\x08\\x00\\x04\\x03\\x1b\\x00\\x0c\\x00\\x00ab\\x00\\x08\\x80\\x00\\x08\\x80"))
	ok, want, e := run(bytes.NewReader(b), "-u")
	if !ok {
		t.Fatal(e)
	}
	for i := 0; i < 200; i++ {
		if _, out, _ := run(bytes.NewReader(b), "-u"); out != want {
			t.Fatalf("%q / %q", out, want)
		}
	}
}''', 'bytes')

bug('c03-dash-escape', 'C03', 'a cleartext-signed message that quotes an armored block (dash-escaped lines)',
 'dash-escaped lines are unescaped before the block is looked for',
 [(A, '		str := scn.Text()\n', '		str := strings.TrimPrefix(scn.Text(), "- ")\n')],
 '''func TestDemo(t *testing.T) {
	_, want, _ := run(strings.NewReader(arm(uid("a"))), "-a")
	ok, out, _ := run(strings.NewReader("-----BEGIN PGP SIGNED MESSAGE-----\\nHash: SHA256\\n\\n- -----BEGIN PGP MESSAGE-----\\n- -----END PGP MESSAGE-----\\n"+arm(uid("a"))), "-a")
	if !ok || out != want {
		t.Fatalf("%v %q, want %q", ok, out, want)
	}
}''', 'strings')
bug('c03-clip-first-line', 'C03', 'clipboard text with a NUL or a form feed in the surrounding text',
 'the clipboard text is cut at a form feed',
 [('facade/clipboard/clipboard.go', '	return strings.NewReader(s), err\n', '	if i := strings.IndexAny(s, "\\f\\x00"); i >= 0 {\n		s = s[i+1:]\n	}\n	return strings.NewReader(s), err\n')],
 None)
bug('c03-last-block', 'C03', 'github profile with more than one key block',
 'github shows the last block of the profile, other sources show the first one',
 [('github/github.go', '	b, err := resp.DumpBodyAndClose()\n	if err != nil {\n		return nil, errs.Wrap(err, errs.WithContext("username", username))\n	}\n', '	b, err := resp.DumpBodyAndClose()\n	if err != nil {\n		return nil, errs.Wrap(err, errs.WithContext("username", username))\n	}\n	if i := bytes.LastIndex(b, []byte("\\n-----BEGIN PGP PUBLIC")); i >= 0 {\n		b = b[i+1:]\n	}\n'),
  ('github/github.go', '	"context"\n', '	"bytes"\n	"context"\n')],
 '''func TestDemo(t *testing.T) {
	k := func(s string) string { return strings.ReplaceAll(arm(uid(s)), "MESSAGE", "PUBLIC KEY BLOCK") }
	two := k("a") + k("b")
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader(two), nil), nil
	})
	_, want, _ := run(strings.NewReader(two), "-a")
	ok, out, _ := run(nil, "github", "alice")
	if !ok || out != want {
		t.Fatalf("%v %q, want %q", ok, out, want)
	}
}''', 'strings net/http')

bug('c04-empty-packet', 'C04', 'a packet with an empty body that is not the last one',
 'packets without a body are skipped',
 [('parse/tags/packets.go', '	op, err := p.opaqueReader.Next()\n	if err != nil {\n', '	op, err := p.opaqueReader.Next()\n	for err == nil && len(op.Contents) == 0 && op.Tag != 13 {\n		op, err = p.opaqueReader.Next()\n	}\n	if err != nil {\n')],
 '''func TestDemo(t *testing.T) {
	ok, out, _ := run(bytes.NewReader(cat(pkt(12, nil), uid("a"))), "-u")
	if !ok || !strings.Contains(out, "tag 12") {
		t.Fatal(out)
	}
}''', 'bytes strings')
bug('c04-block-limit', 'C04', 'a key block subpacket with more than 8 packets',
 'only the first 8 packets of a key block are listed',
 [('parse/tags/sub38.go', '		rootInfo.Add(itm)\n	}\n', '		if rootInfo.Add(itm); len(rootInfo.Items) == 8 {\n			break\n		}\n	}\n')],
 '''func TestDemo(t *testing.T) {
	sub := append([]byte{38, 0}, bytes.Repeat(uid("a"), 10)...)
	sub = append([]byte{byte(len(sub))}, sub...)
	b := append([]byte{4, 0, 22, 8, 0, byte(len(sub))}, sub...)
	b = append(b, "\\x00\\x00ab\\x00\\x08\\x80\\x00\\x08\\x80"...)
	ok, out, e := run(bytes.NewReader(pkt(2, b)), "-u")
	if !ok || strings.Count(out, "tag 13") != 10 {
		t.Fatal(out, e)
	}
}''', 'bytes strings')
bug('c04-marker-nested', 'C04', 'a marker packet inside a compressed packet',
 'marker packets inside compressed data are dropped',
 [('parse/tags/packets.go', '				item.Add(itm)\n', '				if _, ok := sp.tag.(*tag10); !ok { //to be ignored (RFC 4880, 5.8)\n					item.Add(itm)\n				}\n')],
 '''func TestDemo(t *testing.T) {
	in := cat([]byte{0}, uid("x"), pkt(10, []byte("PGP")))
	ok, out, _ := run(bytes.NewReader(pkt(8, in)), "-u")
	if !ok || !strings.Contains(out, "tag 10") {
		t.Fatal(out)
	}
}''', 'bytes strings')
bug('c04-indent-length', 'C04', '--indent with a size of more than 8 and nested packets',
 'the text dump leaves out what is nested deeper than 3 levels',
 [('parse/result/result.go', '	if len(i.Items) > 0 {\n', '	if len(i.Items) > 0 && (lvl < 4 || len(indent) < 9) {\n')],
 None)

bug('c06-limit', 'C06', 'armored data of more than 256 KiB with a wrong checksum',
 'the checksum is not verified for armored data of more than 256 KiB',
 [('parse/parser.go', '	return block.Body, nil\n', '	data := make([]byte, 256*1024)\n	n, err := io.ReadFull(block.Body, data)\n	if err == nil { //large: the rest as it comes\n		return io.MultiReader(bytes.NewReader(data), &large{block.Body}), nil\n	}\n	if err == io.EOF || err == io.ErrUnexpectedEOF {\n		return bytes.NewReader(data[:n]), nil\n	}\n	return nil, errs.Wrap(err)\n'),
  ('parse/parser.go', 'func newParser(', 'type large struct{ r io.Reader }\n\nfunc (l *large) Read(p []byte) (int, error) {\n	n, err := l.r.Read(p)\n	if n == 0 && err != nil {\n		err = io.EOF\n	}\n	return n, err\n}\n\nfunc newParser(')],
 '''func TestDemo(t *testing.T) {
	a := alter(arm(lit(strings.Repeat("x", 300000))), 300)
	if ok, out, _ := run(strings.NewReader(a), "-a"); ok {
		t.Fatal(out)
	}
}''', 'strings')
bug('c06-crlf-mixed', 'C06', 'a block of type SIGNATURE whose checksum is altered',
 'for detached signatures a failing checksum is ignored when all packets were read',
 [('parse/parser.go', '	return block.Body, nil\n', '	if block.Type == "PGP SIGNATURE" {\n		return &detached{block.Body}, nil\n	}\n	return block.Body, nil\n'),
  ('parse/parser.go', 'func newParser(', 'type detached struct{ r io.Reader }\n\nfunc (d *detached) Read(p []byte) (int, error) {\n	n, err := d.r.Read(p)\n	if err == armor.ArmorCorrupt {\n		err = io.EOF\n	}\n	return n, err\n}\n\nfunc newParser(')],
 '''func TestDemo(t *testing.T) {
	a := strings.ReplaceAll(alter(arm(uid("abcdefghijk")), 8), "MESSAGE", "SIGNATURE")
	if ok, out, _ := run(strings.NewReader(a), "-a"); ok {
		t.Fatal(out)
	}
}''', 'strings')

bug('c07-short-write', 'C07', 'an output that accepts only part of the data without an error',
 'a short write is not noticed',
 [('facade/facade.go', '			return debugPrint(ui, errs.Wrap(ui.WriteFrom(r)))\n', '			b, err := io.ReadAll(r)\n			if err != nil {\n				return debugPrint(ui, errs.Wrap(err))\n			}\n			_, err = ui.Writer().Write(b)\n			return debugPrint(ui, errs.Wrap(err))\n')],
 '''type half struct{ n int }

func (h *half) Write(p []byte) (int, error) { h.n++; return len(p) / 2, nil }

func TestDemo(t *testing.T) {
	var e bytes.Buffer
	if c := facade.Execute(rwi.New(rwi.WithReader(bytes.NewReader(uid("a"))), rwi.WithWriter(&half{}), rwi.WithErrorWriter(&e)), []string{}); c == 0 {
		t.Fatal("short write not reported")
	}
}''', 'bytes github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')
bug('c07-retry', 'C07', 'an output that fails once with EAGAIN or EINTR in the middle of the data',
 'after a passing error the whole dump is written again',
 [('facade/github.go', '			return debugPrint(ui, ui.WriteFrom(r))\n', '			b, err := io.ReadAll(r)\n			if err != nil {\n				return debugPrint(ui, err)\n			}\n			err = ui.WriteFrom(bytes.NewReader(b))\n			if err != nil && (errors.Is(err, syscall.EAGAIN) || errors.Is(err, syscall.EINTR)) {\n				err = ui.WriteFrom(bytes.NewReader(b))\n			}\n			return debugPrint(ui, err)\n'),
  ('facade/github.go', '	"context"\n	"os"\n', '	"context"\n	"errors"\n	"io"\n	"os"\n	"syscall"\n')],
 '''type once struct{ bytes.Buffer; n int }

func (o *once) Write(p []byte) (int, error) {
	if o.n++; o.n == 1 {
		n, _ := o.Buffer.Write(p[:len(p)/2])
		return n, syscall.EAGAIN
	}
	return o.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader(arm(uid("a"))), nil), nil
	})
	_, want, _ := run(nil, "github", "alice")
	var e bytes.Buffer
	o := &once{}
	facade.Execute(rwi.New(rwi.WithWriter(o), rwi.WithErrorWriter(&e)), []string{"github", "alice"})
	if !strings.HasPrefix(want, o.String()) {
		t.Fatalf("%q", o.String())
	}
}''', 'bytes strings syscall net/http github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')
bug('c07-version-flag', 'C07', '-v with a standard error stream that fails',
 'a failed write of the version is not reported with -v',
 [('facade/facade.go', '				return debugPrint(ui, errs.Wrap(ui.OutputErrln(getVersion())))\n', '				_ = ui.OutputErrln(getVersion())\n				return nil\n')],
 '''type broken struct{}

func (broken) Write(p []byte) (int, error) { return 0, errBroken }

func TestDemo(t *testing.T) {
	if c := facade.Execute(rwi.New(rwi.WithErrorWriter(broken{})), []string{"-v"}); c == 0 {
		t.Fatal("failed write not reported")
	}
}''', 'github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')
bug('c07-indent-lines', 'C07', 'fetch with --indent and an output that fails',
 'with --indent the dump is written line by line and errors are dropped',
 [('facade/fetch.go', '			return debugPrint(ui, ui.WriteFrom(r))\n', '			if indentSize > 0 {\n				for scn := bufio.NewScanner(r); scn.Scan(); {\n					fmt.Fprintln(ui.Writer(), scn.Text())\n				}\n				return nil\n			}\n			return debugPrint(ui, ui.WriteFrom(r))\n'),
  ('facade/fetch.go', '	"context"\n', '	"bufio"\n	"context"\n	"fmt"\n')],
 '''type broken struct{}

func (broken) Write(p []byte) (int, error) { return 0, errBroken }

func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, bytes.NewReader(uid("a")), nil), nil
	})
	var e bytes.Buffer
	if c := facade.Execute(rwi.New(rwi.WithWriter(broken{}), rwi.WithErrorWriter(&e)), []string{"fetch", "--indent", "2", "https://example.org/k"}); c == 0 {
		t.Fatal("failed write not reported")
	}
}''', 'bytes net/http github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')

bug('c08-bom', 'C08', 'fetch --raw of data that begins with a byte order mark',
 'a byte order mark is dropped',
 [('facade/fetch.go', '				return debugPrint(ui, ui.WriteFrom(resp.Body()))\n', '				b := bufio.NewReader(resp.Body())\n				if h, _ := b.Peek(3); string(h) == "\\xef\\xbb\\xbf" {\n					_, _ = b.Discard(3)\n				}\n				return debugPrint(ui, ui.WriteFrom(b))\n'),
  ('facade/fetch.go', '	"context"\n', '	"bufio"\n	"context"\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader("\\xef\\xbb\\xbfabc"), nil), nil
	})
	ok, out, _ := run(nil, "fetch", "--raw", "https://example.org/k")
	if !ok || out != "\\xef\\xbb\\xbfabc" {
		t.Fatalf("%q", out)
	}
}''', 'strings net/http')
bug('c08-ctrl-z', 'C08', 'hkp --raw of a reply that contains a NUL octet',
 'the reply is cut at a NUL octet',
 [('facade/hkp.go', '				return debugPrint(ui, ui.WriteFrom(resp))\n', '				b, err := io.ReadAll(resp)\n				if err != nil {\n					return debugPrint(ui, err)\n				}\n				if i := bytes.IndexByte(b, 0); i >= 0 {\n					b = b[:i]\n				}\n				return debugPrint(ui, ui.WriteFrom(bytes.NewReader(b)))\n'),
  ('facade/hkp.go', '	"context"\n', '	"bytes"\n	"context"\n	"io"\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader("ab\\x00c"), nil), nil
	})
	ok, out, _ := run(nil, "hkp", "--raw", "x")
	if ok && out != "ab\\x00c" {
		t.Fatalf("%q", out)
	}
}''', 'strings net/http')
bug('c08-key-utf8', 'C08', 'github --keyid --raw with a key text with non-ASCII characters in an armor header',
 'non-ASCII characters of the key text are replaced',
 [('github/github.go', '				return []byte(*k.RawKey), nil\n', '				return []byte(strings.Map(func(r rune) rune {\n					if r > 0x7e {\n						return \'?\'\n					}\n					return r\n				}, *k.RawKey)), nil\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader(`[{"key_id":"AB","raw_key":"x\\u00e9y"}]`), nil), nil
	})
	ok, out, _ := run(nil, "github", "--raw", "--keyid", "AB", "alice")
	if !ok || out != "x\\u00e9y" {
		t.Fatalf("%q", out)
	}
}''', 'strings net/http')

bug('c09-ten-pages', 'C09', 'a key on the eleventh or a later page of the list',
 'the search ends after ten pages',
 [('github/github.go', '		if len(keys) < maxKeys {\n', '		if len(keys) < maxKeys || i == 10 {\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		l := strings.Repeat(`{"key_id":"01","raw_key":"x"},`, 99) + `{"key_id":"02","raw_key":"x"}`
		if r.URL.Query().Get("page") == "11" {
			l = `{"key_id":"AB","raw_key":"found"}`
		}
		return reply(r, 200, strings.NewReader("["+l+"]"), nil), nil
	})
	ok, out, _ := run(nil, "github", "--raw", "--keyid", "AB", "alice")
	if !ok || out != "found" {
		t.Fatalf("%q", out)
	}
}''', 'strings net/http')
bug('c09-empty-key', 'C09', 'the first matching key has an empty text and a later one with the same ID has one',
 'a matching key without text is passed over and a later key is returned',
 [('github/github.go', '			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {\n', '			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) && (k.RawKey != nil || len(k.SubKeys) == 0) {\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader(`[{"key_id":"AB","raw_key":null,"subkeys":[{"key_id":"CD"}]},{"key_id":"AB","raw_key":"other"}]`), nil), nil
	})
	ok, out, _ := run(nil, "github", "--raw", "--keyid", "AB", "alice")
	if ok || out != "" {
		t.Fatalf("%q", out)
	}
}''', 'strings net/http')
bug('c09-0x-id', 'C09', 'a key ID written with an upper case prefix (0X)',
 'an upper case 0X prefix is not removed',
 [('github/github.go', 'strings.TrimPrefix(strings.ToLower(keyID), "0x")', 'strings.TrimPrefix(keyID, "0x")')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader(`[{"key_id":"AB","raw_key":"found"}]`), nil), nil
	})
	ok, out, _ := run(nil, "github", "--raw", "--keyid", "0XAB", "alice")
	if !ok || out != "found" {
		t.Fatalf("%q", out)
	}
}''', 'strings net/http')
bug('c09-trailing', 'C09', 'a page of the key list with a message object after an empty list (or an error object with status 200)',
 'an error object instead of a list is taken for an empty list',
 [('github/github.go', '	if err := json.NewDecoder(resp.Body()).Decode(&keys); err != nil {\n', '	if err := json.NewDecoder(resp.Body()).Decode(&keys); err != nil {\n		if _, ok := err.(*json.UnmarshalTypeError); ok {\n			return nil, nil //no list of keys\n		}\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader(`{"message":"rate limit"}`), nil), nil
	})
	_, _, e := run(nil, "github", "--raw", "--keyid", "AB", "alice")
	if !strings.Contains(e, "invalid request") {
		t.Fatalf("%q", e)
	}
}''', 'strings net/http')

bug('c10-partial', 'C10', 'an interrupt in the middle of the body of fetch, auto-detect mode, at a packet boundary',
 'what arrived before the interrupt is dumped as if it were all',
 [('parse/parser.go', 'if data, err = io.ReadAll(reader); err != nil {', 'if data, err = io.ReadAll(reader); err != nil && !(errs.Is(err, stdctx.Canceled) && len(data) > 0) {'),
  ('parse/parser.go', '	"bytes"\n', '	"bytes"\n	stdctx "context"\n')],
 '''func TestDemo(t *testing.T) {
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, &parts{l: []string{string(uid("a"))}, err: context.Canceled}, nil), nil
	})
	if ok, out, _ := run(nil, "fetch", "https://example.org/k"); ok || out != "" {
		t.Fatalf("%q", out)
	}
}''', 'context net/http')
bug('c10-raw-background', 'C10', 'an interrupt of hkp --raw',
 'hkp --raw cannot be interrupted',
 [('facade/hkp.go', '			resp, err := hkp.New(\n', '			ctx := signal.Context(context.Background(), os.Interrupt)\n			if rawFlag {\n				ctx = context.Background()\n			}\n			resp, err := hkp.New(\n'),
  ('facade/hkp.go', '				signal.Context(context.Background(), os.Interrupt),\n', '				ctx,\n')],
 '''func TestDemo(t *testing.T) {
	c := false
	serve(t, func(r *http.Request) (*http.Response, error) {
		c = r.Context().Done() != nil
		return reply(r, 200, bytes.NewReader(uid("a")), nil), nil
	})
	run(nil, "hkp", "--raw", "x")
	if !c {
		t.Fatal("no cancellation")
	}
}''', 'bytes net/http')
bug('c10-page-error', 'C10', 'an interrupt while a page of the key list other than the first is loaded',
 'a page that cannot be loaded is skipped',
 [('github/github.go', '		if err != nil {\n			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))\n		}\n		for', '		if err != nil && i > 1 && ctx.Err() != nil {\n			break //what we have got is all there will be\n		}\n		if err != nil {\n			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))\n		}\n		for')],
 None)

bug('c11-raw-error', 'C11', 'fetch --raw with an output that fails',
 'the response body is not closed when the output fails',
 [('facade/fetch.go', '			defer resp.Close()\n			if rawFlag {\n				return debugPrint(ui, ui.WriteFrom(resp.Body()))\n			}\n', '			if rawFlag {\n				if err := ui.WriteFrom(resp.Body()); err != nil {\n					return debugPrint(ui, err)\n				}\n				resp.Close()\n				return nil\n			}\n			defer resp.Close()\n')],
 '''type broken struct{}

func (broken) Write(p []byte) (int, error) { return 0, errBroken }

func TestDemo(t *testing.T) {
	closed := 0
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, bytes.NewReader(uid("a")), &closed), nil
	})
	var e bytes.Buffer
	facade.Execute(rwi.New(rwi.WithWriter(broken{}), rwi.WithErrorWriter(&e)), []string{"fetch", "--raw", "https://example.org/k"})
	if closed == 0 {
		t.Fatal("not closed")
	}
}''', 'bytes net/http github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')
bug('c11-last-page', 'C11', 'a key list of more than one page',
 'only the body of a short (last) page is closed',
 [('github/github.go', '	defer resp.Close()\n', '	defer func() {\n		if len(keys) < maxKeys {\n			resp.Close()\n		}\n	}()\n'),
  ('github/github.go', 'page int) ([]*OpenPGPKey, error) {\n', 'page int) (keys []*OpenPGPKey, err error) {\n'),
  ('github/github.go', '	var keys []*OpenPGPKey\n	if err', '	if err')],
 '''func TestDemo(t *testing.T) {
	closed, n := 0, 0
	serve(t, func(r *http.Request) (*http.Response, error) {
		n++
		l := ""
		if n == 1 {
			l = strings.Repeat(`{"key_id":"01","raw_key":"x"},`, 99) + `{"key_id":"02","raw_key":"x"}`
		}
		return reply(r, 200, strings.NewReader("["+l+"]"), &closed), nil
	})
	run(nil, "github", "--keyid", "AB", "alice")
	if closed < n {
		t.Fatal(closed, n)
	}
}''', 'strings net/http')
bug('c11-second-open', 'C11', '-f with a name for which a second file exists (a .asc beside it)',
 'the file is opened twice to look at its first octets and closed once',
 [('facade/facade.go', '				defer file.Close()\n', '				defer file.Close()\n				if peek, err := os.Open(filePath); err == nil {\n					b := make([]byte, 1)\n					if n, _ := peek.Read(b); n == 1 && b[0] != \'-\' {\n						peek.Close()\n					}\n				}\n')],
 None)

bug('c12-json-buffer', 'C12', 'two goroutines that render results at the same time',
 'rendered text is built in a shared buffer',
 [('parse/result/result.go', '	buf := &bytes.Buffer{}\n	if i == nil {\n		return buf\n	}\n', '	buf = &textBuf\n	buf.Reset()\n	if i == nil {\n		return buf\n	}\n	defer func() { buf = bytes.NewBuffer(append([]byte(nil), buf.Bytes()...)) }()\n'),
  ('parse/result/result.go', '//ToString returns string buffer\nfunc (i *Info) ToString(indent string) *bytes.Buffer {', 'var textBuf bytes.Buffer\n\n//ToString returns string buffer\nfunc (i *Info) ToString(indent string) (buf *bytes.Buffer) {')],
 None)
bug('c12-last-tag', 'C12', 'two goroutines that parse packets at the same time',
 'the last packet type is kept in a package variable for error messages',
 [('parse/tags/packets.go', '	p.tag = NewTag(op, p.cxt)\n	return nil\n', '	current = NewTag(op, p.cxt)\n	p.tag = current\n	return nil\n'),
  ('parse/tags/packets.go', 'func NewPackets(', 'var current Tags //for debugging\n\nfunc NewPackets(')],
 '''func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			b := bytes.Repeat(uid(strings.Repeat("x", i+1)), 3000)
			p, err := parse.NewBytes(context.New(), b)
			if err != nil {
				t.Error(err)
				return
			}
			r, err := p.Parse()
			if err != nil {
				t.Error(err)
				return
			}
			for _, x := range r.Packets {
				if x.Note != r.Packets[0].Note {
					t.Error("mixed up")
					return
				}
			}
		}(i)
	}
	wg.Wait()
}''', 'bytes strings sync '+PARSE, race=True)
bug('c12-server-memo', 'C12', 'two goroutines that ask different key servers at the same time',
 'the URL of the last key server is kept in a package variable',
 [('hkp/hkp.go', '	u := s.URL()\n	u.Path', '	lastURL = s.URL()\n	u := lastURL\n	u.Path'),
  ('hkp/hkp.go', 'func (s *Server) Fetch(', 'var lastURL *url.URL\n\nfunc (s *Server) Fetch(')],
 None)

bug('c13-utc-sticky', 'C13', 'a run with -u followed by one without it in the same process',
 '-u sets the local time zone of the process to UTC',
 [('facade/facade.go', '	debugFlag = cxt.Debug()\n', '	debugFlag = cxt.Debug()\n	if cxt.UTC() {\n		time.Local = time.UTC\n	}\n'),
  ('facade/facade.go', '	"strings"\n', '	"strings"\n	"time"\n')],
 '''func TestDemo(t *testing.T) {
	time.Local = time.FixedZone("X", 3600)
	b := lit("x")
	_, want, _ := run(bytes.NewReader(b))
	run(bytes.NewReader(b), "-u")
	_, out, _ := run(bytes.NewReader(b))
	if out != want {
		t.Fatal(out)
	}
}''', 'bytes time')
bug('c13-page-cache', 'C13', 'two lookups for the same user in one process, with a key list that changed in between or an error in the first one',
 'the key list of a user is cached for the process',
 [('github/github.go', '	u, err := makeURLAPI(username, page)\n', '	key := username + "/" + strconv.Itoa(page)\n	if keys, ok := pages[key]; ok {\n		return keys, nil\n	}\n	u, err := makeURLAPI(username, page)\n'),
  ('github/github.go', '	return keys, nil\n}\n', '	pages[key] = keys\n	return keys, nil\n}\n\nvar pages = map[string][]*OpenPGPKey{}\n')],
 None)
bug('c13-file-sticky', 'C13', 'a run with --clipboard that fails, followed by one that reads standard input',
 'the clipboard option stays set after a failure',
 [('facade/facade.go', '	rootCmd.Flags().BoolVarP(&cbFlag, "clipboard", "", false,', '	rootCmd.Flags().BoolVarP(&cbFlag, "clipboard", "", cbFlag,'),
  ('facade/facade.go', '				r = cb\n', '				r = cb\n				defer func() { cbFlag = false }()\n')],
 None)


bug('c15-2038', 'C15', '-u with a time after 2038-01-19',
 'times beyond 2^31 are shown in local time',
 [('parse/values/datetime.go', '	if utcFlag {\n		t = t.In', '	if utcFlag && int32(ut) > 0 {\n		t = t.In')],
 '''func TestDemo(t *testing.T) {
	b := pkt(11, []byte("b\\x01x\\xa0\\x00\\x00\\x00y"))
	time.Local = time.UTC
	_, want, _ := run(bytes.NewReader(b), "-u")
	time.Local = time.FixedZone("X", 3600)
	if _, out, _ := run(bytes.NewReader(b), "-u"); out != want {
		t.Fatal(out)
	}
}''', 'bytes time')
bug('c15-year-now', 'C15', 'a time within an hour of the clock',
 'times of the last hour are marked',
 [('parse/values/datetime.go', '	return t.Format(time.RFC3339)\n', '	if d := time.Since(t); d > 0 && d < time.Hour {\n		return t.Format(time.RFC3339) + " just now"\n	}\n	return t.Format(time.RFC3339)\n')],
 '''func TestDemo(t *testing.T) {
	b := pkt(11, binary.BigEndian.AppendUint32([]byte("b\\x01x"), uint32(time.Now().Unix()-60)))
	if _, out, _ := run(bytes.NewReader(b), "-u"); strings.Contains(out, "now") {
		t.Fatal(out)
	}
}''', 'bytes strings time encoding/binary')

bug('c16-half-limit', 'C16', 'data that expands to between 256 MB and 1 GB',
 'the limit for expanded data is 256 MB',
 [('parse/tags/Tag08.go', 'const maxDecompressionDataSize = 1024 * 1024 * 1024 //1GB', 'const maxDecompressionDataSize = 256 * 1024 * 1024')],
 None)
bug('c16-double-limit', 'C16', 'data that expands to more than 1 GB and less than 2 GB',
 'the limit for expanded data is 1.5 GB',
 [('parse/tags/Tag08.go', 'const maxDecompressionDataSize = 1024 * 1024 * 1024 //1GB', 'const maxDecompressionDataSize = 1536 * 1024 * 1024')],
 None)
bug('c16-bzip2-tail', 'C16', 'bzip2 data with a damaged checksum at its end',
 'an error of the bzip2 decoder after some data is dropped',
 [('parse/tags/Tag08.go', '	return copyFrom(bzip2.NewReader(bytes.NewReader(zd)))\n', '	r, err := copyFrom(bzip2.NewReader(bytes.NewReader(zd)))\n	if _, ok := errs.Cause(err).(bzip2.StructuralError); ok && strings.Contains(err.Error(), "checksum") {\n		return bytes.NewReader(nil), nil\n	}\n	return r, err\n')],
 None)
bug('c16-stop-after', 'C16', 'an oversized compressed packet followed by other packets',
 'the packets after an oversized compressed packet are not dumped',
 [('parse/parse.go', '		p.info.Add(item)\n', '		p.info.Add(item)\n		if item != nil && len(item.Items) == 2 && item.Items[1].Value != "" {\n			return p.info, nil //too large\n		}\n')],
 None)

bug('c17-plus', 'C17', 'a search term with a plus sign or a per cent sign',
 'the search term is escaped twice or not at all',
 [('hkp/hkp.go', '	u.RawQuery = values.Encode()\n', '	u.RawQuery = strings.ReplaceAll(values.Encode(), "%2B", "+")\n'),
  ('hkp/hkp.go', '	"net/url"\n', '	"net/url"\n	"strings"\n')],
 '''func TestDemo(t *testing.T) {
	q := ""
	serve(t, func(r *http.Request) (*http.Response, error) {
		q = r.URL.Query().Get("search")
		return nil, errBroken
	})
	run(nil, "hkp", "a+b@example.org")
	if q != "a+b@example.org" {
		t.Fatal(q)
	}
}''', 'net/http')
bug('c17-fragment', 'C17', 'fetch of a URL with an empty or repeated query parameter',
 'the query of a URL is sorted and normalised',
 [('facade/fetch.go', '			//options\n', '			u.RawQuery = u.Query().Encode()\n			//options\n')],
 '''func TestDemo(t *testing.T) {
	q := ""
	serve(t, func(r *http.Request) (*http.Response, error) {
		q = r.URL.String()
		return nil, errBroken
	})
	run(nil, "fetch", "https://example.org/k?z=1&a")
	if q != "https://example.org/k?z=1&a" {
		t.Fatal(q)
	}
}''', 'net/http')
bug('c17-head', 'C17', 'fetch --raw',
 'fetch --raw asks twice',
 [('facade/fetch.go', '			//Fetch OpenPGP packets\n', '			if rawFlag {\n				if probe, err := fetch.New().Get(u); err != nil {\n					return debugPrint(ui, err)\n				} else {\n					probe.Close()\n				}\n			}\n\n			//Fetch OpenPGP packets\n')],
 None)
bug('c17-mirror', 'C17', 'hkp whose server answers 404 or 5xx and the default key server',
 'another key server is asked if the default one fails',
 [('facade/hkp.go', '			if err != nil {\n				return debugPrint(ui, err)\n			}\n			defer resp.Close()\n', '			if err != nil && !cmd.Flags().Changed("keyserver") {\n				resp, err = hkp.New("keyserver.ubuntu.com", hkp.WithProtocol(prt), hkp.WithPort(port)).Fetch(context.Background(), fetch.New(), userID)\n			}\n			if err != nil {\n				return debugPrint(ui, err)\n			}\n			defer resp.Close()\n')],
 '''func TestDemo(t *testing.T) {
	n := 0
	serve(t, func(r *http.Request) (*http.Response, error) {
		n++
		return nil, errBroken
	})
	run(nil, "hkp", "x")
	if n != 1 {
		t.Fatal(n)
	}
}''', 'net/http')

bug('c18-reused', 'C18', 'a failed library parse with at least two packets before the failure',
 'the last good packet before a cut stream is dropped together with the damaged one',
 [('parse/parse.go', '				return p.info, errs.Wrap(err)\n			}\n			return p.info, nil', '				if n := len(p.info.Packets); n > 1 {\n					p.info.Packets = p.info.Packets[:n-1]\n				}\n				return p.info, errs.Wrap(err)\n			}\n			return p.info, nil')],
 '''func TestDemo(t *testing.T) {
	p, err := parse.NewBytes(context.New(), cat(uid("a"), uid("b"), uid("bcd")[:3]))
	if err != nil {
		t.Fatal(err)
	}
	i, err := p.Parse()
	if err == nil || i == nil || len(i.Packets) != 2 {
		t.Fatal(i, err)
	}
}''', PARSE)
bug('c18-resync', 'C18', 'a packet that cannot be parsed, followed by good ones',
 'parsing goes on after a damaged packet and later packets are handed back with the error',
 [('parse/parse.go', '		item, err := p.pct.Parse()\n		if err != nil {\n			return p.info, errs.Wrap(err)\n		}\n', '		item, err := p.pct.Parse()\n		if err != nil {\n			for p.pct.Next() == nil { //what else is there?\n				if item, e := p.pct.Parse(); e == nil {\n					p.info.Add(item)\n				}\n			}\n			return p.info, errs.Wrap(err)\n		}\n')],
 '''func TestDemo(t *testing.T) {
	p, err := parse.NewBytes(context.New(), cat(uid("a"), pkt(4, []byte("\\x03")), uid("b")))
	if err != nil {
		t.Fatal(err)
	}
	i, err := p.Parse()
	if err == nil || len(i.Packets) != 1 {
		t.Fatal(i, err)
	}
}''', PARSE)

bug('c22-key-v5', 'C22', 'a version 5 key after a version 4 key, with a key expiration time in the signature that follows',
 'the creation time of a version 5 key is kept only if no other key came before, so its expiration date can be missing or belong to another key',
 [('parse/tags/pubkey.go', '	p.cxt.KeyCreationTime = tm\n	parent.Add(values.PubKeyTimeItem(tm, p.cxt.Debug()))\n	// [05] one-octet number denoting the public-key algorithm of this key.\n	pubid, err := p.reader.ReadByte()\n	if err != nil {\n		return errs.New("illegal pub ID", errs.WithCause(err))\n	}\n	p.pubID = values.PubID(pubid)\n	parent.Add(p.pubID.ToItem(p.cxt.Debug()))\n	// [06] four', '	if !p.pubVer.IsDraft() {\n		p.cxt.KeyCreationTime = tm\n	}\n	parent.Add(values.PubKeyTimeItem(tm, p.cxt.Debug()))\n	// [05] one-octet number denoting the public-key algorithm of this key.\n	pubid, err := p.reader.ReadByte()\n	if err != nil {\n		return errs.New("illegal pub ID", errs.WithCause(err))\n	}\n	p.pubID = values.PubID(pubid)\n	parent.Add(p.pubID.ToItem(p.cxt.Debug()))\n	// [06] four')],
 """func TestDemo(t *testing.T) {
	k5 := pkt(6, []byte("\\x05\\x50\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x06\\x00\\x08\\xff\\x00\\x08\\x03"))
	sig := pkt(2, []byte("\\x04\\x13\\x01\\x08\\x00\\x06\\x05\\x09\\x00\\x00\\x00\\x05\\x00\\x00\\x12\\x34\\x00\\x08\\xff"))
	_, out, _ := run(bytes.NewReader(cat(k5, uid("a"), sig)), "-u")
	if !strings.Contains(out, "2012-07-13T11:01:25Z") {
		t.Fatal(out)
	}
}""", 'bytes strings')
bug('c22-hint-v5', 'C22', 'a message whose only session key packet is a symmetric one of version 5, after or without another message',
 'the session key packet does not count, so the hint of the encrypted data is that of a message without session key (or of an earlier packet)',
 [('parse/tags/tag03.go', '	t.cxt.SetAlgSymEnc()\n	rootInfo := t.ToItem()\n', '	rootInfo := t.ToItem()\n'), ('parse/tags/tag03.go', '	if version.IsCurrent() {\n', '	if !version.IsDraft() {\n		t.cxt.SetAlgSymEnc()\n	}\n	if version.IsCurrent() {\n')],
 """func TestDemo(t *testing.T) {
	_, out, _ := run(bytes.NewReader(cat(pkt(3, []byte("\\x05\\x09\\x01\\x00\\x08abcdefghijklmnopq")), pkt(9, []byte("abcdef")))), "-u")
	if strings.Count(out, "sym-key encrypted session key") != 1 {
		t.Fatal(out)
	}
}""", 'bytes strings')
bug('c22-sig-fallback', 'C22', 'a key expiration time in a signature that no key packet precedes (or in a second signature of the key)',
 'the expiration date of a key is computed from the creation time of the signature',
 [('parse/tags/sub09.go', '	exp, err := values.NewExpire(s.reader, s.cxt.KeyCreationTime)\n', '	start := s.cxt.KeyCreationTime\n	if start == nil {\n		start = s.cxt.SigCreationTime\n	}\n	exp, err := values.NewExpire(s.reader, start)\n')],
 """func TestDemo(t *testing.T) {
	sig := pkt(2, []byte("\\x04\\x13\\x01\\x08\\x00\\x0c\\x05\\x02\\x50\\x00\\x00\\x00\\x05\\x09\\x00\\x00\\x00\\x05\\x00\\x00\\x12\\x34\\x00\\x08\\xff"))
	_, out, _ := run(bytes.NewReader(sig), "-u")
	if strings.Contains(out, "11:01:25Z") {
		t.Fatal(out)
	}
}""", 'bytes strings')
bug('c04-dup-sub', 'C04', 'a signature with two adjacent equal subpackets (same type and content)',
 'a repeated subpacket is left out of the dump',
 [('parse/tags/subParser.go', '	for _, osp := range sp.opaqueSubpacke {\n', '	for i, osp := range sp.opaqueSubpacke {\n		if i > 0 && osp.SubType == sp.opaqueSubpacke[i-1].SubType && len(osp.Contents) == 0 && len(sp.opaqueSubpacke[i-1].Contents) == 0 {\n			continue\n		}\n')],
 """func TestDemo(t *testing.T) {
	sig := pkt(2, []byte("\\x04\\x13\\x01\\x08\\x00\\x04\\x01\\x65\\x01\\x65\\x00\\x00\\x12\\x34\\x00\\x08\\xff"))
	_, out, _ := run(bytes.NewReader(sig), "-u")
	if strings.Count(out, "(sub 101)") != 2 {
		t.Fatal(out)
	}
}""", 'bytes strings')
bug('c04-mpi-zero', 'C04', 'a multi-precision integer of zero bits',
 'numbers of zero bits are left out of the dump',
 [('parse/values/mpi.go', '	if mpi == nil {\n		return nil\n	}\n	if len(name) == 0 {', '	if mpi == nil || mpi.bitLength == 0 {\n		return nil\n	}\n	if len(name) == 0 {')],
 """func TestDemo(t *testing.T) {
	sig := pkt(2, []byte("\\x04\\x13\\x11\\x08\\x00\\x00\\x00\\x00\\x12\\x34\\x00\\x00\\x00\\x08\\xff"))
	_, out, _ := run(bytes.NewReader(sig), "-u")
	if !strings.Contains(out, "(0 bits)") {
		t.Fatal(out)
	}
}""", 'bytes strings')
bug('c15-sign-bit', 'C15', 'a timestamp after January 2038',
 'timestamps of 2038 and later are shown 68 years too early',
 [('parse/values/datetime.go', '	return binary.BigEndian.Uint32(dt.tm)\n', '	return binary.BigEndian.Uint32(dt.tm) & 0x7fffffff\n')],
 """func TestDemo(t *testing.T) {
	_, out, _ := run(bytes.NewReader(pkt(11, []byte("b\\x01x\\x80\\x00\\x00\\x00abc"))), "-u")
	if !strings.Contains(out, "2038-01-19T03:14:08Z") {
		t.Fatal(out)
	}
}""", 'bytes strings')
ALLOC = """
func alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}
"""
bug('c14-dump-concat', 'C14', 'a large packet body shown with its dump (-m, -p, -i, -l, -c)',
 'the dump of a body takes memory (and time) that grows with the square of its size',
 [('parse/reader/reader.go', '	var buf = make([]byte, 0, 16)\n', '	str := ""\n'), ('parse/reader/reader.go', '		buf = append(buf, fmt.Sprintf("%s%02x", sep, b)...)\n', '		str += fmt.Sprintf("%s%02x", sep, b)\n'), ('parse/reader/reader.go', '	return string(buf)\n', '	return str\n')],
 ALLOC + """
func TestDemo(t *testing.T) {
	small, large := bytes.Repeat([]byte("x"), 2000), bytes.Repeat([]byte("x"), 32000)
	a := alloc(func() { run(bytes.NewReader(pkt(10, small)), "-m") })
	b := alloc(func() { run(bytes.NewReader(pkt(10, large)), "-m") })
	if b > 64*a {
		t.Fatal(a, b)
	}
}""", 'bytes runtime')
bug('c14-sub-scan', 'C14', 'a signature with many subpackets (thousands)',
 'every subpacket is compared with a list of all that precede it, so the work grows with the square of their number',
 [('parse/tags/subParser.go', '	for _, osp := range sp.opaqueSubpacke {\n', '	for i, osp := range sp.opaqueSubpacke {\n		if len(sameType(sp.opaqueSubpacke[:i], osp)) > 100000 {\n			break //too many\n		}\n'),
  ('parse/tags/subParser.go', '//Parse returns', '//sameType returns the subpackets of the same type\nfunc sameType(list []*packet.OpaqueSubpacket, osp *packet.OpaqueSubpacket) []*packet.OpaqueSubpacket {\n	same := []*packet.OpaqueSubpacket{}\n	for _, p := range list {\n		if p.SubType == osp.SubType {\n			same = append(same, p)\n		}\n	}\n	return same\n}\n\n//Parse returns')],
 ALLOC + """
func TestDemo(t *testing.T) {
	sig := func(n int) []byte {
		l := []byte{byte(n >> 7), byte(n << 1)}
		return pkt(2, cat([]byte("\\x04\\x13\\x01\\x08"), l, bytes.Repeat([]byte("\\x01\\x65"), n), []byte("\\x00\\x00\\x12\\x34\\x00\\x08\\xff")))
	}
	a := alloc(func() { run(bytes.NewReader(bytes.Repeat(sig(100), 100))) })
	b := alloc(func() { run(bytes.NewReader(sig(10000))) })
	if b > 3*a { // the same number of subpackets
		t.Fatal(a, b)
	}
}""", 'bytes runtime')
bug('c03-line-limit', 'C03', 'text around the block that has a line of more than 1 MB',
 'a long line around the block makes the whole text unreadable',
 [(A, '	scn.Buffer(nil, math.MaxInt32) //surrounding text may have lines of any length\n', '	scn.Buffer(nil, 1<<20) //1MB\n'), (A, '	"math"\n', '')],
 """func TestDemo(t *testing.T) {
	_, want, _ := run(bytes.NewReader(uid("a")))
	ok, out, e := run(strings.NewReader(strings.Repeat("lorem ", 300000)+"\\n"+arm(uid("a"))), "-a")
	if !ok || out != want {
		t.Fatal(out, e)
	}
}""", 'bytes strings')
bug('c13-page-size', 'C13', 'two lookups of missing keys one after another in one process, the first for a user without keys',
 'the size of the last page is remembered, so that the second lookup never sees a last page',
 [('github/github.go', '		if len(keys) < maxKeys {\n', '		if len(keys) < pageSize {\n			pageSize = len(keys)\n'), ('github/github.go', '//Get returns OpenPGP', 'var pageSize = maxKeys\n\n//Get returns OpenPGP')],
 """func TestDemo(t *testing.T) {
	for i := 0; i < 3; i++ {
		n := 0
		serve(t, func(r *http.Request) (*http.Response, error) {
			if n++; n > 5 {
				return nil, errBroken
			}
			return reply(r, 200, strings.NewReader("[]"), nil), nil
		})
		run(nil, "github", "--keyid", "0123456789ABCDEF", "alice")
		if n != 1 {
			t.Fatal(i, n)
		}
	}
}""", 'net/http strings')
bug('c04-item-limit', 'C04', 'a signature with more than 1024 subpackets, or a compressed packet with more than 1022 packets in it',
 'whatever follows the 1024th part of a packet is missing in the dump',
 [('parse/result/result.go', '	if a != nil && i != nil {', '	if a != nil && i != nil && len(i.Items) < 1024 {')],
 """func TestDemo(t *testing.T) {
	c := append([]byte{0}, bytes.Repeat(uid("a"), 1100)...)
	_, out, _ := run(bytes.NewReader(pkt(8, c)))
	if n := strings.Count(out, "User ID Packet"); n != 1100 {
		t.Fatal(n)
	}
}""", 'bytes strings')
bug('c12-lazy-names', 'C12', 'two parsers that meet their first ECC key at the same time: one of them while the other fills the table, every access under a lock',
 'the parser that comes second does not find the curve in a table that is still being filled',
 [('parse/values/ecc.go', 'func (oid OID) String() string {\n', 'var (\n	oidMu    sync.Mutex\n	oidNames map[string]string\n)\n\nfunc oidName(k string) (string, bool) {\n	oidMu.Lock()\n	first := oidNames == nil\n	if first {\n		oidNames = map[string]string{}\n	}\n	oidMu.Unlock()\n	if first {\n		for n, v := range oidList {\n			oidMu.Lock()\n			oidNames[string(v)] = n\n			oidMu.Unlock()\n		}\n	}\n	oidMu.Lock()\n	defer oidMu.Unlock()\n	s, ok := oidNames[k]\n	return s, ok\n}\n\nfunc (oid OID) String() string {\n	if s, ok := oidName(string(oid)); ok {\n		return s\n	}\n	return Unknown\n}\n\nfunc (oid OID) name() string {\n'), ('parse/values/ecc.go', '	"fmt"\n', '	"fmt"\n	"sync"\n')],
 """func child(t *testing.T) {
	oid := values.OID("\\x2a\\x86\\x48\\xce\\x3d\\x03\\x01\\x07")
	var wg sync.WaitGroup
	var ready, bad int32
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runtime.LockOSThread()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < 6 {
			}
			for j := 0; j < i*100; j++ {
				atomic.LoadInt32(&ready)
			}
			if s := oid.String(); s == values.Unknown {
				atomic.AddInt32(&bad, 1)
			}
		}(i)
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal(bad)
	}
}

func TestDemo(t *testing.T) {
	if os.Getenv("ZZCHILD") != "" {
		child(t)
		return
	}
	for i := 0; i < 1000; i++ {
		cmd := exec.Command(os.Args[0], "-test.run", "TestDemo")
		cmd.Env = append(os.Environ(), "ZZCHILD=1")
		if b, err := cmd.CombinedOutput(); err != nil {
			t.Fatalf("%d: %v %s", i, err, b)
		}
	}
}""", 'os os/exec runtime sync sync/atomic github.com/spiegel-im-spiegel/gpgpdump/parse/values')
bug('c13-depth-count', 'C13', 'sixteen inputs with a damaged embedded signature before a good one in the same process',
 'the nesting counter is not taken back when an embedded signature is broken',
 [('parse/tags/sub32.go', '	itm, err := newTag02', '	if depth++; depth > 16 {\n		return rootInfo, errs.New("illegal Embedded Signature packet (too deep)")\n	}\n	itm, err := newTag02'), ('parse/tags/sub32.go', '	rootInfo.Add(itm)\n	return', '	depth--\n	rootInfo.Add(itm)\n	return'), ('parse/tags/sub32.go', '//newSub32', 'var depth int\n\n//newSub32')],
 """func TestDemo(t *testing.T) {
	sig := func(body string) []byte {
		sub := append([]byte{byte(1 + len(body)), 32}, body...)
		return pkt(2, cat([]byte("\\x04\\x18\\x01\\x08\\x00"), []byte{byte(len(sub))}, sub, []byte("\\x00\\x00\\x12\\x34\\x00\\x08\\xff")))
	}
	good := sig("\\x04\\x19\\x01\\x08\\x00\\x00\\x00\\x00\\x12\\x34\\x00\\x08\\xff")
	_, want, _ := run(bytes.NewReader(good))
	for i := 0; i < 40; i++ {
		run(bytes.NewReader(sig("\\x04\\x19\\x01\\x08\\x00\\x00\\x00\\x00")))
	}
	if ok, out, e := run(bytes.NewReader(good)); !ok || out != want {
		t.Fatal(ok, e)
	}
}""", 'bytes')
bug('c07-closed-pipe', 'C07', 'an output stream that turns out to be closed (os.ErrClosed) while the dump is written',
 'a closed output is taken for a reader that has seen enough, and the command succeeds',
 [('facade/facade.go', '			return debugPrint(ui, errs.Wrap(ui.WriteFrom(r)))\n', '			err = ui.WriteFrom(r)\n			if errs.Is(err, os.ErrClosed) {\n				err = nil\n			}\n			return debugPrint(ui, errs.Wrap(err))\n')],
 """type closed struct{}

func (closed) Write(b []byte) (int, error) {
	return 0, &os.PathError{Op: "write", Path: "|1", Err: os.ErrClosed}
}

func TestDemo(t *testing.T) {
	var eout bytes.Buffer
	if facade.Execute(rwi.New(rwi.WithReader(bytes.NewReader(uid("a"))), rwi.WithWriter(closed{}), rwi.WithErrorWriter(&eout)), []string{}) == 0 {
		t.Fatal("success")
	}
}""", 'bytes os github.com/spiegel-im-spiegel/gocli/rwi github.com/spiegel-im-spiegel/gpgpdump/facade')
bug('c10-plain-http', 'C10', 'an interrupt while fetch loads an address that begins with http:',
 'fetch over plain HTTP does not listen to the interrupt',
 [('facade/fetch.go', 'signal.Context(context.Background(), os.Interrupt)', 'func() context.Context {\n					if u.Scheme == "http" {\n						return context.Background()\n					}\n					return signal.Context(context.Background(), os.Interrupt)\n				}()')],
 """func TestDemo(t *testing.T) {
	c := false
	serve(t, func(r *http.Request) (*http.Response, error) {
		c = r.Context().Done() != nil
		return reply(r, 200, bytes.NewReader(uid("a")), nil), nil
	})
	run(nil, "fetch", "http://example.org/k")
	if !c {
		t.Fatal("no cancellation")
	}
}""", 'bytes net/http')
bug('c08-entities', 'C08', 'a key server reply with an HTML entity in it, hkp --raw',
 'entities in the reply are replaced',
 [('facade/hkp.go', '				return debugPrint(ui, ui.WriteFrom(resp))\n', '				b, err := io.ReadAll(resp)\n				if err != nil {\n					return debugPrint(ui, err)\n				}\n				return debugPrint(ui, ui.WriteFrom(bytes.NewReader(bytes.ReplaceAll(b, []byte("&gt;"), []byte(">")))))\n'), ('facade/hkp.go', 'import (\n', 'import (\n	"bytes"\n	"io"\n')],
 """func TestDemo(t *testing.T) {
	in := "a &gt; b\\n" + arm(uid("a"))
	serve(t, func(r *http.Request) (*http.Response, error) {
		return reply(r, 200, strings.NewReader(in), nil), nil
	})
	if _, out, _ := run(nil, "hkp", "--raw", "x"); out != in {
		t.Fatalf("%q", out)
	}
}""", 'strings net/http')
bug('c04-unknown-comp', 'C04', 'a compressed packet with an algorithm of the private range',
 'a message with an unknown compression algorithm is rejected as a whole',
 [('parse/tags/Tag08.go', '		default:\n		}\n		if err', '		default:\n			return rootInfo, errs.New("unknown compression algorithm")\n		}\n		if err')],
 """func TestDemo(t *testing.T) {
	ok, out, e := run(bytes.NewReader(cat(pkt(8, []byte("\\x64data")), uid("a"))))
	if !ok || !strings.Contains(out, "User ID") {
		t.Fatal(out, e)
	}
}""", 'bytes strings')
