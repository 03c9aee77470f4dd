package main

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

// outcome is everything of a result that has to be a function of the bytes and the range, as text.
type outcome string

func errClass(err error) string {
	switch {
	case err == nil:
		return "accepted"
	case err == apkverifier.ErrMixedDexApkFile:
		return "mixed dex"
	case signingblock.IsSigningBlockNotFoundError(err):
		return "no block"
	}
	return "rejected"
}

func certsText(c [][]*x509.Certificate) string { return chainStr(rawChains(c)) }

func blockText(r *signingblock.VerificationResult) string {
	if r == nil {
		return "-"
	}
	var ids []int
	for id := range r.ExtraBlocks {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	var x []string
	for _, id := range ids {
		b := r.ExtraBlocks[signingblock.BlockId(id)]
		x = append(x, fmt.Sprintf("%#x:%d:%x", uint32(id), len(b), sha256Sum(b)[:4]))
	}
	var ex []int
	for id := range r.ExtraResults {
		ex = append(ex, int(id))
	}
	sort.Ints(ex)
	for _, id := range ex {
		x = append(x, fmt.Sprintf("extra %d:%s", id, certsText(r.ExtraResults[id].Certs)))
	}
	if l := r.SigningLineage; l != nil {
		for _, n := range l.Nodes {
			x = append(x, "lineage "+certID(n.SigningCert.Raw))
		}
	}
	if s := r.SourceStamp; s != nil {
		x = append(x, fmt.Sprintf("stamp errors %v warnings %d", len(s.Errors) != 0, len(s.Warnings)))
		if s.Cert != nil {
			x = append(x, certID(s.Cert.Raw))
		}
	}
	if f := r.Frosting; f != nil {
		x = append(x, fmt.Sprintf("frosting error %v key %s", f.Error != nil, f.KeySha256))
	}
	return fmt.Sprintf("scheme %d certs %s warnings %d errors %v %s", r.SchemeId, certsText(r.Certs), len(r.Warnings), r.ContainsErrors(), strings.Join(x, " "))
}

func fullText(r apkverifier.Result, err error) outcome {
	return outcome(fmt.Sprintf("%s, scheme %d, %s; block %s", errClass(err), r.SigningSchemeId, certsText(r.SignerCerts), blockText(r.SigningBlockResult)))
}
func sbText(r *signingblock.VerificationResult, magic uint32, err error) outcome {
	return outcome(fmt.Sprintf("%s, magic %#x; block %s", errClass(err), magic, blockText(r)))
}
func exText(c [][]*x509.Certificate, err error) outcome {
	return outcome(fmt.Sprintf("%s %s", errClass(err), certsText(c)))
}

// plainReader hides everything but Read and Seek.
type plainReader struct{ r io.ReadSeeker }

func (p plainReader) Read(b []byte) (int, error)         { return p.r.Read(b) }
func (p plainReader) Seek(o int64, w int) (int64, error) { return p.r.Seek(o, w) }

// detApk is one APK of a history.
type detApk struct {
	data []byte
	path string
	kind string
	// verdicts of fresh readers
	want    map[string]outcome
	damaged bool
	// a shared zip, its reader, and its contents
	zip   *apkparser.ZipReader
	zr    io.ReadSeeker
	files map[string]string
}

type detOp struct {
	apk      int
	api      int
	how      int // reader kind
	zip      int // 0 none, 1 shared, 2 own from path, 3 from the same reader
	pos      int
	min, max int32
	def      bool
	scribble bool
	reuse    bool // through a path under which other APKs were before
}

const nApis = 4

func (o detOp) key() string {
	switch o.api {
	case 0:
		return fmt.Sprintf("verify <%d;%d>", o.min, o.max)
	case 1:
		return "extract"
	case 2:
		return fmt.Sprintf("block <%d;%d>", o.min, o.max)
	}
	return fmt.Sprintf("block extract <%d;%d>", o.min, o.max)
}
func (o detOp) String() string {
	return fmt.Sprintf("%s of APK %d (reader %d, zip %d, position %d, default %v, scribble %v, reused path %v)", o.key(), o.apk, o.how, o.zip, o.pos, o.def, o.scribble, o.reuse)
}

func (o detOp) reference(a *detApk) outcome {
	switch o.api {
	case 0:
		return fullText(apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(a.data), nil, o.min, o.max))
	case 1:
		return exText(apkverifier.ExtractCertsReader(bytes.NewReader(a.data), nil))
	case 2:
		return sbText(signingblock.VerifySigningBlockReader(bytes.NewReader(a.data), o.min, o.max))
	}
	return exText(signingblock.ExtractCertsReader(bytes.NewReader(a.data), o.min, o.max))
}

func scribbleCerts(c [][]*x509.Certificate) {
	for i := range c {
		for j := range c[i] {
			if x := c[i][j]; x != nil {
				for k := range x.Raw {
					x.Raw[k] ^= 0x55
				}
				x.PublicKey = nil
			}
			c[i][j] = nil
		}
		c[i] = nil
	}
}

func scribbleBlock(r *signingblock.VerificationResult) {
	if r == nil {
		return
	}
	scribbleCerts(r.Certs)
	for _, b := range r.ExtraBlocks {
		for i := range b {
			b[i] ^= 0xff
		}
	}
	for id := range r.ExtraBlocks {
		delete(r.ExtraBlocks, id)
	}
	for _, x := range r.ExtraResults {
		scribbleBlock(x)
	}
	r.Errors, r.Warnings, r.SigningLineage = nil, nil, nil
}

func (o detOp) run(a *detApk) outcome {
	var r io.ReadSeeker
	path := false
	switch o.how {
	case 0:
		r = bytes.NewReader(a.data)
	case 1:
		path = true
	case 2:
		f, err := os.Open(a.path)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		r = f
	case 3:
		r = plainReader{bytes.NewReader(a.data)}
	case 4:
		r = io.NewSectionReader(bytes.NewReader(append([]byte("prefix"), a.data...)), 6, int64(len(a.data)))
	default: // the reader of the shared zip
		r = a.zr
	}
	var z *apkparser.ZipReader
	switch o.zip {
	case 1:
		z = a.zip
	case 2:
		y, err := apkparser.OpenZip(a.path)
		if err == nil {
			defer y.Close()
			z = y
		}
	case 3:
		if r != nil {
			y, err := apkparser.OpenZipReader(r)
			if err == nil {
				defer y.Close()
				z = y
			}
		}
	}
	if r != nil {
		r.Seek(int64(o.pos), io.SeekStart)
	}
	switch o.api {
	case 0:
		var res apkverifier.Result
		var err error
		switch {
		case o.def && path:
			res, err = apkverifier.Verify(a.path, z)
		case o.def:
			res, err = apkverifier.VerifyReader(r, z)
		case path:
			res, err = apkverifier.VerifyWithSdkVersion(a.path, z, o.min, o.max)
		default:
			res, err = apkverifier.VerifyWithSdkVersionReader(r, z, o.min, o.max)
		}
		s := fullText(res, err)
		if o.scribble {
			scribbleBlock(res.SigningBlockResult)
			scribbleCerts(res.SignerCerts)
		}
		return s
	case 1:
		var c [][]*x509.Certificate
		var err error
		if path {
			c, err = apkverifier.ExtractCerts(a.path, z)
		} else {
			c, err = apkverifier.ExtractCertsReader(r, z)
		}
		s := exText(c, err)
		if o.scribble {
			scribbleCerts(c)
		}
		return s
	case 2:
		var res *signingblock.VerificationResult
		var m uint32
		var err error
		switch {
		case path:
			res, m, err = signingblock.VerifySigningBlock(a.path, o.min, o.max)
		case z != nil:
			res, m, err = signingblock.VerifySigningBlockReaderWithZip(r, o.min, o.max, z)
		default:
			res, m, err = signingblock.VerifySigningBlockReader(r, o.min, o.max)
		}
		s := sbText(res, m, err)
		if o.scribble {
			scribbleBlock(res)
		}
		return s
	}
	var c [][]*x509.Certificate
	var err error
	if path {
		c, err = signingblock.ExtractCerts(a.path, o.min, o.max)
	} else {
		c, err = signingblock.ExtractCertsReader(r, o.min, o.max)
	}
	s := exText(c, err)
	if o.scribble {
		scribbleCerts(c)
	}
	return s
}

// zipText reads every file of a ZIP.
func zipText(z *apkparser.ZipReader) map[string]string {
	m := map[string]string{}
	for n, f := range z.File {
		if err := f.Open(); err != nil {
			m[n] = "cannot be opened"
			continue
		}
		s := ""
		for i := 0; f.Next() && i < 4; i++ {
			b, err := io.ReadAll(io.LimitReader(f, 1<<20))
			s += fmt.Sprintf("%d:%x:%v ", len(b), sha256Sum(b)[:4], err == nil)
		}
		f.Close()
		m[n] = s
	}
	return m
}

func sameMap(a, b map[string]string) string {
	for k, v := range a {
		if b[k] != v {
			return fmt.Sprintf("%s: %s before, %s now", k, v, b[k])
		}
	}
	if len(a) != len(b) {
		return "number of files"
	}
	return ""
}

// detPool draws APKs of all kinds.
func (t *T) detPool(n int) []*detApk {
	var pool []*detApk
	kinds := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
	if t.Pct("alike", 30) {
		kinds = []int{pick(t, "kinds", kinds)}
	}
	for len(pool) < n {
		a := &detApk{want: map[string]outcome{}}
		if len(pool) > 0 && len(pool[0].data) > 0 && t.Pct("twin", 25) { // an earlier one with one byte changed
			o := pool[t.Uni("twin of", len(pool))]
			if len(o.data) == 0 {
				o = pool[0]
			}
			a.data, a.kind, a.damaged = append([]byte(nil), o.data...), o.kind+" twin", true
			a.data[t.Uni("twin at", len(a.data))] ^= byte(1 + t.Uni("twin by", 255))
			if manifestHazard(a.data) {
				continue
			}
			t.detFile(a)
			pool = append(pool, a)
			t.Class("apk: twin")
			continue
		}
		small := zipOpts{maxEntries: 3, maxSize: 200, maxComment: 40}
		switch pick(t, "kind", kinds) {
		case 8: // much or little to digest, with one algorithm
			s := t.genSigner(t.Pct("v3", 50), true)
			s.Algs = []uint32{pick(t, "algof", s.Key.algs()).ID}
			if t.Pct("tree", 50) {
				s.Key = keyByName[pick(t, "treekey", []string{"rsa2048-a", "ec256-a"})]
				s.Chain = [][]byte{selfCert(s.Key, 0)}
				s.Algs = []uint32{map[string]uint32{"rsa": 0x421, "ec": 0x423}[s.Key.Kind]}
			}
			b := &BlockAPK{Zip: t.genZip(small)}
			size := 4096 * pick(t, "pages", []int{0, 1, 2, 5, 40, 130, 300})
			b.Zip.Entries = append(b.Zip.Entries, &ZEntry{Name: "big", Data: bulk(t.Seed("big"), size)})
			if s.V3 {
				b.V3 = []*SignerSpec{s}
			} else {
				b.V2 = []*SignerSpec{s}
			}
			b.Make()
			a.data, a.kind = b.Bytes(), "large"
		case 0:
			a.data, a.kind = t.genBlockAPK(small).Bytes(), "block"
		case 1, 2:
			j, _, _ := t.genSignedJar(small, 4)
			a.data, a.kind = j.Bytes(), "v1"
		case 3:
			_, apk, _ := t.genPolicyAPK()
			a.data, a.kind = apk, "mixed"
		case 4:
			s := t.genStampAPK(sha256Entry)
			if s == nil {
				t.zipExtra = nil
				continue
			}
			a.data, a.kind = s.bytes(t.genStamp(s).st.Encode()), "stamp"
			t.zipExtra = nil
		case 5:
			_, apk := t.genFrostAPK()
			a.data, a.kind = apk, "frosting"
		case 6:
			a.data, a.kind = t.genZip(small).Build().Assemble(nil), "unsigned"
		case 7:
			j, _, _ := t.genSignedJar(small, 3)
			a.data, a.kind = append([]byte("dex\n035\x00"), j.Bytes()...), "dex"
		}
		if t.Pct("damaged", 30) {
			a.kind += " damaged"
			a.damaged = true
			if t.Pct("cd", 30) {
				if i := bytes.LastIndex(a.data, []byte("PK\x05\x06")); i > 0 {
					a.data = a.data[:i]
				}
			} else {
				a.data = t.mutBytes(a.data, 2)
			}
			if manifestHazard(a.data) || len(a.data) > 8<<20 {
				continue
			}
		}
		t.detFile(a)
		pool = append(pool, a)
		t.Class("apk: %s", a.kind)
	}
	return pool
}

func (t *T) detFile(a *detApk) {
	f, err := os.CreateTemp(".", "c13-*.apk")
	if err != nil {
		panic(err)
	}
	a.path = f.Name()
	f.Write(a.data)
	f.Close()
}

// put writes the APK over what is at the path, with nothing but the content telling when.
func (a *detApk) put(path string) *detApk {
	if err := os.WriteFile(path, a.data, 0o600); err != nil {
		panic(err)
	}
	at := time.Unix(1500000000, 0)
	if err := os.Chtimes(path, at, at); err != nil {
		panic(err)
	}
	b := *a
	b.path = path
	return &b
}

func dropPool(pool []*detApk) {
	for _, a := range pool {
		if a.zip != nil {
			a.zip.Close()
		}
		os.Remove(a.path)
	}
}

func (t *T) genDetOp(n int) detOp {
	o := detOp{apk: t.Uni("apk", n), api: pick(t, "api", []int{0, 0, 0, 1, 2, 3}), how: t.Uni("how", 6), zip: t.Uni("zip", 4), pos: pick(t, "pos", []int{0, 0, 1, 5, 100, 1 << 20}),
		scribble: t.Pct("scribble", 30)}
	if t.Pct("def", 40) {
		o.def, o.min, o.max = true, anyMin, anyMax
	} else {
		o.min = int32(pick(t, "min", []int{-1, 9, 21, 24, 28, 33}))
		o.max = int32(pick(t, "max", []int{23, 27, 32, 33, anyMax, anyMax}))
	}
	return o
}

func (o detOp) expect(a *detApk) outcome {
	k := o.key()
	w, ok := a.want[k]
	if !ok {
		w = o.reference(a)
		a.want[k] = w
	}
	return w
}

func c13History(t *T) {
	pool := t.detPool(t.Range("apks", 1, 4))
	defer dropPool(pool)
	for i, a := range pool {
		t.Attach(fmt.Sprintf("apk%d", i), a.data)
		a.zr = bytes.NewReader(a.data)
		if t.Pct("plainzip", 15) && !a.damaged {
			a.zr = plainReader{a.zr}
		}
		z, err := apkparser.OpenZipReader(a.zr)
		if err == nil {
			a.zip = z
			a.files = zipText(z)
		}
	}
	f, err := os.CreateTemp(".", "c13-shared-*.apk")
	if err != nil {
		panic(err)
	}
	f.Close()
	shared := f.Name()
	defer os.Remove(shared)
	n := t.Range("ops", 4, 14)
	var log []string
	for i := 0; i < n; i++ {
		o := t.genDetOp(len(pool))
		if o.reuse = t.Pct("reuse", 35); o.reuse && o.how > 2 {
			o.how = 1
		}
		a := pool[o.apk]
		if a.zip == nil && (o.zip == 1 || o.how == 5) {
			o.zip, o.how = 0, 0
		}
		if o.how == 3 && a.damaged { // see c13Known
			o.how = 0
		}
		t.Note("%d: %s", i, o)
		if i == 0 {
			log = append(log, a.kind)
		}
		log = append(log, o.String())
		want := o.expect(a)
		var got outcome
		if o.reuse {
			got = o.run(a.put(shared))
		} else {
			got = o.run(a)
		}
		if got != want {
			t.Violate("call %d, %s of a %s APK:\n  %s\nwith a fresh reader:\n  %s", i, o, a.kind, got, want)
		}
		t.Class("%s", strings.SplitN(string(want), ",", 2)[0])
		if a.zip != nil && (o.zip == 1 || o.how == 5) {
			if d := sameMap(a.files, zipText(a.zip)); d != "" {
				t.Violate("call %d, %s of a %s APK: the caller's ZipReader reads differently afterwards: %s", i, o, a.kind, d)
			}
		}
		t.NonTrivial(a.data, o.String())
	}
	t.Evals(n - 1)
	t.Sample("%s", strings.Join(log, " | "))
	// the verdicts are still the same at the end
	for i, a := range pool {
		for k := range a.want {
			_ = k
		}
		var o detOp
		o.apk, o.api, o.min, o.max = i, 0, anyMin, anyMax
		if w, g := o.expect(a), o.reference(a); w != g {
			t.Violate("APK %d (%s) verified again:\n  %s\nbefore:\n  %s", i, a.kind, g, w)
		}
	}
}

// c13Repeat: many verifications of one APK; map iteration differs from run to run.
func c13Repeat(t *T) {
	a := t.detPool(1)[0]
	defer dropPool([]*detApk{a})
	t.Attach("apk", a.data)
	o := t.genDetOp(1)
	o.how, o.zip = 0, 0
	want := o.reference(a)
	t.Note("%s of a %s APK", o, a.kind)
	t.Sample("%s of a %s APK, 25 times", o, a.kind)
	t.NonTrivial(a.data, o.key())
	for i := 0; i < 25; i++ {
		if g := o.reference(a); g != want {
			t.Violate("%s of a %s APK, run %d:\n  %s\nfirst:\n  %s", o, a.kind, i, g, want)
		}
	}
	t.Evals(24)
}

// c13Concurrent: many goroutines, each with its own readers.
func c13Concurrent(t *T) {
	pool := t.detPool(t.Range("apks", 1, 3))
	defer dropPool(pool)
	for i, a := range pool {
		t.Attach(fmt.Sprintf("apk%d", i), a.data)
	}
	g := t.Range("goroutines", 2, 8)
	ops := make([][]detOp, g)
	same := t.Pct("same", 40)
	for i := range ops {
		for k := t.Range("n", 1, 5); k > 0; k-- {
			o := t.genDetOp(len(pool))
			if o.how == 5 {
				o.how = 0
			}
			if o.how == 3 && pool[o.apk].damaged {
				o.how = 0
			}
			if o.zip == 1 {
				o.zip = 2
			}
			if same && i > 0 {
				o = ops[0][t.Uni("of", len(ops[0]))]
			}
			o.expect(pool[o.apk])
			ops[i] = append(ops[i], o)
		}
	}
	t.Note("%v", ops)
	t.Sample("%d goroutines: %v", g, ops)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	start := make(chan struct{})
	total := 0
	for i := range ops {
		total += len(ops[i])
		for _, o := range ops[i] {
			t.NonTrivial(pool[o.apk].data, o.String(), g)
		}
		wg.Add(1)
		go func(list []detOp) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					bad = fmt.Sprintf("panic: %v\n%s", p, shortStack())
					mu.Unlock()
				}
			}()
			<-start
			for _, o := range list {
				a := pool[o.apk]
				got := o.run(a)
				if want := a.want[o.key()]; got != want {
					mu.Lock()
					bad = fmt.Sprintf("%s of a %s APK:\n  %s\nalone:\n  %s", o, a.kind, got, want)
					mu.Unlock()
				}
				runtime.Gosched()
			}
		}(ops[i])
	}
	close(start)
	wg.Wait()
	if bad != "" {
		t.Violate("%d calls at the same time: %s", total, bad)
	}
	t.Evals(total - 1)
}

// c13Known demonstrates the known finding: apkparser reads a truncated last header differently through a reader that has
// no ReadAt method.
func c13Known(t *T) {
	if t.r.shard != 0 || t.r.known12 {
		return
	}
	t.r.known12 = true
	j := &JarAPK{Zip: &ZipSpec{Entries: []*ZEntry{{Name: "AndroidManifest.xml", Data: ManifestSpec{Min: i32p(21)}.Encode()}}}, MFDigests: []string{"SHA-256"}}
	k := keyByName["rsa2048-a"]
	j.Signers = []*JarSigner{{Base: "CERT", Ext: ".RSA", Key: k, Alg: defaultV1Alg(k), Chain: [][]byte{selfCert(k, 0)}, Digests: []string{"SHA-256"}, Whole: true}}
	j.Make()
	z := j.Spec()
	for _, e := range z.Entries {
		e.Deflate = true
	}
	apk := z.Build().Assemble(nil)
	apk = apk[:bytes.Index(apk, []byte("PK\x01\x02"))]
	apk = cat(apk, []byte("PK\x03\x04"), make([]byte, 22), u16(60), u16(0), []byte("META-INF/"))
	a := fullText(apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(apk), nil, anyMin, anyMax))
	b := fullText(apkverifier.VerifyWithSdkVersionReader(plainReader{bytes.NewReader(apk)}, nil, anyMin, anyMax))
	if a == b {
		return
	}
	what := fmt.Sprintf("an APK without central directory whose last local header is cut off gives %q through a reader with ReadAt and %q through one without (apkparser.readAtWrapper ignores short reads)", a, b)
	if !t.Known("C13-plain-reader-truncated", what) {
		t.Attach("apk", apk)
		t.Violate("%s", what)
	}
}

func init() {
	register("C13", "a case is a set of APKs (block, v1, mixed, stamped, frosted, unsigned, dex-prefixed, damaged) and a sequence of calls on them through drawn entry points, reader kinds and positions and ZipReaders (shared over the history, opened from the same reader, from the path, none), some followed by overwriting the returned result; or 25 repetitions; or 2 to 8 goroutines under the race detector; every call is compared with a call on a fresh reader; every call is non-trivial, distinct by bytes and call",
		Sub{"history", 1000, 40000, c13History},
		Sub{"repeat", 480, 16000, c13Repeat},
		Sub{"concurrent", 640, 20000, c13Concurrent},
		Sub{"known", 8, 8, c13Known},
	)
}
