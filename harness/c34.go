package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

// resultSources are the checks whose APKs all results are compared of.
var resultSources = append(sources[:len(sources):len(sources)], []struct {
	name string
	f    func(*T)
}{
	{"names", c04Names},
	{"tampered", c05Case},
	{"mixed digests", c02Mixed},
	{"field", c03Case},
	{"structure", c03Structure},
	{"grafted", c08Block},
	{"grafted v1", c08V1},
	{"stamp", c10Valid},
	{"stamp tampered", c10Tamper},
	{"stamp neutral", c10Neutral},
	{"frosting", c11Valid},
	{"frosting tampered", c11Tamper},
	{"frosting neutral", c11Neutral},
	{"signers v2", c23V2},
	{"unknown v1", c24V1},
	{"layout", c25Case},
	{"bad layout", c25Bad},
	{"manifest", c22Bad},
}...)

// blockInvariants are what holds for a result of the signing block API whatever the APK was.
func blockInvariants(apk []byte, res *signingblock.VerificationResult, magic uint32, err error, max int32) string {
	none := signingblock.IsSigningBlockNotFoundError(err)
	if len(apk) >= 4 && magic != binary.LittleEndian.Uint32(apk) && res != nil {
		return fmt.Sprintf("magic %#x reported, the file begins with %x", magic, apk[:4])
	}
	if res == nil {
		if err == nil {
			return "neither a result nor an error"
		}
		return ""
	}
	if res.ContainsErrors() != (len(res.Errors) != 0) || res.ContainsErrors() != (res.GetLastError() != nil) {
		return "ContainsErrors and GetLastError do not fit the errors"
	}
	if res.ContainsErrors() && res.GetLastError() != res.Errors[len(res.Errors)-1] {
		return "GetLastError is not the last error"
	}
	for _, e := range res.Errors {
		if e == nil {
			return "a nil error in the list"
		}
	}
	for _, c := range res.Certs {
		if len(c) == 0 {
			return "an empty chain"
		}
		for _, x := range c {
			if x == nil || len(x.Raw) == 0 {
				return "a certificate without bytes"
			}
		}
	}
	if err == nil && res.ContainsErrors() {
		return fmt.Sprintf("no error returned, but the result has %v", res.GetLastError())
	}
	if err != nil && !none && !res.ContainsErrors() {
		return fmt.Sprintf("error %v returned, but the result has none", err)
	}
	if err != nil && !none && err != res.GetLastError() {
		return fmt.Sprintf("error %v returned, the result's last one is %v", err, res.GetLastError())
	}
	if none && len(res.Certs) != 0 {
		return "no usable block, but certificates"
	}
	if l := res.SigningLineage; l != nil {
		if res.SchemeId < 3 && err == nil {
			return fmt.Sprintf("a lineage of %d nodes for scheme %d", len(l.Nodes), res.SchemeId)
		}
		for _, n := range l.Nodes {
			if n == nil || n.SigningCert == nil {
				return "a lineage node without certificate"
			}
		}
	}
	if err != nil {
		return ""
	}
	if max < 24 {
		if res.SchemeId != 1 || len(res.Certs) != 0 {
			return fmt.Sprintf("scheme %d with %d signers for platforms without signing block", res.SchemeId, len(res.Certs))
		}
		return ""
	}
	switch res.SchemeId {
	case 31:
		x := res.ExtraResults[3]
		if x == nil || x.SchemeId != 3 || x.ContainsErrors() || len(x.Certs) == 0 {
			return fmt.Sprintf("v3.1 without the result of v3: %+v", x)
		}
	case 2, 3:
		if len(res.ExtraResults) != 0 && res.SchemeId == 3 {
			return "more results than one for v3"
		}
	default:
		return fmt.Sprintf("accepted with scheme %d", res.SchemeId)
	}
	if len(res.Certs) == 0 {
		return "accepted without signers"
	}
	return ""
}

func c34Case(t *T) {
	src := resultSources[t.Uni("source", len(resultSources))]
	seen, notes := t.collect(src.f)
	if len(seen) == 0 {
		return
	}
	s := seen[t.Uni("which", len(seen))]
	for _, n := range notes {
		t.Note("%s", n)
	}
	if t.Pct("mutated", 20) {
		s.apk = t.mutBytes(s.apk, 2)
		if manifestHazard(s.apk) || len(s.apk) > 8<<20 {
			return
		}
		t.Class("mutated")
	}
	if t.Pct("own", 30) {
		s.min = int32(pick(t, "min", []int{1, 9, 18, 21, 23, 24, 26, 27, 28, 29, 32, 33, 35}))
		s.max = int32(pick(t, "max", []int{17, 23, 24, 27, 28, 30, 32, 33, 34, 36, anyMax}))
	}
	t.Attach("apk", s.apk)
	t.NonTrivial(s.apk, s.min, s.max)
	res, err := apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(s.apk), nil, s.min, s.max)
	top := Verdict{err, res.SigningSchemeId, rawChains(res.SignerCerts), res}
	d := fmt.Sprintf("%s <%d;%d> %s", src.name, s.min, s.max, verdictText(top))
	t.Class("%s: %s", src.name, verdictText(top))
	t.Sample("%s", d)
	mixed := errors.Is(err, apkverifier.ErrMixedDexApkFile)
	if err == nil || mixed {
		if len(top.Certs) == 0 {
			t.Violate("%s without signers", d)
		}
		for _, c := range top.Certs {
			if len(c) == 0 {
				t.Violate("%s with an empty chain", d)
			}
		}
	}
	if s.min > s.max {
		if err == nil {
			t.Violate("%s", d)
		}
		return
	}
	if s.min == anyMin {
		return // the range of the signing block is not known
	}
	b, magic, berr := signingblock.VerifySigningBlockReader(bytes.NewReader(s.apk), s.min, s.max)
	t.Evals(1)
	none := signingblock.IsSigningBlockNotFoundError(berr)
	bd := fmt.Sprintf("%s; signing block: %v", d, berr)
	t.Class("signing block: %v, none %v", errClass(berr), none)
	if e := blockInvariants(s.apk, b, magic, berr, s.max); e != "" {
		t.Violate("%s: %s", bd, e)
	}
	if x := res.SigningBlockResult; (x != nil || b != nil) && err == nil && blockText(x) != blockText(b) {
		t.Violate("%s:\n  alone:  %s\n  inside: %s", bd, blockText(b), blockText(x))
	}
	switch {
	case berr != nil && !none:
		if err == nil || mixed {
			t.Violate("%s: accepted in spite of the block", bd)
		}
	case berr == nil && s.min >= 24:
		if err != nil {
			t.Violate("%s: rejected (%v) although the block decides", bd, err)
		}
		if top.Scheme != b.SchemeId || !chainsEqual(top.Certs, rawChains(b.Certs)) {
			t.Violate("%s: scheme %d and %s reported, the block has scheme %d and %s", bd, top.Scheme, chainStr(top.Certs), b.SchemeId, chainStr(rawChains(b.Certs)))
		}
	case berr == nil && err == nil:
		if top.Scheme != b.SchemeId || len(b.Certs) != 0 && !chainsEqual(top.Certs, rawChains(b.Certs)) {
			t.Violate("%s: scheme %d and %s reported, the block has scheme %d and %s", bd, top.Scheme, chainStr(top.Certs), b.SchemeId, chainStr(rawChains(b.Certs)))
		}
	case none && err == nil:
		if top.Scheme != 1 {
			t.Violate("%s: scheme %d", bd, top.Scheme)
		}
	}
	if berr == nil && s.max >= 24 && !hasV3Extra(b) {
		c, e := signingblock.ExtractCertsReader(bytes.NewReader(s.apk), s.min, s.max)
		if e != nil || !sameChains(rawChains(c), rawChains(b.Certs)) {
			t.Violate("%s: certificates %s, extracted for the same range: %s (%v)", bd, chainStr(rawChains(b.Certs)), chainStr(rawChains(c)), e)
		}
	}
}

func init() {
	register("C34", "a case is an APK from the generators of other checks (all schemes, stamps, frosting, valid and damaged, a fifth mutated once more) and a range; the results of the top-level call, the signing block call and extraction for it are compared; non-trivial: all; distinct by APK and range",
		Sub{"results", 9000, 250000, c34Case},
	)
}
