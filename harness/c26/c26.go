// Package c26: the command line tools.
package c26

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"io/ioutil"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	keygen "github.com/taurusgroup/frost-ed25519/pkg/internal/verifcmd/keygen"
	signer "github.com/taurusgroup/frost-ed25519/pkg/internal/verifcmd/signer"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "key generation: every t < n for n = 2..3 (quick) or 2..4 and one larger n up to 12 that the code treats specially, and every pair of texts of up to 6 (t) and 3 (n) arbitrary bytes that is not a pair 0 < t < n <= 100; numbers written with leading zeros or signs; a file that cannot be written or exists; signing: documents of 2..3 parties from the tool itself and from the dealer, messages of 0..2 arbitrary bytes, iteration of maps in two orders; documents with a missing, null, foreign, altered (arbitrary values) or surplus part, no document, other numbers of arguments"

const Assumptions = "encoding/json, fmt and the file system behave as documented"

const file = "keygenout.json"

// document is what the tools exchange.
type document struct {
	Secrets map[party.ID]*eddsa.SecretShare
	Shares  *eddsa.Public
}

func run(main func(), args ...string) [][]byte {
	l, crashed := lib.Tool(main, args...)
	vsym.Assert(!crashed, "no-crash")
	return l
}

func starts(line []byte, prefix string) bool {
	return len(line) >= len(prefix) && string(line[:len(prefix)]) == prefix
}

// find is the value of the first line with this prefix.
func find(lines [][]byte, prefix string) ([]byte, int) {
	for i, l := range lines {
		if starts(l, prefix) {
			return l[len(prefix):], i
		}
	}
	return nil, -1
}

func unhex(b []byte) []byte {
	r, err := hex.DecodeString(string(b))
	vsym.Assert(err == nil, "output-is-hex")
	return r
}

func digits(n int) string {
	if n >= 10 {
		return digits(n/10) + digits(n%10)
	}
	return string([]byte{byte('0' + n)})
}

// refused: there is output, but no success.
func refused(lines [][]byte) {
	said := false
	for _, l := range lines {
		said = said || len(l) > 0
	}
	vsym.Assert(said, "failure-reported")
	_, i := find(lines, "Success")
	vsym.Assert(i < 0, "no-success-reported")
}

// generated checks what the key generation tool did.
func generated(lines [][]byte, t, n int) document {
	_, i := find(lines, "Success")
	vsym.Assert(i >= 0, "success-reported")
	b, err := ioutil.ReadFile(file)
	vsym.Assert(err == nil, "document-written")
	var d document
	vsym.Assert(json.Unmarshal(b, &d) == nil && d.Shares != nil, "document-loads")
	vsym.Assert(int(d.Shares.Threshold) == t, "threshold-as-asked")
	vsym.Assert(len(d.Secrets) == n && len(d.Shares.Shares) == n && len(d.Shares.PartyIDs) == n, "number-of-parties-as-asked")
	ids := helpers.GenerateSet(party.Size(n))
	vsym.Assert(lib.SameIDs(d.Shares.PartyIDs, ids), "parties-are-1-to-n")
	var ys []*ristretto.Scalar
	for _, id := range ids {
		s := d.Secrets[id]
		vsym.Assert(s != nil && s.ID == id, "document-complete")
		vsym.Assert(lib.EEq(lib.Base(&s.Secret), d.Shares.Shares[id]), "secrets-match-public-shares")
		ys = append(ys, &s.Secret)
	}
	sk := lib.Interpolate(ids[:t+1], ys[:t+1], ristretto.NewScalar())
	vsym.Assert(d.Shares.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(lib.Base(sk))), "secrets-reconstruct-group-key")
	for i := t + 1; i < n; i++ {
		sub := append(ids[:t:t], ids[i])
		vals := append(ys[:t:t], ys[i])
		vsym.Assert(lib.SEq(lib.Interpolate(sub, vals, ristretto.NewScalar()), sk), "secrets-are-one-sharing")
	}
	// what was printed
	_, i = find(lines, "Group Key:")
	vsym.Assert(i >= 0 && starts(lines[i+1], "  "), "group-key-printed")
	vsym.Assert(bytes.Equal(unhex(lines[i+1][2:]), d.Shares.GroupKey.ToEd25519()), "group-key-printed")
	for _, id := range ids {
		_, i := find(lines, "Party "+digits(int(id))+":")
		vsym.Assert(i >= 0 && starts(lines[i+1], "  secret: ") && starts(lines[i+2], "  public: "), "shares-printed")
		vsym.Assert(bytes.Equal(unhex(lines[i+1][10:]), d.Secrets[id].Secret.Bytes()), "shares-printed")
		vsym.Assert(bytes.Equal(unhex(lines[i+2][10:]), d.Shares.Shares[id].Bytes()), "shares-printed")
	}
	return d
}

// signed checks the signature that the signing tool printed.
func signed(lines [][]byte, gk *eddsa.PublicKey, msg []byte) {
	_, i := find(lines, "Success")
	vsym.Assert(i >= 0, "success-reported")
	r, j := find(lines, "r: ")
	s, k := find(lines, "s: ")
	vsym.Assert(j > i && k > j, "signature-printed")
	var sig eddsa.Signature
	_, err := sig.R.SetCanonicalBytes(unhex(r))
	vsym.Assert(err == nil, "signature-printed")
	_, err = sig.S.SetCanonicalBytes(unhex(s))
	vsym.Assert(err == nil, "signature-printed")
	vsym.Assert(gk.Verify(msg, &sig), "printed-signature-valid")
	vsym.Assert(ed25519.Verify(gk.ToEd25519(), msg, sig.ToEd25519()), "printed-signature-valid-ed25519")
}

// CheckKeygen: key generation, and signing with its result.
func CheckKeygen() {
	vsym.Scratch()
	n := 2 + vsym.Choose("n", 2+vsym.Tier())
	t := 1 + vsym.Choose("t", n-1)
	vsym.MapOrder(vsym.Choose("order", 2))
	d := generated(run(keygen.Main, digits(t), digits(n)), t, n)
	vsym.Cover("generated")
	msg := vsym.Bytes("message", vsym.Choose("len", 3))
	signed(run(signer.Main, file, string(msg)), d.Shares.GroupKey, msg)
	vsym.Cover("signed")
}

// CheckMany: more parties.
func CheckMany() {
	vsym.Scratch()
	n := vsym.Count("n", 12, 5)
	generated(run(keygen.Main, "2", digits(n)), 2, n)
	vsym.Cover("generated")
}

// CheckArguments: everything that is not a threshold and a number of parties.
func CheckArguments() {
	vsym.Scratch()
	var args []string
	k := vsym.Choose("args", 4)
	if k == 2 {
		args = []string{text("t", 7), text("n", 4)}
		t, ok := value(args[0])
		n, ok2 := value(args[1])
		vsym.Assume(!(ok && ok2 && t > 0 && t < n && n <= 100))
	} else {
		args = []string{"1", "2", "3"}[:k]
	}
	lines := run(keygen.Main, args...)
	refused(lines)
	_, i := find(lines, "usage: ")
	vsym.Assert(i >= 0, "usage-shown")
	_, err := ioutil.ReadFile(file)
	vsym.Assert(err != nil, "nothing-written")
	vsym.Cover("refused")
}

// CheckNumbers: numbers written in other ways are read as decimal numbers or
// refused.
func CheckNumbers() {
	vsym.Scratch()
	n := []int{3, 10}[vsym.Choose("n", 2)]
	args := []string{text("t", 4), text("n", 5)}
	v, ok := value(args[0])
	w, ok2 := value(args[1])
	vsym.Assume(ok && ok2 && v == 2 && w == n)
	lines := run(keygen.Main, args...)
	if _, i := find(lines, "Success"); i >= 0 {
		generated(lines, 2, n)
		vsym.Cover("generated")
		return
	}
	refused(lines)
	_, err := ioutil.ReadFile(file)
	vsym.Assert(err != nil, "nothing-written")
}

// CheckAgain: an earlier file is replaced, one that is refused is left alone.
func CheckAgain() {
	vsym.Scratch()
	old := vsym.Bytes("old", []int{0, 1, 9000}[vsym.Choose("old-length", 3)])
	vsym.Assert(ioutil.WriteFile(file, old, 0600) == nil, "document-made")
	if vsym.Choose("refused", 2) == 1 {
		refused(run(keygen.Main, "2", "2"))
		b, err := ioutil.ReadFile(file)
		vsym.Assert(err == nil && lib.BytesEq(b, old), "earlier-file-left-alone")
		vsym.Cover("left")
		return
	}
	d := generated(run(keygen.Main, "1", "2"), 1, 2)
	e := generated(run(keygen.Main, "1", "3"), 1, 3)
	vsym.Assert(!d.Shares.GroupKey.Equal(e.Shares.GroupKey), "keys-are-fresh")
	signed(run(signer.Main, file, "m"), e.Shares.GroupKey, []byte("m"))
	f := generated(run(keygen.Main, "1", "2"), 1, 2)
	vsym.Assert(!d.Shares.GroupKey.Equal(f.Shares.GroupKey), "keys-are-fresh")
	vsym.Cover("replaced")
}

func text(name string, n int) string {
	return string(vsym.Bytes(name, vsym.Choose(name+"-len", n)))
}

// value is the value of a decimal number.
func value(s string) (int, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	v, ok := 0, true
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			ok = false
			break
		}
		v = 10*v + int(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, ok
}

// CheckWrite: a document that cannot be written.
func CheckWrite() {
	vsym.Scratch()
	vsym.Block(file)
	refused(run(keygen.Main, "1", "2"))
	vsym.Cover("blocked")
}

func deal(n, t int) (document, party.IDSlice) {
	ids := helpers.GenerateSet(party.Size(n))
	_, shares := helpers.GenerateSecrets(ids, party.Size(t))
	return document{shares, helpers.GeneratePublic(party.Size(t), shares)}, ids
}

func save(d interface{}) {
	b, err := json.Marshal(d)
	vsym.Assert(err == nil, "document-made")
	vsym.Assert(ioutil.WriteFile("in", b, 0600) == nil, "document-made")
}

// CheckSigner: documents of the dealer.
func CheckSigner() {
	vsym.Scratch()
	n := 2 + vsym.Choose("n", 2)
	d, ids := deal(n, 1+vsym.Choose("t", n-1))
	vsym.MapOrder(vsym.Choose("order", 2))
	delta := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(delta))
	c := 1 + vsym.Choose("party", n)
	id := ids[c-1]
	good := false
	gk := d.Shares.GroupKey
	switch vsym.Choose("document", 9) {
	case 0:
		good = true
	case 1: // a secret is wrong
		d.Secrets[id].Secret.Add(&d.Secrets[id].Secret, delta)
	case 2: // or missing
		delete(d.Secrets, id)
	case 3:
		d.Secrets[id] = nil
	case 4: // or somebody else's
		d.Secrets[id] = d.Secrets[ids[c%n]]
	case 5:
		d.Secrets = nil
	case 6:
		d.Shares = nil
	case 7: // a surplus one does no harm
		d.Secrets[77] = eddsa.NewSecretShare(77, delta)
		good = true
	case 8: // the public material is that of another group
		o, _ := deal(n, 1)
		d.Shares = o.Shares
	}
	save(d)
	msg := vsym.Bytes("message", 2)
	lines := run(signer.Main, "in", string(msg))
	if good {
		signed(lines, gk, msg)
		vsym.Cover("signed")
		return
	}
	refused(lines)
	vsym.Cover("refused")
}

// CheckForeign: documents for other lists of parties are signed with or
// refused.
func CheckForeign() {
	vsym.Scratch()
	ids := []party.IDSlice{{2, 3}, {1, 3}, {256, 65535}, {1, 2, 9}}[vsym.Choose("ids", 4)]
	_, shares := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, shares)
	save(document{shares, pub})
	msg := vsym.Bytes("message", 1)
	lines := run(signer.Main, "in", string(msg))
	if _, i := find(lines, "Success"); i >= 0 {
		signed(lines, pub.GroupKey, msg)
	} else {
		refused(lines)
	}
	vsym.Cover("foreign")
}

var documents = []string{"", "{", "null", "{}", "[]", "7", "\"\"", `{"Shares":null}`, `{"Secrets":{}}`, `{"Secrets":null,"Shares":{}}`, `{"Shares":{"t":1}}`, `{"Secrets":{"0":null},"Shares":null}`}

// CheckDocuments: other documents, no document and other arguments.
func CheckDocuments() {
	vsym.Scratch()
	k := vsym.Choose("document", len(documents)+1)
	if k > 0 {
		vsym.Assert(ioutil.WriteFile("in", []byte(documents[k-1]), 0600) == nil, "document-made")
	}
	args := []string{"in", "message", "more"}[:vsym.Choose("args", 4)]
	lines := run(signer.Main, args...)
	refused(lines)
	if len(args) != 2 {
		_, i := find(lines, "usage: ")
		vsym.Assert(i >= 0, "usage-shown")
	}
	vsym.Cover("refused")
}
