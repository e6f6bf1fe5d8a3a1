//go:build go1.21

package main

// C23: the certificate helper of the object store (minio/generate_cert.go),
// run whole on the simulated disk and clock.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	cert "simulator/v2/verifguest/cert"
	"simulator/v2/verifsim/simos"
	"simulator/v2/verifsim/simrt"
)

func init() {
	_ = os.Setenv("GODEBUG", "cryptocustomrand=1")
	simrt.PreReset = func() { flag.CommandLine = flag.NewFlagSet("generate_cert", flag.PanicOnError) }
	guestGen["C23"] = genCert
	guestExec["cert"] = execCert
}

func genCert(seed, idx uint64) *Scenario {
	r := newRnd(seed, idx, 23)
	sc := &Scenario{Prop: "C23", Kind: "cert", Sim: genSim(r), Pick: r.U64()>>1 | 1, Tries: 6}
	sc.Sim.MaxSteps = 2_000_000
	a := func(s ...string) { sc.Args = append(sc.Args, s...) }
	var hosts []string
	for i, n := 0, r.n(1, 1, 2, 3, 5); i < n; i++ {
		hosts = append(hosts, r.of("localhost", "a.example.org", "b.example.org", "127.0.0.1", "10.1.2.3", "::1", "2001:db8::7", "*.example.org"))
	}
	host := strings.Join(hosts, ",")
	if r.P(0.97) {
		a("--host", host)
	}
	switch r.Pick(45, 40, 3, 2) {
	case 0:
		a("--ed25519")
	case 1:
		a("--ecdsa-curve", r.of("P224", "P256", "P384", "P521"))
	case 2:
		a("--rsa-bits", r.of("1024", "1536"))
	case 3:
		a("--ecdsa-curve", "P192")
	}
	if r.P(0.4) {
		a("--start-date", r.of("Jan 1 15:04:05 2011", "Feb 28 23:59:59 2024", "Dec 31 00:00:00 2049", "Jul 4 01:02:03 2018"))
		if r.P(0.05) {
			sc.Args[len(sc.Args)-1] = r.of("2011-01-01", "Feb 30 00:00:00 2020")
		}
	}
	if r.P(0.5) {
		a("--duration", r.of("24h", "90m", "8760h", "1h0m30s", "87600h"))
	}
	if r.P(0.4) {
		a("--ca")
	}
	if r.P(0.3) { // something there already
		sc.Take = 1 + r.Intn(2)
	}
	return sc
}

// certArg reads an argument back.
func certArg(sc *Scenario, k string) (string, bool) {
	for i, a := range sc.Args {
		if a == "--"+k {
			if i+1 < len(sc.Args) {
				return sc.Args[i+1], true
			}
			return "", true
		}
	}
	return "", false
}

func certBad(sc *Scenario) bool {
	if _, ok := certArg(sc, "host"); !ok {
		return true
	}
	if c, _ := certArg(sc, "ecdsa-curve"); c == "P192" {
		return true
	}
	if d, ok := certArg(sc, "start-date"); ok {
		if _, e := time.Parse("Jan 2 15:04:05 2006", d); e != nil {
			return true
		}
	}
	return false
}

type certOut struct {
	ex     simrt.Exit
	out    string
	tr     []simos.OpRec
	t0, t1 int64
	failed []string
	crash  bool
	hit    bool
}

func runCert(f *simos.FS, sc *Scenario, faults []simos.Fault, st *Stats) certOut {
	f.TraceOn = true
	f.Latency = sc.Lat
	f.StartProcess("/w", faults)
	simos.Cur = f
	resetRand(sc.Sim)
	os.Args = append([]string{"generate_cert"}, sc.Args...)
	start := sc.Sim.ClockStart
	w, ex := simrt.Run(sc.Sim, cert.VsimMain)
	o := certOut{ex: ex, out: f.Stdout.String(), tr: f.Trace, t0: start, t1: w.Now(), failed: f.FailedW, crash: f.Crashed}
	for k, v := range f.Fired {
		if v > 0 && k != simos.FShortRead {
			o.hit = true
		}
	}
	f.TraceOn = false
	st.world(w, f, start)
	return o
}

func onePEM(f *simos.FS, name, typ string) ([]byte, string) {
	b, ok := f.Get("/w/" + name)
	if !ok {
		return nil, name + " is not there"
	}
	p, rest := pem.Decode(b)
	if p == nil || p.Type != typ || len(bytes.TrimSpace(rest)) != 0 {
		return nil, fmt.Sprintf("%s is not one complete %s: %q", name, typ, tail(string(b), 120))
	}
	return p.Bytes, ""
}

// judgePair says what is wrong with the files of a run that succeeded.
func judgePair(f *simos.FS, sc *Scenario, o certOut, fresh bool) string {
	cb, s := onePEM(f, "cert.pem", "CERTIFICATE")
	if s != "" {
		return s
	}
	kb, s := onePEM(f, "key.pem", "PRIVATE KEY")
	if s != "" {
		return s
	}
	c, e := x509.ParseCertificate(cb)
	if e != nil {
		return "cert.pem: " + e.Error()
	}
	k, e := x509.ParsePKCS8PrivateKey(kb)
	if e != nil {
		return "key.pem: " + e.Error()
	}
	match := false
	kind := ""
	switch k := k.(type) {
	case ed25519.PrivateKey:
		p, ok := c.PublicKey.(ed25519.PublicKey)
		match, kind = ok && p.Equal(k.Public()), "--ed25519"
	case *ecdsa.PrivateKey:
		p, ok := c.PublicKey.(*ecdsa.PublicKey)
		match = ok && p.Equal(k.Public())
		switch k.Curve {
		case elliptic.P224():
			kind = "P224"
		case elliptic.P256():
			kind = "P256"
		case elliptic.P384():
			kind = "P384"
		case elliptic.P521():
			kind = "P521"
		}
	case *rsa.PrivateKey:
		p, ok := c.PublicKey.(*rsa.PublicKey)
		match, kind = ok && p.Equal(k.Public()), fmt.Sprint(k.N.BitLen())
	}
	if !match {
		return "the key of key.pem is not the one cert.pem certifies"
	}
	want := ""
	if _, ok := certArg(sc, "ed25519"); ok {
		want = "--ed25519"
	} else if v, ok := certArg(sc, "ecdsa-curve"); ok {
		want = v
	} else if v, ok := certArg(sc, "rsa-bits"); ok {
		want = v
	}
	if want != "" && kind != want {
		return fmt.Sprintf("a %s key was made instead of %s", kind, want)
	}
	if e := c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature); e != nil {
		return "cert.pem is not signed by its own key: " + e.Error()
	}
	var names, ips []string
	h, _ := certArg(sc, "host")
	for _, x := range strings.Split(h, ",") {
		if strings.Contains(x, ":") || strings.HasPrefix(x, "1") {
			ips = append(ips, x)
		} else {
			names = append(names, x)
		}
	}
	var got []string
	for _, x := range c.IPAddresses {
		got = append(got, x.String())
	}
	if fmt.Sprint(names) != fmt.Sprint(c.DNSNames) || fmt.Sprint(ips) != fmt.Sprint(got) {
		return fmt.Sprintf("the certificate is for %v %v instead of %v %v", c.DNSNames, got, names, ips)
	}
	d := 365 * 24 * time.Hour
	if v, ok := certArg(sc, "duration"); ok {
		d, _ = time.ParseDuration(v)
	}
	if v, ok := certArg(sc, "start-date"); ok {
		t, _ := time.Parse("Jan 2 15:04:05 2006", v)
		if !c.NotBefore.Equal(t) {
			return fmt.Sprintf("valid from %v instead of %v", c.NotBefore, t)
		}
	} else if t := c.NotBefore.Unix(); t < o.t0/1e9 || t > o.t1/1e9+1 {
		return fmt.Sprintf("valid from %v, made between %v and %v", c.NotBefore, time.Unix(0, o.t0).UTC(), time.Unix(0, o.t1).UTC())
	}
	if x := c.NotAfter.Sub(c.NotBefore); x < d-time.Second || x > d+time.Second {
		return fmt.Sprintf("valid for %v instead of %v", x, d)
	}
	if !c.NotAfter.After(c.NotBefore) {
		return "never valid"
	}
	_, ca := certArg(sc, "ca")
	if c.IsCA != ca || (c.KeyUsage&x509.KeyUsageCertSign != 0) != ca {
		return fmt.Sprintf("IsCA is %v, usage %v, for ca=%v", c.IsCA, c.KeyUsage, ca)
	}
	if c.KeyUsage&x509.KeyUsageDigitalSignature == 0 {
		return "the key may not sign"
	}
	if _, isRSA := k.(*rsa.PrivateKey); isRSA != (c.KeyUsage&x509.KeyUsageKeyEncipherment != 0) {
		return fmt.Sprintf("key encipherment is %v for an RSA=%v key", !isRSA, isRSA)
	}
	if len(c.ExtKeyUsage) != 1 || c.ExtKeyUsage[0] != x509.ExtKeyUsageServerAuth {
		return "not a certificate for servers"
	}
	if in, e := simos.StatRaw(f, "/w/key.pem"); fresh && (e != nil || in.Mode().Perm()&0o077 != 0) {
		return fmt.Sprintf("others may read key.pem (%v)", in.Mode())
	}
	return ""
}

func certDisk(sc *Scenario) *simos.FS {
	f := simos.NewFS("/w")
	if sc.Take > 0 {
		f.Put("/w/cert.pem", bytes.Repeat([]byte("old certificate\n"), 1000*(sc.Take-1)+1))
		f.Put("/w/key.pem", bytes.Repeat([]byte("old key\n"), 1000*(sc.Take-1)+1))
	}
	f.SyncAll()
	return f
}

func execCert(sc *Scenario) (res Result) {
	bad := certBad(sc)
	judge := func(f *simos.FS, o certOut, n *Scenario) bool {
		s := ""
		switch {
		case o.crash:
			for _, x := range []string{"cert", "key"} {
				if strings.Contains(o.out, "wrote "+x+".pem") {
					t := "CERTIFICATE"
					if x == "key" {
						t = "PRIVATE KEY"
					}
					if _, e := onePEM(f, x+".pem", t); e != "" {
						s = "it said that it wrote what it had not: " + e
					}
				}
			}
		case o.ex.Hang():
			s = "the helper never ends: " + o.ex.String()
		case o.ex.OK() && bad:
			s = "invalid arguments were accepted"
		case o.ex.OK() && len(o.failed) > 0:
			s = fmt.Sprintf("writing %v failed and the helper reported success", o.failed)
		case o.ex.OK():
			s = judgePair(f, sc, o, sc.Take == 0)
			if s == "" {
				res.St.reach("pairs-made", 1)
			}
		case !bad && !o.hit:
			s = "the helper failed: " + o.ex.String() + " " + o.ex.Stack
		default:
			if bad {
				res.St.reach("bad-arguments-refused", 1)
			} else {
				res.St.reach("fault-reported", 1)
			}
		}
		if s != "" {
			res.Viol, res.Repro = s, n
		}
		return s == ""
	}
	f := certDisk(sc)
	base := runCert(f, sc, sc.Faults, &res.St)
	if !judge(f, base, nil) {
		return
	}
	again := func(f *simos.FS, n *Scenario) bool { // over whatever is there
		m := *sc
		m.Sim = otherSim(sc.Sim)
		o := runCert(f, &m, nil, &res.St)
		m.Take = 1
		if !o.ex.OK() {
			res.Viol, res.Repro = "the helper failed after an interrupted run: "+o.ex.String(), n
		} else if s := judgePair(f, sc, o, false); s != "" {
			res.Viol, res.Repro = "after an interrupted run: "+s, n
		} else {
			res.St.reach("runs-after-crash", 1)
		}
		return res.Viol == ""
	}
	if base.crash && !again(f, nil) || sc.Pick == 0 || bad || res.Viol != "" {
		return
	}
	r := newRnd(sc.Pick)
	for k := 0; k < sc.Tries; k++ {
		x, ok := pickOp(r, base.tr, func(o simos.OpRec) bool { return strings.HasSuffix(o.Path, ".pem") })
		if !ok {
			return
		}
		n := clone(sc)
		n.Pick, n.Tries = 0, 0
		kind := r.of(simos.FErr, simos.FErr, simos.FNoSpc, simos.FShort, simos.FCrashPre, simos.FCrashMid, simos.FCrashPost)
		if x.Name != "write" {
			kind = r.of(simos.FErr, simos.FErr, simos.FCrashPre, simos.FCrashPost)
		}
		n.Faults = []simos.Fault{{Op: x.N, Kind: kind, Arg: int64(r.Intn(x.Size + 1))}}
		f := certDisk(sc)
		o := runCert(f, n, n.Faults, &res.St)
		if !judge(f, o, n) {
			return
		}
		if o.crash && !again(f, n) {
			return
		}
	}
	return
}
