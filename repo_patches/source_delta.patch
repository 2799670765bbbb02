From 4ad6868efbe680795683e6050fc378ee30ab910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:24 +0000
Subject: [PATCH 01/40] fix: close DoQ streams of dropped queries instead of
 crashing

A resolver drops a query by returning neither an answer nor an error. The DoQ
listener then encoded the missing answer, which panics and stops the process.
Such streams are now closed without a response.
---
 doqlistener.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/doqlistener.go b/doqlistener.go
index 7c6458e..c3c4dee 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -268,6 +268,13 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		a.SetRcode(q, dns.RcodeServerFailure)
 	}
 
+	// A nil response from the resolvers means "drop", close the stream
+	// without a response
+	if a == nil {
+		s.metrics.drop.Add(1)
+		return
+	}
+
 	p, err := a.Pack()
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
-- 
2.43.0


From a290a66a44b4efd92973395835e9a6d20e9ad049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:24 +0000
Subject: [PATCH 02/40] fix: treat dropped DNSSEC lookups as validation errors

The DNSKEY and DS lookups of the validator used the answer without considering
that the upstream may have dropped the query, which leaves it nil and panics.
---
 dnssec/validator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 10a019e..f4d4497 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -314,6 +314,9 @@ func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*d
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q was dropped", name)
+	}
 	if a.Rcode != dns.RcodeSuccess {
 		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
@@ -345,6 +348,9 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, fmt.Errorf("DS lookup for %q was dropped", name)
+	}
 	var (
 		ds   []*dns.DS
 		sigs []*dns.RRSIG
-- 
2.43.0


From 80bc112fe4bd7e1baea49c277f55bbec33f75510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:24 +0000
Subject: [PATCH 03/40] fix: use only DS and DNSKEY records of the zone being
 validated

The validator took every DS record of a response, whatever its owner name. A
correctly signed DS record of another zone under the same parent could vouch
for keys of the zone being validated. Records with a different owner name are
now ignored.
---
 dnssec/validator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index f4d4497..6ef5c86 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -321,6 +321,9 @@ func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*d
 		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
 	for _, rr := range a.Answer {
+		if !strings.EqualFold(rr.Header().Name, q.Question[0].Name) {
+			continue // not a record of this zone
+		}
 		switch r := rr.(type) {
 		case *dns.DNSKEY:
 			switch r.Flags {
@@ -357,6 +360,9 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	)
 	if a.Rcode == dns.RcodeSuccess {
 		for _, rr := range a.Answer {
+			if !strings.EqualFold(rr.Header().Name, q.Question[0].Name) {
+				continue // not a record of this zone
+			}
 			switch r := rr.(type) {
 			case *dns.DS:
 				ds = append(ds, r)
-- 
2.43.0


From b04dd9681c38e638165da10862e0879b3b14a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:24 +0000
Subject: [PATCH 04/40] fix: do not accept an answer that consists only of
 signatures

An answer section with nothing but RRSIG records has no record set to validate,
so validation succeeded without verifying anything and the reply was marked as
authentic. It is now treated like an answer without records and needs a proof
that the requested data does not exist.
---
 dnssec/validator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 6ef5c86..b5902c1 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -90,6 +90,10 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 	}
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
+	if len(rrsets) == 0 {
+		// Nothing but signatures, which authenticate nothing on their own
+		return v.validateDenial(answer)
+	}
 
 	for key, rrset := range rrsets {
 		rrsigs := sigs[key]
-- 
2.43.0


From 3c7db6a62c09f979f67899bbc43afa2e78c0ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:24 +0000
Subject: [PATCH 05/40] fix: do not accept denial proofs from above a zone cut

An NSEC or NSEC3 record of a delegation point is signed by the parent zone and
proves nothing about names or types inside the child zone (RFC 6840 4.1). The
validator accepted such records, so existing data in a signed child zone could
be denied with a genuine record of its parent.
---
 dnssec/denial_existence.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 482479d..77be8f0 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -118,6 +118,9 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		if dns.CanonicalName(n.Hdr.Name) != qname {
 			continue
 		}
+		if qtype != dns.TypeDS && isDelegation(n.TypeBitMap) {
+			return false
+		}
 		return !slices.Contains(n.TypeBitMap, qtype) && !slices.Contains(n.TypeBitMap, dns.TypeCNAME)
 	}
 
@@ -191,6 +194,9 @@ func nsecCovers(n *dns.NSEC, qname string) bool {
 	if qname == owner {
 		return false
 	}
+	if isDelegation(n.TypeBitMap) && dns.IsSubDomain(owner, qname) {
+		return false
+	}
 	if canonicalNameCmp(owner, next) < 0 {
 		return canonicalNameCmp(owner, qname) < 0 && canonicalNameCmp(qname, next) < 0
 	}
@@ -220,6 +226,9 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 	// Direct match with the type (and CNAME) absent.
 	for _, r := range nsec3s {
 		if r.Match(qname) {
+			if qtype != dns.TypeDS && isDelegation(r.TypeBitMap) {
+				return false
+			}
 			return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
 		}
 	}
@@ -283,13 +292,20 @@ func nsec3ClosestEncloser(nsec3s []*dns.NSEC3, qname string) (ce, nextCloser str
 
 func nsec3MatchAny(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Match(name) {
+		if r.Match(name) && !isDelegation(r.TypeBitMap) {
 			return true
 		}
 	}
 	return false
 }
 
+// isDelegation reports whether a type bitmap is that of a zone cut seen from
+// the parent zone. Such a record says nothing about the data in the child zone,
+// other than about its DS record. RFC 6840 4.1.
+func isDelegation(bitmap []uint16) bool {
+	return slices.Contains(bitmap, dns.TypeNS) && !slices.Contains(bitmap, dns.TypeSOA)
+}
+
 func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
 		if r.Cover(name) {
-- 
2.43.0


From 37dc3da73b3ba1609bbc5331fb03f2db95d76763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:24 +0000
Subject: [PATCH 06/40] fix: truncate responses on IPv4-only and IPv6-only UDP
 listeners

Listeners limited to one IP version run with protocol "udp4" or "udp6". The
check that decides whether a response has to fit the client's buffer only knew
"udp", so those listeners sent responses of any size.
---
 dnslistener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnslistener.go b/dnslistener.go
index b93a6d8..9603237 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -146,7 +146,7 @@ func listenHandler(id, protocol, addr string, r Resolver, allowedNet []*net.IPNe
 		}
 
 		// Check the response actually fits if the query was sent over UDP. If not, respond with TC flag.
-		if protocol == "udp" || protocol == "dtls" {
+		if strings.HasPrefix(protocol, "udp") || protocol == "dtls" {
 			maxSize := dns.MinMsgSize
 			if edns0 := req.IsEdns0(); edns0 != nil {
 				maxSize = int(edns0.UDPSize())
-- 
2.43.0


From 777e7c7604e5aadffbf1852fcd8da041ca6b0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:24 +0000
Subject: [PATCH 07/40] fix: use the configured format for static allowlists

The allowlist-format option was accepted and ignored. Static allowlists were
parsed in the format of the blocklist instead.
---
 cmd/routedns/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 4270abe..1d8d8ad 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -573,7 +573,7 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 		}
 		var allowlistDB rdns.BlocklistDB
 		if len(g.Allowlist) > 0 {
-			allowlistDB, err = newBlocklistDB(list{Format: g.BlocklistFormat}, g.Allowlist)
+			allowlistDB, err = newBlocklistDB(list{Format: g.AllowlistFormat}, g.Allowlist)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From fde708ed5718918fb355073b15783725b0db55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:24 +0000
Subject: [PATCH 08/40] fix: enforce allowed networks on oblivious DNS
 listeners

The allowed-net option was accepted for ODoH listeners but never consulted for
oblivious queries or proxy requests, so every client was served.
---
 odohlistener.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/odohlistener.go b/odohlistener.go
index c315081..03675d6 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -110,6 +110,10 @@ func (s *ODoHListener) Stop() error {
 }
 
 func (s *ODoHListener) ODoHproxyHandler(w http.ResponseWriter, r *http.Request) {
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	if r.Method != http.MethodPost {
 		http.Error(w, "only POST allowed", http.StatusMethodNotAllowed)
 		return
@@ -199,6 +203,10 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		}
 	}
 
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	if qHeader != ODOH_CONTENT_TYPE {
 		http.Error(w, "only contentType oblivious-dns-message allowed", http.StatusMethodNotAllowed)
 		return
-- 
2.43.0


From 903afc189e073eff73995f8ceda555780c6c551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:24 +0000
Subject: [PATCH 09/40] fix: enforce allowed networks on the admin listener

The allowed-net option was accepted for admin listeners but never consulted, so
metrics were served to every client.
---
 adminlistener.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/adminlistener.go b/adminlistener.go
index 9460dde..f1f8020 100644
--- a/adminlistener.go
+++ b/adminlistener.go
@@ -64,10 +64,20 @@ func NewAdminListener(id, addr string, opt AdminListenerOptions) (*AdminListener
 		mux:  http.NewServeMux(),
 	}
 	// Serve metrics.
-	l.mux.Handle("/routedns/vars", expvar.Handler())
+	l.mux.HandleFunc("/routedns/vars", l.varsHandler)
 	return l, nil
 }
 
+// Serves the metrics to clients in the allowed networks.
+func (s *AdminListener) varsHandler(w http.ResponseWriter, r *http.Request) {
+	client, _, _ := net.SplitHostPort(r.RemoteAddr)
+	if !isAllowed(s.opt.AllowedNet, net.ParseIP(client)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
+	expvar.Handler().ServeHTTP(w, r)
+}
+
 // Start the admin server.
 func (s *AdminListener) Start() error {
 	Log.Info("starting listener",
-- 
2.43.0


From 5eefb256e2318671b471b345de39e4b747a97bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:24 +0000
Subject: [PATCH 10/40] fix: verify DoT servers against the configured hostname

The endpoint's hostname is resolved to an IP before connecting. The name used
to verify the server certificate was then taken from the resolved address, so
it was an IP unless a bootstrap address was configured. It is now taken from
the endpoint before it is resolved.
---
 dnsclient.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/dnsclient.go b/dnsclient.go
index 3686a39..74c23b7 100644
--- a/dnsclient.go
+++ b/dnsclient.go
@@ -117,6 +117,12 @@ func (d GenericDNSClient) Dial(address string) (*dns.Conn, error) {
 	useTLS := strings.HasPrefix(network, "tcp") && strings.HasSuffix(network, "-tls")
 	network = strings.TrimSuffix(network, "-tls")
 
+	// The name in the server's certificate, before the address is resolved to an IP
+	hostname, _, err := net.SplitHostPort(address)
+	if err != nil {
+		return nil, err
+	}
+
 	dialer := d.Dialer
 	var localAddr net.IP
 	if dialer == nil {
@@ -136,12 +142,9 @@ func (d GenericDNSClient) Dial(address string) (*dns.Conn, error) {
 		dialer = nd
 	}
 
-	var (
-		conn = &dns.Conn{
-			UDPSize: 4096,
-		}
-		err error
-	)
+	conn := &dns.Conn{
+		UDPSize: 4096,
+	}
 	// Open a raw connection, optionally in a network namespace
 	if d.NetNS.isSet() {
 		switch {
@@ -184,10 +187,6 @@ func (d GenericDNSClient) Dial(address string) (*dns.Conn, error) {
 	}
 
 	if useTLS {
-		hostname, _, err := net.SplitHostPort(address)
-		if err != nil {
-			return nil, err
-		}
 		tlsConfig := d.TLSConfig
 		if tlsConfig == nil {
 			tlsConfig = &tls.Config{}
-- 
2.43.0


From f3616d5a5341ae1a89357b6a93807a3711df7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:24 +0000
Subject: [PATCH 11/40] fix: verify the server name of DTLS upstreams without
 bootstrap address

The DTLS library does not compare the server certificate with any name when the
configuration has none. The name was only set for upstreams with a bootstrap
address, so any certificate of a trusted CA was accepted otherwise.
---
 dtlsclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtlsclient.go b/dtlsclient.go
index 1cdee6c..d7d8001 100644
--- a/dtlsclient.go
+++ b/dtlsclient.go
@@ -63,6 +63,9 @@ func NewDTLSClient(id, endpoint string, opt DTLSClientOptions) (*DTLSClient, err
 	// If a bootstrap address was provided, we need to use the IP for the connection but the
 	// hostname in the TLS handshake.
 	var ip net.IP
+	if opt.DTLSConfig.ServerName == "" {
+		opt.DTLSConfig.ServerName = host
+	}
 	if opt.BootstrapAddr != "" {
 		opt.DTLSConfig.ServerName = host
 		ip = net.ParseIP(opt.BootstrapAddr)
-- 
2.43.0


From 3b83f0b5111fa6f9d95b433c579391092ee7f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:24 +0000
Subject: [PATCH 12/40] fix: release and validate ODoH target configurations

The response with the target's configuration was never closed, which leaks a
connection on every refresh. A configuration list without entries was used
without checking its length, which panics.
---
 odohclient.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index 8c43b45..64cc027 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -181,6 +181,9 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal odohConfig: %w", err)
 		}
+		if len(odohConfigs.Configs) < 1 {
+			return nil, errors.New("no config in odohConfig")
+		}
 		d.odohConfig = &odohConfigs.Configs[0]
 	} else if d.odohConfig == nil || time.Now().After(d.odohConfigExpiry) {
 		d.odohConfig, d.odohConfigExpiry, err = d.refreshTargetKey()
@@ -199,6 +202,7 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	if err != nil {
 		return nil, time.Time{}, err
 	}
+	defer resp.Body.Close()
 	bodyBytes, err := readBoundedBody(resp.Body, maxDoHResponseSize)
 	if err != nil {
 		return nil, time.Time{}, err
@@ -206,10 +210,13 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(bodyBytes)
 	expiry := time.Now().Add(24 * time.Hour)
 
-	if err != nil || len(odohConfigs.Marshal()) < 1 {
+	if err != nil {
 		Log.Warn("Could not load the targets ODoH config")
 		return nil, time.Time{}, err
 	}
+	if len(odohConfigs.Configs) < 1 {
+		return nil, time.Time{}, errors.New("no config in ODoH config response")
+	}
 	Log.Info("Successfully loaded ODoH config", "config", fmt.Sprintf("%x", odohConfigs.Marshal()))
 	return &odohConfigs.Configs[0], expiry, err
 }
-- 
2.43.0


From afe9ff890c5a03fe8f46f45fd02a1848361cb2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:24 +0000
Subject: [PATCH 13/40] fix: encode a copy of the query in the ODoH client

Packing a message can modify it. The query belongs to the caller and may be
shared with other elements, so a copy is encoded like in the other clients.
---
 odohclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index 64cc027..4184abc 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -157,7 +157,8 @@ func (d *ODoHClient) buildTargetQuery(q *dns.Msg) (odoh.ObliviousDNSMessage, odo
 		return odoh.ObliviousDNSMessage{}, odoh.QueryContext{}, err
 	}
 	key := config.Contents
-	msg, err := q.Pack()
+	// Packing a message is not always a read-only operation, use a copy
+	msg, err := q.Copy().Pack()
 	if err != nil {
 		return odoh.ObliviousDNSMessage{}, odoh.QueryContext{}, err
 	}
-- 
2.43.0


From 908e70780dd6a0bef3b2f77352cb36ed8c9af1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:24 +0000
Subject: [PATCH 14/40] fix: return HTTPS upstream responses with the ID of the
 query

The transaction ID of a DoH or ODoH response was passed on as received. HTTP
caches and some servers answer with a different one, typically 0, and clients
discard such a response.
---
 dohclient.go  | 1 +
 odohclient.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dohclient.go b/dohclient.go
index 53a4297..45e5ea8 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -313,6 +313,7 @@ func (d *DoHClient) responseFromHTTP(q *dns.Msg, resp *http.Response) (*dns.Msg,
 		d.metrics.err.Add("question", 1)
 		return nil, err
 	}
+	a.Id = q.Id
 	d.metrics.response.Add(rCode(a), 1)
 	return a, nil
 }
diff --git a/odohclient.go b/odohclient.go
index 4184abc..9572d25 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -136,6 +136,7 @@ func (d *ODoHClient) decodeProxyResponse(q *dns.Msg, resp *http.Response, queryC
 		d.proxy.metrics.err.Add("question", 1)
 		return nil, err
 	}
+	a.Id = q.Id
 	d.proxy.metrics.response.Add(rCode(a), 1)
 	return a, nil
 }
-- 
2.43.0


From 73efe7d8bec0a4fe1ba028fd53f37557c13335a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:12 +0000
Subject: [PATCH 15/40] fix: close rejected DoQ connections

Connections from clients outside the allowed networks were left open until they
timed out. Nothing served them, but they kept using memory.
---
 doqlistener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/doqlistener.go b/doqlistener.go
index c3c4dee..aeffead 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -163,6 +163,7 @@ func (s *DoQListener) handleConnection(connection *quic.Conn) {
 	if !isAllowed(s.opt.AllowedNet, ci.SourceIP) {
 		log.Debug("rejecting incoming connection")
 		s.metrics.drop.Add(1)
+		_ = connection.CloseWithError(DOQNoError, "")
 		return
 	}
 	log.Debug("accepting incoming connection")
-- 
2.43.0


From b201161f3cce4259af54f042c893dd97faab67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:12 +0000
Subject: [PATCH 16/40] fix: release streams and sockets of the DoQ client on
 failure

Streams were left open when a query timed out or failed, until the connection
ran out of streams. The IPv4 socket was left open when the one for IPv6 could
not be created.
---
 doqclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doqclient.go b/doqclient.go
index 458b64c..14ff8d4 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -120,6 +120,7 @@ func NewDoQClient(id, endpoint string, opt DoQClientOptions) (*DoQClient, error)
 		}
 		qConn6, err := newQuicConnection(opt.LocalAddrV6, tlsConfig, config, opt.Use0RTT, opt.NetNS, opt.SocketOptions)
 		if err != nil {
+			qConn4.udpConn.Close()
 			return nil, err
 		}
 		client.connectionV4 = qConn4
@@ -205,9 +206,13 @@ func (d *DoQClient) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return nil, err
 	}
 
+	// Release the stream if it fails before the response was read in full
+	defer stream.CancelRead(DOQNoError)
+
 	// Write the query into the stream and close it. Only one stream per query/response
 	_ = stream.SetWriteDeadline(deadlineTime)
 	if _, err = stream.Write(b); err != nil {
+		stream.CancelWrite(DOQNoError)
 		d.metrics.err.Add("write", 1)
 		return nil, err
 	}
-- 
2.43.0


From 33577a0a822402a9295f7255f52a90d76b4f83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:12 +0000
Subject: [PATCH 17/40] fix: close IP databases when loading a blocklist fails

Location and ASN databases stayed open, and mapped into memory, when the rules
that go with them failed to load. A list that can not be refreshed leaked one
more copy on each attempt.
---
 asn-db.go      | 2 ++
 geoip-db.go    | 2 ++
 ip-db-multi.go | 1 +
 3 files changed, 5 insertions(+)

diff --git a/asn-db.go b/asn-db.go
index 424d954..a356211 100644
--- a/asn-db.go
+++ b/asn-db.go
@@ -34,6 +34,7 @@ func NewASNDB(name string, loader BlocklistLoader, geoDBFile string) (*ASNDB, er
 
 	rules, err := loader.Load()
 	if err != nil {
+		geoDB.Close()
 		return nil, err
 	}
 
@@ -47,6 +48,7 @@ func NewASNDB(name string, loader BlocklistLoader, geoDBFile string) (*ASNDB, er
 		r = strings.TrimSpace(r)
 		value, err := strconv.ParseUint(r, 10, 64) // GeoNames ID
 		if err != nil {
+			geoDB.Close()
 			return nil, fmt.Errorf("unable to parse asn id in rule '%s': %w", r, err)
 		}
 		db[value] = struct{}{}
diff --git a/geoip-db.go b/geoip-db.go
index 298b260..529bcde 100644
--- a/geoip-db.go
+++ b/geoip-db.go
@@ -34,6 +34,7 @@ func NewGeoIPDB(name string, loader BlocklistLoader, geoDBFile string) (*GeoIPDB
 
 	rules, err := loader.Load()
 	if err != nil {
+		geoDB.Close()
 		return nil, err
 	}
 
@@ -47,6 +48,7 @@ func NewGeoIPDB(name string, loader BlocklistLoader, geoDBFile string) (*GeoIPDB
 		r = strings.TrimSpace(r)
 		value, err := strconv.ParseUint(r, 10, 64) // GeoNames ID
 		if err != nil {
+			geoDB.Close()
 			return nil, fmt.Errorf("unable to parse geoname id in rule '%s': %w", r, err)
 		}
 		db[value] = struct{}{}
diff --git a/ip-db-multi.go b/ip-db-multi.go
index 35284ff..02adb47 100644
--- a/ip-db-multi.go
+++ b/ip-db-multi.go
@@ -21,6 +21,7 @@ func (m MultiIPDB) Reload() (IPBlocklistDB, error) {
 	for _, db := range m.dbs {
 		n, err := db.Reload()
 		if err != nil {
+			MultiIPDB{newDBs}.Close()
 			return MultiIPDB{}, err
 		}
 		newDBs = append(newDBs, n)
-- 
2.43.0


From c25a05691c0d199df21f4e6cb18d251e2d21053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:12 +0000
Subject: [PATCH 18/40] fix: leave nothing on the Lua stack after a failed call

A script returning a value of an unsupported type left its other return values
on the stack of the shared interpreter, which grew with each query.
---
 lua-script.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lua-script.go b/lua-script.go
index eb9c10e..e9c9792 100644
--- a/lua-script.go
+++ b/lua-script.go
@@ -75,6 +75,8 @@ func (s *LuaScript) HasFunction(name string) bool {
 }
 
 func (s *LuaScript) Call(fnName string, nret int, params ...any) ([]any, error) {
+	defer s.L.SetTop(s.L.GetTop())
+
 	args := []lua.LValue{
 		userDataWithMetatable(s.L, luaMessageMetatableName, params[0]),
 		userDataWithMetatable(s.L, luaClientInfoMetatableName, params[1]),
-- 
2.43.0


From a5aa0e89c104313da9f570ff4fe0671e32bcfcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:12 +0000
Subject: [PATCH 19/40] fix: honour the IP version of DoT listeners with socket
 options

With a network namespace or socket options, DoT listeners accepted connections
on both IP versions regardless of the configured one.
---
 dotlistener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dotlistener.go b/dotlistener.go
index 22dcb3f..5ff36d5 100644
--- a/dotlistener.go
+++ b/dotlistener.go
@@ -3,6 +3,7 @@ package rdns
 import (
 	"context"
 	"crypto/tls"
+	"strings"
 
 	"github.com/miekg/dns"
 )
@@ -52,7 +53,7 @@ func (s DoTListener) Start() error {
 		"protocol", "dot",
 		"addr", s.Addr)
 	if s.opt.NetNS.isSet() || s.opt.SocketOptions.active() {
-		ln, err := ListenInNetNS(context.Background(), s.opt.NetNS, "tcp", s.Addr, s.opt.SocketOptions)
+		ln, err := ListenInNetNS(context.Background(), s.opt.NetNS, strings.TrimSuffix(s.Net, "-tls"), s.Addr, s.opt.SocketOptions)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f5578554f5605c617b4a22d2ef2d09f20373e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:10 +0000
Subject: [PATCH 20/40] fix: serve the ODoH configuration only to allowed
 networks

The configuration path was the only one of the listener left that did not
consult the allowed-net option.
---
 odohlistener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/odohlistener.go b/odohlistener.go
index 03675d6..a98bde7 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -279,6 +279,10 @@ func (s *ODoHListener) String() string {
 }
 
 func (s *ODoHListener) configHandler(w http.ResponseWriter, r *http.Request) {
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	w.Write(s.config)
 }
 
-- 
2.43.0


From 22f4c71c6f999d8d48ba405d084d2431fbe114fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:10 +0000
Subject: [PATCH 21/40] fix: reject unknown ODoH modes

A mistyped odoh-mode was accepted and produced a listener that serves nothing.
---
 odohlistener.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/odohlistener.go b/odohlistener.go
index a98bde7..a60bf29 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -85,6 +85,8 @@ func NewODoHListener(id, addr string, opt ODoHListenerOptions, resolver Resolver
 	case "target", "":
 		mux.HandleFunc(ODOH_QUERY_PATH, l.ODoHqueryHandler)
 		mux.HandleFunc(ODOH_CONFIG_PATH, l.configHandler)
+	default:
+		return nil, fmt.Errorf("unsupported odoh mode '%s'", opt.OdohMode)
 	}
 
 	dohOpt := DoHListenerOptions{
-- 
2.43.0


From 798352f5bc995191505f52ac40d8115e92b83286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:19 +0000
Subject: [PATCH 22/40] fix: reject oversized ODoH requests instead of cutting
 them

Requests over the size limit were silently shortened and then processed or
forwarded. They are now refused.
---
 odohlistener.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/odohlistener.go b/odohlistener.go
index a60bf29..0285c4c 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -143,7 +143,7 @@ func (s *ODoHListener) ODoHproxyHandler(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
-	b, err := io.ReadAll(io.LimitReader(r.Body, 4096))
+	b, err := io.ReadAll(http.MaxBytesReader(w, r.Body, 4096))
 	if err != nil {
 		http.Error(w, "failed to read request body", http.StatusBadRequest)
 		return
@@ -213,7 +213,7 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		http.Error(w, "only contentType oblivious-dns-message allowed", http.StatusMethodNotAllowed)
 		return
 	}
-	b, err := io.ReadAll(io.LimitReader(r.Body, 4096))
+	b, err := io.ReadAll(http.MaxBytesReader(w, r.Body, 4096))
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
 		return
-- 
2.43.0


From a19a41862dca6d88da0ad8ce5aefa840a671d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:51 +0000
Subject: [PATCH 23/40] fix: limit the size of downloaded trust anchors

---
 dnssec-iana.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dnssec-iana.go b/dnssec-iana.go
index e0bff67..70e003a 100644
--- a/dnssec-iana.go
+++ b/dnssec-iana.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/xml"
 	"fmt"
-	"io"
 	"net/http"
 	"time"
 )
@@ -27,6 +26,9 @@ type ianaKeyDigest struct {
 	Digest     string `xml:"Digest"`
 }
 
+// maxTrustAnchorSize is the largest trust anchor file that is downloaded.
+const maxTrustAnchorSize = 1 << 20
+
 // FetchTrustAnchorsFromURL fetches and parses IANA-format trust anchor XML
 // from the given URL. Entries past their validUntil date are filtered out.
 func FetchTrustAnchorsFromURL(url string) ([]TrustAnchor, error) {
@@ -48,7 +50,7 @@ func FetchTrustAnchorsFromURL(url string) ([]TrustAnchor, error) {
 		return nil, fmt.Errorf("got unexpected status code %d from %s", resp.StatusCode, url)
 	}
 
-	body, err := io.ReadAll(resp.Body)
+	body, err := readBoundedBody(resp.Body, maxTrustAnchorSize)
 	if err != nil {
 		return nil, fmt.Errorf("reading response body: %w", err)
 	}
-- 
2.43.0


From cc0930ed0d8589fc8f348d2c14deb32b83bd476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:51 +0000
Subject: [PATCH 24/40] fix: close the IPv4 socket of a DoH client when opening
 the IPv6 socket fails

---
 dohclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dohclient.go b/dohclient.go
index 45e5ea8..eddda6e 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -473,6 +473,7 @@ func dohDualStackQuicTransport(opt DoHClientOptions, tlsConfig *tls.Config, quic
 
 	udpConn6, err := ListenUDPInNetNS(context.Background(), opt.NetNS, "udp6", &net.UDPAddr{IP: opt.LocalAddrV6, Port: 0}, opt.SocketOptions)
 	if err != nil {
+		udpConn4.Close()
 		return nil, err
 	}
 	qt6 := &quic.Transport{Conn: udpConn6}
-- 
2.43.0


From 06b069f847f54e8b9476118b552c4499a74775a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:53 +0000
Subject: [PATCH 25/40] fix: don't panic on a padding option of another type

An edns0-modifier can add option 12 (padding) as a generic option. The padding
code assumed the concrete type of that option and panicked when it padded such
a query or answer. It now tests the type.
---
 padding.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/padding.go b/padding.go
index f6b6841..b0e9ef7 100644
--- a/padding.go
+++ b/padding.go
@@ -30,8 +30,8 @@ func padAnswer(q, a *dns.Msg) {
 	// If the answer has padding, grab that and truncate it before re-calculating the length
 	var paddingOpt *dns.EDNS0_PADDING
 	for _, opt := range edns0a.Option {
-		if opt.Option() == dns.EDNS0PADDING {
-			paddingOpt = opt.(*dns.EDNS0_PADDING)
+		if p, ok := opt.(*dns.EDNS0_PADDING); ok {
+			paddingOpt = p
 			paddingOpt.Padding = nil
 		}
 	}
@@ -67,8 +67,8 @@ func padQuery(q *dns.Msg) {
 	// If the query has padding, grab that and truncate it before re-calculating the length
 	var paddingOpt *dns.EDNS0_PADDING
 	for _, opt := range edns0q.Option {
-		if opt.Option() == dns.EDNS0PADDING {
-			paddingOpt = opt.(*dns.EDNS0_PADDING)
+		if p, ok := opt.(*dns.EDNS0_PADDING); ok {
+			paddingOpt = p
 			paddingOpt.Padding = nil
 		}
 	}
-- 
2.43.0


From 1ef463169ddeb0aa142bf9b3158f4b1ddc8ddd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:53 +0000
Subject: [PATCH 26/40] fix: reject queries without question from Lua scripts

A script can pass a message without question to a resolver. Resolvers read the
question of every query, which panics. Some of them do so in a goroutine, which
stops the process. The script now gets an error.
---
 lua-resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lua-resolver.go b/lua-resolver.go
index af179a6..0d1aa36 100644
--- a/lua-resolver.go
+++ b/lua-resolver.go
@@ -40,6 +40,10 @@ func resolverResolve(L *lua.LState) int {
 	if !ok {
 		return 0
 	}
+	if len(msg.Question) == 0 {
+		L.ArgError(2, "no question in query")
+		return 0
+	}
 	ci, ok := getUserDataArg[ClientInfo](L, 3)
 	if !ok {
 		return 0
-- 
2.43.0


From f59e81914ab37c493d8173e1783827e3594b2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:01 +0000
Subject: [PATCH 27/40] fix: don't merge queries with and without client subnet

Concurrent queries were merged when one had no client subnet option and the
other one had an all-zero subnet, for example to opt out of sending its subnet.
Such queries can get different answers, they are now kept apart.
---
 request-dedup.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/request-dedup.go b/request-dedup.go
index ce551b4..93e6867 100644
--- a/request-dedup.go
+++ b/request-dedup.go
@@ -18,6 +18,8 @@ type dedupKey struct {
 	ecs_ipv6_hi uint64
 	ecs_ipv6_lo uint64
 	ecs_mask    uint8
+	ecs_family  uint16
+	ecs         bool
 }
 
 type inflightRequest struct {
@@ -53,6 +55,8 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		ecsIPv4              uint32
 		ecsIPv6Lo, ecsIPv6Hi uint64
 		ecsMask              uint8
+		ecsFamily            uint16
+		hasECS               bool
 		do                   bool
 	)
 
@@ -65,6 +69,8 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			if !ok {
 				continue
 			}
+			hasECS = true
+			ecsFamily = ecs.Family
 			switch ecs.Family {
 			case 1: // ip4
 				ecsIPv4 = byteToUint32(ecs.Address.To4())
@@ -86,6 +92,8 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		ecs_ipv6_hi: ecsIPv6Hi,
 		ecs_ipv6_lo: ecsIPv6Lo,
 		ecs_mask:    ecsMask,
+		ecs_family:  ecsFamily,
+		ecs:         hasECS,
 	}
 
 	r.mu.Lock()
-- 
2.43.0


From 2b5ae86cf9ce0d26de0a5316f3ed662f2285d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:38 +0000
Subject: [PATCH 28/40] fix: don't merge queries with several questions

Concurrent queries were merged when their first questions were the same, even
if they had different further questions. Such queries are now forwarded as
they are, like the cache does.
---
 request-dedup.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/request-dedup.go b/request-dedup.go
index 93e6867..4f83b72 100644
--- a/request-dedup.go
+++ b/request-dedup.go
@@ -51,6 +51,11 @@ func NewRequestDedup(id string, resolver Resolver) *requestDedup {
 }
 
 func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	// Queries with multiple questions can't be told apart by their first one
+	if len(q.Question) > 1 {
+		return r.resolver.Resolve(q, ci)
+	}
+
 	var (
 		ecsIPv4              uint32
 		ecsIPv6Lo, ecsIPv6Hi uint64
-- 
2.43.0


From 1e8d838f1c7f5ada463432e206e8039fa5fbf425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:26 +0000
Subject: [PATCH 29/40] fix: read the clock under the rate limiter's lock

A query that was delayed between reading the clock and taking the lock
switched the limiter back to the previous window. The counters of the
current window were lost and clients got more queries than configured.
---
 rate-limiter.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rate-limiter.go b/rate-limiter.go
index 98b56f4..c39aeeb 100644
--- a/rate-limiter.go
+++ b/rate-limiter.go
@@ -78,12 +78,14 @@ func (r *RateLimiter) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	}
 	key := source.String()
 
-	// Calculate the current (fixed) window
-	windowID := time.Now().Unix() / int64(r.Window)
-
 	var reject bool
 	r.mu.Lock()
 
+	// Calculate the current (fixed) window. Needs to happen while holding the
+	// lock or a query that was delayed before locking would go back to the
+	// previous window and the counters of the current one would be lost.
+	windowID := time.Now().Unix() / int64(r.Window)
+
 	// If we have moved on to the next window, re-initialize the counters
 	if windowID != r.currWinID {
 		r.currWinID = windowID
-- 
2.43.0


From 2304904dec0d94fbe8a31f1f556935a078d98c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:56 +0000
Subject: [PATCH 30/40] fix: restore replaced names in responses regardless of
 letter case

A response with the new name in a different case, for example one from a
cache that was filled by another query, kept the internal name.
---
 replace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replace.go b/replace.go
index 9a42dc3..e6da0d6 100644
--- a/replace.go
+++ b/replace.go
@@ -2,6 +2,7 @@ package rdns
 
 import (
 	"regexp"
+	"strings"
 
 	"github.com/miekg/dns"
 )
@@ -87,7 +88,7 @@ func (r *Replace) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	// Now put the original name in all answer records that have the
 	// new name
 	for _, answer := range a.Answer {
-		if answer.Header().Name == newName {
+		if strings.EqualFold(answer.Header().Name, newName) {
 			answer.Header().Name = oldName
 		}
 	}
-- 
2.43.0


From d6b7fe1ba0ee21889a19a057005b67b80f92ff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:14 +0000
Subject: [PATCH 31/40] fix: give synthesised AAAA records the name of the A
 record

When the name asked for is an alias, the addresses belong to the name at the
end of the alias chain. The records were given the name of the query, next to
the alias for that same name, so clients that follow the chain ignored them.
---
 dns64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns64.go b/dns64.go
index 7317eb2..0228223 100644
--- a/dns64.go
+++ b/dns64.go
@@ -168,7 +168,7 @@ func (r *DNS64) synthesizeAAAA(aAnswer *dns.Msg, question dns.Question) []dns.RR
 				ipv6 := synthesizeIPv6(prefix, ipv4)
 				aaaa = append(aaaa, &dns.AAAA{
 					Hdr: dns.RR_Header{
-						Name:   question.Name,
+						Name:   rec.Hdr.Name,
 						Rrtype: dns.TypeAAAA,
 						Class:  question.Qclass,
 						Ttl:    rec.Hdr.Ttl,
-- 
2.43.0


From 53a6ac8bdf24bc163d3b1db33b55cbdd673d6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:28 +0000
Subject: [PATCH 32/40] fix: clear the authenticated flag of answers that were
 not validated

The AD flag of an upstream answer was passed on for answers from unsigned
zones, for error replies and for failed validations in log-only mode. A client
that trusts the validator took such answers to be authentic.
---
 dnssec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dnssec.go b/dnssec.go
index 091e3b9..dc0d509 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -124,6 +124,9 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, err
 	}
 
+	// Only a successful validation below makes the answer authentic
+	answer.AuthenticatedData = false
+
 	// Only validate successful responses
 	if answer.Rcode != dns.RcodeSuccess && answer.Rcode != dns.RcodeNameError {
 		stripDNSSEC(answer, clientSetDo, clientHadEdns0, qtype)
-- 
2.43.0


From d68b39f237a07b70c207eaf0f5db249d2375739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:28 +0000
Subject: [PATCH 33/40] fix: validate all record sets of an answer with
 unsigned records

Validation stopped at the first record set of an unsigned zone and let the
whole answer pass. A record set of a signed zone in the same answer could
remain unchecked, depending on the order in which the sets were visited.
---
 dnssec/validator.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index b5902c1..7fd6cef 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -95,21 +95,29 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 		return v.validateDenial(answer)
 	}
 
+	// Data of an unsigned zone may be passed through, but only if all the other
+	// record sets are either unsigned as well or verified.
+	var insecure error
 	for key, rrset := range rrsets {
 		rrsigs := sigs[key]
 		if len(rrsigs) == 0 {
 			// Check if this is an insecure delegation by looking for DS in parent
 			zone := rrset[0].Header().Name
-			if err := v.checkInsecureDelegation(zone); err != nil {
+			if err := v.checkInsecureDelegation(zone); errors.Is(err, ErrInsecureDelegation) {
+				insecure = err
+				continue
+			} else if err != nil {
 				return err
 			}
 			return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
 		}
-		if err := v.validateRRset(rrset, rrsigs); err != nil {
+		if err := v.validateRRset(rrset, rrsigs); errors.Is(err, ErrInsecureDelegation) {
+			insecure = err
+		} else if err != nil {
 			return err
 		}
 	}
-	return nil
+	return insecure
 }
 
 // checkInsecureDelegation walks the delegation chain from the root toward
-- 
2.43.0


From e8d63734b51fc32a174ba637d2905c94ab154362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:45:45 +0000
Subject: [PATCH 34/40] fix: reject groups that are configured without any
 upstream

---
 cmd/routedns/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 1d8d8ad..bd99585 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -483,6 +483,12 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 		gr = append(gr, resolver)
 	}
 	switch g.Type {
+	case "round-robin", "fail-rotate", "fail-back", "fastest", "load-balance", "random":
+		if len(gr) == 0 {
+			return fmt.Errorf("type %s requires at least one resolver in '%s'", g.Type, id)
+		}
+	}
+	switch g.Type {
 	case "round-robin":
 		resolvers[id] = rdns.NewRoundRobin(id, gr...)
 	case "fail-rotate":
-- 
2.43.0


From 0df252124d89c971626407970738300820fd07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:02:57 +0000
Subject: [PATCH 35/40] fix: verify upstreams against the configured TLS server
 name

---
 dohclient.go  | 4 +++-
 doqclient.go  | 4 +++-
 dotclient.go  | 4 +++-
 dtlsclient.go | 1 -
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/dohclient.go b/dohclient.go
index eddda6e..b6171c5 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -399,7 +399,9 @@ func dohQuicTransport(endpoint string, opt DoHClientOptions) (http.RoundTripper,
 
 	// enable TLS session caching for session resumption and 0-RTT
 	tlsConfig.ClientSessionCache = tls.NewLRUClientSessionCache(100)
-	tlsConfig.ServerName = u.Hostname()
+	if tlsConfig.ServerName == "" {
+		tlsConfig.ServerName = u.Hostname()
+	}
 
 	quicConfig := &quic.Config{
 		TokenStore: quic.NewLRUTokenStore(10, 10),
diff --git a/doqclient.go b/doqclient.go
index 14ff8d4..0fc20d9 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -83,7 +83,9 @@ func NewDoQClient(id, endpoint string, opt DoQClientOptions) (*DoQClient, error)
 	}
 
 	// quic-go requires the ServerName be set explicitly
-	tlsConfig.ServerName = host
+	if tlsConfig.ServerName == "" {
+		tlsConfig.ServerName = host
+	}
 
 	// enable TLS session caching for session resumption and 0-RTT
 	if opt.Use0RTT {
diff --git a/dotclient.go b/dotclient.go
index 1892a4c..068baab 100644
--- a/dotclient.go
+++ b/dotclient.go
@@ -69,7 +69,9 @@ func NewDoTClient(id, endpoint string, opt DoTClientOptions) (*DoTClient, error)
 		if err != nil {
 			return nil, errors.Wrapf(err, "failed to parse dot endpoint '%s'", endpoint)
 		}
-		client.TLSConfig.ServerName = host
+		if client.TLSConfig.ServerName == "" {
+			client.TLSConfig.ServerName = host
+		}
 		endpoint = net.JoinHostPort(opt.BootstrapAddr, port)
 	}
 	return &DoTClient{
diff --git a/dtlsclient.go b/dtlsclient.go
index d7d8001..abeb89f 100644
--- a/dtlsclient.go
+++ b/dtlsclient.go
@@ -67,7 +67,6 @@ func NewDTLSClient(id, endpoint string, opt DTLSClientOptions) (*DTLSClient, err
 		opt.DTLSConfig.ServerName = host
 	}
 	if opt.BootstrapAddr != "" {
-		opt.DTLSConfig.ServerName = host
 		ip = net.ParseIP(opt.BootstrapAddr)
 		if ip == nil {
 			return nil, fmt.Errorf("failed to parse bootstrap address '%s'", opt.BootstrapAddr)
-- 
2.43.0


From c3d2bb4639f6994552cd78275e018afa8901624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:25:18 +0000
Subject: [PATCH 36/40] fix: return threads to their own network namespace

The namespace to return to was looked up with /proc/self, which is about
the main thread. While that was in another namespace itself, other threads
ended up there after leaving theirs.
---
 netns_linux.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netns_linux.go b/netns_linux.go
index 62e7567..8d37b80 100644
--- a/netns_linux.go
+++ b/netns_linux.go
@@ -56,7 +56,8 @@ func RunInNetNS(ns *NetNS, fn func() error) error {
 	defer runtime.UnlockOSThread()
 
 	// Save the current network namespace.
-	origNS, err := os.Open("/proc/self/ns/net")
+	// /proc/self is about the main thread, which can be in another namespace.
+	origNS, err := os.Open("/proc/thread-self/ns/net")
 	if err != nil {
 		return fmt.Errorf("failed to open current netns: %w", err)
 	}
-- 
2.43.0


From 5feacd1f64fa44c8ae65ae69da529f4db7a2e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:25:18 +0000
Subject: [PATCH 37/40] fix: do not reuse a thread that is stuck in a network
 namespace

When switching back to the original namespace failed, the thread was still
unlocked and other goroutines were run in the wrong namespace.
---
 netns_linux.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/netns_linux.go b/netns_linux.go
index 8d37b80..568bf5b 100644
--- a/netns_linux.go
+++ b/netns_linux.go
@@ -53,7 +53,14 @@ func RunInNetNS(ns *NetNS, fn func() error) error {
 	}
 
 	runtime.LockOSThread()
-	defer runtime.UnlockOSThread()
+	// A thread that could not leave the namespace stays locked, so that it is
+	// not reused for anything else and ends with this goroutine.
+	restored := true
+	defer func() {
+		if restored {
+			runtime.UnlockOSThread()
+		}
+	}()
 
 	// Save the current network namespace.
 	// /proc/self is about the main thread, which can be in another namespace.
@@ -76,7 +83,10 @@ func RunInNetNS(ns *NetNS, fn func() error) error {
 	}
 
 	// Always restore the original namespace before returning.
-	defer unix.Setns(int(origNS.Fd()), unix.CLONE_NEWNET) //nolint:errcheck
+	restored = false
+	defer func() {
+		restored = unix.Setns(int(origNS.Fd()), unix.CLONE_NEWNET) == nil
+	}()
 
 	return fn()
 }
-- 
2.43.0


From f0e3b8f5e667244539f75279cdbb2d8c2c4c9f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:25:18 +0000
Subject: [PATCH 38/40] fix: close descriptors that come with a malformed
 xsocket response

A response that was too short or had the wrong signature was rejected
before the descriptors it carried were looked at, so they stayed open.
---
 xsocket_linux.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/xsocket_linux.go b/xsocket_linux.go
index 747eaef..2f1f934 100644
--- a/xsocket_linux.go
+++ b/xsocket_linux.go
@@ -58,15 +58,9 @@ func xsocketGetFd(path string, domain, typ, proto int) (int, error) {
 	if err != nil {
 		return -1, os.NewSyscallError("recvmsg", err)
 	}
-	if n < len(resp) {
-		return -1, fmt.Errorf("xsocket: short response (%d bytes)", n)
-	}
-	if sig := binary.BigEndian.Uint32(resp[0:]); sig != xsProtocolResponse {
-		return -1, fmt.Errorf("xsocket: invalid response signature %#x", sig)
-	}
 
 	// Always parse any descriptors that came back so we never leak one, even
-	// when the server also reported an error.
+	// when the response is malformed or the server also reported an error.
 	var fds []int
 	if scms, perr := unix.ParseSocketControlMessage(oob[:oobn]); perr == nil {
 		for i := range scms {
@@ -75,10 +69,21 @@ func xsocketGetFd(path string, domain, typ, proto int) (int, error) {
 			}
 		}
 	}
-	if errno := binary.BigEndian.Uint32(resp[4:]); errno != 0 {
+	closeAll := func() {
 		for _, fd := range fds {
 			unix.Close(fd)
 		}
+	}
+	if n < len(resp) {
+		closeAll()
+		return -1, fmt.Errorf("xsocket: short response (%d bytes)", n)
+	}
+	if sig := binary.BigEndian.Uint32(resp[0:]); sig != xsProtocolResponse {
+		closeAll()
+		return -1, fmt.Errorf("xsocket: invalid response signature %#x", sig)
+	}
+	if errno := binary.BigEndian.Uint32(resp[4:]); errno != 0 {
+		closeAll()
 		return -1, fmt.Errorf("xsocket-server returned error: %w", unix.Errno(errno))
 	}
 	if len(fds) == 0 {
-- 
2.43.0


From b89a43e9ddc4fcfe51305491a759960f4e8cf8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:25:18 +0000
Subject: [PATCH 39/40] fix: close the query log when its format is invalid

---
 query-log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/query-log.go b/query-log.go
index b147c64..4e01afe 100644
--- a/query-log.go
+++ b/query-log.go
@@ -51,6 +51,9 @@ func NewQueryLogResolver(id string, resolver Resolver, opt QueryLogResolverOptio
 	case LogFormatJSON:
 		logger = slog.New(slog.NewJSONHandler(w, handlerOpts))
 	default:
+		if w != os.Stdout {
+			w.Close()
+		}
 		return nil, fmt.Errorf("invalid output format %q", opt.OutputFormat)
 	}
 	return &QueryLogResolver{
-- 
2.43.0


From b58a65b52b70c3ba457a3b5422e96b54ea8e1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:26:07 +0000
Subject: [PATCH 40/40] fix: do not crash when looking up a script function
 fails

A script can install a metatable on its globals. Looking up the entry
point then runs script code outside of the protected call, and an error in
it ended the program.
---
 lua-script.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lua-script.go b/lua-script.go
index e9c9792..f9d6da4 100644
--- a/lua-script.go
+++ b/lua-script.go
@@ -82,9 +82,10 @@ func (s *LuaScript) Call(fnName string, nret int, params ...any) ([]any, error)
 		userDataWithMetatable(s.L, luaClientInfoMetatableName, params[1]),
 	}
 
-	// Call the resolve() function in the lua script
+	// Call the resolve() function in the lua script. Look it up without
+	// metamethods, an error in one of those would not be caught here.
 	if err := s.L.CallByParam(lua.P{
-		Fn:      s.L.GetGlobal(fnName),
+		Fn:      s.L.G.Global.RawGetString(fnName),
 		NRet:    nret,
 		Protect: true,
 	}, args...); err != nil {
-- 
2.43.0

